#ifndef VERIF_SHIM_ABSL_BTREE_MAP_H_
#define VERIF_SHIM_ABSL_BTREE_MAP_H_
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <functional>
namespace absl {
namespace container_internal {
template <typename K> struct DefLess : std::less<K> {};
template <> struct DefLess<std::string> : std::less<> {};
template <> struct DefLess<std::string_view> : std::less<> {};
template <typename C> struct AdaptLess : C { using C::C; AdaptLess() = default; AdaptLess(const C& c) : C(c) {} };
template <> struct AdaptLess<std::less<std::string>> : std::less<> {};
template <> struct AdaptLess<std::less<std::string_view>> : std::less<> {};
}  // namespace container_internal
template <typename K, typename V, typename C = container_internal::DefLess<K>, typename A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, C, A> {
 public:
  using Base = std::map<K, V, C, A>;
  using Base::Base;
  using Base::erase;
  using Base::operator[];
  template <typename Q> requires requires { typename C::is_transparent; } size_t erase(const Q& q) { auto it = this->find(q); if (it == this->end()) return 0; Base::erase(it); return 1; }
  V& operator[](std::string_view q) requires std::is_same_v<K, std::string> { return Base::operator[](std::string(q)); }
  V& operator[](const char* q) requires std::is_same_v<K, std::string> { return Base::operator[](std::string(q)); }
  template <typename... X> std::pair<typename Base::iterator, bool> try_emplace(std::string_view q, X&&... x) requires std::is_same_v<K, std::string> { return Base::try_emplace(std::string(q), std::forward<X>(x)...); }
  using Base::try_emplace;
  using Base::at;
  template <typename Q> requires requires { typename C::is_transparent; } V& at(const Q& q) { return this->find(q)->second; }
  template <typename Q> requires requires { typename C::is_transparent; } const V& at(const Q& q) const { return this->find(q)->second; }
};
template <typename... A> using btree_multimap = std::multimap<A...>;
}  // namespace absl
#endif
