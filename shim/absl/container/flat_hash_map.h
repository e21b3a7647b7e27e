#ifndef VERIF_SHIM_ABSL_FLAT_HASH_MAP_H_
#define VERIF_SHIM_ABSL_FLAT_HASH_MAP_H_
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include "absl/hash/hash.h"
namespace absl {
namespace container_internal {
template <typename K> struct DefHash { size_t operator()(const K& k) const { return absl::Hash<K>{}(k); } };
struct StrHash { using is_transparent = void; size_t operator()(std::string_view s) const { return std::hash<std::string_view>{}(s); } };
template <> struct DefHash<std::string> : StrHash {};
template <> struct DefHash<std::string_view> : StrHash {};
template <typename K> struct DefEq : std::equal_to<K> {};
template <> struct DefEq<std::string> : std::equal_to<> {};
template <> struct DefEq<std::string_view> : std::equal_to<> {};
}  // namespace container_internal
template <typename K, typename V, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E, A> {
 public:
  using Base = std::unordered_map<K, V, H, E, A>;
  using Base::Base;
  using Base::erase;
  using Base::at;
  using Base::operator[];
  template <typename Q> requires requires { typename H::is_transparent; } size_t erase(const Q& q) { auto it = this->find(q); if (it == this->end()) return 0; Base::erase(it); return 1; }
  V& operator[](std::string_view q) requires std::is_same_v<K, std::string> { auto it = this->find(q); return it != this->end() ? it->second : Base::operator[](std::string(q)); }
  V& operator[](const char* q) requires std::is_same_v<K, std::string> { return (*this)[std::string_view(q)]; }
  template <typename Q> requires requires { typename H::is_transparent; } V& at(const Q& q) { return this->find(q)->second; }
  template <typename Q> requires requires { typename H::is_transparent; } const V& at(const Q& q) const { return this->find(q)->second; }
};
template <typename... A> using node_hash_map = flat_hash_map<A...>;
}  // namespace absl
#endif
