#ifndef VERIF_SHIM_ABSL_HASH_H_
#define VERIF_SHIM_ABSL_HASH_H_
#include <array>
#include <bitset>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace absl {
namespace hash_internal {
struct HashState;
template <typename H> struct ProbeState;
template <typename T, typename H>
concept HasAbslHashValue = requires(H h, const T& v) { { AbslHashValue(std::move(h), v) } -> std::same_as<H>; };
template <typename T> concept RangeLike = requires(const T& t) { t.begin(); t.end(); t.size(); };
template <typename T> concept TupleLike = requires { std::tuple_size<T>::value; } && !std::is_array_v<T>;
template <typename T> inline constexpr bool kIsStdVariant = false;
template <typename... A> inline constexpr bool kIsStdVariant<std::variant<A...>> = true;
template <typename T> inline constexpr bool kIsOpt = false;
template <typename A> inline constexpr bool kIsOpt<std::optional<A>> = true;
template <typename T> inline constexpr bool kIsPtr = false;
template <typename A, typename D> inline constexpr bool kIsPtr<std::unique_ptr<A, D>> = true;
template <typename A> inline constexpr bool kIsPtr<std::shared_ptr<A>> = true;
struct HashState {
  uint64_t s = 0x9E3779B97F4A7C15ULL;
  template <typename... A> static HashState combine(HashState h, const A&... a) { ((h = One(std::move(h), a)), ...); return h; }
  template <typename T> static HashState combine_contiguous(HashState h, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) h = One(std::move(h), p[i]); return Raw(h, n); }
  template <typename I> static HashState combine_unordered(HashState h, I b, I e) { uint64_t sum = 0; size_t n = 0; for (; b != e; ++b, ++n) sum += One(HashState{}, *b).s; return Raw(Raw(h, sum), n); }
  static HashState Raw(HashState h, uint64_t v) { h.s ^= v + 0x9E3779B97F4A7C15ULL + (h.s << 6) + (h.s >> 2); h.s *= 0xff51afd7ed558ccdULL; h.s ^= h.s >> 33; return h; }
  template <typename T> static HashState One(HashState h, const T& v) {
    if constexpr (HasAbslHashValue<T, HashState>) return AbslHashValue(std::move(h), v);
    else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return Raw(h, static_cast<uint64_t>(v));
    else if constexpr (std::is_floating_point_v<T>) { uint64_t u = 0; double d = v == 0 ? 0 : static_cast<double>(v); std::memcpy(&u, &d, 8); return Raw(h, u); }
    else if constexpr (std::is_null_pointer_v<T>) return Raw(h, 0);
    else if constexpr (std::is_pointer_v<T>) return Raw(h, reinterpret_cast<uintptr_t>(v));
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view sv = v; for (char c : sv) h = Raw(h, static_cast<unsigned char>(c)); return Raw(h, sv.size()); }
    else if constexpr (kIsOpt<T>) { if (v) h = One(std::move(h), *v); return Raw(h, v.has_value()); }
    else if constexpr (kIsStdVariant<T>) { if (!v.valueless_by_exception()) h = std::visit([&](const auto& x) { return One(std::move(h), x); }, v); return Raw(h, v.index()); }
    else if constexpr (kIsPtr<T>) return Raw(h, reinterpret_cast<uintptr_t>(v.get()));
    else if constexpr (RangeLike<T>) { size_t n = 0; for (const auto& x : v) { h = One(std::move(h), x); ++n; } return Raw(h, n); }
    else if constexpr (std::is_array_v<T>) { for (const auto& x : v) h = One(std::move(h), x); return Raw(h, std::extent_v<T>); }
    else if constexpr (TupleLike<T>) return std::apply([&](const auto&... x) { return combine(std::move(h), x...); }, v);
    else { return Raw(h, std::hash<T>{}(v)); }
  }
};
}  // namespace hash_internal
using HashState = hash_internal::HashState;
template <typename T = void> struct Hash {
  size_t operator()(const T& v) const { return static_cast<size_t>(hash_internal::HashState::combine(hash_internal::HashState{}, v).s); }
};
template <typename... T> size_t HashOf(const T&... v) { return static_cast<size_t>(hash_internal::HashState::combine(hash_internal::HashState{}, v...).s); }
}  // namespace absl
#endif
