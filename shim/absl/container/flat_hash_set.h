#ifndef VERIF_SHIM_ABSL_FLAT_HASH_SET_H_
#define VERIF_SHIM_ABSL_FLAT_HASH_SET_H_
#include "absl/container/flat_hash_map.h"
namespace absl {
template <typename K, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, H, E, A> {
 public:
  using Base = std::unordered_set<K, H, E, A>;
  using Base::Base;
};
template <typename... A> using node_hash_set = flat_hash_set<A...>;
}  // namespace absl
#endif
