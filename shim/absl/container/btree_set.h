#ifndef VERIF_SHIM_ABSL_BTREE_SET_H_
#define VERIF_SHIM_ABSL_BTREE_SET_H_
#include "absl/container/btree_map.h"
namespace absl {
template <typename K, typename C = container_internal::DefLess<K>, typename A = std::allocator<K>>
class btree_set : public std::set<K, C, A> {
 public:
  using Base = std::set<K, C, A>;
  using Base::Base;
};
template <typename... A> using btree_multiset = std::multiset<A...>;
}  // namespace absl
#endif
