#ifndef VERIF_SHIM_ABSL_HASH_TESTING_H_
#define VERIF_SHIM_ABSL_HASH_TESTING_H_
#include <tuple>
#include <initializer_list>
#include "absl/hash/hash.h"
#include "gtest/gtest.h"
namespace absl {
namespace hash_internal {
template <typename C, typename Eq> ::testing::AssertionResult VerifyHash(const C& values, Eq eq) {
  for (const auto& a : values) for (const auto& b : values) {
    if (eq(a, b) && HashOf(a) != HashOf(b)) return ::testing::AssertionFailure() << "equal values, different hash";
    if (!eq(a, b) && HashOf(a) == HashOf(b)) return ::testing::AssertionFailure() << "different values, same hash";
  }
  return ::testing::AssertionSuccess();
}
}  // namespace hash_internal
template <typename C> ::testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(const C& values) { return hash_internal::VerifyHash(values, std::equal_to<>{}); }
template <typename T> ::testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> values) { return hash_internal::VerifyHash(values, std::equal_to<>{}); }
}  // namespace absl
#endif
