#ifndef HARNESS_HASH_ALGS_H_
#define HARNESS_HASH_ALGS_H_
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
namespace ha {
namespace mh = mbo::hash;
struct Alg {
  const char* name;
  uint64_t (*h64)(std::string_view, uint64_t);
  mh::Hash128 (*h128)(std::string_view, uint64_t);
  uint32_t (*h32)(std::string_view, uint64_t);
  bool native64, native128, native32;
};
template <typename A>
Alg Make(const char* n) {
  using H = mh::Hasher<A>;
  return {n, [](std::string_view d, uint64_t s) { return H::GetHash64(d, s); }, [](std::string_view d, uint64_t s) { return H::GetHash128(d, s); },
          [](std::string_view d, uint64_t s) { return H::GetHash32(d, s); }, mh::HasGetHash64<A>, mh::HasGetHash128<A>, mh::HasGetHash32<A>};
}
inline const std::vector<Alg>& Algs() {
  static const std::vector<Alg> v = {
      Make<mh::mumbo::Algorithm>("mumbo"), Make<mh::jumbo::Algorithm>("jumbo"), Make<mh::dumbo::Algorithm>("dumbo"),
      Make<mh::fambo::Algorithm>("fambo"), Make<mh::tembo::Algorithm<3, 4, true>>("tembo_3_4"),
      Make<mh::tembo::Algorithm<4, 4, true>>("tembo_4_4"), Make<mh::tembo::Algorithm<8, 8, true>>("tembo_8_8"),
      Make<mh::tembo::Algorithm<12, 8, false>>("tembo_12_8"), Make<mh::tembo::Algorithm<16, 4, false>>("tembo_16_4"),
      Make<mh::fnv1a::Algorithm>("fnv1a"), Make<mh::murmur3::Algorithm>("murmur3"), Make<mh::siphash::Algorithm>("siphash"),
      Make<mh::rapidhash::Algorithm>("rapidhash"), Make<mh::xxh64::Algorithm>("xxh64"), Make<mh::xxh3::Algorithm>("xxh3")};
  return v;
}
// A heap block of exactly the given size at the given offset from 16-byte alignment.
struct Exact {
  char* base;
  size_t off, n;
  Exact(std::string_view s, size_t o = 0) : base(new char[s.size() + o]), off(o), n(s.size()) { for (size_t i = 0; i < n; ++i) base[off + i] = s[i]; }
  ~Exact() { delete[] base; }
  Exact(const Exact&) = delete;
  std::string_view view() const { return {base + off, n}; }
};
inline std::string Message(size_t n, uint32_t salt = 0) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>(((i + salt) * 0x9E3779B1u + salt) >> 13);
  return m;
}
}  // namespace ha
#endif
