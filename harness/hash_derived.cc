// What hash.h derives from an algorithm: widths it does not provide, combining, ordering, rendering, mangling.
#include "lib/mc.h"
#include "harness/hash_algs.h"
#include "mbo/hash/hash_mangle.h"
#include <array>
using namespace ha;
namespace {
// Algorithms that provide only part of the interface; the values record exactly what they were given.
struct Only64 {
  static uint64_t GetHash64(std::string_view d, uint64_t seed) noexcept { return mc::Fnv(d, seed * 31 + d.size()); }
};
struct Only128 {
  static mh::Hash128 GetHash128(std::string_view d, uint64_t seed) noexcept { return {mc::Fnv(d, seed), mc::Fnv(d, ~seed)}; }
};
struct Both {
  static uint64_t GetHash64(std::string_view d, uint64_t seed) noexcept { return mc::Fnv(d, seed + 1); }
  static mh::Hash128 GetHash128(std::string_view d, uint64_t seed) noexcept { return {mc::Fnv(d, seed), mc::Fnv(d, ~seed)}; }
  static uint32_t GetHash32(std::string_view d, uint64_t seed) noexcept { return static_cast<uint32_t>(mc::Fnv(d, seed + 2)); }
};
struct Weak {  // ignores the seed entirely
  static uint64_t GetHash64(std::string_view d, uint64_t) noexcept { return mc::Fnv(d); }
};
const uint64_t kSeeds[] = {0, 5381, 0x8000000000000000ULL, ~0ULL};
template <typename A>
void Widths(mc::Ctx& c, const char* name, bool n64, bool n128, bool n32) {
  using H = mh::Hasher<A>;
  const uint64_t seed = c.pick(kSeeds);
  const int stripe = c.choose(4);
  for (int n = stripe; n <= mc::Tier(80, 400); n += 4) {
    Exact e(Message(n, 5));
    const auto d = e.view();
    c.step();
    uint64_t want64 = 0;
    mh::Hash128 want128{};
    if constexpr (mh::HasGetHash64<A>) want64 = A::GetHash64(d, seed);
    if constexpr (mh::HasGetHash128<A>) want128 = A::GetHash128(d, seed);
    if constexpr (!mh::HasGetHash64<A>) want64 = mh::Hash128To64(want128);
    if constexpr (!mh::HasGetHash128<A>) {
      // lane one is the 64-bit hash; lane two rehashes with the leading 8 bytes moved into the seed
      uint64_t head = 0;
      const size_t k = d.size() < 8 ? d.size() : 8;
      for (size_t i = 0; i < k; ++i) head |= static_cast<uint64_t>(static_cast<unsigned char>(d[i])) << (8 * i);
      want128 = {want64, A::GetHash64(d.substr(k), seed ^ 0x9E3779B97F4A7C15ULL ^ head)};
    }
    const uint32_t want32 = [&]() -> uint32_t {
      if constexpr (mh::HasGetHash32<A>) return A::GetHash32(d, seed);
      else return static_cast<uint32_t>(want64 ^ (want64 >> 32));
    }();
    MC_CHECK(c, H::GetHash64(d, seed) == want64 && mh::GetHash64<A>(d, seed) == want64, name, " 64 of ", n, " seed ", seed);
    MC_CHECK(c, H::GetHash128(d, seed) == want128 && mh::GetHash128<A>(d, seed) == want128, name, " 128 of ", n, " seed ", seed);
    MC_CHECK(c, H::GetHash32(d, seed) == want32 && mh::GetHash32<A>(d, seed) == want32, name, " 32 of ", n, " seed ", seed);
    MC_CHECK(c, H{}(d) == H::GetHash64(d) && H::GetHash64(d) == H::GetHash64(d, 5381), name, " functor/default seed of ", n);
    MC_CHECK(c, mh::GetHash64<A>(d) == H::GetHash64(d, 5381) && mh::GetHash128<A>(d) == H::GetHash128(d, 5381) && mh::GetHash32<A>(d) == H::GetHash32(d, 5381), name, " default seed of ", n);
    // mangled
    using M = mh::MangledHasher<A>;
    const uint64_t k = mh::kMangleConstant;
    MC_CHECK(c, (M::GetHash(d, seed) ^ k) == H::GetHash64(d, seed), name, " MangledHasher of ", n, " seed ", seed);
    MC_CHECK(c, (M{}(d) ^ k) == H::GetHash64(d) && M{}(std::string(d)) == M{}(d), name, " MangledHasher functor of ", n);
    MC_CHECK(c, (mh::GetHash<A>(d) ^ k) == H::GetHash64(d, 5381), name, " GetHash of ", n);
    MC_CHECK(c, (mh::GetHash<A, 17>(d) ^ k) == H::GetHash64(d, 17), name, " GetHash seeded of ", n);
    MC_CHECK(c, M::GetHash64(d, seed) == H::GetHash64(d, seed), name, " the deterministic interface stays unmangled");
    c.state(want64 ^ want128.h2);
  }
  (void)n64, (void)n128, (void)n32;
}
struct Sink {
  std::string s;
  void Append(std::string_view v) { s += v; }
};
}  // namespace
MC_SECTION_D(widths, 3) {
  switch (c.choose(9)) {
    case 0: return Widths<Only64>(c, "only64", 1, 0, 0);
    case 1: return Widths<Only128>(c, "only128", 0, 1, 0);
    case 2: return Widths<Both>(c, "both", 1, 1, 1);
    case 3: return Widths<Weak>(c, "weak", 1, 0, 0);
    case 4: return Widths<mh::mumbo::Algorithm>(c, "mumbo", 1, 1, 0);
    case 5: return Widths<mh::dumbo::Algorithm>(c, "dumbo", 1, 0, 0);
    case 6: return Widths<mh::murmur3::Algorithm>(c, "murmur3", 1, 1, 0);
    case 7: return Widths<mh::fnv1a::Algorithm>(c, "fnv1a", 1, 0, 1);
    default: return Widths<mh::xxh3::Algorithm>(c, "xxh3", 1, 1, 0);
  }
}
MC_SECTION_D(entry_points, 1) {
  const int n = c.choose(140);
  Exact e(Message(n));
  const auto d = e.view();
  MC_CHECK(c, mh::GetHash64(d) == mh::mumbo::GetHash64(d, 5381), n);
  MC_CHECK(c, mh::GetHash128(d) == mh::jumbo::GetHash128(d, 5381), n);
  MC_CHECK(c, mh::GetHash32(d) == mh::Hash64To32(mh::mumbo::GetHash64(d, 5381)), n);
  MC_CHECK(c, mh::DefaultHasher{}(d) == mh::GetHash64(d) && mh::DefaultHasher{}(std::string(d)) == mh::GetHash64(d), n);
  MC_CHECK(c, (mh::GetHash(d) ^ mh::kMangleConstant) == mh::GetHash64(d) && mh::DefaultMangledHasher{}(d) == mh::GetHash(d), n);
  MC_CHECK(c, mh::jumbo::GetHash64(d, 9) == mh::mumbo::GetHash64(d, 9) && mh::Hasher<mh::jumbo::Algorithm>::GetHash64(d, 9) == mh::mumbo::GetHash64(d, 9), n);
  c.state(mh::GetHash64(d));
}
MC_SECTION(words) {
  static const uint64_t kW[] = {0, 1, 2, 0x7f, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x9E3779B97F4A7C15ULL, 0x8000000000000000ULL, ~0ULL, 0x0123456789abcdefULL};
  const uint64_t a = c.pick(kW), b = c.pick(kW);
  MC_CHECK(c, mh::Hash64To32(a) == static_cast<uint32_t>((a & 0xffffffff) ^ (a >> 32)), a);
  const uint64_t k = mh::CombineHashes(a, b), f = mh::Hash128To64({a, b});
  for (int i = 0; i < 64; ++i) {
    const uint64_t m = 1ULL << i;
    MC_CHECK(c, mh::CombineHashes(a ^ m, b) != k && mh::CombineHashes(a, b ^ m) != k, "CombineHashes ignores bit ", i, " of ", a, ", ", b);
    MC_CHECK(c, mh::Hash128To64({a ^ m, b}) != f && mh::Hash128To64({a, b ^ m}) != f, "Hash128To64 ignores bit ", i, " of ", a, ", ", b);
    MC_CHECK(c, (mh::CombineHashes(a ^ m, b) ^ k) >> 32 && static_cast<uint32_t>(mh::CombineHashes(a, b ^ m) ^ k), "CombineHashes mixes poorly");
  }
  MC_CHECK(c, f != a || f != b, "Hash128To64 truncates");
  for (uint64_t x : kW)
    for (uint64_t y : kW)
      if (x == a && y != b) MC_CHECK(c, mh::CombineHashes(x, y) != k, "CombineHashes ignores its second argument");
  if (a != b) MC_CHECK(c, mh::CombineHashes(b, a) != k, "CombineHashes ignores the order of ", a, ", ", b);
  const mh::Hash128 h{a, b};
  for (uint64_t x : kW)
    for (uint64_t y : kW) {
      const mh::Hash128 o{x, y};
      c.step();
      MC_CHECK(c, (h == o) == (a == x && b == y) && (h < o) == (a < x || (a == x && b < y)) && (h > o) == (o < h) && (h <= o) == !(o < h), "ordering");
    }
  Sink s;
  AbslStringify(s, h);
  char buf[64];
  std::snprintf(buf, sizeof(buf), "0x%016llx%016llx", (unsigned long long)a, (unsigned long long)b);
  MC_CHECK(c, s.s == buf, s.s, " vs ", buf);
  MC_CHECK(c, mh::HashMangle(a) == (a ^ mh::kMangleConstant) && mh::HashMangle(mh::HashMangle(a)) == a, "mangle");
  c.state(k);
}
