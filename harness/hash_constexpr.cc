// Values computed by the compiler equal the values computed at run time, for every algorithm and every length.
#include "lib/mc.h"
#include "harness/hash_algs.h"
#include "mbo/hash/hash_mangle.h"
#include <array>
namespace {
namespace mh = mbo::hash;
#ifndef MAXLEN
#define MAXLEN 161
#endif
constexpr size_t kMax = MAXLEN;
constexpr std::array<char, kMax> kMsg = [] {
  std::array<char, kMax> m{};
  for (size_t i = 0; i < kMax; ++i) m[i] = static_cast<char>((i * 0x9E3779B1u + 5) >> 13);
  return m;
}();
constexpr uint64_t kSeeds[] = {5381, 0xF000000000000001ULL};
struct Row {
  uint64_t h64, h1, h2;
  uint32_t h32;
  bool operator==(const Row&) const = default;
};
template <typename A>
constexpr Row Get(size_t n, uint64_t seed) {
  const std::string_view v(kMsg.data(), n);
  const auto h = mh::Hasher<A>::GetHash128(v, seed);
  return {mh::Hasher<A>::GetHash64(v, seed), h.h1, h.h2, mh::Hasher<A>::GetHash32(v, seed)};
}
template <typename A>
constexpr std::array<Row, 2 * kMax> Table() {
  std::array<Row, 2 * kMax> t{};
  for (size_t n = 0; n < kMax; ++n)
    for (int s = 0; s < 2; ++s) t[2 * n + s] = Get<A>(n, kSeeds[s]);
  return t;
}
template <typename A>
constexpr uint64_t Stream(size_t n, size_t piece) {
  mh::Streamer<A> s(7);
  for (size_t i = 0; i < n; i += piece) s.Update(std::string_view(kMsg.data() + i, n - i < piece ? n - i : piece));
  return s.Finalize();
}
template <typename A>
constexpr std::array<uint64_t, 24> StreamTable() {
  std::array<uint64_t, 24> t{};
  for (size_t i = 0; i < 24; ++i) t[i] = Stream<A>(i * 6 + i % 5, 1 + i % 7);
  return t;
}
template <typename A>
constexpr auto kTable = Table<A>();
template <typename A>
constexpr auto kStream = StreamTable<A>();

template <typename A>
void Compare(mc::Ctx& c, const char* name) {
  const int stripe = c.choose(4);
  for (size_t n = stripe; n < kMax; n += 4)
    for (int s = 0; s < 2; ++s) {
      volatile size_t vn = n;
      const Row got = Get<A>(vn, kSeeds[s]);
      const Row& want = kTable<A>[2 * n + s];
      c.step();
      c.state(got.h64);
      MC_CHECK(c, got == want, name, " of ", n, " bytes, seed ", kSeeds[s], ": run time ", got.h64, " compile time ", want.h64);
    }
}
template <typename A>
void CompareStream(mc::Ctx& c, const char* name) {
  const size_t i = c.choose(24);
  volatile size_t n = i * 6 + i % 5;
  MC_CHECK(c, (Stream<A>(n, 1 + i % 7) == kStream<A>[i]), name, " stream ", i);
}
static_assert(mh::GetHash("abc") == (mh::GetHash64("abc") ^ mh::kMangleConstant));
static_assert(mh::CombineHashes(1, 2) != mh::CombineHashes(2, 1));
}  // namespace
MC_SECTION(tables) {
  switch (c.choose(14)) {
    case 0: return Compare<mh::mumbo::Algorithm>(c, "mumbo");
    case 1: return Compare<mh::dumbo::Algorithm>(c, "dumbo");
    case 2: return Compare<mh::fambo::Algorithm>(c, "fambo");
    case 3: return Compare<mh::tembo::Algorithm<3, 4, true>>(c, "tembo34");
    case 4: return Compare<mh::tembo::Algorithm<8, 8>>(c, "tembo88");
    case 5: return Compare<mh::fnv1a::Algorithm>(c, "fnv1a");
    case 6: return Compare<mh::murmur3::Algorithm>(c, "murmur3");
    case 7: return Compare<mh::siphash::Algorithm>(c, "siphash");
    case 8: return Compare<mh::rapidhash::Algorithm>(c, "rapidhash");
    case 9: return Compare<mh::xxh64::Algorithm>(c, "xxh64");
    case 10: return Compare<mh::xxh3::Algorithm>(c, "xxh3");
    case 11: return CompareStream<mh::mumbo::Algorithm>(c, "mumbo");
    case 12: return CompareStream<mh::siphash::Algorithm>(c, "siphash");
    default: return CompareStream<mh::xxh64::Algorithm>(c, "xxh64");
  }
}
