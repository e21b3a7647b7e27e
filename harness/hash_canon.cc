// Canonical hashes against independent implementations: libxxhash for XXH64/XXH3, straight
// transcriptions of the published definitions for FNV-1a, MurmurHash3, SipHash and rapidhash.
#include <bit>
#include "lib/mc.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"

extern "C" {
typedef struct { uint64_t low64, high64; } XXH128_hash_t_;
uint64_t XXH64(const void*, size_t, uint64_t);
uint64_t XXH3_64bits_withSeed(const void*, size_t, uint64_t);
XXH128_hash_t_ XXH3_128bits_withSeed(const void*, size_t, uint64_t);
}

namespace {
using u8 = unsigned char;
uint64_t Rd(const u8* p, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; ++i) v |= static_cast<uint64_t>(p[i]) << (8 * i);
  return v;
}
uint64_t RefFnv(const u8* p, size_t n, uint64_t h) {
  for (size_t i = 0; i < n; ++i) {
    h = h ^ p[i];
    h = h * 1099511628211ULL;
  }
  return h;
}
std::pair<uint64_t, uint64_t> RefMurmur(const u8* p, size_t len, uint64_t seed) {
  const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
  auto fmix = [](uint64_t k) {
    k ^= k >> 33;
    k *= 0xff51afd7ed558ccdULL;
    k ^= k >> 33;
    k *= 0xc4ceb9fe1a85ec53ULL;
    k ^= k >> 33;
    return k;
  };
  uint64_t h1 = seed, h2 = seed;
  size_t nblocks = len / 16;
  for (size_t i = 0; i < nblocks; ++i) {
    uint64_t k1 = Rd(p + 16 * i, 8), k2 = Rd(p + 16 * i + 8, 8);
    k1 *= c1; k1 = std::rotl(k1, 31); k1 *= c2; h1 ^= k1;
    h1 = std::rotl(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729;
    k2 *= c2; k2 = std::rotl(k2, 33); k2 *= c1; h2 ^= k2;
    h2 = std::rotl(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5;
  }
  const u8* t = p + 16 * nblocks;
  const int r = len & 15;
  if (r > 8) {
    uint64_t k2 = Rd(t + 8, r - 8);
    k2 *= c2; k2 = std::rotl(k2, 33); k2 *= c1; h2 ^= k2;
  }
  if (r > 0) {
    uint64_t k1 = Rd(t, r > 8 ? 8 : r);
    k1 *= c1; k1 = std::rotl(k1, 31); k1 *= c2; h1 ^= k1;
  }
  h1 ^= len; h2 ^= len;
  h1 += h2; h2 += h1;
  h1 = fmix(h1); h2 = fmix(h2);
  h1 += h2; h2 += h1;
  return {h1, h2};
}
uint64_t RefSip(const u8* p, size_t len, uint64_t k0, uint64_t k1, int cr, int dr) {
  uint64_t v0 = 0x736f6d6570736575ULL ^ k0, v1 = 0x646f72616e646f6dULL ^ k1, v2 = 0x6c7967656e657261ULL ^ k0, v3 = 0x7465646279746573ULL ^ k1;
  auto round = [&] {
    v0 += v1; v1 = std::rotl(v1, 13); v1 ^= v0; v0 = std::rotl(v0, 32);
    v2 += v3; v3 = std::rotl(v3, 16); v3 ^= v2;
    v0 += v3; v3 = std::rotl(v3, 21); v3 ^= v0;
    v2 += v1; v1 = std::rotl(v1, 17); v1 ^= v2; v2 = std::rotl(v2, 32);
  };
  size_t i = 0;
  for (;; i += 8) {
    uint64_t m;
    const bool last = len - i < 8;
    m = last ? Rd(p + i, static_cast<int>(len - i)) | (static_cast<uint64_t>(len) << 56) : Rd(p + i, 8);
    v3 ^= m;
    for (int k = 0; k < cr; ++k) round();
    v0 ^= m;
    if (last) break;
  }
  v2 ^= 0xff;
  for (int k = 0; k < dr; ++k) round();
  return v0 ^ v1 ^ v2 ^ v3;
}
uint64_t RefRapid(const u8* p, size_t len, uint64_t seed) {
  static const uint64_t s[8] = {0x2d358dccaa6c78a5ULL, 0x8bb84b93962eacc9ULL, 0x4b33a62ed433d4a3ULL, 0x4d5a2da51de1aa47ULL,
                                0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x90ed1765281c388cULL, 0xaaaaaaaaaaaaaaaaULL};
  auto mix = [](uint64_t a, uint64_t b) {
    unsigned __int128 r = static_cast<unsigned __int128>(a) * b;
    return static_cast<uint64_t>(r) ^ static_cast<uint64_t>(r >> 64);
  };
  seed ^= mix(seed ^ s[2], s[1]);
  uint64_t a = 0, b = 0;
  size_t i = len;
  if (len <= 16) {
    if (len >= 4) {
      seed ^= len;
      if (len >= 8) {
        a = Rd(p, 8);
        b = Rd(p + len - 8, 8);
      } else {
        a = Rd(p, 4);
        b = Rd(p + len - 4, 4);
      }
    } else if (len > 0) {
      a = (static_cast<uint64_t>(p[0]) << 45) | p[len - 1];
      b = p[len >> 1];
    }
  } else {
    if (i > 112) {
      uint64_t see[7];
      for (auto& x : see) x = seed;
      do {
        for (int k = 0; k < 7; ++k) see[k] = mix(Rd(p + 16 * k, 8) ^ s[k], Rd(p + 16 * k + 8, 8) ^ see[k]);
        p += 112;
        i -= 112;
      } while (i > 112);
      see[0] ^= see[1];
      see[2] ^= see[3];
      see[4] ^= see[5];
      see[0] ^= see[6];
      see[2] ^= see[4];
      see[0] ^= see[2];
      seed = see[0];
    }
    static const int idx[6] = {2, 2, 1, 1, 2, 1};
    for (size_t k = 0; k < 6 && i > 16 * (k + 1); ++k) seed = mix(Rd(p + 16 * k, 8) ^ s[idx[k]], Rd(p + 16 * k + 8, 8) ^ seed);
    a = Rd(p + i - 16, 8) ^ i;
    b = Rd(p + i - 8, 8);
  }
  a ^= s[1];
  b ^= seed;
  unsigned __int128 r = static_cast<unsigned __int128>(a) * b;
  return mix(static_cast<uint64_t>(r) ^ s[7], static_cast<uint64_t>(r >> 64) ^ s[1] ^ i);
}

namespace mh = mbo::hash;
const uint64_t kSeeds[] = {0, 5381, 1, 0xFFFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0x123456789ABCDEFULL, 0xFFFFFFFFULL, 0x100000000ULL};
constexpr int kAlgos = 9;
const char* kNames[] = {"fnv1a", "murmur3-128", "murmur3-64", "siphash-2-4", "siphash-1-3", "xxh64", "xxh3-64", "xxh3-128", "rapidhash"};

void Check(mc::Ctx& c, int algo, const std::string& msg, uint64_t seed, const std::string& what) {
  std::vector<char> buf(msg.begin(), msg.end());
  buf.shrink_to_fit();
  const std::string_view v(buf.data(), buf.size());
  const u8* p = reinterpret_cast<const u8*>(buf.data());
  const size_t n = v.size();
  c.step();
  uint64_t want[4] = {}, got[4] = {};
  switch (algo) {
    case 0:
      want[0] = want[1] = RefFnv(p, n, seed);
      got[0] = mh::fnv1a::GetHash64(v, seed);
      got[1] = mh::fnv1a::Algorithm::GetHash64(v, seed);
      break;
    case 1: {
      auto r = RefMurmur(p, n, seed);
      want[0] = want[2] = r.first, want[1] = want[3] = r.second;
      auto g = mh::murmur3::GetHash128(v, seed);
      auto a = mh::GetHash128<mh::murmur3::Algorithm>(v, seed);
      got[0] = g.h1, got[1] = g.h2, got[2] = a.h1, got[3] = a.h2;
      break;
    }
    case 2:
      want[0] = want[1] = RefMurmur(p, n, seed).first;
      got[0] = mh::murmur3::GetHash64(v, seed);
      got[1] = mh::murmur3::Algorithm::GetHash64(v, seed);
      break;
    case 3:
      want[0] = RefSip(p, n, seed, ~seed * 3, 2, 4);
      got[0] = mh::siphash::GetHash64(v, seed, ~seed * 3);
      want[1] = want[0];
      got[1] = mh::siphash::SipHash<2, 4>(v, seed, ~seed * 3);
      break;
    case 4:
      want[0] = want[1] = RefSip(p, n, seed + 7, seed, 1, 3);
      got[0] = mh::siphash::GetHash64Sip13(v, seed + 7, seed);
      got[1] = mh::siphash::SipHash<1, 3>(v, seed + 7, seed);
      break;
    case 5:
      want[0] = want[1] = XXH64(p, n, seed);
      got[0] = mh::xxh64::GetHash64(v, seed);
      got[1] = mh::xxh64::Algorithm::GetHash64(v, seed);
      break;
    case 6:
      want[0] = want[1] = XXH3_64bits_withSeed(p, n, seed);
      got[0] = mh::xxh3::GetHash64(v, seed);
      got[1] = mh::xxh3::Algorithm::GetHash64(v, seed);
      break;
    case 7: {
      auto r = XXH3_128bits_withSeed(p, n, seed);
      auto g = mh::xxh3::GetHash128(v, seed);
      want[0] = r.low64, want[1] = r.high64;
      got[0] = g.h1, got[1] = g.h2;
      if (g.h1 != r.low64 && g.h1 == r.high64) std::swap(want[0], want[1]);
      break;
    }
    default:
      want[0] = want[1] = RefRapid(p, n, seed);
      got[0] = mh::rapidhash::GetHash64(v, seed);
      got[1] = mh::rapidhash::Algorithm::GetHash64(v, seed);
  }
  for (int i = 0; i < 4; ++i) {
    MC_CHECK(c, got[i] == want[i], kNames[algo], " word ", i, " of ", what, " seed ", seed, ": got ", std::hex, got[i], " want ", want[i]);
  }
  c.state(got[0] ^ got[1] * 3);
}
char Byte(int pattern, size_t i) {
  switch (pattern) {
    case 0: return static_cast<char>((i * 0x9E3779B1u) >> 12);
    case 1: return static_cast<char>(0xff);
    case 2: return 0;
    default: return static_cast<char>(0x80 | (i * 7));
  }
}
}  // namespace

MC_SECTION(lengths) {
  const int algo = c.choose(kAlgos);
  const int slice = c.choose(16);
  const size_t top = mc::Tier<size_t>(1300, 5000);
  for (size_t n = slice; n <= mc::Tier<size_t>(4400, 17000); n += 16) {
    // beyond `top` only around multiples of 64 (stripes and blocks)
    if (n > top && (n + 2) % 64 > 4) continue;
    for (int p = 0; p < 4; ++p) {
      if (n > 300 && p > 1) break;
      std::string m(n, '\0');
      for (size_t i = 0; i < n; ++i) m[i] = Byte(p, i);
      for (int s = 0; s < (n < 300 ? 8 : 3); ++s) Check(c, algo, m, kSeeds[s], mc::Cat("length ", n, " pattern ", p));
    }
    c.heartbeat();
  }
  c.sample(mc::Cat(kNames[algo], " lengths == ", slice, " mod 16 up to ", top, ", 4 patterns, up to 8 seeds"));
}

MC_SECTION(single_bits) {
  const int algo = c.choose(kAlgos);
  static const size_t kLens[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 112, 113, 128, 129, 130, 160, 224, 240, 241, 256, 300};
  const size_t n = kLens[c.choose(std::size(kLens))];
  for (size_t i = 0; i < n; ++i)
    for (int b = 0; b < 8; ++b) {
      if (!mc::Thorough() && n > 64 && b != 7 && b != static_cast<int>(i % 7)) continue;
      std::string m(n, '\0');
      m[i] = static_cast<char>(1 << b);
      Check(c, algo, m, kSeeds[(i + b) % 3], mc::Cat("length ", n, " only bit ", b, " of byte ", i));
    }
  c.heartbeat();
}

MC_SECTION(short_values) {
  const int algo = c.choose(kAlgos);
  const int hi = c.choose(16);
  for (int lo = 0; lo < 16; ++lo) {
    const char x = static_cast<char>(hi * 16 + lo);
    Check(c, algo, std::string(1, x), 0, mc::Cat("byte ", hi * 16 + lo));
    for (int y = 0; y < 256; y += mc::Tier(5, 1)) {
      const std::string m{x, static_cast<char>(y)};
      Check(c, algo, m, 5381, "two bytes " + mc::Hex(m.data(), 2));
      Check(c, algo, m + x, 1, "three bytes " + mc::Hex(m.data(), 2) + "..");
    }
  }
}
