// Every byte, the length and the seed reach the value: exhaustive single-byte changes at every
// position of every length, all short strings, all zero-run lengths and single-bit seeds.
#include "lib/mc.h"
#include "harness/hash_algs.h"
#include <algorithm>
#include <unordered_map>
using namespace ha;
namespace {
const uint64_t kSeeds[] = {0, 5381, 0xFFFFFFFFFFFFFFFFULL};
struct Val {
  uint64_t a, b, c;
};
Val Get(const Alg& a, std::string_view v, uint64_t seed) {
  const auto h = a.h128(v, seed);
  return {a.h64(v, seed), h.h1, h.h2};
}
}  // namespace
// Every position of every length, every single-bit change plus whole-byte changes.
MC_SECTION(every_byte) {
  const Alg& a = c.pick(Algs());
  const int stripe = c.choose(16);
  const int max_len = mc::Tier(300, 700);
  const uint64_t seed = c.pick(kSeeds);
  for (int n = stripe; n <= max_len; n += 16) {
    c.heartbeat();
    std::string m = Message(n, n);
    const Val base = Get(a, m, seed);
    c.state(base.a);
    for (int i = 0; i < n; ++i) {
      const char old = m[i];
      for (int k = 0; k < (mc::Thorough() ? 11 : 4); ++k) {
        const int mask = mc::Thorough() ? (k < 8 ? 1 << k : k == 8 ? 0xff : k == 9 ? 0x55 : 0x21) : (k == 0 ? 1 : k == 1 ? 0x80 : k == 2 ? 0x10 : 0xff);
        m[i] = static_cast<char>(old ^ mask);
        const Val got = Get(a, m, seed);
        c.step();
        MC_CHECK(c, got.a != base.a, a.name, " 64-bit value ignores byte ", i, " of ", n, " (mask ", mask, ", seed ", seed, ")");
        MC_CHECK(c, got.b != base.b || got.c != base.c, a.name, " 128-bit value ignores byte ", i, " of ", n);
        MC_CHECK(c, got.b != base.b, a.name, " h1 ignores byte ", i, " of ", n, " (mask ", mask, ", seed ", seed, ")");
        MC_CHECK(c, got.c != base.c, a.name, " h2 ignores byte ", i, " of ", n, " (mask ", mask, ", seed ", seed, ")");
      }
      m[i] = old;
    }
  }
  c.sample(mc::Cat(a.name, " lengths ", stripe, "+16k up to ", max_len));
}
// No two short strings collide, no two runs collide, no two seeds collide.
MC_SECTION(no_collisions) {
  const Alg& a = c.pick(Algs());
  if (std::string_view(a.name).starts_with("tembo_1") || a.name == std::string_view("tembo_8_8") || a.name == std::string_view("fnv1a")) return;  // documented as failing such key sets
  const int family = c.choose(4);
  std::vector<uint64_t> h64, h1, h2;
  auto add = [&](std::string_view v, uint64_t seed) {
    const Val g = Get(a, v, seed);
    h64.push_back(g.a), h1.push_back(g.b), h2.push_back(g.c);
    c.step();
  };
  if (family == 0) {  // all strings of up to 2 bytes, and all strings over {0,1,0x80,'a'} of up to 8
    add("", 7);
    for (int i = 0; i < 256; ++i) {
      char b[2] = {static_cast<char>(i), 0};
      add({b, 1}, 7);
      for (int j = 0; j < 256; ++j) b[1] = static_cast<char>(j), add({b, 2}, 7);
    }
    static const char kA[] = {0, 1, static_cast<char>(0x80), 'a'};
    for (int n = 3; n <= mc::Tier(7, 9); ++n) {
      for (long v = 0; v < (1L << (2 * n)); ++v) {
        std::string s(n, 0);
        for (int i = 0; i < n; ++i) s[i] = kA[(v >> (2 * i)) & 3];
        add(s, 7);
      }
      c.heartbeat();
    }
  } else if (family == 1) {  // runs of a common byte: the length alone distinguishes
    for (char ch : {'a', '\xff'}) {
      const std::string s(mc::Tier(1500, 4000), ch);
      for (size_t n = ch == 'a' ? 0 : 1; n <= s.size(); ++n) add(std::string_view(s).substr(0, n), 5381);
      c.heartbeat();
    }
  } else if (family == 2) {  // seeds
    const bool ignores = std::string_view(a.name) == "none";
    if (!ignores)
      for (int len : {1, 8, 17, 40, 200}) {
        h64.clear(), h1.clear(), h2.clear();
        const std::string m = Message(len);
        add(m, 0);
        for (int i = 0; i < 64; ++i)
          for (int j = i; j < 64; ++j) add(m, (1ULL << i) | (1ULL << j));
        std::sort(h64.begin(), h64.end());
        MC_CHECK(c, std::adjacent_find(h64.begin(), h64.end()) == h64.end(), a.name, ": two seeds give one value for ", len, " bytes");
      }
  } else {  // prefixes and block swaps
    const std::string m = Message(600, 9);
    for (size_t n = 0; n <= m.size(); ++n) add(std::string_view(m).substr(0, n), 5381);
    for (size_t len : {32, 64, 128, 256, 512})
      for (size_t i = 0; i < len; i += 8)
        for (size_t j = i + 8; j < len; j += 8) {
          std::string s = m.substr(0, len);
          for (int k = 0; k < 8; ++k) std::swap(s[i + k], s[j + k]);
          add(s, 5381);
        }
  }
  for (auto* v : {&h64, &h1, &h2}) {
    std::sort(v->begin(), v->end());
    if (v == &h64 || a.native128)
      MC_CHECK(c, std::adjacent_find(v->begin(), v->end()) == v->end(), a.name, " family ", family, ": two inputs share a value ",
               v == &h64 ? "64" : v == &h1 ? "h1" : "h2");
  }
  for (size_t i = 0; i < h64.size(); i += 97) c.state(h64[i]);
}
// Values depend on nothing but the bytes: any alignment, exactly sized blocks, repeated calls.
MC_SECTION(pure) {
  const Alg& a = c.pick(Algs());
  const int stripe = c.choose(8);
  for (int n = stripe; n <= mc::Tier(280, 600); n += 8) {
    const std::string m = Message(n, 3);
    const Val want = Get(a, m, 42);
    for (size_t off = 0; off < 16; ++off) {
      Exact e(m, off);
      const Val got = Get(a, e.view(), 42);
      c.step();
      MC_CHECK(c, got.a == want.a && got.b == want.b && got.c == want.c, a.name, " depends on alignment ", off, " length ", n);
    }
    const Val again = Get(a, m, 42);
    MC_CHECK(c, again.a == want.a && again.b == want.b && again.c == want.c, a.name, " differs on a second call, length ", n);
    c.state(mc::Fnv(a.name, want.a));
    c.heartbeat();
  }
  const Val e1 = Get(a, std::string_view(), 42), e2 = Get(a, std::string_view("", 0), 42);
  MC_CHECK(c, e1.a == e2.a && e1.b == e2.b && e1.c == e2.c, a.name, " distinguishes null and empty");
}
