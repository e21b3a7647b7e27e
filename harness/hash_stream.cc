// Hash streaming: any chunking of any message gives the one-shot value; Finalize only peeks.
#include "lib/mc.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"

namespace {
namespace mh = mbo::hash;
std::string Message(size_t n) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>((i * 0x9E3779B1u) >> 12);
  return m;
}
struct Piece {
  std::vector<char> b;
  explicit Piece(std::string_view v) : b(v.begin(), v.end()) { b.shrink_to_fit(); }
  std::string_view view() const { return {b.data(), b.size()}; }
};
template <typename A>
struct Test {
  using S = mh::Streamer<A>;
  mc::Ctx& c;
  const char* name;
  size_t window;
  uint64_t seed;
  std::string msg;
  std::vector<uint64_t> want;

  void Prepare(size_t n) {
    msg = Message(n);
    want.resize(n + 1);
    for (size_t i = 0; i <= n; ++i) {
      Piece p(std::string_view(msg).substr(0, i));
      want[i] = A::GetHash64(p.view(), seed);
    }
  }
  void Check(const S& s, size_t n, const std::string& how) {
    const uint64_t got = s.Finalize();
    MC_CHECK(c, got == want[n], name, " seed ", seed, " after updates ", how, " (", n, " bytes): ", got, " one-shot ", want[n]);
  }
  void Walk(const S& s, size_t pos, int depth, const std::vector<size_t>& alphabet, const std::string& how) {
    c.heartbeat();
    Check(s, pos, how);
    c.state(mc::Fnv(how, pos));
    if (depth == 0) return;
    for (size_t n : alphabet) {
      if (pos + n > msg.size()) continue;
      S next = s;
      {
        Piece p(std::string_view(msg).substr(pos, n));
        next.Update(p.view());
      }
      c.step();
      Walk(next, pos + n, depth - 1, alphabet, how + "+" + std::to_string(n));
    }
    Check(s, pos, how + " again");
  }
  void Sequences() {
    const size_t w = window;
    const std::vector<size_t> alphabet = w <= 32 ? std::vector<size_t>{0, 1, 3, 7, 8, 9, w - 1, w, w + 1, 2 * w + 5}
                                                 : std::vector<size_t>{0, 1, 15, 16, 17, w / 2, w - 1, w, w + 1, 2 * w - 1, 2 * w + 5};
    const size_t first = alphabet[c.choose(static_cast<int>(alphabet.size()))];
    const int depth = mc::Tier(4, 5) - 1;
    Prepare((2 * w + 5) * (depth + 1));
    S s(seed);
    Check(s, 0, "");
    Piece p(std::string_view(msg).substr(0, first));
    s.Update(p.view());
    Walk(s, first, depth, alphabet, std::to_string(first));
    c.sample(mc::Cat(name, " all sequences of ", depth + 1, " updates starting with ", first));
  }
  void Splits() {
    const size_t span = 2 * window + 20;
    Prepare(2 * span);
    for (size_t a = c.choose(8); a < span; a += 8) {
      S s(seed);
      Piece p(std::string_view(msg).substr(0, a));
      s.Update(p.view());
      Check(s, a, mc::Cat(a));
      for (size_t b = 0; b < span; ++b) {
        S t = s;
        Piece q(std::string_view(msg).substr(a, b));
        t.Update(q.view());
        c.step();
        c.state(a * 100000 + b);
        Check(t, a + b, mc::Cat(a, "+", b));
      }
      c.heartbeat();
    }
  }
  void Bytes() {
    Prepare(6 * window);
    const int piece = 1 + c.choose(17);
    S s(seed);
    for (size_t i = 0; i + piece <= msg.size(); i += piece) {
      s.Update(std::string_view(msg).substr(i, piece));
      c.step();
      Check(s, i + piece, mc::Cat(piece, " bytes at a time"));
    }
    S d;
    d.Update(std::string_view(msg).substr(0, 3)).Update(std::string_view()).Update(std::string_view(msg).substr(3, 70));
    MC_CHECK(c, d.Finalize() == A::GetHash64(std::string_view(msg).substr(0, 73), mh::kDefaultSeed), name, " default seed, chained");
    auto st = A::StreamInit(seed);
    A::StreamUpdate(st, std::string_view(msg).substr(0, piece));
    A::StreamUpdate(st, std::string_view(msg).substr(piece, window));
    MC_CHECK(c, A::StreamFinalize(st) == want[piece + window] && A::StreamFinalize(st) == want[piece + window], name, " static interface");
  }
};
template <typename A>
void Run(mc::Ctx& c, const char* name, size_t window) {
  static const uint64_t kSeeds[] = {0, 5381, 0x8000000000000001ULL};
  Test<A> t{c, name, window, kSeeds[c.choose(3)], {}, {}};
  switch (c.choose(3)) {
    case 0: return t.Sequences();
    case 1: return t.Splits();
    default: return t.Bytes();
  }
}
}  // namespace

MC_SECTION_D(chunkings, 4) {
  switch (c.choose(4)) {
    case 0: return Run<mh::mumbo::Algorithm>(c, "mumbo", 128);
    case 1: return Run<mh::siphash::Algorithm>(c, "siphash", 8);
    case 2: return Run<mh::xxh64::Algorithm>(c, "xxh64", 32);
    default: return Run<mh::jumbo::Algorithm>(c, "jumbo", 128);
  }
}
