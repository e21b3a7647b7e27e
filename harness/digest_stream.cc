// Streaming == one-shot for every partition; Finalize is a pure peek; copies are independent.
#include "lib/mc.h"
#include "harness/digest_ref.h"
#include "mbo/digest/digest.h"

namespace {
std::string Message(size_t n) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>((i * 0x9E3779B1u) >> 12);
  return m;
}
template <typename D>
std::string Str(const D& d) {
  return std::string(reinterpret_cast<const char*>(d.data()), d.size());
}
// An exact-size heap copy that is destroyed after the call: the streamer must not keep or overrun it.
struct Piece {
  std::vector<char> b;
  explicit Piece(std::string_view v) : b(v.begin(), v.end()) { b.shrink_to_fit(); }
  std::string_view view() const { return {b.data(), b.size()}; }
};

template <typename A>
struct Test {
  using S = mbo::digest::Streamer<A>;
  mc::Ctx& c;
  const char* name;
  size_t size, block;
  std::string msg;
  std::vector<std::string> want;  // digest of every prefix (reference), filled lazily

  const std::string& Want(size_t n) {
    if (want[n].empty()) want[n] = ref::Digest(name, size, std::string_view(msg).substr(0, n));
    return want[n];
  }
  void Check(const S& s, size_t n, const std::string& how) {
    const std::string got = Str(s.Finalize());
    MC_CHECK(c, got == Want(n), name, "/", size, " after updates ", how, " (", n, " bytes) got ",
             mc::Hex(got.data(), got.size()), " want ", mc::Hex(Want(n).data(), size));
  }

  // Depth-first over all sequences of piece sizes; the state is copied at each branch.
  void Walk(const S& s, size_t pos, int depth, const std::vector<size_t>& alphabet, const std::string& how) {
    c.heartbeat();
    Check(s, pos, how);
    c.state(mc::Fnv(how, pos));
    if (depth == 0) return;
    for (size_t n : alphabet) {
      if (pos + n > msg.size()) continue;
      S next = s;
      {
        Piece p(std::string_view(msg).substr(pos, n));
        next.Update(p.view());
      }
      c.step();
      Walk(next, pos + n, depth - 1, alphabet, how + "+" + std::to_string(n));
    }
    Check(s, pos, how + " (again, after copies of it went on)");
  }

  void Sequences() {
    const size_t b = block;
    std::vector<size_t> alphabet = {0, 1, b - 1, b, b + 1, 2 * b - 1, 3 * b + 2};
    if (std::string(name) == "blake3") alphabet = {0, 1, 63, 64, 65, 960, 1023, 1024, 1025, 2049, 3072};
    const size_t first = alphabet[c.choose(static_cast<int>(alphabet.size()))];
    const int depth = mc::Tier(5, 6) - 1 - (alphabet.size() > 8 ? 1 : 0);
    msg = Message(6 * *std::max_element(alphabet.begin(), alphabet.end()) + 8);
    want.resize(msg.size() + 1);
    S s;
    Check(s, 0, "");
    Piece p(std::string_view(msg).substr(0, first));
    s.Update(p.view());
    Walk(s, first, depth, alphabet, std::to_string(first));
    c.sample(mc::Cat(name, "/", size, " all sequences of ", depth + 1, " updates starting with ", first, " bytes"));
  }

  // Every split point pair within [0, span)^2, peeking in between.
  void Splits() {
    const size_t span = std::string(name) == "blake3" ? mc::Tier(160, 1100) : mc::Tier<size_t>(block + 3, 2 * block + 3);
    const size_t step = 8;
    msg = Message(2 * span + 2);
    want.resize(msg.size() + 1);
    for (size_t a = c.choose(static_cast<int>(step)); a < span; a += step) {
      S s;
      Piece p(std::string_view(msg).substr(0, a));
      s.Update(p.view());
      Check(s, a, mc::Cat(a));
      for (size_t b = 0; b < span; ++b) {
        S t = s;
        Piece q(std::string_view(msg).substr(a, b));
        t.Update(q.view());
        c.step();
        c.heartbeat();
        c.state(a * 100000 + b);
        Check(t, a + b, mc::Cat(a, "+", b));
      }
    }
  }

  // One byte at a time, with a peek at every length.
  void Bytes() {
    const size_t span = std::string(name) == "blake3" ? 3300 : 5 * block;
    msg = Message(span);
    want.resize(msg.size() + 1);
    S s;
    for (size_t i = 0; i < span; ++i) {
      s.Update(std::string_view(msg).substr(i, 1));
      c.step();
      c.heartbeat();
      Check(s, i + 1, mc::Cat(i + 1, " single bytes"));
    }
    // chaining returns the same streamer, and updating with nothing changes nothing
    S t;
    t.Update(std::string_view(msg).substr(0, 3)).Update(std::string_view()).Update(std::string_view(msg).substr(3, 70));
    Check(t, 73, "3+null+70 chained");
    // the concept level functions behave the same
    auto st = A::StreamInit();
    A::StreamUpdate(st, std::string_view(msg).substr(0, 10));
    A::StreamUpdate(st, std::string_view(msg).substr(10, block));
    MC_CHECK(c, Str(A::StreamFinalize(st)) == Want(10 + block), name, " StreamInit/StreamUpdate/StreamFinalize");
    MC_CHECK(c, Str(A::StreamFinalize(st)) == Want(10 + block), name, " StreamFinalize twice");
  }
};

template <typename A>
void Run(mc::Ctx& c, const char* name, size_t size, size_t block) {
  Test<A> t{c, name, size, block, {}, {}};
  MC_CHECK(c, A::kDigestSize == size, name, " kDigestSize");
  MC_CHECK(c, A::kBlockSize == block, name, " kBlockSize");
  switch (c.choose(3)) {
    case 0: return t.Sequences();
    case 1: return t.Splits();
    default: return t.Bytes();
  }
}
#define X(n, s, b, A) {n, s, b, &Run<A>},
struct Entry {
  const char* name;
  size_t size, block;
  void (*run)(mc::Ctx&, const char*, size_t, size_t);
};
const Entry kAlgos[] = {DIGEST_ALGOS(X)};
}  // namespace

MC_SECTION_D(partitions, 3) {
  const Entry& e = kAlgos[c.choose(std::size(kAlgos))];
  e.run(c, e.name, e.size, e.block);
}
