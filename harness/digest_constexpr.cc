// Digests evaluated by the compiler (one-shot, streamed, HMAC, hex) equal those of the reference at run time.
#include "lib/mc.h"
#include "harness/digest_ref.h"
#include "mbo/digest/digest.h"
namespace {
namespace md = mbo::digest;
constexpr size_t kMax = 1300;
constexpr std::array<char, kMax> kMsg = [] {
  std::array<char, kMax> m{};
  for (size_t i = 0; i < kMax; ++i) m[i] = static_cast<char>((i * 0x9E3779B1u + 5) >> 13);
  return m;
}();
constexpr std::string_view View(size_t n) { return {kMsg.data(), n}; }
template <typename T>
std::string Str(const T& d) {
  return {reinterpret_cast<const char*>(d.data()), d.size()};
}
constexpr size_t kN = 10;
constexpr std::array<size_t, kN> Lens(size_t b) { return {0, 1, b / 2 - 9, b / 2 + 8, b - 17, b - 9, b - 1, b, b + 1, 2 * b + 3}; }
template <typename A>
using D = decltype(A::Digest(std::string_view()));
template <typename A>
constexpr D<A> Streamed(size_t n, size_t piece) {
  md::Streamer<A> s;
  for (size_t i = 0; i < n; i += piece) s.Update(std::string_view(kMsg.data() + i, n - i < piece ? n - i : piece));
  return s.Finalize();
}
template <typename A, size_t B>
constexpr std::array<D<A>, kN + 1> kOne = [] {
  std::array<D<A>, kN + 1> t{};
  for (size_t i = 0; i < kN; ++i) t[i] = A::Digest(View(Lens(B)[i]));
  t[kN] = A::Digest(View(1100));
  return t;
}();
template <typename A, size_t B>
constexpr std::array<D<A>, 4> kStream = [] {
  std::array<D<A>, 4> t{};
  const size_t p[] = {1, 7, B - 1, B + 1};
  for (size_t i = 0; i < 4; ++i) t[i] = Streamed<A>(2 * B + 5, p[i]);
  return t;
}();
template <typename A, size_t B, size_t S>
void Compare(mc::Ctx& c, const char* name) {
  const size_t i = c.choose(kN + 5);
  c.step();
  if (i <= kN) {
    const size_t n = i == kN ? 1100 : Lens(B)[i];
    const std::string want = ref::Digest(name, S, View(n));
    MC_CHECK(c, Str(kOne<A, B>[i]) == want, name, " of ", n, " bytes at compile time");
    volatile size_t vn = n;
    MC_CHECK(c, Str(A::Digest(View(vn))) == want, name, " of ", n, " bytes at run time");
    c.state(want);
  } else {
    MC_CHECK(c, Str(kStream<A, B>[i - kN - 1]) == ref::Digest(name, S, View(2 * B + 5)), name, " streamed at compile time, piece #", i - kN - 1);
  }
}
template <typename A, size_t B>
constexpr std::array<D<A>, 4> kMac = [] {
  std::array<D<A>, 4> t{};
  t[0] = md::Hmac<A>::Digest(View(5), View(70));
  t[1] = md::Hmac<A>::Digest(View(B), View(0));
  t[2] = md::Hmac<A>::Digest(View(B + 1), View(B));
  t[3] = md::Hmac<A>::Digest(View(0), View(3));
  return t;
}();
}  // namespace
MC_SECTION(tables) {
  int k = c.choose(19);
#define X(n, s, b, A) if (k-- == 0) return Compare<A, b, s>(c, n);
  DIGEST_ALGOS(X)
}
MC_SECTION(extras) {
  const int i = c.choose(4);
  static const size_t kK[] = {5, 64, 65, 0}, kM[] = {70, 0, 64, 3};
  static const size_t kK2[] = {5, 128, 129, 0}, kM2[] = {70, 0, 128, 3};
  MC_CHECK(c, (Str(kMac<md::sha256::Algorithm, 64>[i]) == ref::Hmac("sha256", 32, 64, View(kK[i]), View(kM[i]))), "HMAC-SHA256 at compile time ", i);
  MC_CHECK(c, (Str(kMac<md::sha512::Algorithm, 128>[i]) == ref::Hmac("sha512", 64, 128, View(kK2[i]), View(kM2[i]))), "HMAC-SHA512 at compile time ", i);
}
