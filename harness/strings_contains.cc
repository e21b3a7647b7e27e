// Contains(): a needle is contained exactly when it occurs, for every haystack and needle over an alphabet with NUL.
#include "lib/mc.h"
#include <memory>
#include "mbo/strings/contains.h"

namespace {
const char kAlpha[] = {'a', 'b', '\0', '\xff'};
std::string Nth(size_t n, int len, int k) { std::string s(len, 0); for (char& ch : s) ch = kAlpha[n % k], n /= k; return s; }
size_t Pow(size_t b, int e) { size_t r = 1; while (e--) r *= b; return r; }
bool Occurs(const std::string& h, const std::string& n) {
  for (size_t i = 0; i + n.size() <= h.size(); ++i) {
    bool same = true;
    for (size_t j = 0; j < n.size(); ++j) same = same && h[i + j] == n[j];
    if (same) return true;
  }
  return false;
}
struct Exact {  // exact-size heap copy: one byte beyond is caught
  std::unique_ptr<char[]> p; size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
  std::string_view sv() const { return {p.get(), n}; }
};
constexpr std::string_view kText("ab\0a\xff" "bb", 7);
template <size_t... I>
constexpr std::array<bool, sizeof...(I)> Table(std::index_sequence<I...>) {
  return {mbo::strings::Contains(kText.substr(0, I / 64), kText.substr(I / 8 % 8 > I / 64 ? I / 64 : I / 8 % 8, I % 8))...};
}
constexpr auto kTable = Table(std::make_index_sequence<512>());
template <size_t... I>
constexpr std::array<bool, sizeof...(I)> CharTable(std::index_sequence<I...>) { return {mbo::strings::Contains(kText, static_cast<char>(I))...}; }
constexpr auto kChars = CharTable(std::make_index_sequence<256>());
}  // namespace

MC_SECTION(strings) {
  const int k = 3 + c.choose(2);  // alphabets {a,b,NUL} and with 0xff
  const int hl = c.choose(mc::Tier(k == 3 ? 7 : 6, k == 3 ? 9 : 7));
  for (size_t i = 0; i < Pow(k, hl); ++i) {
    const std::string h = Nth(i, hl, k);
    const Exact eh(h);
    for (int nl = 0; nl <= (hl < 5 ? hl + 1 : 4); ++nl)
      for (size_t j = 0; j < Pow(k, nl); ++j) {
        const std::string n = Nth(j, nl, k);
        const Exact en(n);
        c.step();
        MC_CHECK(c, mbo::strings::Contains(eh.sv(), en.sv()) == Occurs(h, n), mc::Quote(n), " in ", mc::Quote(h));
      }
    for (char ch : kAlpha) MC_CHECK(c, mbo::strings::Contains(eh.sv(), ch) == Occurs(h, std::string(1, ch)), "character ", int(ch), " in ", mc::Quote(h));
    if ((i & 63) == 0) c.heartbeat();
    c.state(mc::Fnv(h));
  }
}
MC_SECTION_D(bytes, 1) {  // every byte against every byte, at every position of strings up to 40 long
  const int b = c.choose(256);
  for (int x = 0; x < 256; ++x) {
    const char h[1] = {static_cast<char>(x)};
    MC_CHECK(c, mbo::strings::Contains(std::string_view(h, 1), static_cast<char>(b)) == (x == b), "byte ", b, " in ", x);
  }
  for (int len = 1; len <= 40; ++len)
    for (int pos = 0; pos < len; ++pos) {
      std::string h(len, static_cast<char>(b + 1));
      h[pos] = static_cast<char>(b);
      const Exact e(h);
      c.step();
      MC_CHECK(c, mbo::strings::Contains(e.sv(), static_cast<char>(b)), "byte ", b, " at ", pos, " of ", len);
      MC_CHECK(c, !mbo::strings::Contains(e.sv().substr(pos + 1), static_cast<char>(b)), "byte ", b, " after ", pos, " of ", len);
      MC_CHECK(c, mbo::strings::Contains(e.sv(), e.sv().substr(pos)) && mbo::strings::Contains(e.sv(), e.sv().substr(0, pos)), "part");
    }
  c.state(b);
}
MC_SECTION_D(null_views_and_constants, 0) {
  MC_CHECK(c, mbo::strings::Contains(std::string_view(), std::string_view()), "empty in empty");
  MC_CHECK(c, mbo::strings::Contains("x", std::string_view()) && !mbo::strings::Contains(std::string_view(), "x"), "null views");
  MC_CHECK(c, !mbo::strings::Contains(std::string_view(), '\0'), "NUL in nothing");
  for (size_t i = 0; i < 512; ++i) {
    const std::string h(kText.substr(0, i / 64)), n(kText.substr(i / 8 % 8 > i / 64 ? i / 64 : i / 8 % 8, i % 8));
    MC_CHECK(c, kTable[i] == Occurs(h, n), "compile time: ", mc::Quote(n), " in ", mc::Quote(h));
  }
  for (int i = 0; i < 256; ++i) MC_CHECK(c, kChars[i] == Occurs(std::string(kText), std::string(1, static_cast<char>(i))), "compile time: character ", i);
  c.step(770);
  c.state(1);
}
