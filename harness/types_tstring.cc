// Compile time strings against run time strings: all strings over a small alphabet, all pairs, all positions.
#include <map>
#include <sstream>
#include <unordered_set>
#include "lib/mc.h"
#include "mbo/types/tstring.h"

namespace {
using mbo::types::tstring;
using mbo::types::operator""_ts;
constexpr char kAlphabet[] = {PART == 0 ? 'a' : '\0', 'b'};
// All strings to a length, by index: 0 is empty, 1 and 2 have length 1, ...
constexpr int Len(int i) { int n = 0, first = 1; while (i >= first) { i -= first; first *= 2; ++n; } return n; }
constexpr int Rest(int i) { int first = 1; while (i >= first) { i -= first; first *= 2; } return i; }
template <int I>
constexpr auto Str() {
  return []<size_t... Is>(std::index_sequence<Is...>) { return tstring<kAlphabet[(Rest(I) >> Is) & 1]...>(); }(std::make_index_sequence<Len(I)>());
}
template <int I> using StrT = decltype(Str<I>());
template <int I> std::string Text() { std::string s; for (int k = 0; k < Len(I); ++k) s += kAlphabet[(Rest(I) >> k) & 1]; return s; }

constexpr int kMax = 31, kOther = 15;
#define NEED(...) MC_CHECK(c, (__VA_ARGS__), mc::Quote(t), " ", what, ": " #__VA_ARGS__)

template <int I>
void Single(mc::Ctx& c) {
  using S = StrT<I>;
  constexpr S s;
  const std::string t = Text<I>(), what = "alone";
  c.step();
  NEED(S::str() == t && s.size() == t.size() && s.length() == t.size() && s.empty() == t.empty() && sizeof(s) == 1);
  NEED(std::string(s.begin(), s.end()) == t && std::string(s.cbegin(), s.cend()) == t && std::string(s.rbegin(), s.rend()) == std::string(t.rbegin(), t.rend()) && std::string(s.crbegin(), s.crend()) == std::string(t.rbegin(), t.rend()));
  NEED(s.c_str()[t.size()] == 0 && std::string(s.c_str(), t.size()) == t && std::string_view(s) == t);
  std::ostringstream os;
  os << s;
  NEED(os.str() == t);
  if constexpr (Len(I) > 0) {
    NEED(s.front() == t.front() && s.back() == t.back());
  }
  for (size_t p = 0; p <= t.size() + 1; ++p) {
    for (size_t n = 0; n <= t.size() + 1; ++n) NEED(s.substr(p, n) == (p > t.size() ? "" : t.substr(p, n)));
    NEED(s.substr(p) == (p > t.size() ? "" : t.substr(p)) && s.substr(p, std::string::npos) == (p > t.size() ? "" : t.substr(p)));
  }
  auto at = [&]<size_t... Ps>(std::index_sequence<Ps...>) {
    auto sub = [&]<size_t P, size_t... Ns>(std::index_sequence<Ns...>) {
      auto one = [&](auto got, size_t n) { NEED(got.str() == (P > t.size() ? "" : t.substr(P, n))); };
      (one(s.template substr<P, Ns>(), Ns), ...);
      one(s.template substr<P>(), std::string::npos);
      one(s.template substr<P, S::npos>(), std::string::npos);
    };
    (sub.template operator()<Ps>(std::make_index_sequence<Len(I) + 2>()), ...);
  };
  at(std::make_index_sequence<Len(I) + 2>());
  for (size_t p = 0; p <= t.size() + 2; ++p) {
    const size_t from = p == t.size() + 2 ? std::string::npos : p;
    for (char ch : {kAlphabet[0], 'b', 'z'}) NEED(s.find_first_of(ch, from) == t.find_first_of(ch, from) && s.find_last_of(ch, from) == t.find_last_of(ch, from));
    for (const std::string& set : {std::string(), std::string("b"), std::string(1, kAlphabet[0]), std::string("xb") + kAlphabet[0], std::string("yz")})
      NEED(s.find_first_of(std::string_view(set), from) == t.find_first_of(set, from) && s.find_last_of(std::string_view(set), from) == t.find_last_of(set, from));
  }
  for (char ch : {kAlphabet[0], 'b', 'z'}) NEED(s.find_first_of(ch) == t.find_first_of(ch) && s.find_last_of(ch) == t.find_last_of(ch));
  NEED(s.find_first_of("b") == t.find_first_of("b") && s.find_last_of("b") == t.find_last_of("b"));
  NEED(S::Hash() == S::Hash() && std::hash<const S>{}(s) == S::Hash() && std::hash<S>{}(s) == S::Hash() && S::StringHash() == mbo::hash::GetHash64(std::string_view(t)) && S::Hash() != S::StringHash());
  NEED(s == s && s == t && t == s && s == std::string_view(t) && !(s != t) && s == Str<I>() && S::is(Str<I>()));
  std::unordered_set<S> set{s};
  NEED(set.contains(s));
  c.state(t);
}
template <int I, int J>
void Pair(mc::Ctx& c) {
  constexpr auto s = Str<I>();
  constexpr auto o = Str<J>();
  const std::string t = Text<I>(), u = Text<J>(), what = "with " + mc::Quote(u);
  c.step();
  NEED(s.starts_with(o) == t.starts_with(u) && s.ends_with(o) == t.ends_with(u));
  NEED(s.find(o) == t.find(u) && s.rfind(o) == t.rfind(u) && s.contains(o) == (t.find(u) != std::string::npos));
  static_assert(s.find(o) == s.str().find(o.str()) && s.rfind(o) == s.str().rfind(o.str()));
  NEED((s == o) == (t == u) && (s != o) == (t != u) && s.is(o) == (t == u));
  NEED((s < o) == (t < u) && (s <= o) == (t <= u) && (s > o) == (t > u) && (s >= o) == (t >= u) && (s <=> o) == (t <=> u));
  NEED((s < u) == (t < u) && (s <= u) == (t <= u) && (s > u) == (t > u) && (s >= u) == (t >= u) && (s == u) == (t == u) && (u == s) == (t == u) && (u < s) == (u < t) && (s <=> u) == (t <=> u));
  NEED((s < std::string_view(u)) == (t < u) && (std::string_view(u) <= s) == (u <= t) && (s.compare(u) < 0) == (t < u) && (s.compare(u) == 0) == (t == u));
#if PART == 0
  NEED((s == u.c_str()) == (t == u) && (s < u.c_str()) == (t < u) && (u.c_str() > s) == (u > t));
#endif
  constexpr auto sum = s + o;
  NEED(sum.str() == t + u && sum.size() == (t + u).size() && sum.starts_with(s) && sum.ends_with(o));
  NEED((s.Hash() == o.Hash()) == (t == u));
}
using Fn = void (*)(mc::Ctx&);
template <typename F> std::vector<Fn> All();
MC_SECTION(single) {
  static const auto fns = []<size_t... Is>(std::index_sequence<Is...>) { return std::vector<Fn>{&Single<int(Is)>...}; }(std::make_index_sequence<kMax>());
  fns[c.choose(fns.size())](c);
}
MC_SECTION(pair) {
  static const auto fns = []<size_t... Is>(std::index_sequence<Is...>) { return std::vector<Fn>{&Pair<int(Is / kOther), int(Is % kOther)>...}; }(std::make_index_sequence<kMax * kOther>());
  fns[c.choose(fns.size())](c);
}
// Every way to write one, every byte value.
constexpr char kNamed[] = "name\xff\x80";
template <size_t... Bs>
constexpr auto AllBytes(std::index_sequence<Bs...>) { return tstring<char(Bs)...>(); }
MC_SECTION(literals) {
  const std::string t, what = "literal";
  NEED(""_ts.str().empty() && "a\0b"_ts.str() == std::string_view("a\0b", 3) && "\xff\n\"\\"_ts.str() == "\xff\n\"\\");
  NEED(MBO_MAKE_TSTRING("").str().empty() && MBO_MAKE_TSTRING("a\0b").str() == std::string_view("a\0b", 3) && MBO_MAKE_TSTRING("ab") == "ab"_ts);
  NEED(mbo::types::make_tstring<kNamed>().str() == kNamed && mbo::types::make_tstring<kNamed>() == "name\xff\x80"_ts);
  NEED("\x7f"_ts < "\x80"_ts && "\xff"_ts > "a"_ts && !("\xff"_ts < "\x01"_ts));
  constexpr auto all = AllBytes(std::make_index_sequence<256>());
  NEED(all.size() == 256);
  for (int b = 0; b < 256; ++b) NEED(all.find_first_of(char(b)) == size_t(b) && all.find_last_of(char(b)) == size_t(b) && (unsigned char)(all.str()[b]) == b && all.find_last_of(std::string_view(&all.str()[b], 1)) == size_t(b));
}
// Longer ones: a mark at every interesting place of strings across lengths, and something to look for.
template <size_t N, size_t P>
constexpr auto Marked() { return []<size_t... Is>(std::index_sequence<Is...>) { return tstring<(Is == P ? 'x' : 'a')...>(); }(std::make_index_sequence<N>()); }
template <size_t N, size_t P>
void Long(mc::Ctx& c) {
  constexpr auto s = Marked<N, P>();
  std::string t(N, 'a');
  t[P] = 'x';
  auto look = [&](auto o) {
    const std::string u(o.str()), what = "with " + mc::Quote(u);
    c.step();
    NEED(s.find(o) == t.find(u) && s.rfind(o) == t.rfind(u) && s.contains(o) == (t.find(u) != std::string::npos) && s.starts_with(o) == t.starts_with(u) && s.ends_with(o) == t.ends_with(u));
    NEED((s < o) == (t < u) && (s == o) == (t == u) && (s + o).str() == t + u && (o + s).str() == u + t);
  };
  look(""_ts), look("x"_ts), look("xa"_ts), look("ax"_ts), look("aa"_ts), look("axa"_ts), look("b"_ts), look(Marked<N, 0>()), look(Marked<N, N - 1>()), look(Marked<N - 1, N - 2>()), look(Marked<N + 1, N>());
  const std::string what = "alone";
  NEED(s.str() == t && s.size() == N && s.find_first_of('x') == P && s.find_last_of('x') == P && s.find_last_of("a") == t.find_last_of('a') && s.front() == t.front() && s.back() == t.back() && std::string(s.begin(), s.end()) == t);
  for (size_t p = 0; p <= N; ++p) NEED(s.substr(p) == t.substr(p) && s.substr(0, p) == t.substr(0, p) && s.find_first_of('x', p) == t.find_first_of('x', p) && s.find_last_of('x', p) == t.find_last_of('x', p));
  c.state(t);
}
MC_SECTION(longer) {
#if PART == 0
  static const std::vector<Fn> fns = {
#define AT(N) &Long<N, 0>, &Long<N, 1>, &Long<N, N / 2>, &Long<N, N - 2>, &Long<N, N - 1>
      AT(7), AT(8), AT(9), AT(15), AT(16), AT(17), AT(22), AT(23), AT(24), AT(31), AT(32), AT(33), AT(47), AT(63), AT(64), AT(65), AT(100)};
  fns[c.choose(fns.size())](c);
#endif
}
}  // namespace
