// Extended types against the tuples of their fields: all pairs of values, all sets of extenders.
#include <limits>
#include <map>
#include <sstream>
#include <unordered_set>
#include "lib/mc.h"
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "mbo/types/extend.h"
#include "mbo/types/stringify.h"

namespace {
using mbo::types::Extend;
using mbo::types::ExtendNoDefault;
using mbo::types::ExtendNoPrint;
using mbo::types::Stringify;
namespace ex = mbo::types::extender;

// One extended and one plain type of the same fields.
#define FIELDS1 int a;
#define FIELDS2 std::string a; int b;
#define FIELDS3 double a; std::string b; bool c;
#define FIELDS5 int a; char b; std::string c; int d; int e;
#define FIELDS6 int a; int b; int c; int d; int e; int f;
#define BOTH(n) struct E##n : Extend<E##n> { FIELDS##n }; struct P##n { FIELDS##n }; struct N##n : ExtendNoPrint<N##n> { FIELDS##n };
BOTH(1) BOTH(2) BOTH(3) BOTH(5) BOTH(6)
struct Nested : Extend<Nested> { E2 e; int n; };
struct Holds : Extend<Holds> { std::vector<int> v; std::optional<int> o; std::pair<int, int> p; };
template <typename T, typename... A> T Make(std::tuple<A...> t) { return T::ConstructFromTuple(std::move(t)); }
template <typename P, typename... A> P Plain(const std::tuple<A...>& t) { return std::apply([](const auto&... a) { return P{a...}; }, t); }

template <typename A, typename B, typename T>
void Same(mc::Ctx& c, const A& a, const B& b, const T& ta, const T& tb, const std::string& what) {
  c.step();
  MC_CHECK(c, (a == b) == (ta == tb) && (b == a) == (ta == tb), what, ": ==");
  MC_CHECK(c, (a != b) == (ta != tb) && (b != a) == (ta != tb), what, ": !=");
  MC_CHECK(c, (a < b) == (ta < tb) && (b < a) == (tb < ta), what, ": <");
  MC_CHECK(c, (a <= b) == (ta <= tb) && (b <= a) == (tb <= ta), what, ": <=");
  MC_CHECK(c, (a > b) == (ta > tb) && (b > a) == (tb > ta), what, ": >");
  MC_CHECK(c, (a >= b) == (ta >= tb) && (b >= a) == (tb >= ta), what, ": >=");
  MC_CHECK(c, (a <=> b) == (ta <=> tb), what, ": <=>");
}
template <typename E, typename P, typename N, typename T>
void Pair(mc::Ctx& c, const T& ta, const T& tb, bool self) {
  const std::string what = mc::Cat("fields ", std::tuple_size_v<T>);
  const E a = Make<E>(ta), b = Make<E>(tb);
  Same(c, a, b, ta, tb, what);
  Same(c, a, Plain<P>(tb), ta, tb, what + " plain");
  Same(c, a, tb, ta, tb, what + " tuple");
  const N n = Make<N>(ta), m = Make<N>(tb);
  Same(c, n, m, ta, tb, what + " without print");
  MC_CHECK(c, ta != tb || (absl::HashOf(a) == absl::HashOf(b) && absl::HashOf(n) == absl::HashOf(m)), what, ": equal values hash differently");
  MC_CHECK(c, (absl::HashOf(a) == absl::HashOf(b)) == (absl::HashOf(ta) == absl::HashOf(tb)), what, ": hash does not follow the fields");
  MC_CHECK(c, std::hash<E>{}(a) == absl::HashOf(a) && std::hash<N>{}(n) == absl::HashOf(n), what, ": std::hash differs");
  if (!self) return;
  // Made in all ways, looked at in all ways.
  MC_CHECK(c, !(ta == ta) || (std::apply([](const auto&... f) { return E::ConstructFromArgs(f...); }, ta) == a && std::apply([](auto... f) { return E::ConstructFromArgs(std::move(f)...); }, ta) == a), what, ": from arguments");
  const std::string text = Stringify().ToString(a);
  std::ostringstream os;
  os << a;
  MC_CHECK(c, a.ToString() == text && os.str() == text && absl::StrFormat("%v", a) == text && absl::StrCat(a) == text, what, ": texts differ: ", text, " ", a.ToString(), " ", os.str(), " ", absl::StrCat(a));
  MC_CHECK(c, a.ToJsonString() == Stringify::AsJson().ToString(a) && a.ToString(Stringify::OptionsCpp()) == Stringify::AsCpp().ToString(a), what, ": options ignored");
  MC_CHECK(c, absl::StrCat(n) == Stringify().ToString(n), what, ": text without print");
  std::unordered_set<E> set{a};
  MC_CHECK(c, !(ta == ta) || set.contains(a), what, ": not found in set");
  c.state(text);
}
const std::vector<int> kInts = {0, -1, 2, std::numeric_limits<int>::max()};
const std::vector<std::string> kTexts = {"", "a", "b\"\n"};
MC_SECTION(one) {
  std::tuple<int> a{c.pick(kInts)}, b{c.pick(kInts)};
  Pair<E1, P1, N1>(c, a, b, a == b);
}
MC_SECTION(two) {
  std::tuple<std::string, int> a{c.pick(kTexts), c.pick(kInts)}, b{c.pick(kTexts), c.pick(kInts)};
  Pair<E2, P2, N2>(c, a, b, a == b);
}
MC_SECTION(three) {
  const std::vector<double> ds = {0.0, -0.0, 1.5, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
  std::tuple<double, std::string, bool> a{c.pick(ds), c.pick(kTexts), c.flip()}, b{c.pick(ds), c.pick(kTexts), c.flip()};
  if (std::get<0>(a) == 0 && std::get<0>(b) == 0 && std::signbit(std::get<0>(a)) != std::signbit(std::get<0>(b))) std::get<0>(b) = std::get<0>(a);
  Pair<E3, P3, N3>(c, a, b, a == b);
}
MC_SECTION(five) {
  auto val = [&] { return std::tuple<int, char, std::string, int, int>{c.choose(2), char('x' + c.choose(2)), c.flip() ? "s" : "t", c.choose(2), c.choose(2)}; };
  auto a = val(), b = val();
  Pair<E5, P5, N5>(c, a, b, a == b);
}
MC_SECTION(six) {
  auto val = [&] { std::tuple<int, int, int, int, int, int> t; std::apply([&](auto&... f) { ((f = c.choose(2)), ...); }, t); return t; };
  auto a = val(), b = val();
  Pair<E6, P6, N6>(c, a, b, a == b);
}
MC_SECTION(nested) {
  auto val = [&](std::tuple<std::string, int, int>& t) { t = {c.pick(kTexts), c.pick(kInts), c.choose(2)}; Nested n; n.e = E2::ConstructFromArgs(std::get<0>(t), std::get<1>(t)); n.n = std::get<2>(t); return n; };
  std::tuple<std::string, int, int> ta, tb;
  const Nested a = val(ta), b = val(tb);
  Same(c, a, b, ta, tb, "nested");
  MC_CHECK(c, (absl::HashOf(a) == absl::HashOf(b)) == (ta == tb), "nested hash");
  MC_CHECK(c, a.ToString() == Stringify().ToString(a), "nested text");
}
MC_SECTION(containers) {
  auto val = [&](auto& t) {
    std::vector<int> v(c.choose(3));
    for (int& i : v) i = c.choose(2);
    std::optional<int> o;
    if (c.flip()) o = c.choose(2);
    t = {v, o, {c.choose(2), c.choose(2)}};
    return Holds::ConstructFromArgs(v, o, std::get<2>(t));
  };
  std::tuple<std::vector<int>, std::optional<int>, std::pair<int, int>> ta, tb;
  const Holds a = val(ta), b = val(tb);
  Same(c, a, b, ta, tb, "containers");
  MC_CHECK(c, ta != tb || absl::HashOf(a) == absl::HashOf(b), "containers hash");
}
// Conversions field by field.
MC_SECTION(conversions) {
  const int i = c.pick(kInts);
  const std::string s = c.pick(kTexts);
  const E2 e = E2::ConstructFromConversions(std::string_view(s), static_cast<long>(i));
  MC_CHECK(c, e.a == s && e.b == i, "conversion");
  const E2 f = E2::ConstructFromConversions(s.c_str(), static_cast<double>(i % 1000));
  MC_CHECK(c, f.a == s && f.b == i % 1000, "conversion from double");
  std::string movable = s;
  const E2 g = E2::ConstructFromArgs(std::move(movable), int(i));
  MC_CHECK(c, g.a == s && g.b == i, "moved");
  const E2 h = E2::ConstructFromTuple(std::tuple<std::string, int>(s, i));
  MC_CHECK(c, h == g, "tuple");
}
// All sets of extenders offer what they name and nothing else.
template <typename T> concept Prints = requires(const T& t) { { t.ToString() } -> std::same_as<std::string>; };
template <typename T> concept Streams = requires(std::ostream& o, const T& t) { o << t; };
template <typename T> concept Compares = requires(const T& t) { t < t; t == t; t <=> t; };
template <typename T> concept Hashes = requires(const T& t) { std::hash<T>{}(t); };
template <typename T> concept Formats = absl::HasAbslStringify<T>::value;
template <typename... X> struct Set { struct S : ExtendNoDefault<S, X...> { int a; std::string b; }; };
template <typename X, typename... Xs> constexpr bool kIn = (std::same_as<X, Xs> || ...);
template <typename... Xs>
void One(mc::Ctx& c) {
  using S = typename Set<Xs...>::S;
  const std::string what = mc::Cat("set of ", sizeof...(Xs));
  c.step();
  MC_CHECK(c, Prints<S> == (kIn<ex::Printable, Xs...>), what, ": printing ", Prints<S>);
  MC_CHECK(c, Streams<S> == (kIn<ex::Streamable, Xs...>), what, ": streaming ", Streams<S>);
  MC_CHECK(c, Compares<S> == (kIn<ex::Comparable, Xs...>), what, ": comparing ", Compares<S>);
  MC_CHECK(c, Hashes<S> == (kIn<ex::AbslHashable, Xs...>), what, ": hashing ", Hashes<S>);
  MC_CHECK(c, Formats<S> == (kIn<ex::AbslStringify, Xs...>), what, ": formatting ", Formats<S>);
  MC_CHECK(c, mbo::types::IsExtended<S>, what, ": not extended");
  const auto names = S::RegisteredExtenderNames();
  MC_CHECK(c, (std::vector<std::string_view>(names.begin(), names.end()) == std::vector<std::string_view>{Xs::GetExtenderName()...}), what, ": names");
  const S a = S::ConstructFromArgs(1, std::string("x")), b = S::ConstructFromArgs(1, std::string("y"));
  MC_CHECK(c, a.a == 1 && b.b == "y", what, ": construction");
  if constexpr (Compares<S>) MC_CHECK(c, a < b && !(b < a) && a == a && a != b && a <= b && b > a, what, ": order");
  if constexpr (Hashes<S>) MC_CHECK(c, std::hash<S>{}(a) == std::hash<S>{}(S(a)) && std::hash<S>{}(a) == absl::HashOf(a), what, ": hash");
  std::string text;
  if constexpr (Formats<S>) { text = absl::StrCat(a); MC_CHECK(c, text.find('1') != std::string::npos && text.find("\"x\"") != std::string::npos, what, ": text ", text); }
  if constexpr (Prints<S>) MC_CHECK(c, a.ToString() == text, what, ": print ", a.ToString());
  if constexpr (Streams<S>) { std::ostringstream os; os << a; MC_CHECK(c, os.str() == text, what, ": stream ", os.str()); }
  c.state(what + text);
}
using St = ex::AbslStringify; using Ha = ex::AbslHashable; using Co = ex::Comparable; using Pr = ex::Printable; using Sm = ex::Streamable;
MC_SECTION(sets) {
  static const std::vector<void (*)(mc::Ctx&)> fns = {
      &One<>, &One<Ha>, &One<Co>, &One<Ha, Co>, &One<Co, Ha>,
#define WITH(...) &One<__VA_ARGS__>, &One<__VA_ARGS__, Ha>, &One<__VA_ARGS__, Co>, &One<Ha, __VA_ARGS__>, &One<Co, __VA_ARGS__>, &One<Ha, Co, __VA_ARGS__>, &One<__VA_ARGS__, Co, Ha>, &One<Co, __VA_ARGS__, Ha>
      WITH(St), WITH(St, Pr), WITH(St, Sm), WITH(St, Pr, Sm), WITH(St, Sm, Pr),
      &One<St, Ha, Pr>, &One<St, Co, Sm>, &One<St, Co, Pr, Ha, Sm>, &One<Ha, St, Co, Sm, Pr>};
  fns[c.choose(fns.size())](c);
}
}  // namespace
