// The test matchers match exactly what they say, for all small subjects and expectations, directly, negated, kept and with explanations.
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "gmock/gmock.h"
#include "gtest/gtest-spi.h"
#include "lib/mc.h"
#include "mbo/strings/indent.h"
#include "mbo/testing/matchers.h"
#include "mbo/testing/status.h"

namespace {
using namespace mbo::testing;
using ::testing::_;
using ::testing::AnyOf;
using ::testing::Contains;
using ::testing::ElementsAre;
using ::testing::ElementsAreArray;
using ::testing::Eq;
using ::testing::HasSubstr;
using ::testing::Not;
using ::testing::Pair;
using ::testing::UnorderedElementsAreArray;

// All ways to ask.
template <typename T, typename M>
void Ask(mc::Ctx& c, const T& v, const M& matcher, bool want, const std::string& what) {
  c.step();
  const ::testing::Matcher<const T&> m = matcher;
  MC_CHECK(c, m.Matches(v) == want, what, ": matches is ", !want);
  ::testing::StringMatchResultListener l;
  MC_CHECK(c, m.MatchAndExplain(v, &l) == want, what, ": explaining changes the result");
  MC_CHECK(c, ::testing::Matcher<const T&>(Not(matcher)).Matches(v) == !want, what, ": negation");
  MC_CHECK(c, ::testing::Value(v, matcher) == want, what, ": Value()");
  std::ostringstream d, n;
  m.DescribeTo(&d);
  m.DescribeNegationTo(&n);
  MC_CHECK(c, !d.str().empty() && !n.str().empty(), what, ": no description");
  c.state(what + d.str() + l.str());
}
absl::Status Make(int code, std::string_view msg, int loads) {
  absl::Status s(static_cast<absl::StatusCode>(code), msg);
  if (loads & 1) s.SetPayload("u1", absl::Cord("p1"));
  if (loads & 2) s.SetPayload("u2", absl::Cord("p2"));
  return s;
}
#if PART == 0
MC_SECTION(status) {
  const std::vector<int> codes = {0, 1, 5, 13};
  const std::vector<std::string> msgs = {"", "m", "long m"};
  const int code = c.pick(codes);
  const std::string msg = code ? c.pick(msgs) : "";
  const int loads = code ? c.choose(4) : 0;
  const absl::Status s = Make(code, msg, loads);
  const bool held = c.flip();
  const absl::StatusOr<std::string> so = code ? absl::StatusOr<std::string>(s) : absl::StatusOr<std::string>("val");
  auto ask = [&](const auto& m, bool want, const std::string& what) {
    const std::string w = mc::Cat(what, " on ", s.ToString());
    if (held) Ask(c, so, m, want, w); else Ask(c, s, m, want, w);
  };
  ask(IsOk(), code == 0, "IsOk");
  for (int e : codes) {
    const auto ec = static_cast<absl::StatusCode>(e);
    ask(StatusIs(ec), code == e, mc::Cat("StatusIs ", e));
    ask(StatusIs(e), code == e, mc::Cat("StatusIs int ", e));
    ask(StatusIs(AnyOf(ec, absl::StatusCode::kInternal)), code == e || code == 13, mc::Cat("StatusIs any ", e));
    ask(StatusIs(Not(Eq(ec))), code != e, mc::Cat("StatusIs not ", e));
    for (const auto& em : msgs) {
      // A good status has no message to compare.
      ask(StatusIs(ec, em), code == e && (code == 0 || msg == em), mc::Cat("StatusIs ", e, " with ", em));
      ask(StatusIs(ec, HasSubstr(em)), code == e && (code == 0 || msg.find(em) != std::string::npos), mc::Cat("StatusIs ", e, " has ", em));
      ask(StatusIs(_, em), code == 0 || msg == em, mc::Cat("StatusIs any with ", em));
      ask(StatusIs(AnyOf(ec, absl::StatusCode::kCancelled), Not(HasSubstr(em))), (code == e || code == 1) && (code == 0 || msg.find(em) == std::string::npos), mc::Cat("StatusIs ", e, " has not ", em));
    }
  }
  std::map<std::string, std::string> map;
  if (loads & 1) map["u1"] = "p1";
  if (loads & 2) map["u2"] = "p2";
  ask(StatusHasPayload(), !map.empty(), "any payload");
  for (const std::string u : {"u1", "u2", "u3", ""}) {
    ask(StatusHasPayload(u), map.contains(u), "payload " + u);
    for (const std::string p : {"p1", "p2", ""}) {
      ask(StatusHasPayload(u, p), map.contains(u) && map[u] == p, "payload " + u + "=" + p);
      ask(StatusHasPayload(u, HasSubstr(p)), map.contains(u) && map[u].find(p) != std::string::npos, "payload " + u + " has " + p);
      ask(StatusHasPayload(u, Not(HasSubstr(p))), map.contains(u) && map[u].find(p) == std::string::npos, "payload " + u + " has not " + p);
    }
  }
  ask(StatusPayloads(::testing::IsEmpty()), map.empty(), "no payloads");
  ask(StatusPayloads(::testing::SizeIs(2)), map.size() == 2, "two payloads");
  ask(StatusPayloads(ElementsAre(Pair("u1", "p1"))), loads == 1, "only u1");
  ask(StatusPayloads(ElementsAre(Pair("u1", "p1"), Pair("u2", HasSubstr("2")))), loads == 3, "both");
  ask(StatusPayloads(Contains(Pair("u2", _))), loads & 2, "u2 among them");
  if (held) {
    Ask(c, so, IsOkAndHolds("val"), code == 0, "holds val");
    Ask(c, so, IsOkAndHolds(std::string("val")), code == 0, "holds string val");
    Ask(c, so, IsOkAndHolds("other"), false, "holds other");
    Ask(c, so, IsOkAndHolds(Not(HasSubstr("x"))), code == 0, "holds no x");
    Ask(c, so, IsOkAndHolds(_), code == 0, "holds any");
    const absl::StatusOr<std::unique_ptr<int>> up = code ? absl::StatusOr<std::unique_ptr<int>>(s) : absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(4));
    Ask(c, up, IsOkAndHolds(::testing::Pointee(4)), code == 0, "holds pointer to 4");
    Ask(c, up, IsOkAndHolds(::testing::IsNull()), false, "holds null");
    Ask(c, up, IsOk(), code == 0, "pointer is ok");
    const absl::StatusOr<std::vector<int>> vec = code ? absl::StatusOr<std::vector<int>>(s) : absl::StatusOr<std::vector<int>>(std::vector<int>{1, 2});
    Ask(c, vec, IsOkAndHolds(ElementsAre(1, 2)), code == 0, "holds 1, 2");
    Ask(c, vec, IsOkAndHolds(std::vector<int>{1, 2}), code == 0, "holds vector 1, 2");
    Ask(c, vec, IsOkAndHolds(std::vector<int>{2, 1}), false, "holds vector 2, 1");
  }
}
// The assertion macros: what fails, and that assignment gets the value.
int g_calls = 0;
absl::StatusOr<std::string> Or(int k) { ++g_calls; if (k) return Make(k, "bad", 0); return "got"; }
absl::StatusOr<std::pair<int, std::string>> PairOr(int k) { ++g_calls; if (k) return Make(k, "bad", 0); return std::pair<int, std::string>(3, "three"); }
MC_SECTION(macros) {
  const int k = c.choose(3), how = c.choose(7);
  std::string log;
  g_calls = 0;
  ::testing::TestPartResultArray results;
  {
    ::testing::ScopedFakeTestPartResultReporter reporter(::testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &results);
    [&] {
      switch (how) {
        case 0: { MBO_EXPECT_OK(Or(k)); break; }
        case 1: { MBO_ASSERT_OK(Or(k)); break; }
        case 2: { MBO_EXPECT_OK(Or(k).status()); break; }
        case 3: { MBO_ASSERT_OK_AND_ASSIGN(const std::string s, Or(k)); log += s; break; }
        case 4: { std::string s; MBO_ASSERT_OK_AND_ASSIGN(s, Or(k)); log += s; break; }
        case 5: { MBO_ASSERT_OK_AND_MOVE_TO(PairOr(k), const auto [a, b]); log += std::to_string(a) + b; break; }
        default: { MBO_ASSERT_OK(Or(k).status()); break; }
      }
      log += "$";
    }();
  }
  int fatal = 0, other = 0;
  for (int i = 0; i < results.size(); ++i) { const auto& r = results.GetTestPartResult(i); if (r.fatally_failed()) ++fatal; else if (r.failed()) ++other; }
  const bool expect = how == 0 || how == 2;
  MC_CHECK(c, fatal == (k && !expect) && other == (k && expect), "failures ", fatal, " ", other, " for ", how, " ", k);
  MC_CHECK(c, g_calls == 1, "evaluated ", g_calls, " times");
  const std::string value = how == 3 || how == 4 ? "got" : how == 5 ? "3three" : "";
  MC_CHECK(c, log == (k == 0 ? value + "$" : expect ? "$" : ""), "went on to ", log);
}
#else
std::vector<int> Ints(mc::Ctx& c, int max, int vals) { std::vector<int> v(c.choose(max + 1)); for (int& x : v) x = c.choose(vals); return v; }
MC_SECTION(elements) {
  const std::vector<int> in = Ints(c, 3, 3);
  const bool has1 = std::find(in.begin(), in.end(), 1) != in.end();
  Ask(c, 1, IsElementOf(in), has1, "vector");
  Ask(c, 1L, IsElementOf(std::set<int>(in.begin(), in.end())), has1, "set");
  Ask(c, short{1}, IsElementOf(std::list<int>(in.begin(), in.end())), has1, "list");
  std::vector<std::string> st;
  std::map<int, std::string> by_int;
  std::map<std::string, int> by_str;
  std::multimap<int, int> multi;
  std::vector<std::pair<std::string, std::string>> pairs;
  for (int x : in) { const std::string s(x + 1, 'x'); st.push_back(s); by_int[x] = s; by_str[s] = x; multi.emplace(x, x * 2); pairs.emplace_back(s, s + "y"); }
  Ask(c, std::string("xx"), IsElementOf(st), has1, "string");
  Ask(c, std::string_view("xx"), IsElementOf(st), has1, "string_view");
  MC_CHECK(c, ::testing::Value("xx", IsElementOf(st)) == has1, "literal");
  Ask(c, std::string("x"), IsElementOf(st), std::find(in.begin(), in.end(), 0) != in.end(), "prefix");
  Ask(c, std::pair<const char*, const char*>("xx", "xxy"), IsElementOf(pairs), has1, "pair");
  Ask(c, std::pair<std::string, std::string>("xx", "xy"), IsElementOf(pairs), false, "mixed pair");
  Ask(c, std::pair<const char*, const char*>("xy", "xxy"), IsElementOf(pairs), false, "mixed pair of literals");
  Ask(c, 1, IsKeyOf(by_int), has1, "key");
  Ask(c, std::string_view("xx"), IsKeyOf(by_str), has1, "key view");
  Ask(c, 1, IsValueOf(by_str), has1, "value");
  Ask(c, std::string("xx"), IsValueOf(by_int), has1, "string value");
  Ask(c, 1, IsKeyOf(multi), has1, "multi key");
  Ask(c, 2, IsValueOf(multi), has1, "multi value");
  Ask(c, 2, IsElementOf({1, 2, 3}), true, "list 1");
  Ask(c, 4, IsElementOf({1, 2, 3}), false, "list 2");
  const std::optional<int> o = in.empty() ? std::nullopt : std::optional<int>(in[0]);
  Ask(c, o, IsNullopt(), in.empty(), "nullopt");
  std::vector<int> cap;
  cap.reserve(in.size() * 3);
  for (size_t i = 0; i < in.size(); ++i) cap.push_back(1);
  Ask(c, cap, CapacityIs(cap.capacity()), true, "capacity");
  Ask(c, cap, CapacityIs(cap.size()), cap.size() == cap.capacity(), "size as capacity");
  Ask(c, cap, CapacityIs(::testing::Gt(5U)), cap.capacity() > 5, "capacity above 5");
}
std::string ToStr(const int& v) { return std::to_string(v * 2); }
MC_SECTION(transformed) {
  const std::vector<int> in = Ints(c, 3, 3), want = Ints(c, 3, 3);
  std::vector<std::string> ws;
  for (int x : want) ws.push_back(std::to_string(x * 2));
  auto sorted = [](auto v) { std::sort(v.begin(), v.end()); return v; };
  Ask(c, in, WhenTransformedBy([](int v) { return std::to_string(v * 2); }, ElementsAreArray(ws)), in == want, "ordered");
  Ask(c, in, WhenTransformedBy(ToStr, ElementsAreArray(ws)), in == want, "function");
  Ask(c, in, WhenTransformedBy([](int v) { return std::to_string(v * 2); }, UnorderedElementsAreArray(ws)), sorted(in) == sorted(want), "unordered");
  const std::set<int> is(in.begin(), in.end()), wset(want.begin(), want.end());
  Ask(c, is, WhenTransformedBy([](int v) { return std::to_string(v * 2); }, UnorderedElementsAreArray(ws)), sorted(std::vector<int>(is.begin(), is.end())) == sorted(want), "set");
  std::map<int, int> m;
  for (int x : in) m[x] = -x;
  Ask(c, m, WhenTransformedBy([](const std::pair<const int, int>& p) { return p.first; }, ElementsAreArray(want)), std::vector<int>(is.begin(), is.end()) == want, "keys");
  Ask(c, m, WhenTransformedBy([](const std::pair<const int, int>& p) { return p.second + p.first; }, ::testing::Each(0)), true, "each");
}
// Parts that can tell whether they are used after their end, without doing any harm.
bool g_used_after_end = false;
struct Ended {
  volatile bool alive = true;
  Ended() = default;
  Ended(const Ended& o) : alive(o.alive) {}
  ~Ended() { alive = false; }
};
struct Twice : Ended { int operator()(int v) const { g_used_after_end |= !alive; return v * 2; } };
struct Like : Ended {
  std::vector<int> want;
  explicit Like(std::vector<int> w) : want(std::move(w)) {}
  template <typename T> operator ::testing::Matcher<T>() const { g_used_after_end |= !alive; return ElementsAreArray(std::vector<int>{2, 4}); }
};
MC_SECTION(kept) {
  const std::vector<int> in = Ints(c, 3, 3), want = Ints(c, 3, 3);
  {
    alignas(Twice) static unsigned char twice_at[sizeof(Twice)];
    alignas(Like) static unsigned char like_at[sizeof(Like)];
    g_used_after_end = false;
    auto* twice = new (twice_at) Twice();
    auto* like = new (like_at) Like({});
    const auto made = WhenTransformedBy(*twice, *like);
    const bool early = c.flip();
    std::optional<::testing::Matcher<const std::vector<int>&>> m;
    if (early) m.emplace(made);
    twice->~Twice();
    like->~Like();
    if (!early) m.emplace(made);
    MC_CHECK_SIG(c, m->Matches(std::vector<int>{1, 2}) && !g_used_after_end, "when-transformed-by-keeps-references", "a kept matcher uses its transformer or matcher after their end");
  }
  const int factor = c.choose(2) + 1;
  std::vector<int> scaled = want;
  for (int& x : scaled) x *= factor;
  const auto made = [&] { const int f = factor; return WhenTransformedBy([f](int v) { return v * f; }, ElementsAreArray(scaled)); }();
  std::vector<::testing::Matcher<const std::vector<int>&>> kept{made, ::testing::Matcher<const std::vector<int>&>(WhenTransformedBy([factor](int v) { return v * factor; }, ElementsAreArray(scaled)))};
  for (const auto& k : kept) MC_CHECK(c, k.Matches(in) == (in == want), "kept matcher, factor ", factor);
}
MC_SECTION(text) {
  static const std::string alphabet = " a\n";
  std::string a, b;
  for (int n = c.choose(mc::Tier(5, 6)); n > 0; --n) a += alphabet[c.choose(3)];
  for (int n = c.choose(mc::Tier(4, 5)); n > 0; --n) b += alphabet[c.choose(3)];
  const std::string_view bv = b;
  Ask(c, b, EqualsText(a), a == b, "text " + mc::Quote(a) + " " + mc::Quote(b));
  Ask(c, bv, EqualsText(a), a == b, "view " + mc::Quote(a) + " " + mc::Quote(b));
  Ask(c, b, WithDropIndent(EqualsText(a)), mbo::strings::DropIndent(a) == b, "dropped " + mc::Quote(a) + " " + mc::Quote(b));
}
#endif
}  // namespace
