// Timing scopes: exactly one line or none, saying who, how long and what.
#include <bit>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <source_location>
#include "lib/mc.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/log/log_entry.h"
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
#include "absl/time/clock.h"
#include "mbo/log/log_timing.h"

ABSL_DECLARE_FLAG(absl::Duration, mbo_log_timing_min_duration);
ABSL_DECLARE_FLAG(absl::LogSeverity, mbo_log_timing_min_severity_always);

namespace {
using mbo::log::LogTiming;
using Timing = decltype(LogTiming());
using absl::LogSeverity;

struct Line { LogSeverity severity; std::string file, text; int line; bool operator==(const Line&) const = default; };
std::vector<Line> g_lines;
struct Sink : absl::LogSink {
  void Send(const absl::LogEntry& e) override { g_lines.push_back({e.log_severity(), std::string(e.source_filename()), std::string(e.text_message()), e.source_line()}); }
};
absl::Time g_now;
struct Env {
  Sink sink;
  Env() {
    g_lines.clear();
    g_now = absl::FromUnixSeconds(1000000);
    absl::VerifClock() = [] { return g_now; };
    absl::AddLogSink(&sink);
    absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, absl::ZeroDuration());
    absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, LogSeverity::kError);
  }
  ~Env() { absl::RemoveLogSink(&sink); absl::VerifClock() = nullptr; }
};
std::string Show(const std::vector<Line>& v) { std::string s; for (const auto& l : v) s += mc::Cat(static_cast<int>(l.severity), " ", l.file, ":", l.line, " ", mc::Quote(l.text), "\n"); return s; }
#define THIS_FILE (std::source_location::current().file_name())

// When a line is written and what it holds.
void Timed(mc::Ctx& c) {
  Env env;
  const std::vector<absl::Duration> mins = {absl::ZeroDuration(), absl::Nanoseconds(1), absl::Milliseconds(5), absl::Seconds(2), absl::InfiniteDuration()};
  const std::vector<LogSeverity> sevs = {LogSeverity::kInfo, LogSeverity::kWarning, LogSeverity::kError};
  const auto flag = c.pick(mins);
  const auto always = c.pick(std::vector<LogSeverity>{LogSeverity::kInfo, LogSeverity::kWarning, LogSeverity::kError, LogSeverity::kFatal});
  std::optional<absl::Duration> per_call;
  if (const int k = c.choose(6)) per_call = mins[k - 1];
  const auto severity = c.pick(sevs);
  const auto limit = per_call.value_or(flag);
  std::vector<absl::Duration> lasts = {absl::ZeroDuration(), absl::Nanoseconds(1), absl::Nanoseconds(2), absl::Seconds(2), absl::Hours(30)};
  if (limit != absl::InfiniteDuration() && limit != absl::ZeroDuration()) { lasts.push_back(limit - absl::Nanoseconds(1)); lasts.push_back(limit); lasts.push_back(limit + absl::Nanoseconds(1)); }
  const auto last = c.pick(lasts);
  const bool given = c.flip();
  const int parts = c.choose(3);
  absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, flag);
  absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, always);
  int line = 0;
  {
    const auto start = g_now;
    if (given) g_now += absl::Seconds(77);
    auto make = [&]() -> Timing {
      line = __LINE__; return given ? LogTiming({.severity = severity, .min_duration = per_call, .start_time = start}) : LogTiming({.severity = severity, .min_duration = per_call});
    };
    switch (parts) {
      case 0: { auto t = make(); g_now = start + last; break; }
      case 1: { auto t = make() << ""; g_now = start + last; break; }
      case 2: { auto t = make() << "a " << 25 << std::string(" b") << 1.5; g_now = start + last; break; }
    }
  }
  const bool expect = last >= limit || severity >= always;
  const std::string what = mc::Cat("flag ", absl::FormatDuration(flag), " always ", static_cast<int>(always), " own ", per_call ? absl::FormatDuration(*per_call) : "none", " severity ", static_cast<int>(severity), " lasting ", absl::FormatDuration(last));
  c.step();
  MC_CHECK(c, g_lines.size() == (expect ? 1U : 0U), what, ": expected ", expect, "\n", Show(g_lines));
  if (!expect) return;
  const auto& l = g_lines[0];
  MC_CHECK(c, l.severity == severity && l.file == THIS_FILE && l.line == line, what, ": wrong place or severity\n", Show(g_lines));
  const std::string head = mc::Cat("LogTiming(", absl::FormatDuration(last), " @ "), tail = parts < 2 ? ")" : "): a 25 b1.5";
  MC_CHECK(c, l.text.starts_with(head) && l.text.ends_with(tail) && l.text.find("Timed") != std::string::npos && (parts == 2 || l.text.find(':', l.text.rfind(')')) == std::string::npos), what, ": wrong text\n", Show(g_lines));
  c.state(l.text);
}
MC_SECTION(lines) { Timed(c); }

// All histories of creating, moving and destroying.
MC_SECTION_D(moves, 16) {
  Env env;
  struct Slot { std::unique_ptr<Timing> t; int id = -1; absl::Time start; };
  std::array<Slot, 3> s;
  std::vector<std::string> expect;
  int made = 0;
  auto text = [&](const Slot& x) { return mc::Cat("LogTiming(", absl::FormatDuration(g_now - x.start), " @ "); };
  auto check = [&](const std::string& what) {
    c.step();
    bool ok = expect.size() == g_lines.size();
    for (std::size_t i = 0; ok && i < expect.size(); ++i) {
      const auto cut = expect[i].find('|');
      ok = g_lines[i].text.starts_with(expect[i].substr(0, cut)) && g_lines[i].text.ends_with("): " + expect[i].substr(cut + 1));
    }
    MC_CHECK(c, ok, what, ": expected ", expect.size(), " lines but\n", Show(g_lines));
  };
  const int steps = mc::Tier(5, 6);
  for (int i = 0; i < steps; ++i) {
    const int op = c.choose(10);
    g_now += absl::Milliseconds(1 << i);
    if (op < 2) {  // create
      Slot& x = s[op];
      if (x.t) return;
      x.id = made++;
      x.start = g_now;
      x.t = std::make_unique<Timing>(LogTiming() << "n" << x.id);
      check("create");
    } else if (op < 4) {  // add to
      Slot& x = s[op - 2];
      if (!x.t || x.id < 0 || x.id >= 10) return;
      std::unique_ptr<Timing> n = std::make_unique<Timing>(std::move(*x.t) << "+");
      x.t = std::move(n);
      x.id += 10;
      check("append");
    } else if (op < 7) {  // destroy
      Slot& x = s[op - 4];
      if (!x.t) return;
      if (x.id >= 0) expect.push_back(text(x) + "|n" + std::to_string(x.id % 10) + (x.id >= 10 ? "+" : ""));
      x.t.reset();
      x.id = -1;
      check("destroy");
    } else {  // move to
      constexpr int kFrom[] = {0, 0, 1}, kTo[] = {1, 2, 2};
      Slot &x = s[kFrom[op - 7]], &y = s[kTo[op - 7]];
      if (!x.t || y.t) return;
      y.t = std::make_unique<Timing>(std::move(*x.t));
      y.id = std::exchange(x.id, -1);
      y.start = x.start;
      check("move");
    }
  }
  g_now += absl::Seconds(1);
  for (auto& x : s) if (x.t) { if (x.id >= 0) expect.push_back(text(x) + "|n" + std::to_string(x.id % 10) + (x.id >= 10 ? "+" : "")); x.t.reset(); check("end"); }
  c.state(mc::Fnv(Show(g_lines)));
}
// Scopes left in any way log innermost first.
MC_SECTION(scopes) {
  Env env;
  const int n = 1 + c.choose(4), leave = c.choose(3);
  std::vector<std::string> expect;
  std::function<void(int)> go = [&](int k) {
    const auto t = LogTiming() << k;
    g_now += absl::Seconds(1);
    if (k + 1 < n) go(k + 1);
    else if (leave == 1) throw 1;
    if (leave == 2 && k + 1 == n) { const auto u = LogTiming() << "u"; return; }
    g_now += absl::Seconds(1);
  };
  try { go(0); } catch (int) {}
  if (leave == 2) expect.push_back("u");
  for (int k = n; k-- > 0;) expect.push_back(std::to_string(k));
  c.step(n);
  bool ok = expect.size() == g_lines.size();
  for (std::size_t i = 0; ok && i < expect.size(); ++i) ok = g_lines[i].text.ends_with("): " + expect[i]);
  MC_CHECK(c, ok, "order\n", Show(g_lines));
}
// A source location with any function name, to be shown as the name alone.
std::string NameOf(const std::string& pretty) {
  struct Impl { const char* file; const char* function; unsigned line, column; };
  static Impl impl;
  impl = {"f.cc", pretty.c_str(), 7, 3};
  static_assert(sizeof(std::source_location) == sizeof(void*));
  g_lines.clear();
  const std::source_location loc = std::bit_cast<std::source_location>(&impl);
  { auto t = LogTiming({.src = loc}) << "end"; }
  if (g_lines.size() != 1 || g_lines[0].file != "f.cc" || g_lines[0].line != 7) return "?";
  const std::string& x = g_lines[0].text;
  const std::string head = "LogTiming(0 @ ", tail = "): end";
  if (!x.starts_with(head) || !x.ends_with(tail)) return "??" + x;
  return x.substr(head.size(), x.size() - head.size() - tail.size());
}
void Name(mc::Ctx& c, const std::string& pretty, const std::string& want) {
  c.step();
  const std::string got = NameOf(pretty);
  MC_CHECK(c, got == want, mc::Quote(pretty), " shown as ", mc::Quote(got), " instead of ", mc::Quote(want));
  c.state(got);
}
// What may be part of a name, and what the operators may be called.
const std::vector<std::string> kReturns = {"", "void ", "static bool ", "virtual std::map<int, bool> ", "std::function<void (bool, std::pair<int, int> (*)(int))> ", "decltype(auto) ", "const A &", "unsigned long *", "auto "};
const std::vector<std::string> kParams = {"()", "(int)", "(const A &, int)", "(std::function<void(bool)>, void (*)(int))", "(A (&)[3], int (A::*)(bool) const)", "(decltype(auto))", "(T)", "(bool (*)(A<(1 > 0)>))"};
const std::vector<std::string> kQuals = {"", " const", " const &", " &&", " noexcept", " [with T = int]", " [T = int]", " const [with T = void (*)(int); U = std::map<int, int>]", " [T = int[2], U = (lambda at x.cc:1:2)]", " &&::tag [T = void (int)]"};
MC_SECTION(names) {
  Env env;
  std::vector<std::string> scopes = {"", "ns::", "ns::Class::", "ns::(anonymous namespace)::", "(anonymous namespace)::C::", "ns::{anonymous}::", "V<int>::", "ns::V<std::pair<int, bool> >::In::", "V<void (*)(int)>::", "f(int, bool)::Local::", "ns::f(std::function<void(int)>)::L::"};
  const std::vector<std::string> names = {"f", "operator_name", "myoperator", "~C", "x1", "f_"};
  const std::string r = c.pick(kReturns), s = c.pick(scopes), n = c.pick(names);
  for (const auto& p : kParams) for (const auto& q : kQuals) if (q.find("::tag") == std::string::npos) Name(c, r + s + n + p + q, s + n);
  for (const auto& p : kParams) Name(c, r + s + n + "<int, std::pair<bool, int> >" + p, s + n);
}
MC_SECTION(operators) {
  Env env;
  const std::vector<std::string> scopes = {"", "ns::", "ns::C::", "V<int>::", "ns::(anonymous namespace)::"};
  std::vector<std::string> ops = {"()", "[]", "<", ">", "<=", ">=", "<=>", "==", "!=", "<<", ">>", "<<=", ">>=", "->", "->*", "+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", "+=", "&&", "||", "++", "--", ",", " new", " delete", " new[]", " bool", " std::map<int, int>", " const char *", " co_await", "\"\"_x"};
  const std::string r = c.pick(kReturns), s = c.pick(scopes), o = c.pick(ops);
  for (const auto& p : kParams) for (const auto& q : kQuals) if (q.find("::tag") == std::string::npos) Name(c, r + s + "operator" + o + p + q, s + "operator" + o);
}
MC_SECTION(lambdas) {
  Env env;
  const std::vector<std::string> scopes = {"f", "ns::C::f", "main"};
  const std::string s = c.pick(scopes), p = c.pick(std::vector<std::string>{"()", "(int, bool)", "(X &, const Y &)"}), q = c.pick(kParams);
  for (const std::string& k : {std::string(""), std::string(" const"), std::string(" const [T = int]")}) {
    Name(c, "auto " + s + p + "::(anonymous class)::operator()" + q + k, s + p + "::[]()");
    Name(c, "auto " + s + p + "::(anonymous class)::operator()()::(anonymous class)::operator()" + q + k, s + p + "::[]()::[]()");
  }
}
MC_SECTION(plain) {
  Env env;
  const std::vector<std::string> all = {"", "f", "ns::f", "ns::(anonymous namespace)::Test::Body", "main"};
  const std::string n = c.pick(all);
  Name(c, n, n);
}

// Real functions.
namespace real {
std::vector<std::string> g_want;
#define HERE(name) g_want.push_back(mc::Cat(name, "|", __LINE__)); auto done = LogTiming()
struct A {
  A() { HERE("A::A"); }
  explicit A(int) { HERE("A::A"); }
  A(const A&) = default;
  ~A() { HERE("A::~A"); }
  bool operator<(const A&) const { HERE("A::operator<"); return false; }
  bool operator>(const A&) const { HERE("A::operator>"); return false; }
  A& operator<<(int) { HERE("A::operator<<"); return *this; }
  A* operator->() { HERE("A::operator->"); return this; }
  explicit operator bool() const { HERE("A::operator bool"); return true; }
  int operator[](int) const { HERE("A::operator[]"); return 0; }
  int operator()(int) const { HERE("A::operator()"); return 0; }
  template <typename X> A& operator>>(X) { HERE("A::operator>>"); return *this; }
  std::map<int, bool> m(std::function<void(int)>) const& noexcept { HERE("A::m"); return {}; }
  static const char* st() { HERE("A::st"); return ""; }
  template <typename X> static void tp(X) { HERE("A::tp"); }
  int x = 0;
};
template <typename X> struct V {
  void push(X) { HERE("::push"); }
  template <typename Y> auto q(Y) const -> std::map<int, Y> { HERE("::q"); return {}; }
  struct In { void f() { HERE("::In::f"); } };
};
unsigned long long ull(void (*)(int)) { HERE("ull"); return 1; }
decltype(auto) da() { HERE("da"); return 1; }
}  // namespace real
MC_SECTION(real) {
  using real::g_want;
  Env env;
  g_want.clear();
  switch (c.choose(20)) {
    case 0: { real::A a; break; }
    case 1: { real::A a(1); break; }
    case 2: (void)(real::A() < real::A()); break;
    case 3: (void)(real::A() > real::A()); break;
    case 4: (void)(real::A() << 1); break;
    case 5: { real::A a; (void)a->x; break; }
    case 6: (void)static_cast<bool>(real::A()); break;
    case 7: (void)real::A()[1]; break;
    case 8: (void)real::A()(1); break;
    case 9: (void)(real::A() >> 1); break;
    case 10: (void)(real::A() >> static_cast<void (*)(int)>(nullptr)); break;
    case 11: (void)real::A().m({}); break;
    case 12: (void)real::A::st(); break;
    case 13: real::A::tp(1); break;
    case 14: real::A::tp(static_cast<void (*)(int)>(nullptr)); break;
    case 15: real::V<int>().push(1); break;
    case 16: real::V<void (*)(int)>().push(nullptr); break;
    case 17: real::V<std::pair<int, int>>().q(1); break;
    case 18: real::V<int>::In().f(); break;
    case 19: real::ull(nullptr); real::da(); break;
  }
  std::vector<std::string> got;
  for (const auto& l : g_lines) {
    c.step();
    MC_CHECK(c, l.file == THIS_FILE && l.text.starts_with("LogTiming(0 @ ") && l.text.ends_with(")"), "text of real function\n", Show(g_lines));
    bool found = false;
    for (const auto& w : g_want) {
      const auto cut = w.find('|');
      found |= l.text.ends_with("::" + (w[0] == ':' ? w.substr(2, cut - 2) : w.substr(0, cut)) + ")") && std::to_string(l.line) == w.substr(cut + 1);
    }
    MC_CHECK(c, found, "wrong function or line\n", Show(g_lines));
  }
  MC_CHECK(c, g_lines.size() == g_want.size(), "lines\n", Show(g_lines));
  c.state(Show(g_lines));
}
}  // namespace
