// Scoped log statements in a child process: exact output, exit status and evaluation, for every statement kind.
#include "lib/mc.h"
#include <sys/wait.h>
#include <csignal>
#include <fstream>
#include <iomanip>
#include "mbo/log/scoped_log_check.h"
#include "mbo/log/scoped_stream.h"

namespace {
using namespace mbo::log;
using Mode = ScopedStreamMode;
using Loc = std::source_location;

struct Run { std::string out, err; int code = -1; bool finished = false; int evaluated = 0; };
struct Ran { int evaluated; bool finished; };
Ran* g_ran;
int Count(int v) { ++g_ran->evaluated; return v; }
bool CountB(bool v) { ++g_ran->evaluated; return v; }

std::string Drain(int fd) { std::string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
template <typename F>
Run Child(F f) {
  if (!g_ran) g_ran = static_cast<Ran*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *g_ran = {};
  const int o = memfd_create("out", 0), e = memfd_create("err", 0);
  const pid_t p = fork();
  if (p == 0) {
    dup2(o, 1), dup2(e, 2);
    f();
    g_ran->finished = true;
    std::cout << std::flush;
    std::cerr << std::flush;
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Run r;
  r.out = Drain(o), r.err = Drain(e);
  close(o), close(e);
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.finished = g_ran->finished;
  r.evaluated = g_ran->evaluated;
  return r;
}
std::string Prefix(const Loc& l) { return mc::Cat("[", l.file_name(), ":", l.line(), "] @", l.function_name()); }
std::string Line(const Loc& l, const std::string& msg, const std::string& text) {
  return Prefix(l) + (msg.empty() ? "" : " : " + msg) + (text.empty() ? "" : " : " + text) + "\n";
}
const std::vector<std::string>& Texts() {
  static const std::vector<std::string> v = {"", "x", "two words", "a\nb", "100% {} \\", std::string("nul\0in", 6), std::string(5000, 'L'), " : ", "\xc3\xa4"};
  return v;
}
std::string Explain(const Run& r, const std::string& want) { return mc::Cat("stdout ", mc::Quote(r.out.substr(0, 300)), " stderr ", mc::Quote(r.err.substr(0, 300)), " code ", r.code, " finished ", r.finished, " want ", mc::Quote(want.substr(0, 300))); }
void Expect(mc::Ctx& c, const Run& r, const char* what, const std::string& out, const std::string& err, bool exits) {
  c.step();
  c.state(mc::Fnv(mc::Cat(what, out, err, exits)));
  MC_CHECK(c, r.out == out, what, ": standard output: ", Explain(r, out));
  MC_CHECK(c, r.err == err, what, ": standard error: ", Explain(r, err));
  MC_CHECK(c, exits ? (r.code == 1 && !r.finished) : (r.code == 0 && r.finished), what, ": exit: ", Explain(r, exits ? "exit 1" : "continue"));
}
// One scoped stream of each template configuration, streaming up to three pieces.
template <typename S, typename... A>
void Feed(const std::vector<std::string>& pieces, int style, A&&... a) {
  S s(std::forward<A>(a)...);
  if (style == 0) {
    for (const auto& p : pieces) s << p;
  } else if (style == 1 && pieces.size() == 2) {
    s << pieces[0] << pieces[1];
  } else if (style == 1 && pieces.size() == 3) {
    s << pieces[0] << pieces[1] << pieces[2];
  } else {
    for (const auto& p : pieces) { if constexpr (std::is_same_v<typename S::StringStream, VoidStream>) s << p; else { auto& o = (s << ""); o << p; } }
  }
}
template <Mode kMode, typename Str>
void Config(mc::Ctx& c, int kind, const std::vector<std::string>& pieces, int style, const std::string& msg) {
  const Loc loc = Loc::current();
  std::string text;
  if constexpr (!std::is_same_v<Str, VoidStream>) for (const auto& p : pieces) text += p;
  const bool exits = kMode == Mode::kQuickExit;
  switch (kind) {
    case 0: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str>>(pieces, style, loc); }), "default target", "", Line(loc, "", text), exits); break;
    case 1: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str>>(pieces, style, loc, std::cout); }), "to standard output", Line(loc, "", text), "", exits); break;
    case 2: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str>>(pieces, style, loc, std::cerr, msg); }), "with message", "", Line(loc, msg, text), exits); break;
    case 3: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str, Voidifier>>(pieces, style, loc, std::cout, msg); }), "unsaved target with message", "", Line(loc, msg, text), exits); break;
    case 4: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str, Voidifier, Voidifier>>(pieces, style, loc); }), "unsaved target", "", Line(loc, "", text), exits); break;
    case 5: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str, VoidStream>>(pieces, style, loc); }), "no target", "", "", exits); break;
    case 6: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str, VoidStream, Voidifier>>(pieces, style, loc); }), "no target and no message", "", "", exits); break;
    case 8: Expect(c, Child([&] { std::ofstream own("/proc/self/fd/1"); Feed<ScopedStream<kMode, Str>>(pieces, style, loc, own, msg); }), "to an own file", Line(loc, msg, text), "", exits); break;
    case 7: Expect(c, Child([&] { Feed<ScopedStream<kMode, Str, std::ostream, Voidifier>>(pieces, style, loc, std::cout); }), "no message", Line(loc, "", text), "", exits); break;
  }
}
}  // namespace

MC_SECTION(configurations) {
  const int kind = c.choose(9), conf = c.choose(4), style = c.choose(3);
  std::vector<std::string> pieces;
  const int n = c.choose(mc::Tier(3, 4));
  static const std::vector<std::string> alpha = {"x", "", "a\nb", std::string(300, 'p')};
  for (int i = 0; i < n; ++i) pieces.push_back(alpha[c.choose(n > 1 ? 2 + mc::Thorough() : 4)]);
  const std::string msg = kind == 2 || kind == 3 || kind == 8 ? std::vector<std::string>{"", "the message", "with : colon"}[c.choose(3)] : "";
  switch (conf) {
    case 0: Config<Mode::kContinue, std::stringstream>(c, kind, pieces, style, msg); break;
    case 1: Config<Mode::kQuickExit, std::stringstream>(c, kind, pieces, style, msg); break;
    case 2: Config<Mode::kContinue, VoidStream>(c, kind, pieces, style, msg); break;
    case 3: Config<Mode::kQuickExit, VoidStream>(c, kind, pieces, style, msg); break;
  }
}

// Several statements in a row, some of which end the process: what came before is printed, nothing after.
MC_SECTION(sequences) {
  const int len = mc::Tier(3, 4);
  std::vector<int> ops;
  for (int i = 0; i < len; ++i) ops.push_back(c.choose(9));
  const std::string& t = Texts()[c.choose(3) * 2 + 1];
  std::vector<std::string> lines(32);
  std::string out, err;
  bool exits = false;
  Loc at[9];
  auto exec = [&](int op, bool live) {
    // each case notes its line and, when live, executes the statement
    switch (op) {
      case 0: at[0] = Loc::current(); if (live) ScopedStreamOut() << t; break;
      case 1: at[1] = Loc::current(); if (live) ScopedStreamErr() << t << 42; break;
      case 2: at[2] = Loc::current(); if (live) ScopedStreamVoid() << t; break;
      case 3: at[3] = Loc::current(); if (live) MBO_LOG_CHECK(CountB(true)) << t << Count(1); break;
      case 4: at[4] = Loc::current(); if (live) MBO_LOG_CHECK(CountB(false)) << t << Count(1); break;
      case 5: at[5] = Loc::current(); if (live) ScopedLogCheck(CountB(true), "what") << t << Count(1); break;
      case 6: at[6] = Loc::current(); if (live) ScopedLogCheck(CountB(false), "what") << t << Count(1); break;
      case 7: at[7] = Loc::current(); if (live) ScopedStreamErr<Mode::kQuickExit>() << t; break;
      case 8: at[8] = Loc::current(); if (live) ScopedStreamOut<Mode::kQuickExit>() << t; break;
    }
  };
  int evals = 0;
  for (int op : ops) {
    exec(op, false);
    switch (op) {
      case 0: out += Line(at[0], "", t); break;
      case 1: err += Line(at[1], "", t + "42"); break;
      case 2: break;
      case 3: evals += 1; break;
      case 4: evals += 2; err += Line(at[4], "Failed MBO_LOG_CHECK(CountB(false))", t + "1"); exits = true; break;
      case 5: evals += 2; break;
      case 6: evals += 2; err += Line(at[6], "what", t + "1"); exits = true; break;
      case 7: err += Line(at[7], "", t); exits = true; break;
      case 8: out += Line(at[8], "", t); exits = true; break;
    }
    if (exits) break;
  }
  const Run r = Child([&] { for (int op : ops) exec(op, true); });
  // Only what was flushed by the exiting statement is guaranteed on standard output when another stream ends the process.
  const bool out_lost_ok = exits && !out.empty() && r.out != out;
  c.detail(mc::Cat("ops ", ops[0], ",", ops[1], ",", ops[2]));
  MC_CHECK(c, r.err == err, "standard error: ", Explain(r, err));
  if (out_lost_ok) MC_CHECK(c, out.compare(0, r.out.size(), r.out) == 0, "standard output: ", Explain(r, out));
  else MC_CHECK(c, r.out == out, "standard output: ", Explain(r, out));
  MC_CHECK(c, r.evaluated == evals, "evaluated ", r.evaluated, " operands instead of ", evals);
  MC_CHECK(c, exits ? (r.code == 1 && !r.finished) : (r.code == 0 && r.finished), "exit: ", Explain(r, ""));
  c.step(len);
  c.state(mc::Fnv(out + err));
}

// Every text and value type through a failing and a passing check; the stream state and manipulators work as on any stream.
MC_SECTION(values) {
  const int kind = c.choose(4), v = c.choose(14);
  auto put = [&](auto&& s) {
    switch (v) {
      case 0: s << 1; break;
      case 1: s << -1L; break;
      case 2: s << 1.5; break;
      case 3: s << 'c'; break;
      case 4: s << true; break;
      case 5: s << "literal"; break;
      case 6: s << std::string("str"); break;
      case 7: s << std::string_view("view"); break;
      case 8: s << static_cast<unsigned char>('u'); break;
      case 9: s << std::string("nul\0x", 5); break;
      case 10: s << static_cast<const void*>(nullptr); break;
      case 11: s << std::setw(5) << 7; break;
      case 12: s << std::hex << 255; break;
      case 13: { char buf[4] = "buf"; s << buf; break; }
    }
  };
  std::ostringstream ref;
  put(ref);
  Loc loc;
  Run r;
  switch (kind) {
    case 0: { auto f = [&](bool live) { Loc l = Loc::current(); if (live) { auto&& s = ScopedStreamErr(); put(s << ""); } return l; }; loc = f(false); r = Child([&] { f(true); }); Expect(c, r, "value", "", Line(loc, "", ref.str()), false); break; }
    case 1: { auto f = [&](bool live) { Loc l = Loc::current(); if (live) put(ScopedLogCheck(false, "w")); return l; };
              if (v == 11 || v == 12) { c.step(); return; }  // manipulators apply per piece there
              loc = f(false); r = Child([&] { f(true); }); Expect(c, r, "failing check", "", Line(loc, "w", ref.str()), true); break; }
    case 2: { r = Child([&] { put(ScopedLogCheck(true, "w")); }); Expect(c, r, "passing check", "", "", false); break; }
    case 3: { auto f = [&](bool live) { Loc l = Loc::current(); if (live) { ScopedStream<Mode::kQuickExit> s(l, std::cerr, "m"); put(s << ""); } return l; }; loc = f(false); r = Child([&] { f(true); }); Expect(c, r, "value then exit", "", Line(loc, "m", ref.str()), true); break; }
  }
}

MC_SECTION(check_messages) {
  // the text of the condition appears, whatever it contains; dangling else and nesting behave like a single statement
  const int k = c.choose(6);
  const bool b = c.flip();
  Run r;
  Loc l;
  std::string want;
  switch (k) {
    case 0: { auto f = [&](bool live) { Loc q = Loc::current(); if (live) MBO_LOG_CHECK(b); return q; }; l = f(false); r = Child([&] { f(true); }); want = "b"; break; }
    case 1: { auto f = [&](bool live) { Loc q = Loc::current(); if (live) MBO_LOG_CHECK(b && "with \"quotes\" and 100%"); return q; }; l = f(false); r = Child([&] { f(true); }); want = "b && \"with \\\"quotes\\\" and 100%\""; break; }
    case 2: { auto f = [&](bool live) { Loc q = Loc::current(); if (live) MBO_LOG_CHECK(1 + 1 == (b ? 2 : 3)) << ""; return q; }; l = f(false); r = Child([&] { f(true); }); want = "1 + 1 == (b ? 2 : 3)"; break; }
    case 3: { auto f = [&](bool live) { Loc q = Loc::current(); if (live) if (true) MBO_LOG_CHECK(b) << ""; else std::cout << "wrong else"; return q; }; l = f(false); r = Child([&] { f(true); }); want = "b"; break; }
    case 4: { auto f = [&](bool live) { Loc q = Loc::current(); if (live) if (false) MBO_LOG_CHECK(false) << "never"; else MBO_LOG_CHECK(b); return q; }; l = f(false); r = Child([&] { f(true); }); want = "b"; break; }
    case 5: { int n = b; auto f = [&](bool live) { Loc q = Loc::current(); if (live) MBO_LOG_CHECK(n); return q; }; l = f(false); r = Child([&] { f(true); }); want = "n"; break; }
  }
  Expect(c, r, "check", "", b ? "" : Line(l, "Failed MBO_LOG_CHECK(" + want + ")", ""), !b);
}
