// Streaming with process wide options: all short histories of calls, and all schedules of threads up to a number of preemptions.
// Built with ThreadSanitizer as monitor: every access the schedule leaves unordered is reported as a violation.
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <new>
#include "lib/mc.h"
#include "lib/sched.h"
#include "mbo/types/stringify_ostream.h"

void* operator new(size_t n) { verif::Sched::Yield(); void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { verif::Sched::Yield(); std::free(p); }
void operator delete(void* p, size_t) noexcept { verif::Sched::Yield(); std::free(p); }

namespace {
using mbo::types::Stringify;
using mbo::types::StringifyOptions;
std::atomic<int> g_reports{0};

struct Val {
  int one = 1;
  std::string_view two = "t";
  friend auto MboTypesStringifyFieldNames(const Val&) { return std::array<std::string_view, 2>{"one", "two"}; }
};
struct Other {
  using MboTypesStringifyDoNotPrintFieldNames = void;
  std::array<int, 2> three = {3, 4};
  const int* four = nullptr;
};
constexpr int kModes = 8;  // Six modes and two own options.
const StringifyOptions kOwn1 = [] { StringifyOptions o = Stringify::OptionsDefault(); auto& f = o.format.as_data(); f.message_prefix = "<<"; f.message_suffix = ">>"; return StringifyOptions::WithAllData(std::move(o)); }();
const StringifyOptions kOwn2 = [] { StringifyOptions o = Stringify::OptionsCpp(); o.value_overrides.as_data().replacement_other = "#"; return StringifyOptions::WithAllRefs(std::move(o), Stringify::OptionsCpp()); }();
void Set(int m) {
  if (m < 6) mbo::types::SetStringifyOstreamOutputMode(static_cast<Stringify::OutputMode>(m));
  else mbo::types::SetStringifyOstreamOptions(m == 6 ? kOwn1 : kOwn2);
}
template <typename T>
std::string Expect(int m, const T& v) { return m < 6 ? Stringify(static_cast<Stringify::OutputMode>(m)).ToString(v) : Stringify(m == 6 ? kOwn1 : kOwn2).ToString(v); }
const std::vector<std::string>& Expected() {
  static const std::vector<std::string> e = [] { std::vector<std::string> r; for (int m = 0; m < kModes; ++m) r.push_back(Expect(m, Val{})); return r; }();
  return e;
}

// A stream into plain memory, every write to which is a point where others may run.
class Sink : public std::streambuf {
 public:
  std::streamsize xsputn(const char* s, std::streamsize n) override { verif::Sched::Yield(); if (len_ + n > std::streamsize(sizeof buf_)) return 0; std::memcpy(buf_ + len_, s, n); len_ += n; return n; }
  int overflow(int ch) override { const char x = char(ch); return xsputn(&x, 1) == 1 ? ch : EOF; }
  std::string_view str() const { return {buf_, size_t(len_)}; }
 private:
  char buf_[512];
  std::streamsize len_ = 0;
};

#ifndef PART_FIRST
MC_SECTION(histories) {
  int mode = 0;
  Set(0);
  for (int n = mc::Tier(4, 5), i = 0; i < n; ++i) {
    const int op = c.choose(kModes + 2);
    if (op < kModes) { Set(mode = op); continue; }
    if (op == kModes + 1) break;
    std::ostringstream os;
    const int x = 5;
    os << "[" << Val{} << "|" << Other{} << "|" << Other{.four = &x} << "]";
    const std::string want = "[" + Expect(mode, Val{}) + "|" + Expect(mode, Other{}) + "|" + Expect(mode, Other{.four = &x}) + "]";
    c.step();
    MC_CHECK(c, os.str() == want, "mode ", mode, ": ", mc::Quote(os.str()), " want ", mc::Quote(want));
    c.state(os.str());
  }
}

#endif
struct Op {
  int arg = -1;  // Mode to set, or -1: write.
  int begin = 0, end = 0;
  int got = -2;
};
// Whether some order of the operations, that keeps those that did not overlap in order, gives all results.
bool Explained(const std::vector<Op*>& ops, int mode) {
  bool any = false;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (!ops[i]) continue;
    any = true;
    bool first = true;
    for (const Op* o : ops) if (o && o->end < ops[i]->begin) first = false;
    if (!first) continue;
    if (ops[i]->arg < 0 && ops[i]->got != mode) continue;
    auto rest = ops;
    rest[i] = nullptr;
    if (Explained(rest, ops[i]->arg < 0 ? mode : ops[i]->arg)) return true;
  }
  return !any;
}
// Runs the programs of the threads (modes to set, -1: write). Empty, or what is wrong.
std::string RunThreads(const std::vector<std::vector<int>>& programs, int start, const verif::Sched::Decide& decide) {
  std::atomic<int> clock{0};
  Op ops[4][4];
  g_reports = 0;
  verif::Sched s;
  for (size_t t = 0; t < programs.size(); ++t) {
    s.Spawn([&, t] {
      for (size_t i = 0; i < programs[t].size(); ++i) {
        Op& op = ops[t][i];
        op.arg = programs[t][i];
        op.begin = clock.fetch_add(1, std::memory_order_relaxed);
        if (op.arg >= 0) Set(op.arg);
        else {
          Sink sink;
          std::optional<std::ostream> os;
          { verif::Sched::Quiet q; os.emplace(&sink); }
          *os << Val{};
          verif::Sched::Quiet q;
          for (int m = 0; m < kModes; ++m) if (Expected()[m] == sink.str()) op.got = m;
          os.reset();
        }
        op.end = clock.fetch_add(1, std::memory_order_relaxed);
        verif::Sched::Yield();
      }
    });
  }
  if (!s.Run(decide)) return "deadlock";
  if (g_reports.load()) return "unordered access to shared data";
  std::vector<Op*> all;
  for (size_t t = 0; t < programs.size(); ++t) for (size_t i = 0; i < programs[t].size(); ++i) all.push_back(&ops[t][i]);
  std::string seen;
  for (const Op* o : all) seen += mc::Cat(o->arg < 0 ? "write:" : "set:", o->arg < 0 ? o->got : o->arg, "@", o->begin, "-", o->end, " ");
  for (const Op* o : all) if (o->arg < 0 && o->got < 0) return "output of no mode: " + seen;
  if (!Explained(all, start)) return "output of a mode that is not the set one: " + seen;
  return "";
}
#ifndef PART_FIRST
const std::vector<std::vector<std::vector<int>>> kPrograms = {
    {{3, -1}, {-1, -1}},
    {{3, -1}, {6, -1}},
    {{7}, {3, -1}, {-1}},
    {{3}, {6}, {-1, -1}},
    {{-1}, {-1}, {1}},
};
MC_SECTION_D(schedules, 6) {
  Expected();
  const auto& p = c.pick(kPrograms);
  Set(0);
  int preemptions = 0, steps = 0;
  const int bound = mc::Tier(2, 3);
  const std::string bad = RunThreads(p, 0, [&](const std::vector<int>& runnable, bool current) {
    ++steps;
    if (current && preemptions >= bound) return 0;
    const int k = c.choose(runnable.size());
    if (current && k) ++preemptions;
    return k;
  });
  c.step(steps);
  MC_CHECK(c, bad.empty(), bad);
}
#else
// The same on first use in a process: each schedule (who starts, where are up to two switches) runs in a process of its own.
MC_SECTION_D(first_use, 3) {
  const std::vector<std::vector<std::vector<int>>> programs = {{{-1, -1}, {-1}}, {{-1, -1}, {3, -1}}, {{-1}, {6, -1}}};
  const auto& p = c.pick(programs);
  const int start = c.choose(2), n = mc::Tier(28, 40);
  const int p1 = c.choose(n), p2 = p1 + c.choose(n - p1);
  Expected();
  int fd[2];
  if (pipe(fd) != 0) std::abort();
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    int i = 0;
    const std::string bad = RunThreads(p, 0, [&](const std::vector<int>& runnable, bool current) {
      const int at = i++;
      if (!current) return at == 0 && start < int(runnable.size()) ? start : 0;
      return at == p1 || at == p2 ? 1 : 0;
    });
    (void)!write(fd[1], bad.data(), bad.size());
    _exit(0);
  }
  close(fd[1]);
  std::string bad;
  char b[1024];
  for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) bad.append(b, k);
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  c.step();
  MC_CHECK(c, bad.empty() && status == 0, "start ", start, " switches ", p1, ",", p2, " status ", status, ": ", bad);
}
#endif
}  // namespace
extern "C" void __tsan_on_report(void*) { g_reports.fetch_add(1, std::memory_order_relaxed); }
