// Optional references and optional data-or-references under all short histories, and their comparisons for all pairs of states.
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <limits>
#include <optional>
#include "harness/tracked.h"
#include "lib/mc.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"

namespace {
using mbo::types::OptionalDataOrConstRef;
using mbo::types::OptionalDataOrRef;
using mbo::types::OptionalRef;

struct State { enum { kNone, kData, kRef } kind = kNone; int v = 0; int which = 0; };

// Histories over two objects and two foreign values.
template <typename T, typename Ref>
void Histories(mc::Ctx& c, int depth) {
  using O = OptionalDataOrRef<T, Ref>;
  constexpr bool kConst = std::is_const_v<Ref>, kCopy = std::copy_constructible<T>;
  Lifetimes::G().Reset();
  {
    T f[2] = {MakeValue<T>(1), MakeValue<T>(2)};
    int fv[2] = {1, 2};
    std::optional<O> o[2];
    State m[2];
    o[0].emplace();
    // The second starts in any state.
    switch (c.choose(kConst ? 4 : 3)) {
      case 0: o[1].emplace(std::nullopt); break;
      case 1: o[1].emplace(MakeValue<T>(3)); m[1] = {State::kData, 3}; break;
      case 2: o[1].emplace(f[1]); m[1] = {State::kRef, 0, 1}; break;
      default: if constexpr (kConst) o[1].emplace(std::as_const(f[1])); m[1] = {State::kRef, 0, 1}; break;
    }
    std::string log;
    int next = 10;
    auto check = [&] {
      for (int k = 0; k < 2; ++k) {
        O& x = *o[k];
        const O& cx = x;
        const State& s = m[k];
        MC_CHECK(c, cx.HoldsNullopt() == (s.kind == State::kNone) && cx.HoldsData() == (s.kind == State::kData) && cx.HoldsReference() == (s.kind == State::kRef), "object ", k, " holds the wrong kind after ", log);
        MC_CHECK(c, cx.has_value() == (s.kind != State::kNone) && bool(cx) == cx.has_value() && (cx == std::nullopt) != cx.has_value() && (std::nullopt != cx) == cx.has_value(), "object ", k, " has_value after ", log);
        const T dflt = MakeValue<T>(99);
        const int want = s.kind == State::kNone ? 99 : s.kind == State::kData ? s.v : fv[s.which];
        MC_CHECK(c, ValueOf(cx.get(dflt)) == want && (cx.has_value() || &cx.get(dflt) == &dflt), "object ", k, " get after ", log);
        if (s.kind == State::kNone) continue;
        MC_CHECK(c, ValueOf(cx.value()) == want && ValueOf(*cx) == want && ValueOf(x.value()) == want && ValueOf(*x) == want && ValueOf(*cx.operator->()) == want && ValueOf(*x.operator->()) == want,
                 "object ", k, " has value ", ValueOf(cx.value()), " want ", want, " after ", log);
        MC_CHECK(c, &cx.value() == &x.value() && &*x == x.operator->() && (s.kind == State::kRef) == (&cx.value() == &f[s.which]), "object ", k, " refers elsewhere after ", log);
      }
      for (int k = 0; k < 2; ++k) MC_CHECK(c, ValueOf(f[k]) == fv[k], "foreign value ", k, " changed after ", log);
      if constexpr (kTracked<T>) {
        const size_t alive = 2 + (m[0].kind == State::kData) + (m[1].kind == State::kData);
        MC_CHECK(c, Lifetimes::G().error.empty(), Lifetimes::G().error, " after ", log);
        MC_CHECK(c, Lifetimes::G().live.size() == alive, Lifetimes::G().live.size(), " values live, want ", alive, " after ", log);
      }
    };
    for (int i = 0; i < depth; ++i) {
      const int t = c.choose(2), u = 1 - t;
      O& x = *o[t];
      O& y = *o[u];
      const int n = next++;
      int op = c.choose(21);
      log += mc::Cat(" ", t, ":", op);
      c.step();
      switch (op) {
        case 0: x = MakeValue<T>(n); m[t] = {State::kData, n}; break;
        case 1: x.emplace(MakeValue<T>(n)); m[t] = {State::kData, n}; break;
        case 2: x.set_ref(f[0]); m[t] = {State::kRef, 0, 0}; break;
        case 3: x.set_ref(f[1]); m[t] = {State::kRef, 0, 1}; break;
        case 4: MC_CHECK(c, &x.reset() == &x, "reset returns something else"); m[t] = {}; break;
        case 5: MC_CHECK(c, &(x = std::nullopt) == &x, "assignment returns something else"); m[t] = {}; break;
        case 6: if constexpr (kCopy) { MC_CHECK(c, &(x = std::as_const(y)) == &x, "assignment returns something else"); m[t] = m[u]; } else return; break;
        case 7: MC_CHECK(c, &(x = std::move(y)) == &x, "assignment returns something else"); m[t] = m[u]; if (m[u].kind == State::kData) m[u] = {}; break;
        case 8: if constexpr (kCopy) { O tmp(std::as_const(y)); o[t].reset(); o[t].emplace(std::move(tmp)); m[t] = m[u]; } else return; break;
        case 9: { O tmp(std::move(y)); o[t].reset(); o[t].emplace(std::move(tmp)); m[t] = m[u]; if (m[u].kind == State::kData) m[u] = {}; break; }
        case 10: if constexpr (kCopy) { O& same = x; x = std::as_const(same); } else return; break;
        case 11: { O& same = x; x = std::move(same); break; }
        case 12: f[0] = MakeValue<T>(fv[0] = n); break;
        case 13:
          if constexpr (!kConst) { if (m[t].kind == State::kNone) return; (c.flip() ? *x : x.value()) = MakeValue<T>(n); if (m[t].kind == State::kData) m[t].v = n; else fv[m[t].which] = n; } else return;
          break;
        case 14:
          if constexpr (kCopy) { T& got = x.as_data(); MC_CHECK(c, &got == &*std::as_const(x), "as_data is not the value"); if (m[t].kind == State::kNone) m[t] = {State::kData, 0}; else if (m[t].kind == State::kRef) m[t] = {State::kData, fv[m[t].which]}; } else return;
          break;
        case 15:
          if constexpr (kCopy) { x.as_data(MakeValue<T>(n)) = MakeValue<T>(n + 500); m[t] = {State::kData, n + 500}; } else return;
          break;
        case 16: if (m[t].kind != State::kData) return; if constexpr (!kConst) x = std::move(*x); else x = std::move(const_cast<T&>(*x)); break;
        case 17:  // From an lvalue: to what is there, or as data.
          if constexpr (kCopy) { x = f[1]; if (m[t].kind == State::kNone || kConst) m[t] = {State::kData, fv[1]}; else if (m[t].kind == State::kData) m[t].v = fv[1]; else fv[m[t].which] = fv[1]; } else return;
          break;
        case 18: if constexpr (kCopy) { const T own = MakeValue<T>(n); x = own; if (m[t].kind == State::kNone || kConst) m[t] = {State::kData, n}; else if (m[t].kind == State::kData) m[t].v = n; else fv[m[t].which] = n; } else return; break;
        case 19: if constexpr (kCopy) { if (m[t].kind != State::kData) return; const T& own = *std::as_const(x); x = own; } else return; break;
        default: o[t].reset(); o[t].emplace(); m[t] = {}; break;
      }
      check();
    }
    c.state(mc::Cat(int(m[0].kind), m[0].v, m[0].which, " ", int(m[1].kind), m[1].v, m[1].which, " ", fv[0], fv[1]));
  }
  if constexpr (kTracked<T>) MC_CHECK(c, Lifetimes::G().live.empty() && Lifetimes::G().error.empty(), "values outlive everything ", Lifetimes::G().error);
}
MC_SECTION_D(data_tracked, 3) { Histories<Tracked, Tracked>(c, mc::Tier(3, 4)); }
MC_SECTION_D(data_const, 3) { Histories<Tracked, const Tracked>(c, mc::Tier(3, 4)); }
MC_SECTION_D(data_moveonly, 3) { Histories<MoveOnly, MoveOnly>(c, mc::Tier(3, 4)); }
MC_SECTION_D(data_string, 3) { Histories<std::string, std::string>(c, mc::Tier(3, 3)); }
MC_SECTION_D(data_int, 3) { Histories<int, const int>(c, mc::Tier(3, 3)); }

// Plain references.
MC_SECTION_D(refs, 3) {
  Lifetimes::G().Reset();
  Tracked f[2] = {1, 2};
  int fv[2] = {1, 2};
  using O = OptionalRef<Tracked>;
  std::optional<O> o[2];
  int m[2] = {-1, -1};
  o[0].emplace();
  switch (c.choose(3)) { case 0: o[1].emplace(std::nullopt); break; default: o[1].emplace(f[0]); m[1] = 0; }
  std::string log;
  for (int i = mc::Tier(4, 5); i > 0; --i) {
    const int t = c.choose(2), u = 1 - t, op = c.choose(8), n = 10 + i;
    O& x = *o[t];
    log += mc::Cat(" ", t, ":", op);
    c.step();
    switch (op) {
      case 0: MC_CHECK(c, &x.set_ref(f[0]) == &x, "set_ref returns something else"); m[t] = 0; break;
      case 1: x.set_ref(f[1]); m[t] = 1; break;
      case 2: MC_CHECK(c, &x.reset() == &x, "reset returns something else"); m[t] = -1; break;
      case 3: o[t].emplace(*o[u]); m[t] = m[u]; break;
      case 4: if (m[t] < 0) return; x = Tracked(n); fv[m[t]] = n; break;
      case 5: { if (m[t] < 0) return; const Tracked v(n); x = v; fv[m[t]] = n; break; }
      case 6: if (m[t] < 0) return; (i % 2 ? *x : x.value()) = n; fv[m[t]] = n; break;
      default: { O tmp(std::move(*o[u])); o[t].emplace(std::move(tmp)); m[t] = m[u]; }
    }
    for (int k = 0; k < 2; ++k) {
      O& a = *o[k];
      const O& ca = a;
      MC_CHECK(c, ca.has_value() == (m[k] >= 0) && bool(ca) == ca.has_value() && (ca == std::nullopt) == (m[k] < 0), "has_value after ", log);
      if (m[k] >= 0) MC_CHECK(c, &a.value() == &f[m[k]] && &ca.value() == &f[m[k]] && &*a == &f[m[k]] && &*ca == &f[m[k]] && a.operator->() == &f[m[k]] && ca.operator->() == &f[m[k]], "refers elsewhere after ", log);
      MC_CHECK(c, f[k].Get() == fv[k], "foreign value after ", log);
    }
    MC_CHECK(c, Lifetimes::G().live.size() == 2 && Lifetimes::G().error.empty(), "values made or destroyed after ", log);
  }
  c.state(mc::Cat(m[0], m[1], fv[0], fv[1]));
}

// Comparisons. Nothing orders before any value; otherwise values decide.
template <typename A, typename B, typename Cmp>
void Both(mc::Ctx& c, const A& a, const B& b, bool eq, Cmp want, const std::string& what) {
  c.step();
  MC_CHECK(c, (a == b) == eq && (a != b) == !eq, what, ": equality");
  MC_CHECK(c, (a < b) == (want < 0), what, ": less");
  MC_CHECK(c, (a > b) == (want > 0), what, ": greater");
  MC_CHECK(c, (a <= b) == (want <= 0) && (a >= b) == (want >= 0), what, ": less or equal");
  MC_CHECK(c, (a <=> b) == want, what, ": three way");
}
template <typename T>
void Compare(mc::Ctx& c, const std::vector<T>& vals) {
  using Cmp = std::compare_three_way_result_t<T>;
  const int i = c.choose(vals.size() + 1), j = c.choose(vals.size() + 1), ki = c.choose(2), kj = c.choose(2);
  const bool hi = i < int(vals.size()), hj = j < int(vals.size());
  T vi = hi ? vals[i] : T(), vj = hj ? vals[j] : T();
  const bool eq = hi == hj && (!hi || vi == vj);
  const Cmp cmp = hi && hj ? vi <=> vj : Cmp(hi <=> hj);
  const std::string what = mc::Cat("values ", i, " and ", j, " held ", ki, kj);
  auto data = [](bool has, int kind, T& v, auto tag) { using O = decltype(tag); return !has ? O() : kind ? O(v) : O(T(v)); };
  {
    const auto a = data(hi, ki, vi, OptionalDataOrRef<T>()), b = data(hj, kj, vj, OptionalDataOrRef<T>());
    Both(c, a, b, eq, cmp, what);
    const auto cb = data(hj, kj, vj, OptionalDataOrConstRef<T>());
    Both(c, a, cb, eq, cmp, what + " const");
    Both(c, cb, a, eq, 0 <=> cmp, what + " const first");
    if (hj) { Both(c, a, vj, eq, cmp, what + " plain"); Both(c, vj, a, eq, 0 <=> cmp, what + " plain first"); }
    if (!hj) { Both(c, a, std::nullopt, eq, hi <=> false, what + " nullopt"); Both(c, std::nullopt, a, eq, false <=> hi, what + " nullopt first"); }
    MC_CHECK(c, absl::StrCat(a) == (hi ? absl::StrCat(vi) : "std::nullopt"), what, ": text ", absl::StrCat(a));
  }
  auto ref = [](bool has, auto& v) { using O = OptionalRef<std::remove_reference_t<decltype(v)>>; return has ? O(v) : O(); };
  const auto a = ref(hi, vi), b = ref(hj, vj);
  Both(c, a, b, eq, cmp, what + " refs");
  const auto cb = ref(hj, std::as_const(vj));
  Both(c, a, cb, eq, cmp, what + " const ref");
  Both(c, cb, a, eq, 0 <=> cmp, what + " const ref first");
  if (hj) { Both(c, a, vj, eq, cmp, what + " ref plain"); Both(c, vj, a, eq, 0 <=> cmp, what + " ref plain first"); }
  if (!hj) { Both(c, a, std::nullopt, eq, hi <=> false, what + " ref nullopt"); Both(c, std::nullopt, a, eq, false <=> hi, what + " ref nullopt first"); }
  MC_CHECK(c, absl::StrCat(a) == (hi ? absl::StrCat(vi) : "std::nullopt"), what, ": text ", absl::StrCat(a));
  c.state(what);
}
template <typename A, typename B>
void Mixed(mc::Ctx& c, std::vector<A> as, std::vector<B> bs) {
  using Cmp = std::compare_three_way_result_t<A, B>;
  const int i = c.choose(as.size() + 1), j = c.choose(bs.size() + 1), held = c.choose(2);
  const bool hi = i < int(as.size()), hj = j < int(bs.size());
  A vi = hi ? as[i] : A();
  B vj = hj ? bs[j] : B();
  const bool eq = hi == hj && (!hi || vi == vj);
  const Cmp cmp = hi && hj ? vi <=> vj : Cmp(hi <=> hj);
  const auto data = [&](bool has, auto& v) { using O = OptionalDataOrRef<std::remove_reference_t<decltype(v)>>; return !has ? O() : held ? O(std::remove_reference_t<decltype(v)>(v)) : O(v); };
  const auto ref = [](bool has, auto& v) { using O = OptionalRef<std::remove_reference_t<decltype(v)>>; return has ? O(v) : O(); };
  const std::string what = mc::Cat("values ", i, " and ", j, " of different types");
  const auto a = data(hi, vi);
  const auto b = data(hj, vj);
  Both(c, a, b, eq, cmp, what);
  Both(c, b, a, eq, 0 <=> cmp, what + " reversed");
  if (hj) { Both(c, a, vj, eq, cmp, what + " plain"); Both(c, vj, a, eq, 0 <=> cmp, what + " plain first"); }
  const auto ra = ref(hi, vi);
  const auto rb = ref(hj, vj);
  Both(c, ra, rb, eq, cmp, what + " refs");
  Both(c, rb, ra, eq, 0 <=> cmp, what + " refs reversed");
  Both(c, ref(hi, std::as_const(vi)), ref(hj, std::as_const(vj)), eq, cmp, what + " const refs");
  if (hj) { Both(c, ra, vj, eq, cmp, what + " ref plain"); Both(c, vj, ra, eq, 0 <=> cmp, what + " ref plain first"); }
  c.state(what);
}
MC_SECTION(compare_int_long) { Mixed<int, long>(c, {0, -1, 7}, {0, -1, 7, 1L << 33, -(1L << 33)}); }
MC_SECTION(compare_int_double) { Mixed<int, double>(c, {0, -1, 7}, {0.0, -0.0, -1, 0.5, 7, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}); }
MC_SECTION(compare_float_double) { Mixed<float, double>(c, {0, -1, std::numeric_limits<float>::quiet_NaN(), 0.5}, {0.0, 0.1, 0.5, std::numeric_limits<double>::quiet_NaN()}); }
MC_SECTION(compare_string_view) { Mixed<std::string, std::string_view>(c, {"", "a", "ab", std::string("a\0", 2)}, {"", "a", "b", std::string_view("a\0", 2)}); }
MC_SECTION(compare_int) { Compare<int>(c, {0, -1, 7, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}); }
MC_SECTION(compare_double) { Compare<double>(c, {0.0, -0.0, -1.5, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}); }
MC_SECTION(compare_string) { Compare<std::string>(c, {"", "a", "ab", "b", std::string("a\0", 2)}); }

// Reading what is not there ends the program, whatever way it is asked for.
template <typename F>
bool Ends(F f) {
  const pid_t p = fork();
  if (p == 0) {
    (void)!freopen("/dev/null", "w", stderr);
    signal(SIGABRT, SIG_DFL);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
volatile int g_sink;
MC_SECTION(empty) {
  const int what = c.choose(4), how = c.choose(5);
  auto read = [how](auto& x, const auto& cx) {
    switch (how) { case 0: g_sink = ValueOf(x.value()); break; case 1: g_sink = ValueOf(cx.value()); break; case 2: g_sink = ValueOf(*x); break; case 3: g_sink = ValueOf(*cx); break; default: g_sink = ValueOf(*cx.operator->()); }
  };
  const bool ended = Ends([&] {
    switch (what) {
      case 0: { OptionalDataOrRef<int> x; read(x, x); break; }
      case 1: { OptionalDataOrRef<int> x(4); OptionalDataOrRef<int> y(std::move(x)); read(x, x); break; }
      case 2: { int v = 1; OptionalRef<int> x(v); x.reset(); read(x, x); break; }
      default: { int v = 1; OptionalRef<int> x; if (how == 0) x = 3; else if (how == 1) x = v; else read(x, x); }
    }
  });
  MC_CHECK(c, ended, "reading nothing went on, ", what, " ", how);
}
}  // namespace
