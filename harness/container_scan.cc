// Type-erased scans: every container kind, ownership and content, and every sequence of steps with two iterators.
#include "lib/mc.h"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include "harness/tracked.h"
#include "mbo/container/any_scan.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"

namespace {
using namespace mbo::container;
using Addr = std::vector<const void*>;
using Model = std::vector<int>;

template <typename T> struct Val { static int Get(const T& v) { return ValueOf(v); } };
template <> struct Val<std::string_view> { static int Get(std::string_view v) { return ValueOf(std::string(v)); } };
template <typename A, typename B> struct Val<std::pair<A, B>> {
  static int Get(const std::pair<A, B>& p) { return Val<std::remove_cv_t<A>>::Get(p.first) * 100 + Val<std::remove_cv_t<B>>::Get(p.second); }
};
template <typename T> int Get(const T& v) { return Val<std::remove_cvref_t<T>>::Get(v); }
bool Dies(auto f) {
  const pid_t pid = fork();
  if (pid == 0) { close(2); f(); _exit(0); }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
}

// `want`: values in order. `addr`: their addresses if elements are to be the container's own, else empty.
template <bool kRef, typename Scan>
void Walk(mc::Ctx& c, std::optional<Scan> a, const Model& want, const Addr* addr, const std::string& what) {
  using It = decltype(a->begin());
  using Cit = decltype(std::as_const(*a).begin());
  static_assert(std::input_iterator<It> && std::input_iterator<Cit>);
  std::optional<Scan> b;
  std::optional<It> p;
  std::optional<Cit> q;
  size_t pp = 0, qp = 0;
  std::string trace = what + ": ";
  const int depth = mc::Tier(4, 5);
  for (int d = 0; d <= depth; ++d) {
    Scan& s = a ? *a : *b;
    const Scan& cs = s;
    MC_CHECK(c, s.size() == want.size() && s.empty() == want.empty(), "size ", s.size(), " instead of ", want.size(), " after ", trace);
    auto look = [&](auto& it, size_t pos, auto end, const char* n) {
      const bool at_end = pos >= want.size();
      MC_CHECK(c, (it == end) == at_end && (end == it) == at_end && (it != end) == !at_end, n, " compares wrongly with the end after ", trace);
      MC_CHECK(c, it == it && !(it != it), n, " differs from itself after ", trace);
      if (!at_end) {
        MC_CHECK(c, Get(*it) == want[pos], n, " designates ", Get(*it), " instead of ", want[pos], " after ", trace);
        if constexpr (kRef) {
          MC_CHECK(c, !addr || &*it == (*addr)[pos], n, " designates a copy after ", trace);
          MC_CHECK(c, it.operator->() == &*it, n, ": arrow after ", trace);
        }
      } else if constexpr (kRef) {
        MC_CHECK(c, it.operator->() == nullptr, n, ": arrow at the end after ", trace);
      }
    };
    if (p) look(*p, pp, s.end(), "p");
    if (q) look(*q, qp, cs.end(), "q"), look(*q, qp, cs.cend(), "q");
    if constexpr (kRef) {
      if (p && q) {
        MC_CHECK(c, (*p == *q) == (pp == qp) && (*q == *p) == (pp == qp) && (*p != *q) == (pp != qp), "two iterators at ", pp, " and ", qp, " compare wrongly after ", trace);
        auto r = cs.cbegin();
        MC_CHECK(c, (r == *q) == (qp == 0) && (*q == r) == (qp == 0), "an iterator at ", qp, " compares wrongly with the beginning after ", trace);
      }
    }
    MC_CHECK(c, Lifetimes::G().error.empty(), Lifetimes::G().error, " after ", trace);
    c.step();
    c.state(mc::Fnv(mc::Cat(what, want.size(), p ? pp : 99, q ? qp : 99, bool(a), bool(b))));
    if (d == depth) break;
    switch (c.choose(8)) {
      case 0: p.emplace(s.begin()); pp = 0; trace += "p=begin; "; break;
      case 1: if (q) q = cs.begin(); else q.emplace(cs.cbegin()); qp = 0; trace += "q=cbegin; "; break;
      case 2: if (!p || pp >= want.size()) return; trace += "++p; "; { auto& r = ++*p; MC_CHECK(c, &r == &*p, "prefix increment result after ", trace); } ++pp; break;
      case 3: if (!q || qp >= want.size()) return; trace += "++q; "; ++*q; ++qp; break;
      case 4: {
        if (!p || pp >= want.size()) return;
        trace += "p++; ";
        auto old = (*p)++;
        MC_CHECK(c, Get(*old) == want[pp], "the result of a postfix increment designates ", Get(*old), " instead of ", want[pp], " after ", trace);
        if constexpr (kRef) MC_CHECK(c, !addr || &*old == (*addr)[pp], "the result of a postfix increment designates a copy after ", trace);
        ++pp;
        break;
      }
      case 5: {
        if (!q || qp >= want.size()) return;
        trace += "*q++; ";
        MC_CHECK(c, Get(*(*q)++) == want[qp], "the result of a postfix increment has moved on after ", trace);
        ++qp;
        break;
      }
      case 6: if (b) return; b.emplace(*a); trace += "copy scan; "; break;
      case 7: if (!a || !b) return; a.reset(); trace += "drop first scan; "; break;  // iterators stay valid
    }
  }
  // Ranges over the scan see everything, as often as wanted.
  Scan& s = a ? *a : *b;
  for (int round = 0; round < 2; ++round) {
    Model got, cgot;
    for (auto&& v : s) got.push_back(Get(v));
    for (auto&& v : std::as_const(s)) cgot.push_back(Get(v));
    MC_CHECK(c, got == want && cgot == want, "a loop sees ", got.size(), "/", cgot.size(), " of ", want.size(), " elements or other values after ", trace);
  }
}
template <typename C> Model Values(const C& k) { Model m; for (const auto& v : k) m.push_back(Get(v)); return m; }
template <typename C> Addr Addresses(const C& k) { Addr m; for (const auto& v : k) m.push_back(&v); return m; }

template <typename T, typename C> C Fill(int n) {
  C k;
  for (int i = 0; i < n; ++i) {
    const int v = 7 + (i * 5) % 11;
    if constexpr (requires { k.push_back(MakeValue<T>(v)); }) k.push_back(MakeValue<T>(v));
    else k.emplace(MakeValue<T>(v));
  }
  return k;
}
// All three scans over container type C with elements T (as the scan has to spell them: E), converted to X.
template <typename E, typename X, typename C>
void Kinds(mc::Ctx& c, C k, const std::string& name) {
  const Model want = Values(k);
  const Addr addr = Addresses(k);
  const size_t alive = Lifetimes::G().live.size();
  auto any = [&](AnyScan<E> s, const Addr* a, const char* w) { Walk<true>(c, std::optional<AnyScan<E>>(std::move(s)), want, a, name + w); };
  auto cst = [&](ConstScan<E> s, const Addr* a, const char* w) { Walk<true>(c, std::optional<ConstScan<E>>(std::move(s)), want, a, name + w); };
  auto cnv = [&](ConvertingScan<X> s, const char* w) { Walk<false>(c, std::optional<ConvertingScan<X>>(std::move(s)), want, nullptr, name + w); };
  switch (c.choose(8)) {
    case 0: any(MakeAnyScan(k), &addr, " any"); break;
    case 1: any(MakeAnyScan(C(k)), nullptr, " any of temporary"); break;
    case 2: cst(MakeConstScan(k), &addr, " const"); break;
    case 3: cst(MakeConstScan(std::as_const(k)), &addr, " const of const"); break;
    case 4: cst(MakeConstScan(C(k)), nullptr, " const of temporary"); break;
    case 5: cnv(MakeConvertingScan(k), " converting"); break;
    case 6: cnv(MakeConvertingScan(std::as_const(k)), " converting of const"); break;
    case 7: cnv(MakeConvertingScan(C(k)), " converting of temporary"); break;
  }
  MC_CHECK(c, Values(k) == want && Addresses(k) == addr, name, ": the container changed");
  MC_CHECK(c, Lifetimes::G().live.size() == alive, name, ": ", Lifetimes::G().live.size(), " objects left of ", alive);
  MC_CHECK(c, Lifetimes::G().error.empty(), Lifetimes::G().error);
}
struct FromTracked { int x = 0; FromTracked() = default; FromTracked(const Tracked& t) : x(t.Get()) {} };
template <> struct Val<FromTracked> { static int Get(const FromTracked& v) { return v.x; } };
}  // namespace

MC_SECTION_D(tracked, 3) {
  Lifetimes::G().Reset();
  const int kind = c.choose(6), n = c.choose(4);
  switch (kind) {
    case 0: Kinds<Tracked, FromTracked>(c, Fill<Tracked, std::vector<Tracked>>(n), "vector"); break;
    case 1: Kinds<Tracked, Tracked>(c, Fill<Tracked, std::list<Tracked>>(n), "list"); break;
    case 2: Kinds<Tracked, FromTracked>(c, Fill<Tracked, std::deque<Tracked>>(n), "deque"); break;
    case 3: Kinds<Tracked, FromTracked>(c, Fill<Tracked, LimitedVector<Tracked, 4>>(n), "limited vector"); break;
    case 4: Kinds<const Tracked, FromTracked>(c, Fill<Tracked, std::set<Tracked>>(n), "set"); break;
    case 5: Kinds<const Tracked, Tracked>(c, Fill<Tracked, LimitedSet<Tracked, 4>>(n), "limited set"); break;
  }
}
MC_SECTION_D(texts, 3) {
  Lifetimes::G().Reset();
  const int kind = c.choose(5), n = c.choose(4);
  switch (kind) {
    case 0: Kinds<std::string, std::string_view>(c, Fill<std::string, std::vector<std::string>>(n), "strings"); break;
    case 1: Kinds<const std::string, std::string_view>(c, Fill<std::string, std::set<std::string>>(n), "string set"); break;
    case 2: {
      std::map<int, std::string> m;
      for (int i = 0; i < n; ++i) m.emplace(i * 7 % 5, MakeValue<std::string>(i + 1));
      Kinds<std::pair<const int, std::string>, std::pair<int, std::string_view>>(c, m, "map");
      break;
    }
    case 3: {
      std::vector<std::pair<const int, std::string>> m;
      for (int i = 0; i < n; ++i) m.emplace_back(i * 7 % 5, MakeValue<std::string>(i + 1));
      Kinds<std::pair<const int, std::string>, std::pair<long, std::string>>(c, m, "pairs");
      break;
    }
    case 4: {
      std::array<int, 3> m{5, 3, 4};
      if (n) { m[n - 1] = 9; }
      Kinds<int, long>(c, m, "array");
      break;
    }
  }
}
MC_SECTION(lists) {
  const int n = c.choose(3), kind = c.choose(3);
  auto go = [&](const std::initializer_list<int>& il) {
    const Model want(il);
    const Addr addr = Addresses(il);
    if (kind == 0) { AnyScan<const int> s(MakeAnyScan(il)); Walk<true>(c, std::optional<AnyScan<const int>>(s), want, &addr, "list any"); }
    if (kind == 1) { ConstScan<int> s(il); Walk<true>(c, std::optional<ConstScan<int>>(s), want, &addr, "list const"); }
    if (kind == 2) { ConvertingScan<int> s(il); Walk<false>(c, std::optional<ConvertingScan<int>>(s), want, nullptr, "list converting"); }
  };
  if (n == 0) go({});
  if (n == 1) go({4});
  if (n == 2) go({4, 3, 9});
}
MC_SECTION(writing) {
  Lifetimes::G().Reset();
  const int n = c.choose(5), at = c.choose(n + 1);
  std::list<Tracked> k = Fill<Tracked, std::list<Tracked>>(n);
  Model want = Values(k);
  auto f = [&](AnyScan<Tracked> s) {
    int i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) if (i == at) { *it = Tracked(1000); want[i] = 1000; }
    if (n) { (*s.begin()).v = 2000; want[0] = 2000; }
  };
  f(MakeAnyScan(k));
  MC_CHECK(c, Values(k) == want, "writes through a scan reach the wrong elements");
}
MC_SECTION(past_the_end) {
  const int n = c.choose(3);
  std::vector<int> k = Fill<int, std::vector<int>>(n);
  auto any = [&](AnyScan<int> s) {
    MC_CHECK(c, Dies([&] { volatile int x = *s.end(); (void)x; }), "the end can be dereferenced");
    MC_CHECK(c, Dies([&] { auto it = s.begin(); for (int i = 0; i < n; ++i) ++it; volatile int x = *it; (void)x; }), "an iterator at the end can be dereferenced");
  };
  auto cnv = [&](ConvertingScan<long> s) {
    MC_CHECK(c, Dies([&] { volatile long x = *s.end(); (void)x; }), "the end can be dereferenced");
    MC_CHECK(c, Dies([&] { auto it = s.begin(); for (int i = 0; i < n; ++i) ++it; volatile long x = *it; (void)x; }), "an iterator at the end can be dereferenced");
  };
  any(MakeAnyScan(k));
  cnv(MakeConvertingScan(k));
}
