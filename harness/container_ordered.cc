// Every sequence of operations on limited sets and maps against std::set/std::map; every lookup for every size.
#include "lib/mc.h"
#include <map>
#include <set>
#include "harness/tracked.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/types/compare.h"

namespace {
using namespace mbo::container;
using F = LimitedOptionsFlag;

struct Dir {  // orders the model
  bool desc = false;
  bool operator()(int a, int b) const { return desc ? b < a : a < b; }
};
struct Stateful {  // a comparator whose order is decided at run time
  bool desc = false;
  bool operator()(int a, int b) const { return desc ? b < a : a < b; }
  bool operator()(const Tracked& a, const Tracked& b) const { return (*this)(a.Get(), b.Get()); }
};
template <typename C> struct Info { static constexpr bool kDesc = false; static constexpr bool kStateful = false; };
template <typename T> struct Info<std::greater<T>> { static constexpr bool kDesc = true; static constexpr bool kStateful = false; };
template <> struct Info<Stateful> { static constexpr bool kDesc = false; static constexpr bool kStateful = true; };
template <typename C> C MakeComp(bool desc) { if constexpr (Info<C>::kStateful) return C{desc}; else return C{}; }
template <typename C> Dir MakeDir(bool desc) { return Dir{Info<C>::kStateful ? desc : Info<C>::kDesc}; }

using Seq = std::vector<std::pair<int, int>>;
std::string Show(const Seq& m) { std::string s = "{"; for (auto [k, v] : m) s += v ? mc::Cat(k, ":", v, ",") : mc::Cat(k, ","); return s + "}"; }
template <typename E>
std::pair<int, int> Item(const E& e) {
  if constexpr (requires { e.first; }) return {ValueOf(e.first), ValueOf(e.second)};
  else return {ValueOf(e), 0};
}
template <typename C> Seq Contents(const C& c) { Seq s; for (const auto& e : c) s.push_back(Item(e)); return s; }

constexpr int kKeys = 5;  // keys 2, 4, .. are used; odd ones are only looked up

template <typename A, typename M>
void Same(mc::Ctx& c, A& a, const M& m, const char* who, const std::string& trace) {
  const A& ca = a;
  c.step();
  const Seq want = Contents(m);
  const size_t n = want.size();
  MC_CHECK(c, a.size() == n && a.empty() == m.empty(), who, " has size ", a.size(), " want ", n, " after ", trace);
  MC_CHECK(c, Contents(a) == want && Contents(ca) == want, who, " holds ", Show(Contents(a)), " want ", Show(want), " after ", trace);
  Seq r, cr, ix;
  for (auto it = a.rbegin(); it != a.rend(); ++it) r.push_back(Item(*it));
  for (auto it = ca.crbegin(); it != ca.crend(); ++it) cr.push_back(Item(*it));
  for (size_t i = 0; i < n; ++i) ix.push_back(Item(a.at_index(i)));
  const Seq rev(want.rbegin(), want.rend());
  MC_CHECK(c, r == rev && cr == rev && ix == want, who, ": views disagree after ", trace);
  MC_CHECK(c, n == 0 || (ca.data() == &*ca.begin() && ca.cend() - ca.cbegin() == static_cast<std::ptrdiff_t>(n)), who, ": storage");
}
template <typename A, typename M, typename K>
void LookupOne(mc::Ctx& c, A& a, const M& m, int k, const K& key, const char* who, const std::string& trace) {
  const A& ca = a;
  const auto mlo = std::distance(m.begin(), m.lower_bound(k)), mup = std::distance(m.begin(), m.upper_bound(k));
  const bool has = mlo != mup;
  const size_t ix = has ? static_cast<size_t>(mlo) : A::npos;
  auto ctx = [&] { return mc::Cat(" of key ", k, " in ", who, "=", Show(Contents(m)), " after ", trace); };
  c.step();
  MC_CHECK(c, a.contains(key) == has && ca.contains(key) == has, "contains", ctx());
  MC_CHECK(c, ca.index_of(key) == ix, "index_of ", ca.index_of(key), " want ", ix, ctx());
  MC_CHECK(c, a.find(key) - a.begin() == (has ? mlo : static_cast<std::ptrdiff_t>(m.size())), "find", ctx());
  MC_CHECK(c, ca.find(key) - ca.begin() == (has ? mlo : static_cast<std::ptrdiff_t>(m.size())), "find const", ctx());
  MC_CHECK(c, a.count(key) == size_t(has), "count", ctx());
  MC_CHECK(c, a.lower_bound(key) - a.begin() == mlo && ca.lower_bound(key) - ca.begin() == mlo, "lower_bound", ctx());
  MC_CHECK(c, a.upper_bound(key) - a.begin() == mup && ca.upper_bound(key) - ca.begin() == mup, "upper_bound", ctx());
  MC_CHECK(c, a.equal_range(key).first - a.begin() == mlo && a.equal_range(key).second - a.begin() == mup, "equal_range", ctx());
  MC_CHECK(c, ca.equal_range(key).first - ca.begin() == mlo && ca.equal_range(key).second - ca.begin() == mup, "equal_range const", ctx());
  if constexpr (requires { a.at(key); }) {
    if (has) MC_CHECK(c, ValueOf(a.at(key)) == m.find(k)->second && ValueOf(ca.at(key)) == m.find(k)->second && &a.at(key) == &a.find(key)->second, "at", ctx());
  }
}

template <bool kMap, typename K, typename C> struct Pick;
template <typename K, typename C> struct Pick<false, K, C> {
  template <auto kOpt> using Type = LimitedSet<K, kOpt, C>;
  using Model = std::set<int, Dir>;
};
template <typename K, typename C> struct Pick<true, K, C> {
  template <auto kOpt> using Type = LimitedMap<K, K, kOpt, C>;
  using Model = std::map<int, int, Dir>;
};

template <bool kMap, typename K, typename C, auto kA, auto kB>
struct World {
  using A = typename Pick<kMap, K, C>::template Type<kA>;
  using B = typename Pick<kMap, K, C>::template Type<kB>;
  using M = typename Pick<kMap, K, C>::Model;
  using V = typename A::value_type;
  static constexpr size_t kCapA = MakeLimitedOptions<kA>().kCapacity;
  static constexpr size_t kCapB = MakeLimitedOptions<kB>().kCapacity;
  A a;
  B b;
  M ma, mb;
  int next = 100;
  std::string trace;
  World(bool da, bool db) : a(MakeComp<C>(da)), b(MakeComp<C>(db)), ma(MakeDir<C>(da)), mb(MakeDir<C>(db)) {}

  static K Key(int k) { return MakeValue<K>(k); }
  static V Elem(int k, int v) { if constexpr (kMap) return V(MakeValue<K>(k), MakeValue<K>(v)); else return Key(k); }
  std::pair<typename M::iterator, bool> Put(int k, int v) { if constexpr (kMap) return ma.emplace(k, v); else return ma.insert(k); }
  bool Fits(int k) const { return ma.size() < kCapA || ma.count(k); }

  static constexpr int kOps = 31;
  void Step(mc::Ctx& c) {
    const int op = c.choose(kOps);
    const size_t n = ma.size();
    auto pos = [&](size_t lim) { return static_cast<size_t>(c.choose(static_cast<int>(lim))); };
    auto key = [&] { return 2 * (1 + c.choose(kKeys)); };
    auto note = [&](auto... x) { trace += mc::Cat(x...) + "; "; c.detail(trace); };
    auto ins = [&](auto got, auto want) {
      MC_CHECK(c, got.second == want.second && got.first - a.begin() == std::distance(ma.begin(), want.first), "insertion returned (", got.first - a.begin(), ",", got.second, ") after ", trace);
    };
    switch (op) {
      case 0: { const int k = key(), v = ++next; if (Fits(k)) { note("insert(copy ", k, ")"); const V e = Elem(k, v); ins(a.insert(e), Put(k, v)); MC_CHECK(c, (Item(e) == std::pair<int, int>{k, kMap ? v : 0}), "changed its argument"); } break; }
      case 1: { const int k = key(), v = ++next; if (Fits(k)) { note("insert(move ", k, ")"); ins(a.insert(Elem(k, v)), Put(k, v)); } break; }
      case 2: { const int k = key(), v = ++next; if (Fits(k)) { note("emplace(", k, ")"); if constexpr (kMap) ins(a.emplace(Key(k), MakeValue<K>(v)), Put(k, v)); else ins(a.emplace(Key(k)), Put(k, v)); } break; }
      case 3: { const int k = key(), l = key(), v = ++next; if (Fits(k)) { auto t = ma; Put(k, v); const bool ok = Fits(l); ma = t; if (ok) { note("insert(range ", k, ",", l, ")"); std::vector<V> in; in.reserve(2); in.push_back(Elem(k, v)); in.push_back(Elem(l, v + 50)); a.insert(in.begin(), in.end()); Put(k, v); Put(l, v + 50); } } break; }
      case 4: { const int k = key(); note("erase(key ", k, ")"); const K kk = Key(k); MC_CHECK(c, a.erase(kk) == ma.erase(k), "erase count after ", trace); break; }
      case 5: { const int k = key(); note("erase(lvalue key ", k, ")"); K kk = Key(k); MC_CHECK(c, a.erase(kk) == ma.erase(k), "erase count after ", trace); MC_CHECK(c, ValueOf(kk) == k, "changed its argument"); break; }
      case 6: if (n) { const size_t p = pos(n); note("erase(iterator ", p, ")"); auto r = a.erase(a.begin() + p); ma.erase(std::next(ma.begin(), p)); MC_CHECK(c, r - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returned ", r - a.begin(), " after ", trace); } break;
      case 7: if (n) { const size_t p = pos(n); note("erase(const_iterator ", p, ")"); auto r = a.erase(a.cbegin() + p); ma.erase(std::next(ma.begin(), p)); MC_CHECK(c, r - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returned ", r - a.begin(), " after ", trace); } break;
      case 8: { const size_t f = pos(n + 1), l = f + pos(n - f + 1); note("erase(", f, ",", l, ")"); auto r = a.erase(a.begin() + f, a.begin() + l); ma.erase(std::next(ma.begin(), f), std::next(ma.begin(), l)); MC_CHECK(c, r - a.begin() == static_cast<std::ptrdiff_t>(f), "erase returned ", r - a.begin(), " after ", trace); break; }
      case 9: { const size_t f = pos(n + 1), l = f + pos(n - f + 1); note("erase(const ", f, ",", l, ")"); auto r = a.erase(a.cbegin() + f, a.cbegin() + l); ma.erase(std::next(ma.begin(), f), std::next(ma.begin(), l)); MC_CHECK(c, r - a.begin() == static_cast<std::ptrdiff_t>(f), "erase returned ", r - a.begin(), " after ", trace); break; }
      case 10: if (n) { const size_t p = pos(n); note("erase(own key ", p, ")"); size_t r; if constexpr (kMap) r = a.erase((a.begin() + p)->first); else r = a.erase(*(a.begin() + p)); MC_CHECK(c, r == 1, "erased ", r, " after ", trace); ma.erase(std::next(ma.begin(), p)); } break;
      case 11: note("clear"); a.clear(); ma.clear(); break;
      case 12: if constexpr (std::same_as<A, B>) { note("a = b"); A& r = (a = b); MC_CHECK(c, &r == &a, trace); ma = mb; } break;
      case 13: if constexpr (std::same_as<A, B>) { note("b = a"); b = a; mb = ma; } break;
      case 14: if constexpr (std::same_as<A, B>) { note("a = move(b)"); a = std::move(b); ma = mb; mb.clear(); } break;
      case 15: if constexpr (std::same_as<A, B>) { note("b = move(a)"); b = std::move(a); mb = ma; ma.clear(); } break;
      case 16: { note("a = a"); A& self = a; a = self; break; }
      case 17: { note("a = move(a)"); A& self = a; a = std::move(self); break; }
      case 18: { note("copy of a"); A t(a); Same(c, t, ma, "the copy", trace); if (n) { t.erase(t.begin()); } break; }
      case 19: { note("a moved out and back"); A t(std::move(a)); Same(c, t, ma, "the new container", trace); MC_CHECK(c, a.empty(), "moved-from is not empty"); a = std::move(t); break; }
      case 20: if constexpr (kCapA == kCapB) { note("swap"); a.swap(b); std::swap(ma, mb); } break;
      case 21: if constexpr (kCapB <= kCapA) { note("A(b) converted"); A t(b); M want(MakeDir<C>(false)); for (const auto& e : mb) want.insert(e); if constexpr (!std::same_as<A, B>) Same(c, t, want, "the converted copy", trace); } break;
      case 22: if constexpr (kCapB < kCapA) { note("a = b converted"); a = b; M t(ma.key_comp()); for (const auto& e : mb) t.insert(e); ma = t; } break;
      case 23: if constexpr (kMap) { const int k = key(), v = ++next; if (Fits(k)) { note("try_emplace(copy ", k, ")"); const K kk = Key(k); ins(a.try_emplace(kk, MakeValue<K>(v)), ma.try_emplace(k, v)); } } break;
      case 24: if constexpr (kMap) { const int k = key(), v = ++next; if (Fits(k)) { note("try_emplace(move ", k, ")"); ins(a.try_emplace(Key(k), MakeValue<K>(v)), ma.try_emplace(k, v)); } } break;
      case 25: if constexpr (kMap) { const int k = key(), v = ++next; if (Fits(k)) { note("insert_or_assign(copy ", k, ")"); const K kk = Key(k); ins(a.insert_or_assign(kk, MakeValue<K>(v)), ma.insert_or_assign(k, v)); } } break;
      case 26: if constexpr (kMap) { const int k = key(), v = ++next; if (Fits(k)) { note("insert_or_assign(move ", k, ")"); ins(a.insert_or_assign(Key(k), MakeValue<K>(v)), ma.insert_or_assign(k, v)); } } break;
      case 27: if constexpr (kMap) { const int k = key(); if (Fits(k)) { note("[", k, "]"); const K kk = Key(k); const auto& got = a[kk]; MC_CHECK(c, ValueOf(got) == ma[k], "operator[] reads ", ValueOf(got), " want ", ma[k], " after ", trace); } } break;
      case 28: if constexpr (kMap) { const int k = key(), v = ++next; if (Fits(k)) { note("[move ", k, "] ="); a[Key(k)] = MakeValue<K>(v); ma[k] = v; } } break;
      case 29: if constexpr (kMap) if (n) { const size_t p = pos(n); const int v = ++next; note("value at ", p, " ="); auto it = std::next(ma.begin(), p); it->second = v; if (p % 2) a.at(Key(it->first)) = MakeValue<K>(v); else a.at_index(p).second = MakeValue<K>(v); } break;
      case 30: if constexpr (kMap) if (n) { const int k = key(); const size_t p = pos(n); if (Fits(k)) { note("insert_or_assign(", k, ", own value ", p, ")"); const int v = std::next(ma.begin(), p)->second; ins(a.insert_or_assign(Key(k), std::as_const(a).at_index(p).second), ma.insert_or_assign(k, v)); } } break;
    }
  }
  void Check(mc::Ctx& c) {
    if constexpr (kTracked<K>) MC_CHECK(c, Lifetimes::G().error.empty(), Lifetimes::G().error, " after ", trace);
    Same(c, a, ma, "a", trace);
    Same(c, b, mb, "b", trace);
    if constexpr (kTracked<K>) {
      auto& l = Lifetimes::G();
      constexpr size_t kPer = kMap ? 2 : 1;
      MC_CHECK(c, l.error.empty(), l.error, " after ", trace);
      MC_CHECK(c, l.live.size() == kPer * (a.size() + b.size()), l.live.size(), " objects are alive for ", a.size(), "+", b.size(), " elements after ", trace);
    }
    MC_CHECK(c, a.capacity() == kCapA && a.max_size() == kCapA, "capacity");
    for (int k = 1; k <= 2 * kKeys + 1; ++k) LookupOne(c, a, ma, k, Key(k), "a", trace);
    if constexpr (Info<C>::kStateful) MC_CHECK(c, a.key_comp().desc == ma.key_comp().desc && b.key_comp().desc == mb.key_comp().desc, "comparator after ", trace);
    const auto want = Contents(ma) <=> Contents(mb);
    MC_CHECK(c, (a <=> b) == want && (a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0),
             "comparison of ", Show(Contents(ma)), " and ", Show(Contents(mb)));
    c.state(mc::Cat(typeid(*this).name(), Show(Contents(ma)), "/", Show(Contents(mb))));
  }
};

template <typename W>
void Run(mc::Ctx& c, int steps) {
  Lifetimes::G().Reset();
  Lifetimes::G().live.reserve(64);
  {
    const bool da = Info<typename W::A::key_compare>::kStateful && c.flip(), db = Info<typename W::A::key_compare>::kStateful && c.flip();
    W w(da, db);
    // Starting contents: every subset of the keys that fits for a; two for b.
    std::vector<int> sa;
    for (int i = 0; i < kKeys; ++i) if (sa.size() < W::kCapA && c.flip()) sa.push_back(2 * (1 + i));
    for (int k : sa) { w.a.insert(W::Elem(k, k + 20)); w.Put(k, k + 20); }
    if (c.flip()) {
      std::swap(w.ma, w.mb);
      for (int k : {4, 8}) { w.b.insert(W::Elem(k, k + 30)); w.Put(k, k + 30); }
      std::swap(w.ma, w.mb);
    }
    w.trace = mc::Cat("a=", Show(Contents(w.ma)), " b=", Show(Contents(w.mb)), ": ");
    for (int s = 0; s < steps; ++s) {
      w.Step(c);
      w.Check(c);
    }
    c.sample(w.trace);
  }
  MC_CHECK(c, Lifetimes::G().error.empty() && Lifetimes::G().live.empty(), "at the end: ", Lifetimes::G().error, " ", Lifetimes::G().live.size(), " objects left");
}
}  // namespace

#if PART == 0
MC_SECTION_D(set_tracked, 6) { Run<World<false, Tracked, std::less<Tracked>, 4, 4>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(set_comparer, 6) { Run<World<false, Tracked, mbo::types::CompareLess<Tracked>, LimitedOptions<3>{}, LimitedOptions<3>{}>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(set_descending, 6) { Run<World<false, Tracked, std::greater<Tracked>, LimitedOptions<4, F::kNoOptimizeIndexOf>{}, 3>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(set_runtime_order, 6) { Run<World<false, Tracked, Stateful, 4, 4>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(set_strings, 6) { Run<World<false, std::string, std::less<std::string>, 3, 3>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(set_ints, 6) { Run<World<false, int, mbo::types::CompareLess<int>, LimitedOptions<4, F::kEmptyDestructor>{}, 2>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(set_deep, 6) { Run<World<false, Tracked, std::less<Tracked>, 2, 2>>(c, mc::Tier(2, 3)); }
#endif
#if PART == 1
MC_SECTION_D(map_tracked, 6) { Run<World<true, Tracked, std::less<Tracked>, 4, 4>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(map_comparer, 6) { Run<World<true, Tracked, mbo::types::CompareLess<Tracked>, 3, 3>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(map_descending, 6) { Run<World<true, Tracked, std::greater<Tracked>, LimitedOptions<4, F::kNoOptimizeIndexOf>{}, 3>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(map_runtime_order, 6) { Run<World<true, Tracked, Stateful, 3, 3>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(map_strings, 6) { Run<World<true, std::string, mbo::types::CompareLess<std::string>, 3, 3>>(c, mc::Tier(1, 2)); }
MC_SECTION_D(map_deep, 6) { Run<World<true, Tracked, std::less<Tracked>, 2, 2>>(c, mc::Tier(2, 3)); }
#endif

#if PART == 2
namespace {
// Searching only compares, so for a size n the 2n+1 gaps and elements are all keys there are up to order.
template <typename C, auto kOpt>
void Lookups(mc::Ctx& c) {
  constexpr size_t kCap = MakeLimitedOptions<kOpt>().kCapacity;
  const size_t n = c.choose(kCap + 1);
  const bool map = c.flip();
  const bool desc = Info<C>::kStateful && c.flip();
  using K = int;
  auto run = [&](auto a, auto m) {
    std::vector<int> order;
    for (size_t i = 0; i < n; ++i) order.push_back(2 * static_cast<int>((i * 7 + 3) % n) + 2);
    std::sort(order.begin(), order.end());
    for (int k : order) {
      if constexpr (requires { a.mapped_type_check; }) {}
      if constexpr (requires { m.insert(k); }) a.emplace(k), m.insert(k); else a.emplace(k, k + 1), m.emplace(k, k + 1);
    }
    Same(c, a, m, "a", "");
    for (int k = 1; k <= 2 * static_cast<int>(n) + 1; ++k) LookupOne(c, a, m, k, k, "a", "");
    if constexpr (mbo::types::IsCompareLess<C>) {
      for (int k = 1; k <= 2 * static_cast<int>(n) + 1; ++k) LookupOne(c, a, m, k, static_cast<long>(k), "a", "(by long)");
    }
    c.state(mc::Cat(typeid(a).name(), n));
  };
  if (map) run(LimitedMap<K, int, kOpt, C>(MakeComp<C>(desc)), std::map<int, int, Dir>(MakeDir<C>(desc)));
  else run(LimitedSet<K, kOpt, C>(MakeComp<C>(desc)), std::set<int, Dir>(MakeDir<C>(desc)));
}
template <auto kOpt>
void AllOrders(mc::Ctx& c) {
  switch (c.choose(2)) {
    case 0: Lookups<mbo::types::CompareLess<int>, kOpt>(c); break;
    case 1: Lookups<Stateful, kOpt>(c); break;
  }
}
template <size_t kCap>
void AllFlags(mc::Ctx& c) {
  switch (c.choose(3)) {
    case 0: AllOrders<LimitedOptions<kCap>{}>(c); break;
    case 1: AllOrders<LimitedOptions<kCap, F::kNoOptimizeIndexOf>{}>(c); break;
    case 2: AllOrders<LimitedOptions<kCap, F::kCustomIndexOfBeyondUnroll>{}>(c); break;
  }
}
}  // namespace
#if UNROLL == 4
#define CAPS(F) F(3) F(4) F(5) F(8)
#elif UNROLL == 16
#define CAPS(F) F(1) F(2) F(8) F(15) F(16) F(17) F(33)
#else
#define CAPS(F) F(16) F(31) F(32) F(40)
#endif
#define ONE(n) MC_SECTION_D(lookup_##n, 3) { AllFlags<n>(c); }
CAPS(ONE)
#endif

#if PART == 3
// Construction from sorted and unsorted input of all orders and repetitions.
namespace {
template <typename Opt, Opt kOpt, typename C>
void Construct(mc::Ctx& c, const std::vector<int>& keys, bool sorted_only) {
  Dir d = MakeDir<C>(false);
  if (sorted_only) {  // sorted input without repetition is what the flag asks for
    for (size_t i = 1; i < keys.size(); ++i) if (!d(keys[i - 1], keys[i])) return;
  }
  std::set<int, Dir> ms(d);
  std::map<int, int, Dir> mm(d);
  std::vector<std::pair<int, int>> kv;
  for (int k : keys) { ms.insert(k); kv.emplace_back(k, k * 10 + static_cast<int>(kv.size())); mm.insert(kv.back()); }
  const std::string t = mc::Cat("input ", Show(kv));
  c.detail(t);
  LimitedSet<int, kOpt, C> s(keys.begin(), keys.end());
  Same(c, s, ms, "set", t);
  for (int k = 0; k <= 4; ++k) LookupOne(c, s, ms, k, k, "set", t);
  {
    LimitedMap<int, int, kOpt, C> m(kv.begin(), kv.end());
    Same(c, m, mm, "map", t);
    for (int k = 0; k <= 4; ++k) LookupOne(c, m, mm, k, k, "map", t);
  }
  std::set<int> other;
  for (int bits = 0; bits < 16; ++bits) {
    std::vector<int> q;
    for (int k = 0; k < 4; ++k) if (bits >> k & 1) q.push_back(k);
    bool all = true, any = false;
    for (int k : q) all &= ms.count(k) > 0, any |= ms.count(k) > 0;
    c.step();
    MC_CHECK(c, s.contains_all(q) == all && s.contains_any(q) == any, "contains_all/any of ", bits, " in ", t);
    if (q.size() == 2) MC_CHECK(c, s.contains_all({q[0], q[1]}) == all && s.contains_any({q[0], q[1]}) == any, "contains_all/any list of ", bits, " in ", t);
  }
  c.state(mc::Cat(typeid(s).name(), t));
}
}  // namespace
MC_SECTION_D(construct, 3) {
  std::vector<int> keys;
  const int n = c.choose(mc::Tier(6, 7));
  for (int i = 0; i < n; ++i) keys.push_back(c.choose(4));
  using L7 = LimitedOptions<7>;
  using S7 = LimitedOptions<7, F::kRequireSortedInput>;
  Construct<L7, L7{}, std::less<int>>(c, keys, false);
  Construct<L7, L7{}, std::greater<int>>(c, keys, false);
  Construct<L7, L7{}, mbo::types::CompareLess<int>>(c, keys, false);
  Construct<S7, S7{}, std::less<int>>(c, keys, true);
  Construct<S7, S7{}, std::greater<int>>(c, keys, true);
}
// Lookup and erasure by a type other than the key.
MC_SECTION_D(foreign_keys, 2) {
  using S = LimitedSet<std::string, 4, mbo::types::CompareLess<std::string>>;
  using SN = LimitedSet<std::string, LimitedOptions<4, F::kNoOptimizeIndexOf>{}, std::less<>>;
  using M = LimitedMap<std::string, int, 4, mbo::types::CompareLess<std::string>>;
  static const std::vector<std::string> kNames = {"", "a", "aa", "ab", "b", std::string("a\0", 2)};
  std::set<int> pickd;
  for (int i = 0; i < 6; ++i) if (pickd.size() < 4 && c.flip()) pickd.insert(i);
  const int q = c.choose(6);
  S s;
  SN sn;
  M m;
  std::set<std::string> ms;
  std::map<std::string, int> mm;
  for (int i : pickd) s.emplace(kNames[i]), sn.emplace(kNames[i]), m.emplace(kNames[i], i), ms.insert(kNames[i]), mm.emplace(kNames[i], i);
  const std::string_view key = kNames[q];
  c.step();
  const bool has = ms.count(kNames[q]);
  const auto lo = std::distance(ms.begin(), ms.lower_bound(kNames[q])), up = std::distance(ms.begin(), ms.upper_bound(kNames[q]));
  auto look = [&](auto& a) {
    MC_CHECK(c, a.contains(key) == has && a.count(key) == size_t(has) && a.index_of(key) == (has ? size_t(lo) : S::npos) && a.find(key) == (has ? a.begin() + lo : a.end())
                 && a.lower_bound(key) == a.begin() + lo && a.upper_bound(key) == a.begin() + up && a.equal_range(key).first == a.begin() + lo && a.equal_range(key).second == a.begin() + up,
             "lookup of ", mc::Quote(key));
    MC_CHECK(c, a.contains_all(std::vector<std::string_view>{key}) == has && a.contains_any(std::vector<std::string_view>{key}) == has, "contains_all/any of ", mc::Quote(key));
  };
  look(s), look(sn), look(m);
  if (has) MC_CHECK(c, m.at(key) == q, "at ", mc::Quote(key));
  MC_CHECK(c, s.erase(key) == size_t(has) && sn.erase(key) == size_t(has) && m.erase(key) == size_t(has), "erase of ", mc::Quote(key));
  ms.erase(kNames[q]);
  mm.erase(kNames[q]);
  MC_CHECK(c, std::equal(s.begin(), s.end(), ms.begin(), ms.end()) && std::equal(sn.begin(), sn.end(), ms.begin(), ms.end()), "contents after erasing ", mc::Quote(key));
  MC_CHECK(c, m.size() == mm.size() && std::equal(mm.begin(), mm.end(), m.begin(), [](auto& a, auto& b) { return a.first == b.first && a.second == b.second; }), "contents after erasing ", mc::Quote(key));
  // Erasing by a view of an element that is being erased.
  if (!s.empty()) {
    const size_t i = c.choose(static_cast<int>(s.size()));
    const std::string gone = *(s.begin() + i);
    const std::string_view own = *(s.begin() + i);
    MC_CHECK(c, s.erase(own) == 1, "erase by own view");
    ms.erase(gone);
    MC_CHECK(c, std::equal(s.begin(), s.end(), ms.begin(), ms.end()), "contents after erasing by own view");
  }
}
// Makers.
MC_SECTION_D(makers, 1) {
  const int which = c.choose(12);
  c.step();
  auto is = [&](const auto& v, const Seq& m, size_t cap) {
    c.state(mc::Cat(which));
    MC_CHECK(c, Contents(v) == m && v.capacity() == cap, "maker ", which, " holds ", Show(Contents(v)), " capacity ", v.capacity());
  };
  using P = std::pair<int, int>;
  switch (which) {
    case 0: is(MakeLimitedSet(3, 1, 2), {{1, 0}, {2, 0}, {3, 0}}, 3); break;
    case 1: is(MakeLimitedSet<5>({3, 1, 3}), {{1, 0}, {3, 0}}, 5); break;
    case 2: { const std::vector<int> in{5, 4, 5}; is(MakeLimitedSet<4>(in.begin(), in.end()), {{4, 0}, {5, 0}}, 4); break; }
    case 3: is(MakeLimitedSet<int, 6>(), {}, 6); break;
    case 4: { int in[] = {3, 1, 2, 1}; is(ToLimitedSet(in), {{1, 0}, {2, 0}, {3, 0}}, 4); break; }
    case 5: { const auto v = MakeLimitedSet("b", "a", "b"); MC_CHECK(c, v.size() == 2 && *v.begin() == "a" && *(v.begin() + 1) == "b" && (std::same_as<typename decltype(v)::value_type, std::string_view>), "strings"); break; }
    case 6: is(MakeLimitedSetOf<long>(3, 1), {{1, 0}, {3, 0}}, 2); break;
    case 7: is(MakeLimitedMap(P{3, 30}, P{1, 10}, P{3, 31}), {{1, 10}, {3, 30}}, 3); break;
    case 8: is(MakeLimitedMap<5>({P{3, 30}, P{1, 10}}), {{1, 10}, {3, 30}}, 5); break;
    case 9: { const std::vector<P> in{{5, 1}, {4, 2}, {5, 3}}; is(MakeLimitedMap<4>(in.begin(), in.end()), {{4, 2}, {5, 1}}, 4); break; }
    case 10: { P in[] = {{3, 1}, {1, 2}}; is(ToLimitedMap(in), {{1, 2}, {3, 1}}, 2); break; }
    case 11: { std::pair<int, std::string> in[] = {{3, "x7"}, {1, "x8"}}; is(ToLimitedMap(std::move(in)), {{1, 8}, {3, 7}}, 2); break; }
  }
}
// Makers from any mix of named, constant and temporary values: only temporaries are taken over.
namespace {
template <int kKind, typename T> decltype(auto) Given(T& v) {
  if constexpr (kKind == 0) return (v);
  else if constexpr (kKind == 1) return (std::as_const(v));
  else return std::move(v);
}
template <int kA, int kB, int kC> void Mixed(mc::Ctx& c) {
  const int kinds[3] = {kA, kB, kC};
  {
    std::string in[3] = {std::string(40, 'c'), "b", std::string(40, 'a')};
    const std::string was[3] = {in[0], in[1], in[2]};
    const auto check = [&](const auto& v, const char* what) {
      MC_CHECK(c, v.size() == 3 && *v.begin() == was[2] && *(v.begin() + 1) == was[1] && *(v.begin() + 2) == was[0], what, " made of kinds ", kA, kB, kC);
      for (int i = 0; i < 3; ++i) MC_CHECK(c, kinds[i] == 2 || in[i] == was[i], what, ": argument ", i, " of kinds ", kA, kB, kC, " was changed");
      for (int i = 0; i < 3; ++i) in[i] = was[i];
    };
    check(MakeLimitedSet(Given<kA>(in[0]), Given<kB>(in[1]), Given<kC>(in[2])), "MakeLimitedSet");
    check(MakeLimitedSetOf<std::string>(Given<kA>(in[0]), Given<kB>(in[1]), Given<kC>(in[2])), "MakeLimitedSetOf");
  }
}
template <size_t... kI> void AllMixed(mc::Ctx& c, size_t which, std::index_sequence<kI...>) { ((which == kI ? Mixed<kI % 3, kI / 3 % 3, kI / 9>(c) : void()), ...); }
}  // namespace
MC_SECTION_D(makers_mixed, 1) {
  const size_t which = c.choose(27);
  c.step();
  c.state(which);
  AllMixed(c, which, std::make_index_sequence<27>());
}
// All orders between two maps or two sets, also of values that are not all ordered, or of different types.
namespace {
template <typename K1, typename V1, typename K2, typename V2>
void Orders(mc::Ctx& c, const std::vector<K1>& k1, const std::vector<V1>& v1, const std::vector<K2>& k2, const std::vector<V2>& v2) {
  std::map<K1, V1> ma;
  std::map<K2, V2> mb;
  for (const K1& k : k1) if (c.flip()) ma.emplace(k, c.pick(v1));
  for (const K2& k : k2) if (c.flip()) mb.emplace(k, c.pick(v2));
  LimitedMap<K1, V1, 3> a;
  LimitedSet<K1, 3> sa;
  for (const auto& [k, v] : ma) a.emplace(k, v), sa.emplace(k);
  LimitedMap<K2, V2, 4> b;
  LimitedSet<K2, 4> sb;
  for (const auto& [k, v] : mb) b.emplace(k, v), sb.emplace(k);
  c.step();
  const auto check = [&](const auto& l, const auto& r, auto want, const char* what) {
    MC_CHECK(c, (l <=> r) == want, what, ": <=>");
    MC_CHECK(c, (r <=> l) == (0 <=> want), what, ": <=> reversed");
    MC_CHECK(c, (l == r) == (want == 0) && (l != r) == (want != 0), what, ": == and !=");
    MC_CHECK(c, (l < r) == (want < 0) && (l > r) == (want > 0) && (r < l) == (want > 0), what, ": < and >");
    MC_CHECK(c, (l <= r) == (want <= 0) && (l >= r) == (want >= 0), what, ": <= and >=");
    c.state(mc::Cat(what, want < 0, want == 0, want > 0));
  };
  using VC = std::common_comparison_category_t<std::compare_three_way_result_t<K1, K2>, std::compare_three_way_result_t<V1, V2>>;
  check(a, b, std::lexicographical_compare_three_way(ma.begin(), ma.end(), mb.begin(), mb.end(), [](const auto& l, const auto& r) -> VC {
    if (const auto k = l.first <=> r.first; k != 0) return k;
    return l.second <=> r.second;
  }), "map");
  check(sa, sb, std::lexicographical_compare_three_way(ma.begin(), ma.end(), mb.begin(), mb.end(), [](const auto& l, const auto& r) { return l.first <=> r.first; }), "set");
}
}  // namespace
MC_SECTION_D(orders, 2) {
  constexpr double kNan = std::numeric_limits<double>::quiet_NaN();
  switch (c.choose(4)) {
    case 0: Orders<int, double, int, double>(c, {1, 2}, {0.0, -0.0, 1.5, kNan}, {1, 2, 3}, {0.0, 1.5, kNan}); break;
    case 1: Orders<double, int, double, int>(c, {-1, 0.5, 2}, {0, 1}, {-1, 0.5, 2}, {0, 1}); break;
    case 2: Orders<int, long, double, double>(c, {1, 2}, {0, 1L << 32}, {1, 1.5, 2}, {0, kNan, double(1L << 32)}); break;
    default: Orders<std::string, int, std::string_view, long>(c, {"", "a", "b"}, {0, 1}, {"", "a", "ab"}, {0, 1}); break;
  }
}
// Evaluated by the compiler: all insertion sequences.
namespace {
constexpr bool AtCompileTime(size_t code) {
  LimitedSet<int, 4> s;
  LimitedMap<int, int, 4> m;
  bool in[5] = {};
  int val[5] = {};
  for (int i = 0; i < 4; ++i) {
    const int op = code % 8;
    code /= 8;
    const int k = op % 4;
    if (op < 4) {
      const bool fresh = !in[k];
      if (s.insert(k).second != fresh || m.emplace(k, i + 1).second != fresh) return false;
      if (fresh) in[k] = true, val[k] = i + 1;
    } else {
      if (s.erase(k) != size_t(in[k]) || m.erase(k) != size_t(in[k])) return false;
      in[k] = false;
    }
  }
  size_t n = 0;
  for (int k = 0; k < 4; ++k) {
    if (s.contains(k) != in[k] || m.contains(k) != in[k] || s.count(k) != size_t(in[k])) return false;
    if (in[k]) {
      if (s.at_index(n) != k || m.at(k) != val[k] || s.index_of(k) != n) return false;
      ++n;
    }
  }
  return s.size() == n && m.size() == n;
}
template <size_t kFrom, size_t... I>
constexpr std::array<bool, sizeof...(I)> Table(std::index_sequence<I...>) { return {AtCompileTime(kFrom + I)...}; }
constexpr auto kTable = Table<0>(std::make_index_sequence<2048>());
constexpr auto kTable2 = Table<2048>(std::make_index_sequence<2048>());
}  // namespace
MC_SECTION_D(compile_time, 1) {
  const int i = c.choose(4096);
  c.step();
  MC_CHECK(c, i < 2048 ? kTable[i] : kTable2[i - 2048], "operation sequence ", i, " evaluated by the compiler");
}
#endif
