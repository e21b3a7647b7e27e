// Every sequence of operations on limited vectors against std::vector, with every element lifetime accounted for.
#include "lib/mc.h"
#include <list>
#include <memory>
#include "harness/tracked.h"
#include "mbo/container/limited_vector.h"

namespace {
using namespace mbo::container;
using Model = std::vector<int>;

std::string Show(const Model& m) { std::string s = "{"; for (int v : m) s += mc::Cat(v, ","); return s + "}"; }
template <typename V>
Model Contents(const V& v) { Model m; for (const auto& e : v) m.push_back(ValueOf(e)); return m; }

template <typename V>
void Same(mc::Ctx& c, V& v, const Model& m, const char* who, const std::string& trace) {
  const V& cv = v;
  c.step();
  MC_CHECK(c, v.size() == m.size() && v.empty() == m.empty(), who, " has size ", v.size(), " want ", m.size(), " after ", trace);
  MC_CHECK(c, Contents(v) == m && Contents(cv) == m, who, " holds ", Show(Contents(v)), " want ", Show(m), " after ", trace);
  Model r, cr, ix, cix, cb;
  for (auto it = v.rbegin(); it != v.rend(); ++it) r.push_back(ValueOf(*it));
  for (auto it = cv.crbegin(); it != cv.crend(); ++it) cr.push_back(ValueOf(*it));
  for (size_t i = 0; i < m.size(); ++i) ix.push_back(ValueOf(v[i])), cix.push_back(ValueOf(cv.at(i)));
  for (auto it = cv.cbegin(); it != cv.cend(); ++it) cb.push_back(ValueOf(*it));
  const Model rev(m.rbegin(), m.rend());
  MC_CHECK(c, r == rev && cr == rev && ix == m && cix == m && cb == m, who, ": views disagree after ", trace);
  if (!m.empty()) {
    MC_CHECK(c, ValueOf(v.front()) == m.front() && ValueOf(cv.back()) == m.back() && ValueOf(cv.front()) == m.front() && ValueOf(v.back()) == m.back(), who, ": ends disagree after ", trace);
    MC_CHECK(c, cv.data() == &cv[0] && cv.end() - cv.begin() == static_cast<std::ptrdiff_t>(m.size()), who, ": storage after ", trace);
  }
}
template <typename T, auto N1, auto N2>
void Lives(mc::Ctx& c, const LimitedVector<T, N1>& a, const LimitedVector<T, N2>& b, const std::string& trace) {
  if constexpr (kTracked<T>) {
    auto& l = Lifetimes::G();
    MC_CHECK(c, l.error.empty(), l.error, " after ", trace);
    MC_CHECK(c, l.live.size() == a.size() + b.size(), l.live.size(), " objects are alive for ", a.size(), "+", b.size(), " elements after ", trace);
    for (const auto& e : a) MC_CHECK(c, l.Has(&e), "an element is not alive after ", trace);
    for (const auto& e : b) MC_CHECK(c, l.Has(&e), "an element is not alive after ", trace);
  }
}

template <typename T, auto kN, auto kM>
struct World {
  using A = LimitedVector<T, kN>;
  using B = LimitedVector<T, kM>;
  static constexpr size_t kCapA = MakeLimitedOptions<kN>().kCapacity;
  static constexpr size_t kCapB = MakeLimitedOptions<kM>().kCapacity;
  static constexpr bool kCopy = std::copy_constructible<T>;
  A a;
  B b;
  Model ma, mb;
  int next = 100;
  std::string trace;

  static constexpr int kOps = 40;
  // Performs one operation chosen by `c`. Operations that do not apply end the execution's step without change.
  void Step(mc::Ctx& c) {
    const int op = c.choose(kOps);
    const size_t n = ma.size();
    const size_t room = kCapA - n;
    auto pos = [&](size_t lim) { const int p = c.choose(static_cast<int>(lim)); return static_cast<size_t>(p); };
    auto it = [&](size_t p) { return a.cbegin() + p; };
    auto fresh = [&] { return ++next; };
    auto ret = [&](auto got, size_t want) { MC_CHECK(c, got == a.begin() + want, "operation returned position ", got - a.begin(), " want ", want, " after ", trace); };
    auto note = [&](auto... x) { trace += mc::Cat(x...) + "; "; c.detail(trace); };
    switch (op) {
      case 0: if (room) { const int v = fresh(); note("push_back(move)"); auto& r = a.push_back(MakeValue<T>(v)); ma.push_back(v); MC_CHECK(c, &r == &a.back(), trace); } break;
      case 1: if constexpr (kCopy) if (room) { const int v = fresh(); note("push_back(copy)"); { const T t = MakeValue<T>(v); a.push_back(t); MC_CHECK(c, ValueOf(t) == v, "changed its argument"); } ma.push_back(v); } break;
      case 2: if (room) { const int v = fresh(); note("emplace_back"); auto& r = a.emplace_back(MakeValue<T>(v)); ma.push_back(v); MC_CHECK(c, &r == &a.back(), trace); } break;
      case 3: if (n) { note("pop_back"); a.pop_back(); ma.pop_back(); } break;
      case 4: if constexpr (kCopy) if (room) { const size_t p = pos(n + 1); const int v = fresh(); note("insert(", p, ", copy)"); { const T t = MakeValue<T>(v); ret(a.insert(it(p), t), p); MC_CHECK(c, ValueOf(t) == v, "changed its argument"); } ma.insert(ma.begin() + p, v); } break;
      case 5: if (room) { const size_t p = pos(n + 1); const int v = fresh(); note("insert(", p, ", move)"); ret(a.insert(it(p), MakeValue<T>(v)), p); ma.insert(ma.begin() + p, v); } break;
      case 6: if constexpr (kCopy) if (room) { const size_t p = pos(n + 1); const int v = fresh(); note("insert(", p, ", lvalue)"); { T t = MakeValue<T>(v); ret(a.insert(it(p), t), p); MC_CHECK(c, ValueOf(t) == v, "changed its argument"); } ma.insert(ma.begin() + p, v); } break;
      case 7: if constexpr (kCopy) { const size_t p = pos(n + 1), k = pos(room + 1); const int v = fresh(); note("insert(", p, ", ", k, " copies)"); { const T t = MakeValue<T>(v); ret(a.insert(it(p), k, t), p); } ma.insert(ma.begin() + p, k, v); } break;
      case 8: if constexpr (kCopy) { const size_t p = pos(n + 1), k = pos(room + 1); note("insert(", p, ", range of ", k, ")"); { std::vector<T> in; Model mi; for (size_t i = 0; i < k; ++i) { const int v = fresh(); in.push_back(MakeValue<T>(v)); mi.push_back(v); } ret(a.insert(it(p), in.begin(), in.end()), p); MC_CHECK(c, Contents(in) == mi, "changed its argument"); ma.insert(ma.begin() + p, mi.begin(), mi.end()); } } break;
      case 9: if constexpr (kCopy) if (room >= 2) { const size_t p = pos(n + 1); const int v = fresh(), w = fresh(); note("insert(", p, ", {2})"); ret(a.insert(it(p), {MakeValue<T>(v), MakeValue<T>(w)}), p); ma.insert(ma.begin() + p, {v, w}); } break;
      case 10: if (room) { const size_t p = pos(n + 1); const int v = fresh(); note("emplace(", p, ")"); ret(a.emplace(it(p), MakeValue<T>(v)), p); ma.insert(ma.begin() + p, v); } break;
      case 11: if (n) { const size_t p = pos(n); note("erase(", p, ")"); ret(a.erase(it(p)), p); ma.erase(ma.begin() + p); } break;
      case 12: { const size_t f = pos(n + 1), l = f + pos(n - f + 1); note("erase(", f, ",", l, ")"); ret(a.erase(it(f), it(l)), f); ma.erase(ma.begin() + f, ma.begin() + l); break; }
      case 13: if constexpr (kCopy) { const size_t k = pos(kCapA + 1); const int v = fresh(); note("assign(", k, ")"); { const T t = MakeValue<T>(v); a.assign(k, t); } ma.assign(k, v); } break;
      case 14: if constexpr (kCopy) { const size_t k = pos(kCapA + 1); note("assign(range of ", k, ")"); { std::vector<T> in; ma.clear(); for (size_t i = 0; i < k; ++i) { const int v = fresh(); in.push_back(MakeValue<T>(v)); ma.push_back(v); } if (k % 2) a.assign(in.cbegin(), in.cend()); else a.assign(in.begin(), in.end()); MC_CHECK(c, Contents(in) == ma, "assign changed its argument after ", trace); } } break;
      case 15: if constexpr (kCopy) if (kCapA >= 2) { const int v = fresh(), w = fresh(); note("assign({2})"); a.assign({MakeValue<T>(v), MakeValue<T>(w)}); ma = {v, w}; } break;
      case 16: { const size_t k = pos(kCapA + 1); note("resize(", k, ")"); a.resize(k); ma.resize(k); break; }
      case 17: note("clear"); a.clear(); ma.clear(); break;
      case 18: if constexpr (kCopy) if (room && n) { const size_t i = pos(n); note("push_back(own ", i, ")"); a.push_back(a[i]); ma.push_back(int(ma[i])); } break;
      case 19: if constexpr (kCopy) if (room && n) { const size_t p = pos(n + 1), i = pos(n); note("insert(", p, ", own ", i, ")"); ret(a.insert(it(p), a[i]), p); ma.insert(ma.begin() + p, int(ma[i])); } break;
      case 20: if constexpr (kCopy) if (n) { const size_t p = pos(n + 1), k = pos(room + 1), i = pos(n); note("insert(", p, ", ", k, " x own ", i, ")"); ret(a.insert(it(p), k, a[i]), p); const int v = ma[i]; ma.insert(ma.begin() + p, k, v); } break;
      case 21: if constexpr (kCopy) if (room && n) { const size_t p = pos(n + 1), i = pos(n); note("emplace(", p, ", own ", i, ")"); ret(a.emplace(it(p), a[i]), p); ma.insert(ma.begin() + p, int(ma[i])); } break;
      case 22: if constexpr (kCopy) if (room && n) { const size_t p = pos(n + 1), i = pos(n); note("insert(", p, ", const own ", i, ")"); ret(a.insert(it(p), std::as_const(a)[i]), p); ma.insert(ma.begin() + p, int(ma[i])); } break;
      case 23: if constexpr (kCopy && kCapB <= kCapA) { note("a = b"); A& r = (a = b); MC_CHECK(c, &r == &a, trace); ma = mb; } break;
      case 24: if constexpr (kCopy && kCapA <= kCapB) { note("b = a"); b = a; mb = ma; } break;
      case 25: if constexpr (kCapB <= kCapA) { note("a = move(b)"); A& r = (a = std::move(b)); MC_CHECK(c, &r == &a, trace); ma = mb; mb.clear(); } break;
      case 26: if constexpr (kCapA <= kCapB) { note("b = move(a)"); b = std::move(a); mb = ma; ma.clear(); } break;
      case 27: if constexpr (kCopy) { note("a = a"); A& self = a; a = self; } break;
      case 28: { note("a = move(a)"); A& self = a; a = std::move(self); break; }
      case 29: if constexpr (kCopy) { note("copy of a"); A t(a); Same(c, t, ma, "the copy", trace); t.clear(); } break;
      case 30: { note("a moved out and back"); A t(std::move(a)); Same(c, t, ma, "the new vector", trace); MC_CHECK(c, a.empty(), "moved-from vector is not empty after ", trace); a = std::move(t); break; }
      case 31: if constexpr (kCapB <= kCapA) { if (n <= kCapB) { note("swap"); a.swap(b); std::swap(ma, mb); } } break;
      case 32: if constexpr (kCopy && kCapA >= 2) { const int v = fresh(), w = fresh(); note("a = {2}"); a = {MakeValue<T>(v), MakeValue<T>(w)}; ma = {v, w}; } break;
      case 33: if (n) { const size_t i = pos(n); const int v = fresh(); note("a[", i, "] ="); a[i] = MakeValue<T>(v); ma[i] = v; } break;
      case 34: if (n) { const int v = fresh(), w = fresh(); note("front = back ="); a.front() = MakeValue<T>(v); ma.front() = v; a.back() = MakeValue<T>(w); ma.back() = w; } break;
      case 35: { const size_t k = pos(kCapA + 1); note("reserve(", k, ") shrink"); a.reserve(k); a.shrink_to_fit(); break; }
      case 36: if constexpr (kCopy && kCapB <= kCapA) { note("A(b)"); A t(b); Same(c, t, mb, "the converted copy", trace); } break;
      case 37: if constexpr (kCapB <= kCapA) { note("A(move(b))"); A t(std::move(b)); Same(c, t, mb, "the converted vector", trace); mb.clear(); } break;
      case 38: if constexpr (kCopy) { note("A(range)"); std::vector<T> in; for (int v : ma) in.push_back(MakeValue<T>(v)); A t(in.begin(), in.end()); Same(c, t, ma, "the constructed vector", trace); } break;
      case 39: if constexpr (kCapA <= kCapB) if (kCapA != kCapB) { if (mb.size() <= kCapA) { note("b.swap(a)"); b.swap(a); std::swap(ma, mb); } } break;
    }
  }
  void Check(mc::Ctx& c) {
    if constexpr (kTracked<T>) MC_CHECK(c, Lifetimes::G().error.empty(), Lifetimes::G().error, " after ", trace);
    Same(c, a, ma, "a", trace);
    Same(c, b, mb, "b", trace);
    Lives(c, a, b, trace);
    MC_CHECK(c, a.capacity() == kCapA && a.max_size() == kCapA, "capacity");
    if constexpr (std::three_way_comparable<T>) {
      const auto want = Contents(ma) <=> Contents(mb);
      MC_CHECK(c, (a <=> b) == want && (a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0),
               "comparison of ", Show(ma), " and ", Show(mb));
    }
    c.state(mc::Cat(typeid(*this).name(), Show(ma), "/", Show(mb)));
  }
};

template <typename W>
void Run(mc::Ctx& c, int steps, bool all_starts) {
  Lifetimes::G().Reset();
  if (kTracked<typename W::A::value_type>) Lifetimes::G().live.reserve(64);
  {
    W w;
    const int na = all_starts ? c.choose(W::kCapA + 1) : (c.flip() ? W::kCapA - 1 : 1);
    const int nb = all_starts ? c.choose(W::kCapB + 1) : (c.flip() ? W::kCapB : 1);
    for (int i = 0; i < na; ++i) { w.a.emplace_back(MakeValue<typename W::A::value_type>(1 + i)); w.ma.push_back(1 + i); }
    for (int i = 0; i < nb; ++i) { w.b.emplace_back(MakeValue<typename W::A::value_type>(11 + i)); w.mb.push_back(11 + i); }
    w.trace = mc::Cat("a=", Show(w.ma), " b=", Show(w.mb), ": ");
    for (int s = 0; s < steps; ++s) {
      w.Step(c);
      w.Check(c);
    }
    c.sample(w.trace);
  }
  if (kTracked<typename W::A::value_type>) {
    MC_CHECK(c, Lifetimes::G().error.empty() && Lifetimes::G().live.empty(), "at the end: ", Lifetimes::G().error, " ", Lifetimes::G().live.size(), " objects left");
  }
}
constexpr auto kO3 = LimitedOptions<3>{};
constexpr auto kO4 = LimitedOptions<4>{};
constexpr auto kO4E = LimitedOptions<4, LimitedOptionsFlag::kEmptyDestructor>{};
}  // namespace

MC_SECTION_D(tracked_same_capacity, 3) { Run<World<Tracked, 4, 4>>(c, mc::Tier(2, 3), true); }
MC_SECTION_D(tracked_other_capacity, 3) { Run<World<Tracked, kO4, kO3>>(c, 2, true); }
MC_SECTION_D(tracked_smaller, 3) { Run<World<Tracked, 2, 3>>(c, mc::Tier(2, 3), true); }
MC_SECTION_D(tracked_deep, 4) { Run<World<Tracked, 3, 3>>(c, mc::Tier(3, 3), false); }
MC_SECTION_D(move_only, 3) { Run<World<MoveOnly, 4, kO3>>(c, mc::Tier(2, 3), true); }
MC_SECTION_D(strings, 3) { Run<World<std::string, 3, kO3>>(c, 2, true); }
MC_SECTION_D(ints, 3) { Run<World<int, kO4E, 2>>(c, mc::Tier(2, 3), false); }
MC_SECTION_D(one_element, 3) { Run<World<Tracked, 1, 1>>(c, mc::Tier(3, 4), true); }

// Ways of making a vector.
MC_SECTION_D(makers, 1) {
  const int which = c.choose(12);
  c.step();
  auto is = [&](const auto& v, const Model& m, size_t cap) {
    c.state(mc::Cat(which));
    MC_CHECK(c, Contents(v) == m && v.capacity() == cap, "maker ", which, " holds ", Show(Contents(v)), " capacity ", v.capacity());
  };
  switch (which) {
    case 0: is(MakeLimitedVector(1, 2, 3), {1, 2, 3}, 3); break;
    case 1: is(MakeLimitedVector<5>({1, 2, 3}), {1, 2, 3}, 5); break;
    case 2: is(MakeLimitedVector<3>(7), {7, 7, 7}, 3); break;
    case 3: { const std::vector<int> in{4, 5}; is(MakeLimitedVector<4>(in.begin(), in.end()), {4, 5}, 4); break; }
    case 4: is(MakeLimitedVector<int, 6>(), {}, 6); break;
    case 5: is(ToLimitedVector({3, 1, 2}), {3, 1, 2}, 3); break;
    case 6: { std::string in[] = {"x1", "x2"}; is(ToLimitedVector(in), {1, 2}, 2); MC_CHECK(c, in[0] == "x1" && in[1] == "x2", "changed its argument"); break; }
    case 7: { std::string in[] = {"x1", "x2"}; is(ToLimitedVector(std::move(in)), {1, 2}, 2); break; }
    case 8: { const auto v = MakeLimitedVector("a", "bc", ""); MC_CHECK(c, v.size() == 3 && v[0] == "a" && v[1] == "bc" && v[2].empty() && (std::same_as<typename decltype(v)::value_type, std::string_view>), "strings"); break; }
    case 9: { const auto v = MakeLimitedVector<std::string>("a", "bc"); MC_CHECK(c, v.size() == 2 && v[0] == "a" && v[1] == "bc" && (std::same_as<typename decltype(v)::value_type, std::string>), "strings"); break; }
    case 10: { LimitedVector<long, 4> v(std::initializer_list<int>{1, 2}); is(v, {1, 2}, 4); break; }
    case 11: { LimitedVector<int, 3> s{5, 6}; LimitedVector<long, kO4> v(s); is(v, {5, 6}, 4); v = s; is(v, {5, 6}, 4); v = std::move(s); is(v, {5, 6}, 4); MC_CHECK(c, s.empty(), "moved from"); break; }
  }
}

// Makers from any mix of named, constant and temporary values: only temporaries are taken over.
namespace {
template <int kKind> decltype(auto) Given(std::string& v) {
  if constexpr (kKind == 0) return (v);
  else if constexpr (kKind == 1) return (std::as_const(v));
  else return std::move(v);
}
template <int kA, int kB, int kC> void Mixed(mc::Ctx& c) {
  std::string in[3] = {std::string(40, 'a'), "b", std::string(40, 'c')};
  const std::string was[3] = {in[0], in[1], in[2]};
  const auto v = MakeLimitedVector(Given<kA>(in[0]), Given<kB>(in[1]), Given<kC>(in[2]));
  MC_CHECK(c, std::equal(v.begin(), v.end(), was, was + 3), "contents of a vector made of kinds ", kA, kB, kC);
  const int kinds[3] = {kA, kB, kC};
  for (int i = 0; i < 3; ++i) MC_CHECK(c, kinds[i] == 2 || in[i] == was[i], "argument ", i, " of kinds ", kA, kB, kC, " was changed");
  const auto w = MakeLimitedVector(Given<kA>(in[1]), Given<kA>(in[1]));
  MC_CHECK(c, w.size() == 2 && (kA == 2 || (w[0] == w[1] && w[0] == in[1])), "the same value twice of kind ", kA);
}
template <size_t... kI> void AllMixed(mc::Ctx& c, size_t which, std::index_sequence<kI...>) { ((which == kI ? Mixed<kI % 3, kI / 3 % 3, kI / 9>(c) : void()), ...); }
}  // namespace
MC_SECTION_D(makers_mixed, 1) {
  const size_t which = c.choose(27);
  c.step();
  c.state(which);
  AllMixed(c, which, std::make_index_sequence<27>());
}

// The same operations when the compiler evaluates them.
namespace {
template <size_t kLen>
constexpr bool AtCompileTime(size_t code) {
  LimitedVector<int, 4> v;
  int m[8] = {};
  size_t n = 0;
  for (size_t i = 0; i < kLen; ++i) {
    const size_t op = code % 7;
    code /= 7;
    if (op == 0 && n < 4) { v.push_back(int(i) + 1); m[n++] = int(i) + 1; }
    if (op == 1 && n < 4) { v.insert(v.begin(), int(i) + 1); for (size_t j = n; j > 0; --j) m[j] = m[j - 1]; m[0] = int(i) + 1; ++n; }
    if (op == 2 && n) { v.pop_back(); --n; }
    if (op == 3 && n <= 2) { v.insert(v.begin(), 2, int(i) + 1); for (size_t j = n; j > 0; --j) m[j + 1] = m[j - 1]; m[0] = m[1] = int(i) + 1; n += 2; }
    if (op == 4) { v.resize(2); while (n < 2) m[n++] = 0; n = 2; }
    if (op == 5) { const LimitedVector<int, 4> w(v); v.clear(); v = LimitedVector<int, 4>(w); }
    if (op == 6) { v.assign(3, int(i) + 1); n = 3; m[0] = m[1] = m[2] = int(i) + 1; }
  }
  if (v.size() != n) return false;
  for (size_t i = 0; i < n; ++i) if (v[i] != m[i] || v.at(i) != m[i] || *(v.begin() + 0) != m[0] || v.front() != m[0] || v.back() != m[n - 1]) return false;
  return true;
}
template <size_t kLen, size_t... I>
constexpr std::array<bool, sizeof...(I)> Table(std::index_sequence<I...>) { return {AtCompileTime<kLen>(I)...}; }
constexpr auto kTable = Table<3>(std::make_index_sequence<343>());
constexpr auto kTable4 = Table<4>(std::make_index_sequence<2401>());
}  // namespace
MC_SECTION_D(compile_time, 1) {
  const int i = c.choose(2401);
  c.step();
  MC_CHECK(c, kTable4[i] && kTable[i % 343], "operation sequence ", i, " evaluated by the compiler");
}

// All orders between two vectors, also of values that are not all ordered, or of different types.
namespace {
template <typename A, typename B, std::size_t N, std::size_t M>
void Orders(mc::Ctx& c, const std::vector<A>& as, const std::vector<B>& bs) {
  std::vector<A> ma;
  std::vector<B> mb;
  for (int n = c.choose(3); n > 0; --n) ma.push_back(c.pick(as));
  for (int n = c.choose(4); n > 0; --n) mb.push_back(c.pick(bs));
  LimitedVector<A, N> a;
  for (const A& v : ma) a.push_back(v);
  LimitedVector<B, M> b;
  for (const B& v : mb) b.push_back(v);
  const auto want = std::lexicographical_compare_three_way(ma.begin(), ma.end(), mb.begin(), mb.end(), [](const A& l, const B& r) { return l <=> r; });
  c.step();
  MC_CHECK(c, (a <=> b) == want, "<=>");
  MC_CHECK(c, (b <=> a) == (0 <=> want), "<=> reversed");
  MC_CHECK(c, (a == b) == (want == 0) && (a != b) == (want != 0), "== and !=");
  MC_CHECK(c, (a < b) == (want < 0) && (a > b) == (want > 0) && (b < a) == (want > 0), "< and >");
  MC_CHECK(c, (a <= b) == (want <= 0) && (a >= b) == (want >= 0), "<= and >=");
  c.state(mc::Cat(want < 0, want == 0, want > 0, ma.size(), mb.size()));
}
}  // namespace
MC_SECTION_D(orders, 3) {
  constexpr double kNan = std::numeric_limits<double>::quiet_NaN();
  const std::vector<double> d = {0.0, -0.0, 1.5, kNan};
  switch (c.choose(5)) {
    case 0: Orders<double, double, 2, 3>(c, d, d); break;
    case 1: Orders<float, double, 3, 3>(c, {0.0F, 1.5F, float(kNan)}, d); break;
    case 2: Orders<int, double, 4, 4>(c, {0, 1, 2}, d); break;
    case 3: Orders<int, long, 2, 4>(c, {0, -1}, {0, -1, 1L << 32}); break;
    default: Orders<std::string, std::string_view, 2, 3>(c, {"", "a", "b"}, {"", "a", "ab"}); break;
  }
}
