// Every way of exceeding a limited container's bounds, each in a process of its own, in both failure modes.
#include "lib/mc.h"
#include <sys/wait.h>
#include <csignal>
#include <functional>
#include "harness/tracked.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"

namespace {
using namespace mbo::container;
using F = LimitedOptionsFlag;
enum Outcome { kRaised = 10, kReturned = 11, kDamaged = 12, kChanged = 13, kEnded = 14 };

const char* Name(int o) {
  switch (o) {
    case kRaised: return "raised an exception";
    case kReturned: return "returned as if nothing happened";
    case kDamaged: return "wrote outside of the container";
    case kChanged: return "raised an exception but changed the container";
    case kEnded: return "ended the process";
  }
  return "crashed";
}
int Child(const std::function<int()>& f) {
  const pid_t p = fork();
  if (p == 0) {
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1), dup2(n, 2);
    signal(SIGABRT, SIG_DFL);
    _exit(f());
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return WTERMSIG(st) == SIGABRT ? kEnded : 1000 + WTERMSIG(st);
}
template <typename T>
struct Guarded {
  unsigned char before[64];
  alignas(T) unsigned char mem[sizeof(T)];
  unsigned char after[64];
  T* t = nullptr;
  Guarded() { memset(before, 0xA5, 64), memset(after, 0x5A, 64), memset(mem, 0x77, sizeof mem); }
  bool Intact() const {
    for (int i = 0; i < 64; ++i) if (before[i] != 0xA5 || after[i] != 0x5A) return false;
    return true;
  }
};
template <typename K> auto Key(const K& e) { if constexpr (requires { e.first; }) return ValueOf(e.first) * 1000 + ValueOf(e.second); else return ValueOf(e); }
template <typename T> std::vector<int> Contents(const T& t) { std::vector<int> r; for (auto& e : t) r.push_back(Key(e)); return r; }

// Runs `act` on a container prepared by `fill`; `strong`: when it raises, the contents stay.
template <typename T>
void Refused(mc::Ctx& c, const std::string& what, const std::function<void(T&)>& fill, const std::function<void(T&)>& act, bool strong) {
  c.step();
  c.detail(what);
  const int got = Child([&]() -> int {
    auto* g = new Guarded<T>;
    g->t = new (g->mem) T();
    fill(*g->t);
    const auto before = Contents(*g->t);
    try {
      act(*g->t);
    } catch (const std::exception&) {
      if (!g->Intact()) return kDamaged;
      if (strong && (Contents(*g->t) != before || !Lifetimes::G().error.empty())) return kChanged;
      if (g->t->size() > g->t->capacity()) return kChanged;
      return kRaised;
    }
    return g->Intact() ? kReturned : kDamaged;
  });
  c.state(mc::Cat(what, got));
  c.sample(mc::Cat(what, ": ", Name(got)));
  MC_CHECK(c, MODE_THROWS ? (got == kRaised || got == kEnded) : got == kEnded, what, " ", Name(got), " (", got, ")");
}
// Making a container in guarded memory.
template <typename T>
void RefusedMake(mc::Ctx& c, const std::string& what, const std::function<void(void*)>& make) {
  c.step();
  const int got = Child([&]() -> int {
    auto* g = new Guarded<T>;
    try {
      make(g->mem);
    } catch (const std::exception&) {
      return g->Intact() ? kRaised : kDamaged;
    }
    return g->Intact() ? kReturned : kDamaged;
  });
  c.state(mc::Cat(what, got));
  MC_CHECK(c, MODE_THROWS ? (got == kRaised || got == kEnded) : got == kEnded, what, " ", Name(got), " (", got, ")");
}

template <typename T, size_t kCap>
void Vector(mc::Ctx& c) {
  using V = LimitedVector<T, kCap>;
  const size_t n = c.choose(kCap + 1);
  auto fill = [n](V& v) { for (size_t i = 0; i < n; ++i) v.emplace_back(MakeValue<T>(i + 1)); };
  const int op = c.choose(21);
  const size_t over = kCap - n + 1 + c.choose(2);  // one or two too many
  const T x = MakeValue<T>(9);
  const std::vector<T> many(over, x), all(kCap + 1, x);
  auto what = [&](const char* s) { return mc::Cat(s, " on a vector of ", n, " of ", kCap, " (", over, ")"); };
  auto at = [&](auto f) { for (size_t p = 0; p <= n; ++p) f(p); };
  const bool full = n == kCap;
  switch (op) {
    case 0: if (full) Refused<V>(c, what("push_back copy"), fill, [&](V& v) { v.push_back(x); }, true); break;
    case 1: if (full) Refused<V>(c, what("push_back move"), fill, [&](V& v) { v.push_back(MakeValue<T>(9)); }, true); break;
    case 2: if (full) Refused<V>(c, what("emplace_back"), fill, [&](V& v) { v.emplace_back(MakeValue<T>(9)); }, true); break;
    case 3: if (full) at([&](size_t p) { Refused<V>(c, what("emplace"), fill, [&](V& v) { v.emplace(v.begin() + p, MakeValue<T>(9)); }, true); }); break;
    case 4: if (full) at([&](size_t p) { Refused<V>(c, what("insert copy"), fill, [&](V& v) { v.insert(v.begin() + p, x); }, true); }); break;
    case 5: if (full) at([&](size_t p) { Refused<V>(c, what("insert move"), fill, [&](V& v) { v.insert(v.begin() + p, MakeValue<T>(9)); }, true); }); break;
    case 6: at([&](size_t p) { Refused<V>(c, what("insert count"), fill, [&](V& v) { v.insert(v.begin() + p, over, x); }, true); }); break;
    case 7: at([&](size_t p) { Refused<V>(c, what("insert range"), fill, [&](V& v) { v.insert(v.begin() + p, many.begin(), many.end()); }, true); }); break;
    case 8: Refused<V>(c, what("assign count"), fill, [&](V& v) { v.assign(kCap + over, x); }, false); break;
    case 9: Refused<V>(c, what("assign range"), fill, [&](V& v) { v.assign(all.begin(), all.end()); }, false); break;
    case 10: Refused<V>(c, what("resize"), fill, [&](V& v) { v.resize(kCap + over); }, false); break;
    case 11: Refused<V>(c, what("reserve"), fill, [&](V& v) { v.reserve(kCap + over); }, true); break;
    case 12: Refused<V>(c, what("at"), fill, [&](V& v) { (void)ValueOf(v.at(n + over - 1)); }, true); break;
    case 13: Refused<V>(c, what("at const"), fill, [&](V& v) { (void)ValueOf(std::as_const(v).at(n)); }, true); break;
    case 14: Refused<V>(c, what("[]"), fill, [&](V& v) { (void)ValueOf(v[n]); }, true); break;
    case 15: Refused<V>(c, what("[] const"), fill, [&](V& v) { (void)ValueOf(std::as_const(v)[n + over]); }, true); break;
    case 16: if (n == 0) Refused<V>(c, what("pop_back"), fill, [&](V& v) { v.pop_back(); }, true); break;
    case 17: Refused<V>(c, what("erase(end)"), fill, [&](V& v) { v.erase(v.end()); }, true); break;
    case 18: if (n) Refused<V>(c, what("erase(last, first)"), fill, [&](V& v) { v.erase(v.end(), v.begin()); }, true); break;
    case 19: RefusedMake<V>(c, what("constructor from a range"), [&](void* m) { new (m) V(all.begin(), all.end()); }); break;
    case 20: if constexpr (kCap == 2) RefusedMake<V>(c, what("constructor from a list"), [&](void* m) { new (m) V({x, x, x}); }); break;
  }
}
template <typename T, auto kOpt>
void Set(mc::Ctx& c) {
  using S = LimitedSet<T, kOpt>;
  constexpr size_t kCap = MakeLimitedOptions<kOpt>().kCapacity;
  const size_t n = c.choose(kCap + 1);
  auto fill = [n](S& s) { for (size_t i = 0; i < n; ++i) s.emplace(MakeValue<T>(2 * i + 2)); };
  const int op = c.choose(10);
  const int key = 1 + 2 * c.choose(kCap + 1);  // any place for one that is not in there yet
  std::vector<T> all;
  for (size_t i = 0; i <= kCap; ++i) all.push_back(MakeValue<T>(i + 1));
  auto what = [&](const char* s) { return mc::Cat(s, " ", key, " on a set of ", n, " of ", kCap); };
  const bool full = n == kCap;
  switch (op) {
    case 0: if (full) Refused<S>(c, what("insert copy"), fill, [&](S& s) { const T t = MakeValue<T>(key); s.insert(t); }, true); break;
    case 1: if (full) Refused<S>(c, what("insert move"), fill, [&](S& s) { s.insert(MakeValue<T>(key)); }, true); break;
    case 2: if (full) Refused<S>(c, what("emplace"), fill, [&](S& s) { s.emplace(MakeValue<T>(key)); }, true); break;
    case 3: if (n) Refused<S>(c, what("insert range"), fill, [&](S& s) { std::vector<T> in; for (size_t i = 0; i <= kCap; ++i) in.push_back(MakeValue<T>(2 * i + 1)); s.insert(in.begin(), in.end()); }, false); break;
    case 4: Refused<S>(c, what("at_index"), fill, [&](S& s) { (void)ValueOf(s.at_index(n)); }, true); break;
    case 5: Refused<S>(c, what("at_index const"), fill, [&](S& s) { (void)ValueOf(std::as_const(s).at_index(n + 1)); }, true); break;
    case 6: Refused<S>(c, what("erase(end)"), fill, [&](S& s) { s.erase(s.end()); }, true); break;
    case 7: if (n) Refused<S>(c, what("erase(end, begin)"), fill, [&](S& s) { s.erase(s.cend(), s.cbegin()); }, true); break;
    case 8: RefusedMake<S>(c, what("constructor from a range"), [&](void* m) { new (m) S(all.begin(), all.end()); }); break;
    case 9: if constexpr (kCap == 2) RefusedMake<S>(c, what("constructor from a list"), [&](void* m) { new (m) S({all[0], all[1], all[2]}); }); break;
  }
}
template <typename T, auto kOpt>
void Map(mc::Ctx& c) {
  using M = LimitedMap<T, T, kOpt>;
  constexpr size_t kCap = MakeLimitedOptions<kOpt>().kCapacity;
  const size_t n = c.choose(kCap + 1);
  auto fill = [n](M& s) { for (size_t i = 0; i < n; ++i) s.emplace(MakeValue<T>(2 * i + 2), MakeValue<T>(i + 5)); };
  const int op = c.choose(14);
  const int key = 1 + 2 * c.choose(kCap + 1);
  using P = std::pair<const T, T>;
  std::vector<P> all;
  for (size_t i = 0; i <= kCap; ++i) all.emplace_back(MakeValue<T>(i + 1), MakeValue<T>(i));
  auto what = [&](const char* s) { return mc::Cat(s, " ", key, " on a map of ", n, " of ", kCap); };
  auto K = [&] { return MakeValue<T>(key); };
  const bool full = n == kCap;
  switch (op) {
    case 0: if (full) Refused<M>(c, what("insert"), fill, [&](M& m) { m.insert(P(K(), K())); }, true); break;
    case 1: if (full) Refused<M>(c, what("emplace"), fill, [&](M& m) { m.emplace(K(), K()); }, true); break;
    case 2: if (full) Refused<M>(c, what("try_emplace"), fill, [&](M& m) { m.try_emplace(K(), K()); }, true); break;
    case 3: if (full) Refused<M>(c, what("try_emplace copy"), fill, [&](M& m) { const T k = K(); m.try_emplace(k, K()); }, true); break;
    case 4: if (full) Refused<M>(c, what("insert_or_assign"), fill, [&](M& m) { m.insert_or_assign(K(), K()); }, true); break;
    case 5: if (full) Refused<M>(c, what("insert_or_assign copy"), fill, [&](M& m) { const T k = K(); m.insert_or_assign(k, K()); }, true); break;
    case 6: if (full) Refused<M>(c, what("[]"), fill, [&](M& m) { m[K()] = K(); }, true); break;
    case 7: if (full) Refused<M>(c, what("[] copy"), fill, [&](M& m) { const T k = K(); m[k] = K(); }, true); break;
    case 8: Refused<M>(c, what("at"), fill, [&](M& m) { (void)ValueOf(m.at(K())); }, true); break;
    case 9: Refused<M>(c, what("at const"), fill, [&](M& m) { (void)ValueOf(std::as_const(m).at(K())); }, true); break;
    case 10: Refused<M>(c, what("at_index"), fill, [&](M& m) { (void)ValueOf(m.at_index(n).second); }, true); break;
    case 11: Refused<M>(c, what("erase(end)"), fill, [&](M& m) { m.erase(m.end()); }, true); break;
    case 12: RefusedMake<M>(c, what("constructor from a range"), [&](void* m) { new (m) M(all.begin(), all.end()); }); break;
    case 13: if (n) Refused<M>(c, what("erase(end, begin)"), fill, [&](M& m) { m.erase(m.cend(), m.cbegin()); }, true); break;
  }
}
constexpr auto kS2 = LimitedOptions<2, F::kRequireSortedInput>{};
constexpr auto kS3 = LimitedOptions<3, F::kRequireSortedInput>{};
}  // namespace

MC_SECTION(vector_int) { if (c.flip()) Vector<int, 2>(c); else Vector<int, 3>(c); }
MC_SECTION(vector_object) { if (c.flip()) Vector<Tracked, 1>(c); else Vector<Tracked, 3>(c); }
MC_SECTION(set_int) { if (c.flip()) Set<int, 2>(c); else Set<int, kS3>(c); }
MC_SECTION(set_object) { if (c.flip()) Set<Tracked, 3>(c); else Set<Tracked, kS2>(c); }
MC_SECTION(map_int) { if (c.flip()) Map<int, 2>(c); else Map<int, kS3>(c); }
MC_SECTION(map_object) { if (c.flip()) Map<Tracked, 3>(c); else Map<Tracked, kS2>(c); }
// Input that is not in order is refused where order is required.
MC_SECTION(unsorted) {
  std::vector<int> in;
  const int n = 2 + c.choose(3);
  for (int i = 0; i < n; ++i) in.push_back(c.choose(3));
  if (std::is_sorted(in.begin(), in.end())) return;
  using S = LimitedSet<int, LimitedOptions<4, F::kRequireSortedInput>{}>;
  using M = LimitedMap<int, int, LimitedOptions<4, F::kRequireSortedInput>{}>;
  RefusedMake<S>(c, "unsorted set", [&](void* m) { new (m) S(in.begin(), in.end()); });
  std::vector<std::pair<int, int>> kv;
  for (int k : in) kv.emplace_back(k, 10 - static_cast<int>(kv.size()));
  RefusedMake<M>(c, "unsorted map", [&](void* m) { new (m) M(kv.begin(), kv.end()); });
}
// A key that is not there, by another type than the key.
MC_SECTION(foreign) {
  using M = LimitedMap<std::string, int, 3, std::less<>>;
  const size_t n = c.choose(4);
  const std::string key = mc::Cat("k", c.choose(5));
  const int how = c.choose(4);
  const auto k = [](size_t i) { return mc::Cat("k", i + 1); };
  const auto fill = [&](M& m) { for (size_t i = 0; i < n; ++i) m.emplace(k(i), static_cast<int>(i)); };
  for (size_t i = 0; i < n; ++i) if (k(i) == key) return;
  Refused<M>(c, mc::Cat("at by foreign key ", key, " on a map of ", n), fill, [&](M& m) {
    switch (how) {
      case 0: (void)ValueOf(m.at(std::string_view(key))); break;
      case 1: (void)ValueOf(std::as_const(m).at(std::string_view(key))); break;
      case 2: (void)ValueOf(m.at(key.c_str())); break;
      case 3: (void)ValueOf(std::as_const(m).at(key.c_str())); break;
    }
  }, true);
}
