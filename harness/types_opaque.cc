// Opaque pointers, values and containers and container proxies against plain ones; constants that are never destroyed.
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "harness/tracked.h"
#include "lib/mc.h"
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/no_destruct.h"
#include "mbo/types/opaque.h"

namespace mine {
struct Later;  // Not complete yet.
struct Fields {
  mbo::types::OpaquePtr<Later> ptr;
  mbo::types::OpaqueContainer<std::vector<Later>> vec;
  mbo::types::OpaqueContainer<std::list<Later>> list;
  mbo::types::OpaqueContainer<std::deque<Later>> deque;
  Fields();
  ~Fields();
};
struct Later : Tracked {
  using Tracked::Tracked;
  auto operator<=>(const Later& o) const { return Get() <=> o.Get(); }
  bool operator==(const Later& o) const { return Get() == o.Get(); }
  template <typename H> friend H AbslHashValue(H h, const Later& l) { return H::combine(std::move(h), l.Get()); }
};
MBO_TYPES_OPAQUE_HOOKS(Later);
template <typename C>
struct Holder { C data; C& Get() { return data; } const C& Get() const { return data; } };
template <typename C>
struct UniqueHolder { std::unique_ptr<C> data = std::make_unique<C>(); C& Get() { return *data; } const C& Get() const { return *data; } };
template <typename C> struct HeldProxy : mbo::types::ContainerProxy<Holder<C>, C, &Holder<C>::Get, &Holder<C>::Get> {};
template <typename C> struct UniqueProxy : mbo::types::ContainerProxy<UniqueHolder<C>, C, &UniqueHolder<C>::Get, &UniqueHolder<C>::Get> {};
}  // namespace mine
namespace std {
MBO_TYPES_OPAQUE_HOOKS(std::vector<mine::Later>);
MBO_TYPES_OPAQUE_HOOKS(std::list<mine::Later>);
MBO_TYPES_OPAQUE_HOOKS(std::deque<mine::Later>);
MBO_TYPES_OPAQUE_HOOKS(std::string);
}  // namespace std
mine::Fields::Fields() = default;
mine::Fields::~Fields() = default;

namespace {
using mine::Later;
using mbo::types::MakeOpaquePtr;
using mbo::types::NoDestruct;
using mbo::types::OpaqueContainer;
using mbo::types::OpaquePtr;
using mbo::types::OpaqueValue;

template <typename C> std::vector<int> Values(const C& v) { std::vector<int> r; for (const auto& x : v) r.push_back(x.Get()); return r; }
template <typename Proxy, typename C>
void Compare(mc::Ctx& c, Proxy& p, const C& m, const std::string& log) {
  const Proxy& cp = p;
  const auto want = Values(m);
  MC_CHECK(c, cp.size() == m.size() && cp.empty() == m.empty() && cp.max_size() == m.max_size(), "size after ", log);
  MC_CHECK(c, Values(cp) == want && Values(p) == want, "elements after ", log);
  std::vector<int> back(want.rbegin(), want.rend()), got;
  for (auto it = cp.rbegin(); it != cp.rend(); ++it) got.push_back(it->Get());
  for (auto it = p.rbegin(); it != p.rend(); ++it) got.push_back(it->Get());
  for (auto it = cp.crbegin(); it != cp.crend(); ++it) got.push_back(it->Get());
  std::vector<int> all;
  for (int k = 0; k < 3; ++k) all.insert(all.end(), back.begin(), back.end());
  MC_CHECK(c, got == all, "reverse after ", log);
  got.clear();
  for (auto it = cp.cbegin(); it != cp.cend(); ++it) got.push_back(it->Get());
  MC_CHECK(c, got == want, "const iteration after ", log);
  if (!m.empty()) MC_CHECK(c, cp.front() == m.front() && p.front() == m.front() && cp.back() == m.back() && p.back() == m.back() && &cp.front() == &p.front() && &cp.back() == &p.back(), "ends after ", log);
  if constexpr (requires { m.at(0); }) for (size_t i = 0; i < m.size(); ++i) MC_CHECK(c, cp[i] == m[i] && p[i] == m[i] && cp.at(i) == m[i] && p.at(i) == m[i] && &cp[i] == &p[i], "element ", i, " after ", log);
  if constexpr (requires { m.capacity(); }) MC_CHECK(c, cp.capacity() >= m.size(), "capacity after ", log);
}
template <typename Proxy, typename C>
void Histories(mc::Ctx& c, int depth) {
  Lifetimes::G().Reset();
  {
    Proxy p[2];
    C m[2];
    std::string log;
    for (int k = c.choose(3); k > 0; --k) { p[1].emplace_back(k); m[1].emplace_back(k); }
    int next = 10;
    for (int i = 0; i < depth; ++i) {
      const int t = c.choose(2), op = c.choose(18), n = next++;
      Proxy& x = p[t];
      C& y = m[t];
      log += mc::Cat(" ", t, ":", op);
      c.step();
      switch (op) {
        case 0: x.push_back(Later(n)); y.push_back(Later(n)); break;
        case 1: { const Later l(n); x.push_back(l); y.push_back(l); break; }
        case 2: MC_CHECK(c, &x.emplace_back(n) == &x.back(), "emplace_back returns something else"); y.emplace_back(n); break;
        case 3: if constexpr (requires { y.push_front(Later(n)); }) { x.push_front(Later(n)); y.push_front(Later(n)); } else return; break;
        case 4: if constexpr (requires { y.push_front(Later(n)); }) { const Later l(n); x.push_front(l); y.push_front(l); } else return; break;
        case 5: if constexpr (requires { y.emplace_front(n); }) { MC_CHECK(c, &x.emplace_front(n) == &x.front(), "emplace_front returns something else"); y.emplace_front(n); } else return; break;
        case 6: if (y.empty()) return; x.pop_back(); y.pop_back(); break;
        case 7: if constexpr (requires { y.pop_front(); }) { if (y.empty()) return; x.pop_front(); y.pop_front(); } else return; break;
        case 8: x.clear(); y.clear(); break;
        case 9: { const int s = c.choose(4); log += mc::Cat("=", s); x.resize(s); y.resize(s); break; }
        case 10: if constexpr (requires { y.reserve(8); }) { x.reserve(8); MC_CHECK(c, x.capacity() >= 8, "reserve"); } else return; break;
        case 11: if (y.empty()) return; x.front() = Later(n); y.front() = Later(n); break;
        case 12: if (y.empty()) return; x.back() = Later(n); y.back() = Later(n); break;
        case 13: if constexpr (requires { y.at(0); }) { if (y.size() < 2) return; x[1] = Later(n); x.at(0) = Later(n + 1); y[1] = Later(n); y[0] = Later(n + 1); } else return; break;
        case 14: if (y.empty()) return; *x.begin() = Later(n); *x.rbegin() = Later(n + 1); *y.begin() = Later(n); *y.rbegin() = Later(n + 1); break;
        case 15: if constexpr (std::copyable<Proxy>) { x = std::as_const(p[1 - t]); y = std::as_const(m[1 - t]); } else return; break;
        case 16: if constexpr (std::copyable<Proxy>) { Proxy q(x); q.emplace_back(1); Proxy r(std::as_const(x)); r.clear(); x = std::as_const(x); } else return; break;
        default: { Proxy q(std::move(x)); Proxy r; r.emplace_back(5); r = std::move(q); x = std::move(r); break; }  // And back: all the same.
      }
      for (int k = 0; k < 2; ++k) Compare(c, p[k], m[k], log);
      if constexpr (std::copyable<Proxy>) {
        const Proxy &a = p[0], &b = p[1];
        MC_CHECK(c, (a == b) == (m[0] == m[1]) && (a != b) == (m[0] != m[1]) && (a < b) == (m[0] < m[1]) && (a >= b) == (m[0] >= m[1]) && (a <=> b) == (m[0] <=> m[1]), "comparison after ", log);
        MC_CHECK(c, (a == m[1]) == (m[0] == m[1]) && (m[0] < b) == (m[0] < m[1]) && (a > m[1]) == (m[0] > m[1]), "comparison with containers after ", log);
        MC_CHECK(c, (absl::HashOf(a) == absl::HashOf(b)) == (m[0] == m[1]), "hash after ", log);
      }
      MC_CHECK(c, Lifetimes::G().error.empty(), Lifetimes::G().error, " after ", log);
      MC_CHECK(c, Lifetimes::G().live.size() == 2 * (m[0].size() + m[1].size()), Lifetimes::G().live.size(), " live after ", log);
    }
    std::string st;
    for (int k = 0; k < 2; ++k) { for (int v : Values(m[k])) st += mc::Cat(v, " "); st += "|"; }
    c.state(st);
  }
  MC_CHECK(c, Lifetimes::G().live.empty() && Lifetimes::G().error.empty(), "elements outlive the containers ", Lifetimes::G().error);
}
#define KINDS(name, C) \
  MC_SECTION_D(name##_opaque, 3) { Histories<OpaqueContainer<C>, C>(c, mc::Tier(3, 4)); } \
  MC_SECTION_D(name##_held, 3) { Histories<mine::HeldProxy<C>, C>(c, mc::Tier(3, 3)); } \
  MC_SECTION_D(name##_unique, 3) { Histories<mine::UniqueProxy<C>, C>(c, mc::Tier(3, 3)); }
KINDS(vector, std::vector<Later>)
KINDS(list, std::list<Later>)
KINDS(deque, std::deque<Later>)

// Fields declared before their types.
MC_SECTION(forward) {
  Lifetimes::G().Reset();
  {
    mine::Fields f;
    MC_CHECK(c, !f.ptr && f.vec.empty() && f.list.empty() && f.deque.empty(), "not empty");
    const int n = c.choose(3);
    if (n) f.ptr = MakeOpaquePtr<Later>(n);
    for (int i = 0; i < n; ++i) f.vec.emplace_back(i), f.list.push_front(i), f.deque.push_back(i);
    MC_CHECK(c, int(Lifetimes::G().live.size()) == 3 * n + (n > 0) && (!n || (f.ptr->Get() == n && f.vec.back() == n - 1 && f.list.front() == n - 1 && f.deque[0] == 0)), "contents");
  }
  MC_CHECK(c, Lifetimes::G().live.empty() && Lifetimes::G().error.empty(), "elements left ", Lifetimes::G().error);
}
// Out of range.
MC_SECTION(range) {
  OpaqueContainer<std::vector<Later>> v;
  for (int n = c.choose(3); n > 0; --n) v.emplace_back(n);
  const auto& cv = v;
  for (size_t i = 0; i < 5; ++i) {
    bool thrown = false;
    try { (void)cv.at(i); } catch (const std::out_of_range&) { thrown = true; }
    MC_CHECK(c, thrown == (i >= v.size()), "at ", i, " of ", v.size());
  }
}
// Pointers and values.
MC_SECTION_D(values, 3) {
  Lifetimes::G().Reset();
  {
    std::optional<OpaqueValue<Later>> v[3];
    int m[3] = {-1, -1, -1};  // -1: not there, -2: moved from
    OpaquePtr<Later> ptr;
    int pv = -1;
    std::string log;
    int next = 10;
    for (int i = mc::Tier(4, 5); i > 0; --i) {
      const int t = c.choose(3), u = (t + 1) % 3, op = c.choose(12), n = next++;
      log += mc::Cat(" ", t, ":", op);
      c.step();
      switch (op) {
        case 0: v[t].emplace(); m[t] = 0; break;
        case 1: v[t].emplace(n); m[t] = n; break;
        case 2: v[t].emplace(Later(n)); m[t] = n; break;
        case 3: if (m[u] < 0) return; v[t].emplace(*v[u]); m[t] = m[u]; break;
        case 4: if (m[u] < 0) return; v[t].emplace(std::as_const(*v[u])); m[t] = m[u]; break;
        case 5: { if (m[u] < 0) return; const Later* at = &**v[u]; v[t].emplace(std::move(*v[u])); MC_CHECK(c, &**v[t] == at, "moving copies"); m[t] = m[u]; m[u] = -2; break; }
        case 6: if (m[u] < 0 || m[t] == -1) return; *v[t] = std::as_const(*v[u]); m[t] = m[u]; break;
        case 7: if (m[u] < 0 || m[t] == -1) return; *v[t] = std::move(*v[u]); m[t] = m[u]; m[u] = -2; break;
        case 8: if (m[t] < 0) return; *v[t] = std::as_const(*v[t]); break;
        case 9: v[t].reset(); m[t] = -1; break;
        case 10: if (m[t] < 0) return; if (i % 2) **v[t] = Later(n); else (*v[t])->v = n; m[t] = n; break;
        default:
          switch (t) { case 0: ptr = MakeOpaquePtr<Later>(n); pv = n; break; case 1: ptr.reset(); pv = -1; break; default: { OpaquePtr<Later> q = std::move(ptr); MC_CHECK(c, !ptr, "moved-from pointer"); ptr = std::move(q); } }
      }
      size_t alive = pv >= 0;
      for (int k = 0; k < 3; ++k) {
        if (m[k] < 0) continue;
        ++alive;
        const auto& cv = *v[k];
        MC_CHECK(c, (*cv).Get() == m[k] && cv->Get() == m[k] && (**v[k]).Get() == m[k] && (*v[k])->Get() == m[k] && &*cv == &**v[k], "value ", k, " after ", log);
        for (int j = 0; j < 3; ++j) {
          if (m[j] < 0) continue;
          const auto& cw = *v[j];
          MC_CHECK(c, (cv == cw) == (m[k] == m[j]) && (cv < cw) == (m[k] < m[j]) && (cv <= cw) == (m[k] <= m[j]) && (cv <=> cw) == (m[k] <=> m[j]) && (j == k || &*cv != &*cw), "comparison ", k, j, " after ", log);
          MC_CHECK(c, (cv == *cw) == (m[k] == m[j]) && (*cv > cw) == (m[k] > m[j]) && (absl::HashOf(cv) == absl::HashOf(cw)) == (m[k] == m[j]), "mixed comparison ", k, j, " after ", log);
        }
      }
      MC_CHECK(c, bool(ptr) == (pv >= 0) && (!ptr || ptr->Get() == pv), "pointer after ", log);
      MC_CHECK(c, Lifetimes::G().live.size() == alive && Lifetimes::G().error.empty(), Lifetimes::G().live.size(), " live, want ", alive, " ", Lifetimes::G().error, " after ", log);
    }
    c.state(mc::Cat(m[0], " ", m[1], " ", m[2], " ", pv));
  }
  MC_CHECK(c, Lifetimes::G().live.empty() && Lifetimes::G().error.empty(), "values outlive everything ", Lifetimes::G().error);
}
// A moved-from value must still be there.
MC_SECTION(moved) {
  OpaqueValue<std::string> a(std::string("abc"));
  if (c.flip()) {
    OpaqueValue<std::string> b(std::move(a));
    MC_CHECK_SIG(c, &*a != nullptr, "opaque-moved-by-construction", "a value moved from by construction is null");
  } else {
    OpaqueValue<std::string> b;
    b = std::move(a);
    MC_CHECK_SIG(c, &*a != nullptr, "opaque-moved-by-assignment", "a value moved from by assignment is null");
  }
}

// Never destroyed, never copied.
struct Noisy : Tracked {
  static inline int copies = 0, moves = 0;
  std::string log;
  Noisy() : log("default") {}
  Noisy(const Noisy& o) : Tracked(o), log(o.log) { ++copies; }
  Noisy(Noisy&& o) noexcept : Tracked(std::move(o)), log(std::move(o.log)) { ++moves; }
  Noisy(int v, std::unique_ptr<int> p) : Tracked(v), log("two " + std::to_string(*p)) {}
  Noisy(std::string& ref, int) : Tracked(7), log(ref) { ref = "changed"; }
  template <typename H> friend H AbslHashValue(H h, const Noisy& l) { return H::combine(std::move(h), l.Get()); }
  template <typename S> friend void AbslStringify(S& s, const Noisy& n) { s.Append(n.log); }
};
// Made from the list itself, or from the elements as they come.
struct Listed {
  std::vector<int> v;
  int how = 0;
  Listed() = default;
  explicit Listed(std::initializer_list<int> l, int h = 1) : v(l), how(h) {}
};
template <typename T, typename... A>
bool Kept(mc::Ctx& c, auto check, A&&... a) {
  alignas(NoDestruct<T>) static unsigned char mem[sizeof(NoDestruct<T>)];
  Lifetimes::G().Reset();
  Noisy::copies = Noisy::moves = 0;
  auto* n = new (mem) NoDestruct<T>(std::forward<A>(a)...);
  const auto* cn = n;
  MC_CHECK(c, &n->Get() == &**n && n->operator->() == &**n && &cn->Get() == &**n && &**cn == &**n && cn->operator->() == &**n, "access differs");
  MC_CHECK(c, (const unsigned char*)&**n >= mem && (const unsigned char*)&**n < mem + sizeof mem, "value elsewhere");
  MC_CHECK(c, Noisy::copies == 0, "copied");
  bool ok = check(**n);
  if constexpr (std::same_as<T, Noisy>) {
    const size_t live = Lifetimes::G().live.size();
    MC_CHECK(c, absl::StrCat(*cn) == (*cn)->log && absl::HashOf(*cn) == absl::HashOf(*cn), "text or hash");
    n->~NoDestruct<T>();
    MC_CHECK(c, Lifetimes::G().live.size() == live && live == 1 && Lifetimes::G().error.empty(), "destroyed ", Lifetimes::G().error);
    MC_CHECK(c, ok && (**n).Get() == (**cn).Get(), "value changed");
    std::destroy_at(&**n);
  } else {
    n->~NoDestruct<T>();
    ok = ok && check(**n);
    std::destroy_at(&**n);
  }
  return ok;
}
MC_SECTION(constants) {
  std::string ref = "ref";
  bool ok = false;
  switch (c.choose(11)) {
    case 9: ok = Kept<Listed>(c, [](auto& l) { return l.how == 1 && l.v == std::vector<int>{4, 5}; }, std::initializer_list<int>{4, 5}); break;
    case 10: {  // From a list that stays.
      const std::initializer_list<int> list = {6, 7, 8};
      ok = Kept<std::vector<int>>(c, [](auto& v) { return v == std::vector<int>{6, 7, 8}; }, list);
      break;
    }
    case 0: ok = Kept<Noisy>(c, [](Noisy& n) { return n.Get() == 0 && n.log == "default"; }); break;
    case 1: ok = Kept<Noisy>(c, [](Noisy& n) { return n.Get() == 3 && n.log == "two 4"; }, 3, std::make_unique<int>(4)); break;
    case 2: ok = Kept<Noisy>(c, [](Noisy& n) { return n.Get() == 7 && n.log == "ref"; }, ref, 1) && ref == "changed"; break;
    case 3: ok = Kept<std::unique_ptr<int>>(c, [](auto& p) { return p && *p == 9; }, std::make_unique<int>(9)); break;
    case 4: ok = Kept<std::vector<int>>(c, [](auto& v) { return v == std::vector<int>{1, 2, 3}; }, std::initializer_list<int>{1, 2, 3}); break;
    case 5: ok = Kept<std::vector<int>>(c, [](auto& v) { return v == std::vector<int>{4, 4, 4}; }, 3, 4); break;
    case 6: ok = Kept<std::string>(c, [](auto& v) { return v == "some longer text so that it allocates"; }, "some longer text so that it allocates"); break;
    case 7: ok = Kept<std::string>(c, [](auto& v) { return v == "bbb"; }, 3, 'b'); break;
    default: ok = Kept<int>(c, [](auto& v) { return v == 5 && ++v == 6 && v-- == 6; }, 5); break;
  }
  MC_CHECK(c, ok, "value is wrong");
}
constexpr NoDestruct<int> kInt(25);
static_assert(*kInt == 25);
}  // namespace
