// A reference wrapper and a required wrapper behave as the wrapped object: every history of operations.
#include "lib/mc.h"
#include <map>
#include <memory>
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/required.h"

namespace {
using namespace mbo::types;
template <typename T>
int Cmp(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
template <typename A, typename B>
void Compare6(mc::Ctx& c, const A& a, const B& b, int want, const char* what) {
  MC_CHECK(c, (a < b) == (want < 0), what, " <");
  MC_CHECK(c, (a <= b) == (want <= 0), what, " <=");
  MC_CHECK(c, (a > b) == (want > 0), what, " >");
  MC_CHECK(c, (a >= b) == (want >= 0), what, " >=");
  MC_CHECK(c, ((a <=> b) < 0) == (want < 0) && ((a <=> b) == 0) == (want == 0), what, " <=>");
}

struct Rec {  // comparable aggregate with a method
  int v = 0;
  std::string s;
  auto operator<=>(const Rec&) const = default;
  template <typename H> friend H AbslHashValue(H h, const Rec& r) { return H::combine(std::move(h), r.v, r.s); }
};

template <typename T>
void RefHistory(mc::Ctx& c, std::array<T, 3> init, const std::vector<T>& vals) {
  std::array<T, 3> obj = init, model = init;
  int target[2] = {0, 1};
  RefWrap<T> w[2] = {RefWrap<T>(obj[0]), obj[1]};
  auto verify = [&](const char* after) {
    for (int i = 0; i < 3; ++i) MC_CHECK(c, obj[i] == model[i], "object ", i, " changed by ", after);
    for (int k = 0; k < 2; ++k) {
      const RefWrap<T>& cw = w[k];
      T* want = &obj[target[k]];
      MC_CHECK(c, &w[k].get() == want && &cw.get() == want && &*w[k] == want && &*cw == want && w[k].operator->() == want && cw.operator->() == want, "wrapper ", k, " refers elsewhere after ", after);
      T& r = w[k];
      const T& cr = cw;
      MC_CHECK(c, &r == want && &cr == want, "conversion of wrapper ", k, " after ", after);
    }
    Compare6(c, w[0], w[1], Cmp(model[target[0]], model[target[1]]), "wrapper/wrapper");
    for (int i = 0; i < 3; ++i) {
      Compare6(c, w[0], obj[i], Cmp(model[target[0]], model[i]), "wrapper/value");
      Compare6(c, obj[i], w[0], Cmp(model[i], model[target[0]]), "value/wrapper");
    }
    MC_CHECK(c, absl::HashOf(w[0]) == absl::HashOf(w[1]) || !(model[target[0]] == model[target[1]]), "equal values hash differently");
    RefWrap<T> fresh(obj[target[0]]);
    MC_CHECK(c, absl::HashOf(w[0]) == absl::HashOf(fresh), "hash depends on more than the value");
    c.state(mc::Fnv(mc::Cat(target[0], target[1], after, c.depth())));
  };
  verify("construction");
  const int len = mc::Tier(4, 5);
  for (int i = 0; i < len; ++i) {
    c.step();
    const int op = c.choose(9);
    switch (op) {
      case 0: case 1: case 2: w[0] = obj[op]; target[0] = op; break;          // rebinds, does not write through
      case 3: w[0] = w[1]; target[0] = target[1]; break;
      case 4: w[1] = RefWrap<T>(w[0]); target[1] = target[0]; break;
      case 5: w[1].get() = vals[0]; model[target[1]] = vals[0]; break;
      case 6: *w[0] = vals[1]; model[target[0]] = vals[1]; break;
      case 7: { T& r = w[1]; r = vals[2]; model[target[1]] = vals[2]; break; }
      case 8: *w[0].operator->() = vals[0]; model[target[0]] = vals[0]; break;
    }
    verify(mc::Cat("op ", op).c_str());
  }
}

// Every live object is registered under its address; anything else is an error.
std::map<const void*, int>* g_live;
mc::Ctx* g_ctx;
struct Tracked {
  std::unique_ptr<int> v;
  explicit Tracked(int x) : v(new int(x)) { Born(); }
  Tracked(int x, int y) : v(new int(x * 10 + y)) { Born(); }
  Tracked(Tracked&& o) noexcept : v(o.v ? new int(*o.v) : nullptr) { o.Alive("moved from"); o.v.reset(); Born(); }
  Tracked& operator=(Tracked&&) = delete;
  Tracked(const Tracked&) = delete;
  ~Tracked() { Alive("destroyed"); g_live->erase(this); }
  void Born() { MC_CHECK(*g_ctx, g_live->emplace(this, 1).second, "constructed over a live object"); }
  void Alive(const char* what) const { if (!g_live->count(this)) { std::fprintf(stderr, "%s but not alive\n", what); std::abort(); } }
  auto operator<=>(const Tracked& o) const { return *v <=> *o.v; }
  bool operator==(const Tracked& o) const { return *v == *o.v; }
};
}  // namespace

MC_SECTION_D(ref_int, 2) { RefHistory<int>(c, {1, 2, 1}, {2, 3, 1}); }
MC_SECTION_D(ref_string, 2) { RefHistory<std::string>(c, {"a", "bb", "a"}, {"bb", "", "a long string that does not fit in place"}); }
MC_SECTION_D(ref_struct, 2) { RefHistory<Rec>(c, {Rec{1, "a"}, Rec{1, "b"}, Rec{1, "a"}}, {Rec{1, "b"}, Rec{2, ""}, Rec{0, "z"}}); }

MC_SECTION_D(required_lifetime, 2) {
  std::map<const void*, int> live;
  g_live = &live;
  g_ctx = &c;
  {
    Required<Tracked> a(Tracked(1)), b(std::in_place, 2, 3);
    int ma = 1, mb = 23;
    const int len = mc::Tier(5, 6);
    for (int i = 0; i < len; ++i) {
      c.step();
      Required<Tracked>* r = nullptr;
      switch (const int op = c.choose(7)) {
        case 0: r = &a.emplace(Tracked(4)); ma = 4; break;
        case 1: r = &a.emplace(5, 6); ma = 56; break;
        case 2: r = &b.emplace(7); mb = 7; r = &a; break;
        case 3: { Tracked t(std::move(b.get())); r = &b.emplace(std::move(t)); r = &a; break; }
        case 4: { const int n = *a->v; r = &b.emplace(n); mb = ma; r = &a; break; }
        case 5: { Required<Tracked> m(std::move(a)); r = &a.emplace(*(*m).v + 1); ++ma; MC_CHECK(c, *m.get().v == ma - 1, "moved value"); break; }
        case 6: *a.get().v = 9; ma = 9; r = &a; break;
      }
      MC_CHECK(c, r == &a, "emplace returns the wrapper");
      MC_CHECK(c, live.size() == 2 && live.count(&a.get()) && live.count(&b.get()), live.size(), " objects alive instead of the two wrapped ones");
      const auto& ca = a;
      MC_CHECK(c, *a.get().v == ma && *(*a).v == ma && *a->v == ma && *ca.get().v == ma && *(*ca).v == ma && *ca->v == ma && *static_cast<Tracked&>(a).v == ma, "value of a");
      MC_CHECK(c, *b->v == mb, "value of b");
      MC_CHECK(c, &a.get() == &*a && &*ca == &a.get() && a.operator->() == &a.get(), "addresses");
      Compare6(c, a, b, Cmp(ma, mb), "required/required");
      Compare6(c, a, b.get(), Cmp(ma, mb), "required/value");
      Compare6(c, b.get(), a, Cmp(mb, ma), "value/required");
      c.state(ma * 1000 + mb);
    }
  }
  MC_CHECK(c, live.empty(), live.size(), " wrapped objects never destroyed");
}

MC_SECTION_D(required_values, 2) {
  static const std::vector<std::string> vals = {"", "a", "b", "ab", "a long string that does not fit in place", std::string("a\0b", 3)};
  Required<std::string> a(vals[c.choose(6)]), d;
  Required<std::string> b(std::in_place, vals[c.choose(6)]);
  MC_CHECK(c, d.get().empty(), "default");
  const int len = mc::Tier(3, 4);
  std::string ma = *a, mb = *b;
  for (int i = 0; i < len; ++i) {
    c.step();
    switch (c.choose(8)) {
      case 0: a = b; ma = mb; break;
      case 1: a.emplace("xyz"); ma = "xyz"; break;
      case 2: a.emplace(3, 'q'); ma = "qqq"; break;
      case 3: a.emplace(a.get()); break;                       // aliasing: the argument is the wrapped value
      case 4: b.get() += "!"; mb += "!"; break;
      case 5: { Required<std::string> t(a); b = std::move(t); mb = ma; break; }
      case 6: std::swap(a, b); std::swap(ma, mb); break;
      case 7: a->clear(); ma.clear(); break;
    }
    MC_CHECK(c, a.get() == ma && b.get() == mb, mc::Quote(a.get()), "/", mc::Quote(b.get()), " want ", mc::Quote(ma), "/", mc::Quote(mb));
    Compare6(c, a, b, Cmp(ma, mb), "required/required");
    Compare6(c, a, mb, Cmp(ma, mb), "required/value");
    MC_CHECK(c, (absl::HashOf(a) == absl::HashOf(b)) == (ma == mb), "hash");
    MC_CHECK(c, absl::StrCat(a) == ma, "streaming gives ", absl::StrCat(a));
    c.state(mc::Fnv(ma + "|" + mb));
  }
  for (int x = -2; x < 3; ++x)
    for (int y = -2; y < 3; ++y) {
      Required<int> p(x), q(y);
      Compare6(c, p, q, Cmp(x, y), "int/int");
      Compare6(c, p, y, Cmp(x, y), "int/value");
      MC_CHECK(c, (p == q) == (x == y) && (p == y) == (x == y), "int ==");
    }
}

// All orders there are between two values, one of which may have no place in the order, of the same or of different types.
template <typename A, typename B>
void Ordered(mc::Ctx& c, std::vector<A> as, std::vector<B> bs, bool same_object = false) {
  A a = as[c.choose(as.size())];
  B other = bs[c.choose(bs.size())];
  if constexpr (std::same_as<A, B>) if (same_object) other = a;
  c.step();
  const auto all = [&](const auto& l, const auto& r, const auto& x, const auto& y, const char* what) {
    const bool got[] = {l < r, l <= r, l > r, l >= r, (l <=> r) == 0, (l <=> r) < 0, (l <=> r) > 0}, want[] = {x < y, x <= y, x > y, x >= y, (x <=> y) == 0, (x <=> y) < 0, (x <=> y) > 0};
    for (int i = 0; i < 7; ++i) MC_CHECK(c, got[i] == want[i], what, ": operator ", i, " gives ", got[i]);
    c.state(mc::Cat(what, got[0], got[1], got[2], got[3]));
  };
  const auto pair = [&](B& b) {
    const RefWrap<A> ra(a);
    const RefWrap<B> rb(b);
    const RefWrap<const A> ca(a);
    const RefWrap<const B> cb(b);
    const Required<A> qa(a);
    const Required<B> qb(b);
    all(ra, rb, a, b, "reference/reference");
    all(ra, b, a, b, "reference/value");
    all(a, rb, a, b, "value/reference");
    all(ca, cb, a, b, "const reference/const reference");
    all(qa, qb, a, b, "required/required");
    all(qa, b, a, b, "required/value");
    all(a, qb, a, b, "value/required");
  };
  if constexpr (std::same_as<A, B>) if (same_object) { pair(a); return; }
  pair(other);
}
MC_SECTION_D(orders, 2) {
  constexpr double kNan = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
  const std::vector<double> d = {0.0, -0.0, 1.5, -kInf, kInf, kNan, 2};
  switch (c.choose(8)) {
    case 0: Ordered<double, double>(c, d, d); break;
    case 1: Ordered<double, double>(c, d, {0}, true); break;
    case 2: Ordered<float, double>(c, {0.0F, 1.5F, float(kNan), 2}, d); break;
    case 3: Ordered<int, long>(c, {0, -1, 2}, {0, -1, 2, 1L << 40, -(1L << 40)}); break;
    case 4: Ordered<int, double>(c, {0, -1, 2}, d); break;
    case 5: Ordered<std::string, std::string_view>(c, {"", "a", "b", std::string("a\0", 2)}, {"", "a", "ab", std::string_view("a\0", 2)}); break;
    case 6: Ordered<std::string, const char*>(c, {"", "a", "b"}, {"", "a", "ab"}); break;
    default: Ordered<std::string, std::string>(c, {"", "a", "b"}, {""}, true); break;
  }
}
