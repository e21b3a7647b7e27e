// Container conversion: every pair of container kinds, ownership, conversion function and content.
#include "lib/mc.h"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_set>
#include "harness/tracked.h"
#include "mbo/container/convert_container.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"

namespace {
using mbo::container::ConvertContainer;
using mbo::container::LimitedSet;
using mbo::container::LimitedVector;
using Model = std::vector<int>;

template <typename K> Model Values(const K& k) { Model m; for (const auto& v : k) m.push_back(ValueOf(v)); return m; }
template <typename K> void Fill(K& k, const Model& m) {
  for (int v : m)
    if constexpr (requires { k.push_back(MakeValue<typename K::value_type>(v)); }) k.push_back(MakeValue<typename K::value_type>(v));
    else k.emplace(MakeValue<typename K::value_type>(v));
}
// A container that can only be filled one way.
template <typename T> struct OnlyBase {
  using value_type = T;
  using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;
  using difference_type = std::ptrdiff_t;
  using size_type = size_t;
  using reference = T&;
  using const_reference = const T&;
  using pointer = T*;
  using const_pointer = const T*;
  std::vector<T> k;
  const_iterator cbegin() const { return k.begin(); }
  const_iterator cend() const { return k.end(); }
  bool empty() const { return k.empty(); }
  size_t size() const { return k.size(); }
  auto begin() const { return k.begin(); }
  auto end() const { return k.end(); }
  auto begin() { return k.begin(); }
  auto end() { return k.end(); }
};
template <typename T> struct OnlyInsert : OnlyBase<T> { void insert(T v) { this->k.push_back(std::move(v)); } };
template <typename T> struct OnlyPush : OnlyBase<T> { void push_back(T v) { this->k.push_back(std::move(v)); } };
template <typename T> struct OnlyEmplaceBack : OnlyBase<T> { template <typename V> void emplace_back(V&& v) { this->k.emplace_back(std::forward<V>(v)); } };
template <typename T> struct OnlyEmplace : OnlyBase<T> { template <typename V> void emplace(V&& v) { this->k.emplace_back(std::forward<V>(v)); } };

template <typename Out> constexpr bool kSorts = requires { typename Out::key_type; };
template <typename Out> void CheckOut(mc::Ctx& c, const Out& out, Model want, const std::string& what) {
  Model got = Values(out);
  if constexpr (kSorts<Out>) {
    std::sort(want.begin(), want.end());
    constexpr bool kMulti = std::is_same_v<Out, std::multiset<typename Out::value_type>>;
    if (!kMulti) want.erase(std::unique(want.begin(), want.end()), want.end());
    std::sort(got.begin(), got.end());
  }
  MC_CHECK(c, got == want, what, ": ", got.size(), " elements arrived of ", want.size(), ", or other ones");
  c.step();
  c.state(mc::Fnv(mc::Cat(what, want.size())));
}

template <typename In, typename Out> void Pair(mc::Ctx& c, const Model& m, const std::string& what) {
  using O = typename Out::value_type;
  In in;
  Fill(in, m);
  const Model src = Values(in);
  const size_t alive = Lifetimes::G().live.size();
  auto twice = [](const auto& v) -> O { return MakeValue<O>(ValueOf(v) * 2); };
  Model want2;
  for (int v : src) want2.push_back(v * 2);
  // Whatever is only lent stays as it is.
  { Out out = ConvertContainer(in); CheckOut(c, out, src, what + " from lvalue"); MC_CHECK(c, Values(in) == src, what, ": the container that was copied from has changed"); }
  { Out out = ConvertContainer(std::as_const(in)); CheckOut(c, out, src, what + " from const"); MC_CHECK(c, Values(in) == src, what, ": the const container has changed"); }
  { Out out = ConvertContainer(in, twice); CheckOut(c, out, want2, what + " from lvalue with function"); MC_CHECK(c, Values(in) == src, what, ": the container that was copied from has changed"); }
  { Out out = ConvertContainer(std::as_const(in), [&](const auto& v) -> O { return twice(v); }); CheckOut(c, out, want2, what + " from const with function"); MC_CHECK(c, Values(in) == src, what, ": the const container has changed"); }
  {
    std::vector<int> seen;
    auto byval = [&](typename In::value_type v) -> O { seen.push_back(ValueOf(v)); return MakeValue<O>(ValueOf(v)); };
    Out out = ConvertContainer(in, byval);
    CheckOut(c, out, src, what + " from lvalue with function by value");
    MC_CHECK(c, Values(in) == src, what, ": a function that takes its argument by value emptied the container that was copied from");
    MC_CHECK(c, seen == src, what, ": the function was not called once per element in order");
  }
  { auto conv = ConvertContainer(in); Out o1 = conv; Out o2 = conv; CheckOut(c, o1, src, what + " first of two"); CheckOut(c, o2, src, what + " second of two"); }
  // What is handed over arrives too.
  { In copy(in); Out out = ConvertContainer(std::move(copy)); CheckOut(c, out, src, what + " from temporary"); }
  { In copy(in); Out out = ConvertContainer(std::move(copy), twice); CheckOut(c, out, want2, what + " from temporary with function"); }
  MC_CHECK(c, Values(in) == src, what, ": source");
  MC_CHECK(c, Lifetimes::G().live.size() == alive && Lifetimes::G().error.empty(), what, ": ", Lifetimes::G().live.size(), " objects left of ", alive, " ", Lifetimes::G().error);
}
template <typename In, typename T> void Outs(mc::Ctx& c, const Model& m, const std::string& what) {
  switch (c.choose(12)) {
    case 0: Pair<In, std::vector<T>>(c, m, what + "->vector"); break;
    case 1: Pair<In, std::list<T>>(c, m, what + "->list"); break;
    case 2: Pair<In, std::deque<T>>(c, m, what + "->deque"); break;
    case 3: Pair<In, std::set<T>>(c, m, what + "->set"); break;
    case 4: Pair<In, std::multiset<T>>(c, m, what + "->multiset"); break;
    case 5: Pair<In, LimitedVector<T, 8>>(c, m, what + "->limited vector"); break;
    case 6: Pair<In, LimitedSet<T, 8>>(c, m, what + "->limited set"); break;
    case 7: Pair<In, OnlyInsert<T>>(c, m, what + "->insert"); break;
    case 8: Pair<In, OnlyPush<T>>(c, m, what + "->push_back"); break;
    case 9: Pair<In, OnlyEmplaceBack<T>>(c, m, what + "->emplace_back"); break;
    case 10: Pair<In, OnlyEmplace<T>>(c, m, what + "->emplace"); break;
    case 11: if constexpr (!kTracked<T>) Pair<In, std::unordered_set<T>>(c, m, what + "->unordered_set"); break;
  }
}
Model Content(mc::Ctx& c, int maxlen) {
  const int n = c.choose(maxlen + 1);
  Model m;
  for (int i = 0; i < n; ++i) m.push_back(1 + c.choose(3));
  return m;
}
template <typename F, typename T> void Ins(mc::Ctx& c, const std::string& what) {
  Lifetimes::G().Reset();
  const int kind = c.choose(6);
  const Model m = Content(c, mc::Tier(3, 4));
  switch (kind) {
    case 0: Outs<std::vector<F>, T>(c, m, what + "vector"); break;
    case 1: Outs<std::list<F>, T>(c, m, what + "list"); break;
    case 2: Outs<std::set<F>, T>(c, m, what + "set"); break;
    case 3: Outs<std::multiset<F>, T>(c, m, what + "multiset"); break;
    case 4: Outs<LimitedVector<F, 8>, T>(c, m, what + "limited vector"); break;
    case 5: Outs<LimitedSet<F, 8>, T>(c, m, what + "limited set"); break;
  }
}
}  // namespace

MC_SECTION(objects) { Ins<Tracked, Tracked>(c, "objects "); }
MC_SECTION(texts) { Ins<std::string, std::string>(c, "texts "); }
MC_SECTION(views) {
  const Model m = Content(c, mc::Tier(4, 5));
  std::vector<std::string> own;
  Fill(own, m);
  std::vector<std::string_view> in(own.begin(), own.end());
  { std::vector<std::string> out = ConvertContainer(in); CheckOut(c, out, m, "views->vector"); }
  { std::set<std::string> out = ConvertContainer(in); CheckOut(c, out, m, "views->set"); }
  { LimitedSet<std::string, 6> out = ConvertContainer(in); CheckOut(c, out, m, "views->limited set"); }
  { std::vector<std::string_view> out = ConvertContainer(own); CheckOut(c, std::vector<std::string>(out.begin(), out.end()), m, "strings->views"); MC_CHECK(c, Values(own) == m, "source"); }
  { std::vector<long> out = ConvertContainer(m); MC_CHECK(c, std::equal(out.begin(), out.end(), m.begin(), m.end()), "int->long"); }
  { std::vector<std::string> out = ConvertContainer(m, [](int v) { return MakeValue<std::string>(v); }); CheckOut(c, out, m, "ints by function"); }
  { std::map<int, std::string> src; for (size_t i = 0; i < m.size(); ++i) src.emplace(static_cast<int>(i) * 7 % 5, own[i]);
    std::vector<std::pair<int, std::string>> out = ConvertContainer(src);
    MC_CHECK(c, std::equal(out.begin(), out.end(), src.begin(), src.end(), [](auto& a, auto& b) { return a.first == b.first && a.second == b.second; }), "map->pairs");
    std::map<long, std::string> out2 = ConvertContainer(out);
    MC_CHECK(c, out2.size() == src.size() && std::equal(out2.begin(), out2.end(), src.begin(), [](auto& a, auto& b) { return a.first == b.first && a.second == b.second; }), "pairs->map");
    MC_CHECK(c, std::equal(out.begin(), out.end(), src.begin(), src.end(), [](auto& a, auto& b) { return a.second == b.second; }), "pairs emptied"); }
}
MC_SECTION(handing_over) {
  Lifetimes::G().Reset();
  const Model m = Content(c, 4);
  std::vector<MoveOnly> in;
  for (int v : m) in.emplace_back(v);
  if (c.flip()) {
    std::list<MoveOnly> out = ConvertContainer(std::move(in));
    CheckOut(c, out, m, "move only elements");
  } else {
    std::vector<int> out = ConvertContainer(std::move(in), [](MoveOnly&& v) -> int { MoveOnly t(std::move(v)); return t.Get(); });
    MC_CHECK(c, out == m, "move only elements through a function");
  }
}
MC_SECTION(lists) {
  const int n = c.choose(4);
  auto go = [&](const std::initializer_list<std::string_view>& il) {
    std::vector<std::string> want(il.begin(), il.end());
    { std::vector<std::string> out = ConvertContainer(il); MC_CHECK(c, out == want, "initializer list"); }
    { std::vector<size_t> out = ConvertContainer(il, [](std::string_view v) { return v.size(); }); MC_CHECK(c, out.size() == want.size(), "initializer list with function"); for (size_t i = 0; i < out.size(); ++i) MC_CHECK(c, out[i] == want[i].size(), "initializer list with function"); }
  };
  if (n == 0) go({});
  if (n == 1) go({"a"});
  if (n == 2) go({"bb", ""});
  if (n == 3) go({"z", "bb", "z"});
}
