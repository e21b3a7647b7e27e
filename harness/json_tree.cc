// Every sequence of operations on JSON values, from every small starting tree, against a plain model of the trees.
#include "lib/mc.h"
#include "harness/json_ref.h"
#include "mbo/json/json.h"

namespace {
using mbo::json::Json;
using jref::M;

// Reads a value through the const interface, checking that all ways to look at it agree.
M Read(mc::Ctx& c, const Json& j, const std::string& tr) {
  const int flags = j.IsNull() + j.IsArray() + j.IsBool() + j.IsNumber() + j.IsObject() + j.IsString();
  MC_CHECK(c, flags == 1, "value is of ", flags, " kinds after ", tr);
  MC_CHECK(c, j.IsNumber() == (j.IsInteger() || j.IsFloat()) && j.IsInteger() == (j.IsSignedInt() || j.IsUnsignedInt()) && j.IsSignedInt() + j.IsUnsignedInt() + j.IsFloat() <= 1, "number kinds disagree after ", tr);
  MC_CHECK(c, static_cast<bool>(j) == !j.IsNull() && (j == std::nullopt) == j.IsNull(), "null test after ", tr);
  MC_CHECK(c, j.IsBool() == (j.IsTrue() || j.IsFalse()) && !(j.IsTrue() && j.IsFalse()), "bool test after ", tr);
  c.step();
  using K = Json::Kind;
  switch (j.GetKind()) {
    case K::kNull: MC_CHECK(c, j.IsNull() && j.empty() && j.size() == 0, "null is not empty after ", tr); return M::Null();
    case K::kBool: MC_CHECK(c, j.IsBool() && j.empty() && j.size() == 0, "bool after ", tr); return M::Bool(j.IsTrue());
    case K::kString: {
      MC_CHECK(c, j.IsString() && j.empty() && j.size() == 0, "string after ", tr);
      for (const char* s : {"", "s", "t", "yes", "key"}) if (j == s) return M::Str(s);
      return M::Str("?unknown");
    }
    case K::kNumber: {
      MC_CHECK(c, j.IsNumber() && j.empty() && j.size() == 0, "number after ", tr);
      for (int64_t v : {int64_t{0}, int64_t{1}, int64_t{2}, int64_t{7}, int64_t{-3}, INT64_MIN, INT64_MAX}) if (j.IsSignedInt() && j == v) return M::Int(v);
      for (uint64_t v : {uint64_t{0}, uint64_t{5}, UINT64_MAX}) if (j.IsUnsignedInt() && j == v) return M::Uint(v);
      for (double v : {0.0, 1.5, -2.25}) if (j.IsFloat() && j == v) return M::Dbl(v);
      return M::Str("?number");
    }
    case K::kArray: {
      M m = M::Arr();
      MC_CHECK(c, j.IsArray() && j.empty() == (j.size() == 0), "array after ", tr);
      std::vector<const Json*> p[5];
      for (size_t i = 0; i < j.size(); ++i) { p[0].push_back(&j[i]); MC_CHECK(c, &j.at(i) == &j[i], "at after ", tr); }
      for (auto it = j.begin(); it != j.end(); ++it) p[1].push_back(&*it);
      for (auto it = j.rbegin(); it != j.rend(); ++it) p[2].insert(p[2].begin(), &*it);
      for (const Json& e : j.values()) p[3].push_back(&e);
      for (const Json& e : j.array_values()) p[4].push_back(&e);
      for (int i = 1; i < 5; ++i) MC_CHECK(c, p[i] == p[0], "array view ", i, " disagrees after ", tr);
      MC_CHECK(c, j.values().size() == j.size() && j.values().empty() == j.empty() && !j.contains("a"), "array values() size after ", tr);
      for (const Json* e : p[0]) m.a.push_back(Read(c, *e, tr));
      return m;
    }
    case K::kObject: {
      M m = M::Obj();
      MC_CHECK(c, j.IsObject() && j.empty() == (j.size() == 0), "object after ", tr);
      std::vector<const Json*> pv, pp, vv;
      std::vector<std::string> names, pairs;
      for (const Json& e : j.values()) pv.push_back(&e);
      for (const Json& e : j.property_values()) vv.push_back(&e);
      for (const std::string& n : j.property_names()) names.push_back(n);
      for (const auto& [n, e] : j.property_pairs()) pairs.push_back(n), pp.push_back(&e);
      MC_CHECK(c, pv == vv && vv == pp && names == pairs && names.size() == j.size(), "object views disagree after ", tr);
      MC_CHECK(c, j.values().size() == j.size() && j.values().empty() == j.empty(), "object values() size after ", tr);
      for (size_t i = 0; i < names.size(); ++i) {
        MC_CHECK(c, j.contains(names[i]) && &j[names[i]] == pp[i] && &j.at(names[i]) == pp[i], "property ", names[i], " not found after ", tr);
        MC_CHECK(c, m.o.emplace(names[i], Read(c, *pp[i], tr)).second, "property ", names[i], " twice after ", tr);
      }
      for (const char* n : {"a", "b", "c"}) MC_CHECK(c, j.contains(n) == (m.o.count(n) > 0), "contains(", n, ") after ", tr);
      return m;
    }
  }
  return M::Str("?kind");
}

Json Build(const M& m) {
  Json j;
  switch (m.k) {
    case M::kNull: break;
    case M::kBool: j = m.b; break;
    case M::kNum: if (m.n == M::kInt) j = m.i; else if (m.n == M::kUint) j = m.u; else j = m.d; break;
    case M::kStr: j = m.s; break;
    case M::kArr: j.MakeArray(); for (const M& e : m.a) j.push_back(Build(e)); break;
    case M::kObj: j.MakeObject(); for (const auto& [k, e] : m.o) j.emplace(k, Build(e)); break;
  }
  return j;
}

struct Node { Json* j; M* m; std::string path; int root; };
void Collect(Json& j, M& m, const std::string& path, int root, std::vector<Node>& out) {
  out.push_back({&j, &m, path, root});
  if (m.k == M::kArr) for (size_t i = 0; i < m.a.size(); ++i) Collect(j[i], m.a[i], mc::Cat(path, "[", i, "]"), root, out);
  if (m.k == M::kObj) for (auto& [k, e] : m.o) Collect(j[k], e, mc::Cat(path, ".", k), root, out);
}
bool Inside(const Node& inner, const Node& outer) {  // Proper part of.
  return inner.root == outer.root && inner.path.size() > outer.path.size() && inner.path.compare(0, outer.path.size(), outer.path) == 0;
}

const std::vector<M>& Starts() {
  static const std::vector<M> s = {
      M::Null(), M::Int(7), M::Str("s"), M::Arr(), M::Obj(),
      M::Arr({M::Int(1), M::Str("s"), M::Dbl(1.5)}),
      M::Obj({{"a", M::Int(1)}, {"b", M::Arr({M::Bool(true), M::Obj({{"a", M::Uint(5)}})})}, {"c", M::Str("t")}}),
      M::Arr({M::Obj({{"a", M::Arr({M::Int(2)})}}), M::Null()}),
      M::Obj({{"b", M::Obj({{"b", M::Null()}})}}),
  };
  return s;
}
const std::vector<M>& Scalars() {
  static const std::vector<M> s = {M::Null(), M::Bool(false), M::Int(INT64_MIN), M::Uint(UINT64_MAX), M::Dbl(-2.25), M::Str("yes")};
  return s;
}

struct World {
  Json j[2];
  M m[2];
  std::string trace;
  bool narrow = false;  // Fewer targets and sources.

  void Start(mc::Ctx& c) {
    m[0] = Starts()[c.choose(int(Starts().size()))];
    m[1] = narrow ? Starts()[5 + (Show(m[0]).size() & 1)] : Starts()[5 + c.choose(2)];
    for (int i = 0; i < 2; ++i) j[i] = Build(m[i]);
    trace = "start " + Show(m[0]) + " " + Show(m[1]) + "; ";
  }
  void Note(mc::Ctx& c, const std::string& s) { trace += s + "; "; c.detail(trace); }
  template <typename V> void Assign(mc::Ctx& c, Node t, const V& v, const M& want) {
    Json* r;
    switch (c.choose(4)) {
      case 0: { V x = v; Note(c, t.path + " = lvalue " + Show(want)); r = &(*t.j = x); if constexpr (requires { x == v; }) MC_CHECK(c, x == v, "assigning changed its source: ", trace); break; }
      case 1: { const V x = v; Note(c, t.path + " = const " + Show(want)); r = &(*t.j = x); break; }
      case 2: { V x = v; Note(c, t.path + " = rvalue " + Show(want)); r = &(*t.j = std::move(x)); break; }
      default: { V x = v; Note(c, t.path + " = Json(" + Show(want) + ")"); r = &(*t.j = Json(x)); break; }
    }
    MC_CHECK(c, r == t.j, "assignment does not return its target: ", trace);
    *t.m = want;
  }
  // Adds to an array or object in one of the ways to pass a Json.
  M Take(mc::Ctx& c, const Node& s, int how) {
    M v = *s.m;
    if (how == 2) *s.m = M::Null();
    return v;
  }
  void Step(mc::Ctx& c) {
    std::vector<Node> n;
    Collect(j[0], m[0], "A", 0, n);
    const size_t in_a = n.size();
    Collect(j[1], m[1], "B", 1, n);
    n.resize(std::min<size_t>(n.size(), in_a + (narrow ? 1 : 3)));
    Node t = n[c.choose(int(std::min<size_t>(in_a, narrow ? 3 : 6)))];
    Json& tj = *t.j;
    M& tm = *t.m;
    if (narrow) while (n.size() > 4) n.erase(n.begin() + 3);  // Keeps B.
    auto src = [&] { return n[c.choose(int(n.size()))]; };
    const bool arr = tm.k == M::kArr, obj = tm.k == M::kObj, null = tm.k == M::kNull;
    switch (c.choose(27)) {
      case 0: {
        const M& v = Scalars()[c.choose(int(Scalars().size()))];
        switch (v.k) {
          case M::kNull: Assign(c, t, std::nullopt, v); break;
          case M::kBool: Assign(c, t, v.b, v); break;
          case M::kNum: if (v.n == M::kInt) Assign(c, t, v.i, v); else if (v.n == M::kUint) Assign(c, t, v.u, v); else Assign(c, t, v.d, v); break;
          case M::kStr: switch (c.choose(3)) { case 0: Assign(c, t, v.s, v); break; case 1: Assign(c, t, std::string_view(v.s), v); break; default: { const char* y = "yes"; Assign(c, t, y, v); } } break;
          default: break;
        }
        break;
      }
      case 1: if (null || arr) { Note(c, t.path + ".MakeArray()"); MC_CHECK(c, &tj.MakeArray() == &tj, "MakeArray ", trace); if (null) tm = M::Arr(); } break;
      case 2: if (null || obj) { Note(c, t.path + ".MakeObject()"); MC_CHECK(c, &tj.MakeObject() == &tj, "MakeObject ", trace); if (null) tm = M::Obj(); } break;
      case 3: if (null || tm.k == M::kStr) { Note(c, t.path + ".MakeString(t)"); MC_CHECK(c, &tj.MakeString("t") == &tj, "MakeString ", trace); if (null) tm = M::Str("t"); } break;
      case 4: Note(c, t.path + ".Reset()"); MC_CHECK(c, &tj.Reset() == &tj, "Reset ", trace); tm = M::Null(); break;
      case 5: Note(c, t.path + ".clear()"); tj.clear(); tm = arr ? M::Arr() : obj ? M::Obj() : M::Null(); break;
      case 6: {  // Copy a value, from anywhere.
        const Node s = src();
        const M v = *s.m;
        if (c.flip()) { Note(c, t.path + " = const " + s.path); tj = std::as_const(*s.j); } else { Note(c, t.path + " = " + s.path); tj = *s.j; }
        tm = M(v);
        break;
      }
      case 7: {  // Move a value, from anywhere but what contains the target.
        const Node s = src();
        if (Inside(t, s) || s.j == &tj) break;
        Note(c, t.path + " = move(" + s.path + ")");
        const bool part = Inside(s, t);
        M v = std::move(*s.m);
        tj = std::move(*s.j);
        if (!part) { *s.m = M::Null(); }
        tm = std::move(v);
        break;
      }
      case 8: {  // A moved from value can be used again.
        const Node s = src();
        const bool part = Inside(t, s);
        if (part || s.j == &tj) break;
        Note(c, "x = move(" + s.path + "), then " + t.path + " = move(x)");
        Json x(std::move(*s.j));
        MC_CHECK(c, s.j->IsNull() && !x.empty() == !(s.m->a.empty() && s.m->o.empty()), "moved from value is not Null: ", trace);
        M v = std::move(*s.m);
        *s.m = M::Null();
        tj = std::move(x);
        tm = std::move(v);
        break;
      }
      case 9: case 10: {  // push_back / emplace_back of another value.
        const bool back = c.flip();
        const Node s = src();
        const int how = c.choose(3);
        if (!arr || (how == 2 && (s.j == &tj || Inside(t, s)))) break;
        const char* kHow[] = {"", "const ", "move "};
        Note(c, mc::Cat(t.path, back ? ".emplace_back(" : ".push_back(", kHow[how], s.path, ")"));
        M v = *s.m;
        if (how == 2) *s.m = M::Null();
        const Json* r = nullptr;
        if (how == 0) { if (back) r = &tj.emplace_back(*s.j); else tj.push_back(*s.j); }
        else if (how == 1) { if (back) r = &tj.emplace_back(std::as_const(*s.j)); else tj.push_back(std::as_const(*s.j)); }
        else { if (back) r = &tj.emplace_back(std::move(*s.j)); else tj.push_back(std::move(*s.j)); }
        tm.a.push_back(std::move(v));
        if (r) MC_CHECK(c, r == &tj[tj.size() - 1], "emplace_back returns another element: ", trace);
        break;
      }
      case 11: if (null || arr) { Note(c, t.path + ".emplace_back(7 / \"s\" / 1.5)"); if (null) tm = M::Arr(); int seven = 7; tj.emplace_back(seven); tj.push_back("s"); tj.push_back(1.5); tm.a.insert(tm.a.end(), {M::Int(7), M::Str("s"), M::Dbl(1.5)}); } break;
      case 12: {  // emplace a property: keeps one that exists.
        if (!(null || obj)) break;
        const char* key = c.pick(std::vector<const char*>{"a", "b", "c"});
        const Node s = src();
        const int how = c.choose(2);
        if (s.j == &tj || Inside(t, s)) break;
        Note(c, mc::Cat(t.path, ".emplace(", key, ", ", how ? "" : "copy of ", s.path, ")"));
        if (null) tm = M::Obj();
        M v = *s.m;
        if (tm.o.count(key) && how) break;  // Whether an unused source is moved from is not specified.
        if (how) *s.m = M::Null();
        const Json& r = how ? tj.emplace(key, std::move(*s.j)) : tj.emplace(key, *s.j);
        tm.o.emplace(key, std::move(v));
        MC_CHECK(c, &r == &std::as_const(tj)[key], "emplace returns another property: ", trace);
        break;
      }
      case 13: {
        if (!(null || obj)) break;
        const char* key = c.pick(std::vector<const char*>{"a", "b", "c"});
        Note(c, mc::Cat(t.path, "[", key, "] = 7"));
        if (null) tm = M::Obj();
        Json& r = c.flip() ? tj[key] : tj.at(key);
        auto [it, fresh] = tm.o.emplace(key, M::Null());
        MC_CHECK(c, r.IsNull() == (it->second.k == M::kNull), "new property is not Null: ", trace);
        r = 7;
        it->second = M::Int(7);
        break;
      }
      case 14: if (arr && !tm.a.empty()) { Note(c, t.path + ".pop_back()"); tj.pop_back(); tm.a.pop_back(); } break;
      case 15: {
        const char* key = c.pick(std::vector<const char*>{"a", "b", "c"});
        Note(c, mc::Cat(t.path, ".erase(", key, ")"));
        const size_t want = obj ? tm.o.erase(key) : 0;
        MC_CHECK(c, tj.erase(key) == want, "erase(", key, ") returned another count: ", trace);
        break;
      }
      case 16: if (arr && !tm.a.empty()) { const int i = c.choose(int(tm.a.size())); Note(c, mc::Cat(t.path, ".erase(#", i, ")")); auto r = tj.erase(tj.begin() + i); tm.a.erase(tm.a.begin() + i); MC_CHECK(c, r - tj.begin() == i, "erase returned another position: ", trace); } break;
      case 17: if (arr) { const int f = c.choose(int(tm.a.size()) + 1), l = f + c.choose(int(tm.a.size()) - f + 1); Note(c, mc::Cat(t.path, ".erase(#", f, ", #", l, ")")); auto r = tj.erase(tj.begin() + f, tj.begin() + l); tm.a.erase(tm.a.begin() + f, tm.a.begin() + l); MC_CHECK(c, r - tj.begin() == f, "erase returned another position: ", trace); } break;
      case 18: {  // Erase through values(): every subset.
        if (!(arr || obj)) break;
        std::string what;
        size_t left = arr ? tm.a.size() : tm.o.size();
        std::string sel;
        auto it = tj.values().begin();
        size_t i = 0;
        size_t guard = left;
        while (guard-- && it != tj.values().end()) {
          const Json* at = &*it;
          std::string key;
          if (obj) for (const auto& [k, e] : tj.property_pairs()) if (&e == at) key = k;
          const bool del = c.flip();
          what += mc::Cat(del ? "-" : "+", obj ? key : "#");
          if (del) {
            if (arr) tm.a.erase(tm.a.begin() + i); else tm.o.erase(key);
            it = tj.erase(it);
          } else { ++it; ++i; }
        }
        Note(c, t.path + ".erase by values(): " + what);
        MC_CHECK(c, it == tj.values().end(), "erasing by iterator did not reach the end: ", trace);
        break;
      }
      case 19: if (arr || obj) {  // Erase a range of values().
        const size_t sz = arr ? tm.a.size() : tm.o.size();
        const int f = c.choose(int(sz) + 1), l = f + c.choose(int(sz) - f + 1);
        Note(c, mc::Cat(t.path, ".erase values #", f, "..#", l));
        Json::const_value_iterator first = tj.values().begin();
        std::vector<std::string> keys;
        if (obj) for (const std::string& k : tj.property_names()) keys.push_back(k);
        for (int x = 0; x < f; ++x) ++first;
        Json::const_value_iterator last = first;
        for (int x = f; x < l; ++x) last++;
        Json::const_value_iterator got = tj.erase(first, last);
        if (arr) tm.a.erase(tm.a.begin() + f, tm.a.begin() + l); else for (int x = f; x < l; ++x) tm.o.erase(keys[x]);
        size_t rest = 0;
        for (; got != Json::const_value_iterator(tj.values().end()); ++got) ++rest;
        MC_CHECK(c, rest == sz - l, "erase of a range returned another position: ", trace);
      } break;
      case 20: if (arr) { const int k = c.choose(5); Note(c, mc::Cat(t.path, ".resize(", k, ")")); tj.resize(k); tm.a.resize(k); } break;
      case 21: if (arr) { const int k = c.choose(5); Note(c, mc::Cat(t.path, ".resize(", k, ", \"t\")")); tj.resize(k, "t"); tm.a.resize(k, M::Str("t")); } break;
      case 22: if (arr || obj) {  // Change every value through a mutable view.
        const int how = c.choose(arr ? 4 : 3);
        Note(c, mc::Cat(t.path, " all values = 2 through view ", how));
        if (how == 0) for (Json& e : tj.values()) e = 2;
        else if (arr && how == 1) for (Json& e : tj.array_values()) e = 2;
        else if (arr && how == 2) for (auto it = tj.begin(); it != tj.end(); ++it) *it = 2;
        else if (arr) for (auto it = tj.rbegin(); it != tj.rend(); ++it) *it = 2;
        else if (how == 1) for (auto&& [k, e] : tj.property_pairs()) e = 2;
        else for (Json& e : tj.property_values()) e = 2;
        for (M& e : tm.a) e = M::Int(2);
        for (auto& [k, e] : tm.o) e = M::Int(2);
      } break;
      case 23: { Note(c, "swap(A, B)"); std::swap(j[0], j[1]); std::swap(m[0], m[1]); break; }
      case 24: { Note(c, "A = copy of A"); Json copy(j[0]); MC_CHECK(c, copy == j[0], "a copy differs: ", trace); j[0].Reset(); j[0] = copy; break; }
      case 25: {  // From an owned value.
        const Node s = src();
        const M v = *s.m;
        Note(c, t.path + " = unique_ptr copy of " + s.path);
        if (c.flip()) { const auto p = std::make_unique<Json>(std::as_const(*s.j)); tj = p; tm = v; MC_CHECK(c, *p == tj, "source changed: ", trace); }
        else { const std::unique_ptr<Json> p; tj = p; tm = M::Null(); }
        break;
      }
      case 26: if (obj || arr) {  // Self assignment.
        Note(c, t.path + " = itself");
        Json& self = tj;
        if (c.flip()) tj = self; else tj = std::as_const(self);
      } break;
    }
  }
  void Check(mc::Ctx& c) {
    for (int i = 0; i < 2; ++i) {
      const M got = Read(c, j[i], trace);
      MC_CHECK(c, Same(got, m[i]), i ? "B" : "A", " is ", Show(got), " want ", Show(m[i]), " after ", trace);
      if (m[i].k == M::kObj || m[i].k == M::kNull) {
        auto p = jref::Parser(j[i].Serialize(Json::SerializeMode::kPretty)).All();
        MC_CHECK(c, p && Denotes(*p, m[i].k == M::kNull ? M::Obj() : m[i], true), "serialized as ", j[i].Serialize(Json::SerializeMode::kPretty), " want ", Show(m[i]), " after ", trace);
      }
    }
    const int want = Order(m[0], m[1]);
    const auto got = j[0] <=> j[1];
    MC_CHECK(c, (want < 0) == (got < 0) && (want > 0) == (got > 0) && (j[0] == j[1]) == (want == 0), "A and B compare wrong after ", trace);
    MC_CHECK(c, Same(m[0], m[1]) ? j[0] == j[1] : true, "equal values differ");
    c.state(Show(m[0]) + Show(m[1]));
  }
};

void Run(mc::Ctx& c, int depth, bool narrow) {
  std::ostringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  struct Restore { std::streambuf* o; ~Restore() { std::cout.rdbuf(o); } } restore{old};
  World w;
  w.narrow = narrow;
  w.Start(c);
  for (int i = 0; i < depth; ++i) w.Step(c);
  w.Check(c);
  MC_CHECK(c, out.str().empty(), "wrote to standard output: ", mc::Quote(out.str()), " after ", w.trace);
  c.sample(w.trace);
}
MC_SECTION_D(single, 3) { Run(c, 1, false); }
MC_SECTION_D(operations, 4) { Run(c, mc::Tier(2, 3), true); }
MC_SECTION_D(broad, 4) { if (mc::Thorough()) Run(c, 2, false); }
}  // namespace
