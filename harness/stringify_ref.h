// Types that can be stringified, a description of their values as plain trees, and reference formatters for the trees.
#ifndef VERIF_HARNESS_STRINGIFY_REF_H_
#define VERIF_HARNESS_STRINGIFY_REF_H_
#include <array>
#include <cstdio>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include "harness/json_ref.h"
#include "mbo/types/extend.h"
#include "mbo/types/stringify.h"

namespace sref {
using mbo::types::Stringify;
using SO = mbo::types::StringifyOptions;

struct N {
  enum T { kInt, kFlt, kBool, kChar, kStr, kNullptrT, kRaw, kSmart, kOpt, kMaybe, kPair, kList, kKeyed, kStruct, kDisabled } t = kInt;
  std::string s;              // Text, or the character.
  double d = 0;
  bool is_float = false;
  bool held = false;          // The value held by a variant: the variant is not null even when it holds a null.
  bool unnamed = false;       // Struct whose field names are not to be printed.
  std::vector<std::string> names;
  std::vector<N> c;           // Members, elements or what is pointed to.
};

template <typename T> struct Describe;
template <typename T> N D(const T& v) { return Describe<T>::Do(v); }
inline N Mk(N::T t, std::string s = {}, std::vector<N> c = {}) { N n; n.t = t; n.s = std::move(s); n.c = std::move(c); return n; }
template <typename T> requires std::integral<T> struct Describe<T> {
  static N Do(T v) {
    if constexpr (std::same_as<T, bool>) return Mk(N::kBool, v ? "true" : "false");
    else if constexpr (std::same_as<T, char> || std::same_as<T, unsigned char>) return Mk(N::kChar, std::string(1, char(v)));
    else return Mk(N::kInt, std::to_string(v));
  }
};
template <std::floating_point T> struct Describe<T> { static N Do(T v) { N n = Mk(N::kFlt); n.d = v; n.is_float = std::same_as<T, float>; return n; } };
template <> struct Describe<std::string> { static N Do(const std::string& v) { return Mk(N::kStr, v); } };
template <> struct Describe<std::string_view> { static N Do(std::string_view v) { return Mk(N::kStr, std::string(v)); } };
template <> struct Describe<std::nullptr_t> { static N Do(std::nullptr_t) { return Mk(N::kNullptrT); } };
template <typename T> struct Describe<T*> { static N Do(T* v) { return v ? Mk(N::kRaw, "", {D<std::remove_cv_t<T>>(*v)}) : Mk(N::kRaw); } };
template <typename T> struct Describe<std::unique_ptr<T>> { static N Do(const std::unique_ptr<T>& v) { return v ? Mk(N::kSmart, "", {D(*v)}) : Mk(N::kSmart); } };
template <typename T> struct Describe<std::shared_ptr<T>> { static N Do(const std::shared_ptr<T>& v) { return v ? Mk(N::kSmart, "", {D(*v)}) : Mk(N::kSmart); } };
template <typename T> struct Describe<std::optional<T>> { static N Do(const std::optional<T>& v) { return v ? Mk(N::kOpt, "", {D(*v)}) : Mk(N::kOpt); } };
template <typename T> struct Describe<mbo::types::OptionalRef<T>> { static N Do(const mbo::types::OptionalRef<T>& v) { return v.has_value() ? D<std::remove_cv_t<T>>(*v) : Mk(N::kMaybe); } };
template <typename T> struct Describe<mbo::types::OptionalDataOrRef<T>> { static N Do(const mbo::types::OptionalDataOrRef<T>& v) { return v.has_value() ? D<std::remove_cv_t<T>>(*v) : Mk(N::kMaybe); } };
template <typename T> struct Describe<std::reference_wrapper<T>> { static N Do(std::reference_wrapper<T> v) { return D<std::remove_cv_t<T>>(v.get()); } };
template <typename A, typename B> struct Describe<std::pair<A, B>> { static N Do(const std::pair<A, B>& v) { return Mk(N::kPair, "", {D<std::remove_cv_t<A>>(v.first), D(v.second)}); } };
template <typename C> N Seq(const C& v) { N n = Mk(N::kList); for (const auto& e : v) n.c.push_back(D(e)); return n; }
template <typename C> N KeyedOrSeq(const C& v) {
  N n = Seq(v);
  using F = std::remove_cv_t<typename C::value_type::first_type>;
  if constexpr (std::convertible_to<F, std::string_view>) n.t = N::kKeyed;
  return n;
}
template <typename T> struct Describe<std::vector<T>> { static N Do(const std::vector<T>& v) { if constexpr (mbo::types::IsPair<T>) return KeyedOrSeq(v); else return Seq(v); } };
template <typename T, size_t K> struct Describe<std::array<T, K>> { static N Do(const std::array<T, K>& v) { return Seq(v); } };
template <typename T> struct Describe<std::set<T>> { static N Do(const std::set<T>& v) { return Seq(v); } };
template <typename T> struct Describe<std::list<T>> { static N Do(const std::list<T>& v) { return Seq(v); } };
template <typename T> struct Describe<std::deque<T>> { static N Do(const std::deque<T>& v) { return Seq(v); } };
template <typename A, typename B> struct Describe<std::map<A, B>> { static N Do(const std::map<A, B>& v) { return KeyedOrSeq(v); } };
template <typename A, typename B> struct Describe<std::unordered_map<A, B>> { static N Do(const std::unordered_map<A, B>& v) { return KeyedOrSeq(v); } };
template <typename... T> struct Describe<std::variant<T...>> { static N Do(const std::variant<T...>& v) { N n = std::visit([](const auto& e) { return D(e); }, v); n.held = true; return n; } };

constexpr bool kNames = mbo::types::types_internal::kStructNameSupport;
// Structs describe themselves by listing their members; their names are those the compiler gives.
template <typename... T> N Fields(const char* names, const T&... v) {
  N n = Mk(N::kStruct, "", {D(v)...});
  std::string cur;
  for (const char* p = names; ; ++p) {
    if (*p == ' ') continue;
    if (*p && *p != ',') { cur += *p; continue; }
    n.names.push_back(cur);
    cur.clear();
    if (!*p) break;
  }
  if (!kNames) for (auto& x : n.names) x.clear();
  return n;
}
template <typename T> requires requires(const T& v) { v.Desc_(); } struct Describe<T> { static N Do(const T& v) { return v.Desc_(); } };
#define SREF_FIELDS(...) ::sref::N Desc_() const { return ::sref::Fields(#__VA_ARGS__, __VA_ARGS__); }

struct Numbers { bool b = false; signed char sc = -1; short sh = -2; int in = 3; unsigned un = 4; long lo = -5; unsigned long ul = 6; float fl = 0.5F; double dv = 0.25; SREF_FIELDS(b, sc, sh, in, un, lo, ul, fl, dv) };
struct Chars { char one = 'a'; unsigned char two = 'b'; SREF_FIELDS(one, two) };
struct Strings { std::string str; std::string_view view; SREF_FIELDS(str, view) };
struct Inner { int num = 1; std::string txt = "t"; SREF_FIELDS(num, txt) };
struct Ptrs { const int* raw = nullptr; std::unique_ptr<int> uni; std::shared_ptr<std::string> sha; std::optional<int> opt; std::optional<std::string> ops; std::nullptr_t nul = nullptr; int last = 9; SREF_FIELDS(raw, uni, sha, opt, ops, nul, last) };
struct Lists { std::vector<int> vec; std::array<std::string, 2> arr; std::set<char> chs; std::list<double> lis; std::deque<std::vector<int>> deq; SREF_FIELDS(vec, arr, chs, lis, deq) };
struct Maps { std::map<std::string, int> byname; std::map<int, std::string> bynum; std::vector<std::pair<std::string, int>> vecp; std::pair<int, std::string> pai; std::map<std::string, std::map<std::string, std::vector<int>>> deep; std::pair<std::string, std::pair<int, int>> nest; SREF_FIELDS(byname, bynum, vecp, pai, deep, nest) };
struct Nested { Inner one; std::vector<Inner> vec; std::optional<Inner> opt; std::unique_ptr<Inner> uni; std::map<std::string, Inner> map; std::pair<Inner, Inner> pai; SREF_FIELDS(one, vec, opt, uni, map, pai) };
struct Variants { std::variant<int, std::string> sca; std::variant<std::optional<int>, Inner, std::map<std::string, int>, std::vector<int>> com; SREF_FIELDS(sca, com) };
struct PairVariants { std::variant<int, std::pair<int, int>, std::vector<std::pair<int, int>>, std::map<int, int>> var; SREF_FIELDS(var) };
struct Refs { std::reference_wrapper<const int> ref; mbo::types::OptionalRef<const std::string> ors; mbo::types::OptionalDataOrRef<int> odr; SREF_FIELDS(ref, ors, odr) };
struct Off { using MboTypesStringifyDisable = void; int x = 1; sref::N Desc_() const { return Mk(N::kDisabled); } };
struct WithOff { int first = 1; Off off; int last = 2; SREF_FIELDS(first, off, last) };
struct PointsOff { std::optional<Off> opt; int last = 2; SREF_FIELDS(opt, last) };
struct Holds { std::vector<Inner> vec; std::vector<std::optional<int>> opts; std::vector<std::unique_ptr<int>> ptrs; SREF_FIELDS(vec, opts, ptrs) };
struct Single { std::string only; SREF_FIELDS(only) };
struct Empty { sref::N Desc_() const { return Mk(N::kStruct); } };
struct HasEmpty { Empty emp; int num = 5; SREF_FIELDS(emp, num) };
struct Unnamed { using MboTypesStringifyDoNotPrintFieldNames = void; int one = 1; std::pair<int, int> two = {2, 3}; Inner three; std::map<std::string, int> four = {{"k", 4}};
  N Desc_() const { N n = Fields("one, two, three, four", one, two, three, four); n.unnamed = true; for (auto& x : n.names) x.clear(); return n; } };
struct Given { int one = 1; std::string two = "t"; double three = 0.5;
  friend auto MboTypesStringifyFieldNames(const Given&) { return std::array<std::string_view, 3>{"uno", "dos", "tres"}; }
  N Desc_() const { N n = Fields("a,b,c", one, two, three); n.names = {"uno", "dos", "tres"}; return n; } };
struct GivenFew { int one = 1; std::string two = "t"; int three = 3;
  friend auto MboTypesStringifyFieldNames(const GivenFew&) { return std::vector<std::string>{"first one"}; }
  N Desc_() const { N n = Fields("a,b,c", one, two, three); n.names = {"first one", "", ""}; return n; } };
struct GivenOdd { int one = 1; int two = 2;
  friend auto MboTypesStringifyFieldNames(const GivenOdd&) { return std::vector<std::string>{"q\"uote", "back\\slash\n\x01"}; }
  N Desc_() const { N n = Fields("a,b", one, two); n.names = {"q\"uote", "back\\slash\n\x01"}; return n; } };
struct Extended : mbo::types::Extend<Extended> { int one = 1; std::string two = "e"; std::vector<int> three = {1, 2};
  SREF_FIELDS(one, two, three) };
struct HoldsExtended { Extended ext; std::vector<Extended> vec; std::pair<Extended, int> pai; SREF_FIELDS(ext, vec, pai) };
using RootMap = std::map<std::string, Inner>;
using RootVec = std::vector<std::pair<std::string_view, std::vector<int>>>;

// ---- What a value means in JSON: suppressed members are left out, unnamed ones are numbered.
inline jref::M Num(const N& n) {
  jref::M m = jref::M::Dbl(n.d);
  if (n.t == N::kInt) m = n.s[0] == '-' ? jref::M::Int(std::stoll(n.s)) : jref::M::Uint(std::stoull(n.s));
  return m;
}
inline jref::M Json(const N& n) {
  switch (n.t) {
    case N::kInt: case N::kFlt: return Num(n);
    case N::kBool: return jref::M::Bool(n.s == "true");
    case N::kChar: case N::kStr: return jref::M::Str(n.s);
    case N::kNullptrT: case N::kMaybe: case N::kDisabled: return jref::M::Null();
    case N::kRaw: case N::kSmart: case N::kOpt: return n.c.empty() ? jref::M::Null() : Json(n.c[0]);
    case N::kList: { auto m = jref::M::Arr(); for (const N& e : n.c) m.a.push_back(Json(e)); return m; }
    case N::kKeyed: { auto m = jref::M::Obj(); for (const N& e : n.c) m.o.emplace(e.c[0].s, Json(e.c[1])); return m; }
    case N::kPair: case N::kStruct: {
      auto m = jref::M::Obj();
      for (size_t i = 0; i < n.c.size(); ++i) {
        const N& e = n.c[i];
        if (!e.held && (e.t == N::kNullptrT || e.t == N::kDisabled || ((e.t == N::kRaw || e.t == N::kSmart || e.t == N::kOpt) && e.c.empty()))) continue;
        std::string name = n.t == N::kPair ? (i ? "second" : "first") : n.names[i];
        m.o.emplace(name.empty() ? std::to_string(i) : name, Json(e));
      }
      return m;
    }
  }
  return {};
}

// The types compiled into one program.
#ifndef TYPES_LO
#define TYPES_LO 0
#define TYPES_HI 22
#endif
#define SREF_CASE(k) case k: if constexpr (TYPES_LO <= k && k < TYPES_HI)
constexpr int kTypes = 22;
template <typename C> int ChooseType(C& c) { return TYPES_LO + c.choose(TYPES_HI - TYPES_LO); }

// ---- Values: each type with several contents chosen by `pick(n)`.
template <typename F, typename Use>
void ForValue(int type, const F& pick, const Use& use) {
  static const int kPointee = 42;
  static const std::string kRefd = "refd";
  const std::vector<std::string> texts = {"", "abc", "q\"'\\\n\x01\xc3\xa9"};
  auto text = [&] { return texts[pick(3)]; };
  switch (type) {
    SREF_CASE(0) { Numbers v; if (pick(2)) v = {true, 127, 32767, -2147483647, 4294967295U, -9223372036854775807L, 18446744073709551615UL, -1.5e9F, 1e-300}; use(v); } break;
    SREF_CASE(1) { Chars v; const char cs[] = {'a', '\'', '"', '\\', '\n', '\0', '\x7f'}; v.one = cs[pick(7)]; v.two = static_cast<unsigned char>(cs[pick(7)]); use(v); } break;
    SREF_CASE(2) { const std::string s = text(); Strings v; v.str = text(); v.view = s; use(v); } break;
    SREF_CASE(3) { Ptrs v; if (pick(2)) v.raw = &kPointee; if (pick(2)) v.uni = std::make_unique<int>(5); if (pick(2)) v.sha = std::make_shared<std::string>("sh\"ared"); if (pick(2)) v.opt = 6; if (pick(2)) v.ops = "op's"; use(v); } break;
    SREF_CASE(4) { Lists v; for (int i = pick(3); i > 0; --i) v.vec.push_back(i); v.arr = {"x", text()}; for (int i = pick(3); i > 0; --i) { v.chs.insert(char('a' + i)); v.lis.push_back(i / 4.0); v.deq.push_back(std::vector<int>(i - 1, i)); } use(v); } break;
    SREF_CASE(5) { Maps v; const int n = pick(3); for (int i = 0; i < n; ++i) { v.byname[std::string(1, char('a' + i))] = i; v.bynum[i] = texts[i]; v.vecp.emplace_back(std::string(1, char('a' + i)), i); v.deep["d" + std::to_string(i)] = {{"x", {}}, {"y", std::vector<int>(i, i)}}; } v.pai = {7, text()}; v.nest = {"n", {1, 2}}; use(v); } break;
    SREF_CASE(6) { Nested v; v.one.txt = text(); for (int i = pick(3); i > 0; --i) { v.vec.push_back({i, "v"}); v.map["m" + std::to_string(i)] = {i, ""}; } if (pick(2)) v.opt = Inner{8, "o"}; if (pick(2)) v.uni = std::make_unique<Inner>(Inner{9, "u"}); use(v); } break;
    SREF_CASE(7) { Variants v; if (pick(2)) v.sca = "vs"; else v.sca = 3; switch (pick(4)) { case 0: v.com = std::vector<int>{1, 2}; break; case 1: v.com = Inner{4, "i"}; break; case 2: v.com = std::map<std::string, int>{{"k", 1}, {"l", 2}}; break; default: v.com = std::optional<int>{}; if (pick(2)) v.com = std::optional<int>{5}; } use(v); } break;
    SREF_CASE(8) { Refs v{std::cref(kPointee), {}, {}}; if (pick(2)) v.ors.set_ref(kRefd); if (pick(2)) v.odr = 12; use(v); } break;
    SREF_CASE(9) { WithOff v; use(v); } break;
    SREF_CASE(10) { Holds v; for (int i = pick(3); i > 0; --i) { v.vec.push_back({i, "h"}); v.opts.push_back(i == 1 ? std::optional<int>{} : std::optional<int>{i}); v.ptrs.push_back(i == 2 ? nullptr : std::make_unique<int>(i)); } use(v); } break;
    SREF_CASE(11) { Single v{text()}; use(v); } break;
    SREF_CASE(12) { HasEmpty v; use(v); use(Empty{}); } break;
    SREF_CASE(13) { Unnamed v; use(v); } break;
    SREF_CASE(14) { Given v; use(v); use(GivenFew{}); } break;
    SREF_CASE(15) { Extended v; v.two = text(); use(v); } break;
    SREF_CASE(16) { HoldsExtended v; for (int i = pick(3); i > 0; --i) v.vec.emplace_back(); use(v); } break;
    SREF_CASE(17) { RootMap v; for (int i = pick(3); i > 0; --i) v["r" + std::to_string(i)] = {i, text()}; use(v); } break;
    SREF_CASE(18) { RootVec v; for (int i = pick(3); i > 0; --i) v.emplace_back(i == 1 ? "one" : "all", std::vector<int>(i, i)); use(v); } break;
    SREF_CASE(19) { GivenOdd v; use(v); } break;
    SREF_CASE(20) { PairVariants v; switch (pick(4)) { case 0: v.var = 1; break; case 1: v.var = std::pair<int, int>{1, 2}; break; case 2: v.var = std::vector<std::pair<int, int>>{{1, 2}, {3, 4}}; break; default: v.var = std::map<int, int>{{5, 6}}; } use(v); } break;
    SREF_CASE(21) { PointsOff v; use(v); } break;
  }
}

// ---- Text for one set of options that applies everywhere.
struct Style {
  std::string root_prefix, root_suffix, root_indent, msg_prefix, msg_suffix, indent, kv = ": ", sep = ", ", raw_pre = "*{", raw_suf = "}", smart_pre = "{", smart_suf = "}", opt_pre = "{", opt_suf = "}",
      st_pre = "{", st_suf = "}", co_pre = "{", co_suf = "}", ch = "'", st = "\"";
  bool sup = false, sup_null = false, sup_nullopt = false, sup_off = false;
  std::string off = "{/*MboTypesStringifyDisable*/}";
  int key_mode = 1;  // none, normal, numeric
  std::string key_pre = ".", key_suf, use_name;
  bool use_name_set = false;
  int esc = 1;  // none, C, C hex, json
  std::string nullptr_t_str = "std::nullptr_t", nullptr_v = "<nullptr>", nullopt = "std::nullopt";
  size_t max_elems = ~size_t{0}, max_str = ~size_t{0};
  std::string cut = "...", rep_str, rep_other;
  int keyed = 0;  // normal, name, ordered
  std::optional<std::pair<std::string, std::string>> pair_keys = {{"first", "second"}};
};
inline std::string Esc(std::string_view s, int mode) {
  std::string r;
  char b[16];
  bool hex = false;
  for (const char ch : s) {
    const unsigned char u = ch;
    bool now_hex = false;
    if (mode == 0) { r += ch; continue; }
    if (mode == 3) {
      if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
      else if (ch == '\n') r += "\\n"; else if (ch == '\r') r += "\\r"; else if (ch == '\t') r += "\\t";
      else if (u < 32) { snprintf(b, sizeof b, "\\u%04x", u); r += b; } else r += ch;
      continue;
    }
    switch (ch) {
      case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break; case '\'': r += "\\'"; break; case '\\': r += "\\\\"; break;
      default:
        if (u < 32 || u >= 127 || (hex && isxdigit(u))) {
          if (mode == 2) { snprintf(b, sizeof b, "\\x%02x", u); now_hex = true; } else snprintf(b, sizeof b, "\\%03o", u);
          r += b;
        } else r += ch;
    }
    hex = now_hex;
  }
  return r;
}
class Formatter {
 public:
  explicit Formatter(const Style& o) : o_(o) {}
  std::string All(const N& n) {
    out_.clear();
    level_ = 0;
    out_ += o_.root_prefix + o_.msg_prefix;
    if (n.t == N::kDisabled) { if (!o_.sup_off) out_ += o_.off; } else Value(n, true);
    return out_ + o_.msg_suffix + o_.root_suffix;
  }
 private:
  void Line() { if (o_.indent.empty()) return; out_ += "\n" + o_.root_indent; for (int i = 0; i < level_; ++i) out_ += o_.indent; }
  void Key(const std::string& name, size_t idx, bool known) {
    if (o_.key_mode == 0) return;
    const std::string n = !known && o_.use_name_set && !o_.use_name.empty() ? o_.use_name : name;
    if (!n.empty() || known) out_ += o_.key_pre + (o_.esc == 3 ? Esc(n, 3) : n) + o_.key_suf + o_.kv;
    else if (o_.key_mode == 2) out_ += o_.key_pre + std::to_string(idx) + o_.key_suf + o_.kv;
  }
  bool Left(const N& n) {
    if (o_.sup) return false;
    if (n.held) return true;
    if (n.t == N::kDisabled) return !o_.sup_off;
    if (n.t == N::kNullptrT || ((n.t == N::kRaw || n.t == N::kSmart) && n.c.empty())) return !o_.sup_null;
    if (n.t == N::kOpt && n.c.empty()) return !o_.sup_nullopt;
    return true;
  }
  void Str(std::string_view s) {
    if (!o_.rep_str.empty()) { out_ += o_.rep_str; return; }
    out_ += Esc(s.substr(0, o_.max_str), o_.esc);
    if (s.size() > o_.max_str) out_ += o_.cut;
  }
  void Members(const N& n, const std::vector<std::string>& names, bool show) {
    out_ += o_.st_pre;
    ++level_;
    bool any = false;
    for (size_t i = 0; i < n.c.size(); ++i) {
      if (!Left(n.c[i])) continue;
      if (any) out_ += o_.sep;
      any = true;
      Line();
      if (show) Key(names[i], i, false);
      Value(n.c[i], show);
    }
    --level_;
    Line();
    out_ += o_.st_suf;
  }
  void Value(const N& n, bool show) {
    switch (n.t) {
      case N::kInt: case N::kBool: out_ += o_.rep_other.empty() ? n.s : o_.rep_other; break;
      case N::kFlt: {
        if (!o_.rep_other.empty()) { out_ += o_.rep_other; break; }
        char b[64];
        if (o_.esc == 3) {
          for (int p = 6; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, n.d); if (n.is_float ? strtof(b, nullptr) == static_cast<float>(n.d) : strtod(b, nullptr) == n.d) break; }
        } else snprintf(b, sizeof b, "%g", n.d);
        out_ += b;
        break;
      }
      case N::kChar:
        if (o_.ch.empty()) { out_ += std::to_string(static_cast<int>(n.s[0])); break; }
        out_ += o_.ch;
        if (n.s[0] == '\'' && o_.esc == 0) Str("\\'"); else Str(n.s);
        out_ += o_.ch;
        break;
      case N::kStr: out_ += o_.st; Str(n.s); out_ += o_.st; break;
      case N::kNullptrT: out_ += o_.nullptr_t_str; break;
      case N::kMaybe: out_ += o_.nullopt; break;
      case N::kDisabled: out_ += o_.off; break;
      case N::kRaw: if (n.c.empty()) out_ += o_.nullptr_v; else { out_ += o_.raw_pre; Value(n.c[0], show); out_ += o_.raw_suf; } break;
      case N::kSmart: if (n.c.empty()) out_ += o_.nullptr_v; else { out_ += o_.smart_pre; Value(n.c[0], show); out_ += o_.smart_suf; } break;
      case N::kOpt: if (n.c.empty()) out_ += o_.nullopt; else { out_ += o_.opt_pre; Value(n.c[0], show); out_ += o_.opt_suf; } break;
      case N::kPair:
        Members(n, o_.pair_keys ? std::vector<std::string>{o_.pair_keys->first, o_.pair_keys->second} : std::vector<std::string>{"first", "second"}, show || o_.key_mode == 2);
        break;
      case N::kStruct: Members(n, n.names, !n.unnamed || o_.key_mode == 2); break;
      case N::kKeyed:
        if (o_.keyed != 0) {
          std::vector<const N*> e;
          for (const N& x : n.c) if (e.size() < o_.max_elems) e.push_back(&x);
          if (o_.keyed == 2) std::sort(e.begin(), e.end(), [](const N* a, const N* b) { return a->c[0].s < b->c[0].s; });
          out_ += o_.st_pre;
          ++level_;
          for (size_t i = 0; i < e.size(); ++i) { if (i) out_ += o_.sep; Line(); if (show) Key(e[i]->c[0].s, i, true); Value(e[i]->c[1], show); }
          --level_;
          Line();
          out_ += o_.st_suf;
          break;
        }
        [[fallthrough]];
      case N::kList:
        out_ += o_.co_pre;
        ++level_;
        for (size_t i = 0; i < n.c.size() && i < o_.max_elems; ++i) { if (i) out_ += o_.sep; Line(); Value(n.c[i], show); }
        --level_;
        Line();
        out_ += o_.co_suf;
        break;
    }
  }
  const Style& o_;
  std::string out_;
  int level_ = 0;
};
inline Style ModeStyle(Stringify::OutputMode m) {
  Style s;
  using OM = Stringify::OutputMode;
  if (m == OM::kCpp || m == OM::kCppPretty) { s.kv = " = "; s.raw_pre = s.raw_suf = ""; s.nullptr_t_str = s.nullptr_v = "nullptr"; }
  if (m == OM::kCppPretty) { s.msg_suffix = "\n"; s.indent = "  "; s.sep = ","; }
  if (m == OM::kJson || m == OM::kJsonLine || m == OM::kJsonPretty) {
    s.msg_suffix = "\n"; s.kv = ":"; s.sep = ","; s.raw_pre = s.raw_suf = s.smart_pre = s.smart_suf = s.opt_pre = s.opt_suf = ""; s.co_pre = "["; s.co_suf = "]"; s.ch = "\"";
    s.sup_null = s.sup_nullopt = s.sup_off = true; s.key_mode = 2; s.key_pre = s.key_suf = "\""; s.esc = 3; s.nullptr_t_str = s.nullptr_v = s.nullopt = "null"; s.keyed = 1;
    if (m != OM::kJson) s.kv = ": ";
    if (m == OM::kJsonLine) s.sep = ", ";
    if (m == OM::kJsonPretty) { s.indent = "  "; s.keyed = 2; }
  }
  return s;
}
}  // namespace sref
#endif
