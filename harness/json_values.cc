#include <iomanip>
// Construction, order and serialization of JSON values over all values, pairs of values, byte strings and numbers in bounds.
#include "lib/mc.h"
#include <limits>
#include <list>
#include "harness/json_ref.h"
#include "mbo/json/json.h"

namespace {
using mbo::json::Json;
using jref::M;
using Kind = Json::Kind;

Json Build(const M& m) {
  Json j;
  switch (m.k) {
    case M::kNull: break;
    case M::kBool: j = m.b; break;
    case M::kNum: if (m.n == M::kInt) j = m.i; else if (m.n == M::kUint) j = m.u; else j = m.d; break;
    case M::kStr: j = m.s; break;
    case M::kArr: j.MakeArray(); for (const M& e : m.a) j.push_back(Build(e)); break;
    case M::kObj: j.MakeObject(); for (const auto& [k, e] : m.o) j.emplace(k, Build(e)); break;
  }
  return j;
}
// The same object with its properties added in another order, and others added and removed in between.
Json BuildOther(const M& m, int way) {
  Json j;
  switch (m.k) {
    case M::kArr: j.MakeArray(); for (const M& e : m.a) j.push_back(BuildOther(e, way)); return j;
    case M::kObj: {
      j.MakeObject();
      if (way & 1) for (int i = 0; i < 20; ++i) j[mc::Cat("x", i)] = i;
      for (auto it = m.o.rbegin(); it != m.o.rend(); ++it) j.emplace(it->first, BuildOther(it->second, way));
      if (way & 2) { j["zz"] = 1; j["zz"].Reset(); }
      for (int i = 0; i < 20; ++i) j.erase(mc::Cat("x", i));
      j.erase("zz");
      return j;
    }
    default: return Build(m);
  }
}
Kind KindOf(const M& m) {
  switch (m.k) {
    case M::kNull: return Kind::kNull; case M::kArr: return Kind::kArray; case M::kBool: return Kind::kBool;
    case M::kNum: return Kind::kNumber; case M::kObj: return Kind::kObject; case M::kStr: return Kind::kString;
  }
  return Kind::kNull;
}
const std::vector<M>& Scalars() {
  static const std::vector<M> s = {
      M::Null(), M::Bool(false), M::Bool(true), M::Int(0), M::Int(1), M::Int(-1), M::Int(2), M::Int(INT64_MAX), M::Int(INT64_MIN), M::Int((1LL << 53) + 1),
      M::Uint(0), M::Uint(1), M::Uint(UINT64_MAX), M::Uint(1ULL << 63), M::Uint((1ULL << 63) - 1), M::Dbl(0.0), M::Dbl(-0.0), M::Dbl(1.0), M::Dbl(0.5), M::Dbl(-1.0),
      M::Dbl(9007199254740992.0), M::Dbl(9223372036854775808.0), M::Dbl(18446744073709551616.0), M::Dbl(-9223372036854775808.0), M::Dbl(1e300), M::Dbl(-1e300), M::Dbl(5e-324),
      M::Dbl(std::numeric_limits<double>::infinity()), M::Dbl(-std::numeric_limits<double>::infinity()),
      M::Str(""), M::Str("a"), M::Str("ab"), M::Str("b"), M::Str(std::string("\0", 1)), M::Str("\x7f"), M::Str("\x80"), M::Str("\xff"), M::Str("1"), M::Str("null")};
  return s;
}
std::vector<M> Universe() {
  std::vector<M> r = Scalars();
  const std::vector<M> few = {M::Null(), M::Bool(true), M::Int(1), M::Uint(2), M::Dbl(1.5), M::Str("a"), M::Arr(), M::Obj(), M::Arr({M::Int(1)}), M::Obj({{"a", M::Int(1)}})};
  r.push_back(M::Arr());
  for (const M& a : few) { r.push_back(M::Arr({a})); for (const M& b : few) r.push_back(M::Arr({a, b})); }
  r.push_back(M::Obj());
  const std::vector<M> vals = {M::Null(), M::Int(1), M::Int(2), M::Str("a"), M::Arr({M::Int(1)}), M::Obj({{"b", M::Int(1)}})};
  for (const char* k : {"", "a", "b", "ab"}) for (const M& v : vals) r.push_back(M::Obj({{k, v}}));
  for (auto [k, l] : std::vector<std::pair<const char*, const char*>>{{"a", "b"}, {"b", "c"}, {"a", "c"}, {"", "a"}}) for (const M& v : vals) for (const M& w : vals) r.push_back(M::Obj({{k, v}, {l, w}}));
  for (const M& v : vals) for (const M& w : vals) r.push_back(M::Obj({{"a", v}, {"b", M::Int(1)}, {"c", w}}));
  std::map<std::string, M> big;
  for (int i = 0; i < 12; ++i) big.emplace(mc::Cat("k", i * 7 % 12), M::Int(i));
  r.push_back(M::Obj(big));
  for (const char* k : {"k0", "k6", "k11"}) { auto o = big; o[k] = M::Int(99); r.push_back(M::Obj(o)); o.erase(k); r.push_back(M::Obj(o)); }
  return r;
}

template <typename A, typename B>
void Compared(mc::Ctx& c, const A& a, const B& b, int want, const std::string& what) {
  c.step();
  const auto o = a <=> b;
  MC_CHECK(c, (o < 0) == (want < 0) && (o > 0) == (want > 0) && (o == 0) == (want == 0), what, " want ", want);
  MC_CHECK(c, (a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0), what, ": ==, != or < want ", want);
  if constexpr (std::same_as<A, B>) MC_CHECK(c, (a <= b) == (want <= 0) && (a > b) == (want > 0) && (a >= b) == (want >= 0), what, ": <=, > or >= want ", want);
}
#ifdef ORDER
MC_SECTION(order) {
  static const std::vector<M> u = Universe();
  const M& a = c.pick(u);
  const M& b = c.pick(u);
  c.state(Show(a) + Show(b));
  const Json ja = Build(a);
  const int want = jref::Order(a, b);
  for (int way = 0; way < 4; ++way) Compared(c, ja, BuildOther(b, way), want, Show(a) + " vs " + Show(b));
  const Json copy(ja);
  Compared(c, ja, copy, 0, Show(a) + " vs its copy");
  c.sample(Show(a) + " vs " + Show(b));
}

// ---- Values given as C++ types.
template <typename F>
void WithValue(mc::Ctx& c, const F& f) {
  auto ints = [&]<typename T>(T) {
    const std::vector<T> v = {0, 1, 2, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(-1), static_cast<T>(1ULL << 53)};
    const T x = c.pick(v);
    f(x, std::is_signed_v<T> ? M::Int(x) : M::Uint(x));
  };
  switch (c.choose(19)) {
    case 0: ints(int8_t{}); break;
    case 1: ints(int16_t{}); break;
    case 2: ints(int32_t{}); break;
    case 3: ints(int64_t{}); break;
    case 4: ints(uint8_t{}); break;
    case 5: ints(uint16_t{}); break;
    case 6: ints(uint32_t{}); break;
    case 7: ints(uint64_t{}); break;
    case 8: ints(char{}); break;
    case 9: ints((long long){}); break;
    case 10: ints((unsigned long long){}); break;
    case 11: { const float x = c.pick(std::vector<float>{0, -1.25F, 1e30F, 16777216.0F}); f(x, M::Dbl(x)); break; }
    case 12: { const double x = c.pick(std::vector<double>{0, -1.25, 1e300, 9007199254740992.0, 0.1}); f(x, M::Dbl(x)); break; }
    case 13: { const bool x = c.flip(); f(x, M::Bool(x)); break; }
    case 14: { const std::string x = c.pick(std::vector<std::string>{"", "a", std::string("\0b", 2)}); f(x, M::Str(x)); break; }
    case 15: { const std::string s = c.pick(std::vector<std::string>{"", "a", std::string("\0b", 2)}); f(std::string_view(s), M::Str(s)); break; }
    case 16: { const char* x = c.pick(std::vector<const char*>{"", "a", "1"}); f(x, M::Str(x)); break; }
    case 17: f(std::nullopt, M::Null()); break;
    default: { const short x = -7; f(x, M::Int(x)); break; }
  }
}
void Holds(mc::Ctx& c, const Json& j, const M& m, const std::string& what) {
  c.step();
  MC_CHECK(c, j.GetKind() == KindOf(m), what, ": wrong kind for ", Show(m));
  if (m.k == M::kNum) MC_CHECK(c, j.IsSignedInt() == (m.n == M::kInt) && j.IsUnsignedInt() == (m.n == M::kUint) && j.IsFloat() == (m.n == M::kDbl), what, ": number held as another kind: ", Show(m));
  MC_CHECK(c, j == Build(m), what, ": wrong value for ", Show(m));
}
MC_SECTION(from_values) {
  WithValue(c, [&](const auto& v, const M& m) {
    using T = std::remove_cvref_t<decltype(v)>;
    MC_CHECK(c, Json::GetKind(v) == KindOf(m), "kind of C++ value ", Show(m));
    { const Json j(v); Holds(c, j, m, "Json(const)"); }
    { T x = v; const Json j(x); Holds(c, j, m, "Json(lvalue)"); }
    { T x = v; const Json j(std::move(x)); Holds(c, j, m, "Json(rvalue)"); }
    for (const M& before : {M::Null(), M::Int(3), M::Str("z"), M::Arr({M::Int(1)}), M::Obj({{"a", M::Int(1)}})}) {
      { Json j = Build(before); j = v; Holds(c, j, m, "= const"); }
      { Json j = Build(before); T x = v; j = x; Holds(c, j, m, "= lvalue"); }
      { Json j = Build(before); T x = v; j = std::move(x); Holds(c, j, m, "= rvalue"); }
    }
    { Json j; T x = v; j.push_back(v); j.push_back(x); j.emplace_back(v); j.emplace_back(x); j.emplace_back(std::move(x)); for (int i = 0; i < 5; ++i) Holds(c, j[i], m, mc::Cat("array element ", i)); }
    { Json j; T x = v; j.emplace("a", v); j.emplace("b", x); j.emplace("c", std::move(x)); j["d"] = v; for (const char* k : {"a", "b", "c", "d"}) Holds(c, j[k], m, mc::Cat("property ", k)); Holds(c, Json(j["a"]), m, "copy"); const Json k = j; Holds(c, k["d"], m, "copied"); Json l; l = k; Holds(c, l["b"], m, "assigned"); }
    if constexpr (mbo::json::ConvertibleToJson<T>) { Json j; j.MakeArray(); j.resize(3, v); for (int i = 0; i < 3; ++i) Holds(c, j[i], m, mc::Cat("resized element ", i)); }
    c.state(Show(m));
  });
}
MC_SECTION(order_values) {
  static const std::vector<M> u = Universe();
  const M& a = c.pick(u);
  const Json j = Build(a);
  WithValue(c, [&](const auto& v, const M& m) {
    if constexpr (!std::same_as<std::remove_cvref_t<decltype(v)>, std::nullopt_t>) Compared(c, j, v, jref::Order(a, m), Show(a) + " vs C++ " + Show(m));
    else MC_CHECK(c, (j == v) == (a.k == M::kNull), Show(a), " == nullopt");
  });
}

#else  // ORDER
// ---- Serialization.
using Mode = Json::SerializeMode;
const std::vector<Mode> kModes = {Mode::kCompact, Mode::kLine, Mode::kPretty};
std::string Text(const Json& j, Mode m) { return j.Serialize(m); }
// The layout, for values whose text has one form only.
std::string Layout(const jref::P& p, Mode mode, const std::string& ind = "") {
  const bool pretty = mode == Mode::kPretty;
  const std::string sep = mode == Mode::kLine ? ", " : ",", kv = mode == Mode::kCompact ? ":" : ": ";
  std::string r;
  switch (p.k) {
    case M::kNull: return "null";
    case M::kBool: return p.b ? "true" : "false";
    case M::kNum: return p.s;
    case M::kStr: return '"' + p.s + '"';
    case M::kArr:
      r = "[";
      for (size_t i = 0; i < p.a.size(); ++i) r += (i ? sep : "") + (pretty ? "\n" + ind + "  " : "") + Layout(p.a[i], mode, ind + "  ");
      return r + (pretty ? "\n" + ind : "") + "]";
    case M::kObj:
      r = "{";
      for (size_t i = 0; i < p.o.size(); ++i) r += (i ? sep : "") + (pretty ? "\n" + ind + "  " : "") + '"' + p.o[i].first + '"' + kv + Layout(p.o[i].second, mode, ind + "  ");
      return r + (pretty ? "\n" + ind : "") + "}";
  }
  return r;
}
void Written(mc::Ctx& c, const M& m, bool layout) {
  const Json j = Build(m);
  for (Mode mode : kModes) {
    c.step();
    std::ostringstream os;
    j.Stream(os, mode);
    const std::string text = j.Serialize(mode);
    MC_CHECK(c, os.str() == text, "Stream and Serialize differ for ", Show(m));
    std::ostringstream formatted;
    formatted << std::hex << std::showbase << std::showpos << std::boolalpha << std::fixed << std::setprecision(1) << std::setfill('*');
    j.Stream(formatted, mode);
    MC_CHECK(c, formatted.str() == text, "Stream to a stream with format flags differs: ", mc::Quote(formatted.str()));
    mbo::types::StringifyRootOptions ro;
    ro.root_prefix = "<p>";
    ro.root_suffix = "<s>";
    MC_CHECK(c, j.Serialize(mode, ro) == "<p>" + text + "<s>", "with root options: ", mc::Quote(j.Serialize(mode, ro)), " for ", mc::Quote(text));
    jref::Parser p(text);
    const auto v = p.All();
    MC_CHECK(c, v.has_value(), "not JSON at ", p.At(), ": ", mc::Quote(text), " for ", Show(m));
    MC_CHECK(c, jref::Denotes(*v, m.k == M::kNull ? M::Obj() : m, mode == Mode::kPretty), "denotes another value: ", mc::Quote(text), " for ", Show(m));
    MC_CHECK(c, !text.empty() && text.back() == '\n' && (mode == Mode::kPretty || text.find('\n') == text.size() - 1), "not one line: ", mc::Quote(text));
    if (layout && m.k == M::kObj) MC_CHECK(c, text == Layout(*v, mode) + "\n", "laid out as ", mc::Quote(text), " want ", mc::Quote(Layout(*v, mode)));
  }
  c.state(j.Serialize(Mode::kLine));
  c.sample(j.Serialize(Mode::kCompact));
}
M Grow(mc::Ctx& c, int depth) {
  static const std::vector<M> leaf = {M::Null(), M::Bool(true), M::Int(-7), M::Uint(7), M::Dbl(1.5), M::Str("s"), M::Str("")};
  const int k = c.choose(depth ? 9 : 7);
  if (k < 7) return leaf[k];
  const int n = c.choose(depth > 1 ? mc::Tier(3, 3) : 3);
  M m = k == 7 ? M::Arr() : M::Obj();
  static const char* keys[] = {"b", "a", "longer"};
  for (int i = 0; i < n; ++i) { M e = Grow(c, i ? depth - 1 - (depth > 1) : depth - 1); if (k == 7) m.a.push_back(e); else m.o.emplace(keys[i], e); }
  return m;
}
MC_SECTION_D(trees, 4) {
  const int n = c.choose(4);
  M m = M::Obj();
  static const char* keys[] = {"y", "x", "z"};
  for (int i = 0; i < n; ++i) m.o.emplace(keys[i], Grow(c, i ? mc::Tier(0, 1) : mc::Tier(2, 2)));
  Written(c, m, true);
}
MC_SECTION(root) { Written(c, M::Null(), false); Written(c, M::Obj(), true); Json moved; Json j(std::move(moved)); MC_CHECK(c, moved.Serialize() == "{}\n" && Json().Serialize() == "{}\n", "Null as root"); }
// Every byte string of length 0 to 2 as value and as key, and longer ones of significant bytes.
MC_SECTION(text) {
  std::string s;
  const int n = c.choose(3);
  for (int i = 0; i < n; ++i) s += char(c.choose(256));
  Written(c, M::Obj({{"v", M::Str(s)}, {s, M::Int(1)}, {"a", M::Arr({M::Str("x" + s + "y")})}}), false);
}
MC_SECTION(longer_text) {
  static const std::vector<std::string> parts = {"a", "\"", "\\", "\n", std::string(1, '\0'), "\x1f", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "/", "u0041", "'", "\t", "\r", "\b", "\f"};
  std::string s;
  const int n = mc::Tier(3, 4);
  for (int i = 0; i < n; ++i) s += c.pick(parts);
  Written(c, M::Obj({{s, M::Str(s)}}), false);
}
// Numbers: all 16 bit integers, all powers of two and ten and their neighbours, and double bit patterns.
MC_SECTION(small_integers) { const int v = c.choose(65536); Written(c, M::Obj({{"i", M::Int(v - 32768)}, {"u", M::Uint(v)}, {"h", M::Dbl(v / 16.0 - 1000)}}), false); }
MC_SECTION(integers) {
  unsigned __int128 base = 1;
  if (c.flip()) base <<= c.choose(64); else for (int e = c.choose(20); e > 0; --e) base *= 10;
  const uint64_t v = static_cast<uint64_t>(base) + static_cast<uint64_t>(int64_t(c.choose(5)) - 2);
  Written(c, M::Obj({{"u", M::Uint(v)}, {"i", M::Int(static_cast<int64_t>(v))}, {"n", M::Int(static_cast<int64_t>(0 - v))}}), false);
}
MC_SECTION(doubles) {
  const int e = c.choose(2048);
  static const std::vector<uint64_t> mant = {0, 1, 2, 0x8000000000000ULL, 0xfffffffffffffULL, 0xffffffffffffeULL, 0x5555555555555ULL, 0x999999999999aULL, 0x3333333333333ULL, 0x1ULL << 29, (0x1ULL << 29) - 1, 0x123456789abcdULL};
  const uint64_t bits = (uint64_t(c.choose(2)) << 63) | (uint64_t(e) << 52) | c.pick(mant);
  double d;
  memcpy(&d, &bits, sizeof d);
  if (std::isnan(d)) { d = std::numeric_limits<double>::quiet_NaN(); }
  Written(c, M::Obj({{"d", M::Dbl(d)}}), false);
}
MC_SECTION(decimals) {
  const int digits = c.choose(mc::Tier(10000, 100000)), e = c.choose(41) - 20;
  const double d = std::strtod(mc::Cat(digits, "e", e).c_str(), nullptr);
  Written(c, M::Obj({{"d", M::Dbl(d)}, {"n", M::Dbl(-d)}}), false);
}
#endif  // ORDER
}  // namespace
