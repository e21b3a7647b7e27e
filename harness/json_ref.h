// A plain model of JSON values: building, ordering, rendering and an independent strict parser (RFC 8259).
#ifndef VERIF_HARNESS_JSON_REF_H_
#define VERIF_HARNESS_JSON_REF_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace jref {

struct M {
  enum K { kNull, kArr, kBool, kNum, kObj, kStr } k = kNull;
  enum N { kInt, kUint, kDbl } n = kInt;
  bool b = false;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  std::string s;
  std::vector<M> a;
  std::map<std::string, M> o;

  static M Null() { return {}; }
  static M Bool(bool v) { M m; m.k = kBool; m.b = v; return m; }
  static M Int(int64_t v) { M m; m.k = kNum; m.n = kInt; m.i = v; return m; }
  static M Uint(uint64_t v) { M m; m.k = kNum; m.n = kUint; m.u = v; return m; }
  static M Dbl(double v) { M m; m.k = kNum; m.n = kDbl; m.d = v; return m; }
  static M Str(std::string v) { M m; m.k = kStr; m.s = std::move(v); return m; }
  static M Arr(std::vector<M> v = {}) { M m; m.k = kArr; m.a = std::move(v); return m; }
  static M Obj(std::map<std::string, M> v = {}) { M m; m.k = kObj; m.o = std::move(v); return m; }

  // Exact: long double has a 64 bit mantissa here.
  long double Value() const { return n == kInt ? static_cast<long double>(i) : n == kUint ? static_cast<long double>(u) : static_cast<long double>(d); }
};
static_assert(__LDBL_MANT_DIG__ >= 64);

inline int Sign(long double a, long double b) { return a < b ? -1 : a > b ? 1 : 0; }
inline int Order(const M& a, const M& b) {
  if (a.k != b.k) return a.k < b.k ? -1 : 1;
  switch (a.k) {
    case M::kNull: return 0;
    case M::kBool: return int(a.b) - int(b.b);
    case M::kNum: return Sign(a.Value(), b.Value());
    case M::kStr: { const int r = a.s.compare(b.s); return r < 0 ? -1 : r > 0; }
    case M::kArr:
      for (size_t x = 0; x < a.a.size() && x < b.a.size(); ++x) if (const int r = Order(a.a[x], b.a[x])) return r;
      return a.a.size() < b.a.size() ? -1 : a.a.size() > b.a.size();
    case M::kObj: {
      auto x = a.o.begin(); auto y = b.o.begin();
      for (; x != a.o.end() && y != b.o.end(); ++x, ++y) {
        if (const int r = x->first.compare(y->first)) return r < 0 ? -1 : 1;
        if (const int r = Order(x->second, y->second)) return r;
      }
      return a.o.size() < b.o.size() ? -1 : a.o.size() > b.o.size();
    }
  }
  return 0;
}
// Identical including how a number is held.
inline bool Same(const M& a, const M& b) {
  if (a.k != b.k) return false;
  if (a.k == M::kNum) return a.n == b.n && (a.n == M::kDbl ? (std::isnan(a.d) && std::isnan(b.d)) || (a.d == b.d && std::signbit(a.d) == std::signbit(b.d)) : a.Value() == b.Value());
  if (a.k == M::kArr) { if (a.a.size() != b.a.size()) return false; for (size_t x = 0; x < a.a.size(); ++x) if (!Same(a.a[x], b.a[x])) return false; return true; }
  if (a.k == M::kObj) {
    if (a.o.size() != b.o.size()) return false;
    for (auto x = a.o.begin(), y = b.o.begin(); x != a.o.end(); ++x, ++y) if (x->first != y->first || !Same(x->second, y->second)) return false;
    return true;
  }
  return Order(a, b) == 0;
}
inline std::string Show(const M& m) {
  switch (m.k) {
    case M::kNull: return "null";
    case M::kBool: return m.b ? "true" : "false";
    case M::kNum: { char b[64]; if (m.n == M::kInt) snprintf(b, sizeof b, "%lld", (long long)m.i); else if (m.n == M::kUint) snprintf(b, sizeof b, "%lluu", (unsigned long long)m.u); else snprintf(b, sizeof b, "%.17gd", m.d); return b; }
    case M::kStr: { std::string r = "\""; char b[8]; for (unsigned char ch : m.s) { if (ch < 32 || ch > 126 || ch == '"') { snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += char(ch); } return r + "\""; }
    case M::kArr: { std::string r = "["; for (const M& e : m.a) r += (r.size() > 1 ? "," : "") + Show(e); return r + "]"; }
    case M::kObj: { std::string r = "{"; for (const auto& [k, e] : m.o) r += (r.size() > 1 ? "," : "") + Show(M::Str(k)) + ":" + Show(e); return r + "}"; }
  }
  return "?";
}

// Strict parser. Numbers are kept as text in `s` (kind kNum); object members in the order found.
struct Member;
struct P {
  M::K k = M::kNull;
  bool b = false;
  std::string s;  // String value, or a number's text.
  std::vector<P> a;
  std::vector<Member> o;
};
struct Member {
  std::string first;
  P second;
};
class Parser {
 public:
  explicit Parser(std::string_view t) : t_(t) {}
  std::optional<P> All() { P p; Ws(); if (!Val(p, 0)) return std::nullopt; Ws(); if (i_ != t_.size()) return std::nullopt; return p; }
  size_t At() const { return i_; }
 private:
  void Ws() { while (i_ < t_.size() && (t_[i_] == ' ' || t_[i_] == '\n' || t_[i_] == '\t' || t_[i_] == '\r')) ++i_; }
  bool Eat(char c) { if (i_ < t_.size() && t_[i_] == c) { ++i_; return true; } return false; }
  bool Lit(std::string_view l) { if (t_.substr(i_, l.size()) != l) return false; i_ += l.size(); return true; }
  bool Digits() { const size_t s = i_; while (i_ < t_.size() && t_[i_] >= '0' && t_[i_] <= '9') ++i_; return i_ > s; }
  bool Str(std::string& out) {
    if (!Eat('"')) return false;
    while (i_ < t_.size()) {
      const unsigned char c = t_[i_++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') { out += char(c); continue; }
      if (i_ >= t_.size()) return false;
      switch (t_[i_++]) {
        case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break;
        case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': {
          unsigned v = 0;
          for (int x = 0; x < 4; ++x) {
            if (i_ >= t_.size()) return false;
            const char h = t_[i_++];
            v = v * 16 + (h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : 999999);
            if (v >= 65536) return false;
          }
          if (v < 0x80) out += char(v);
          else if (v < 0x800) { out += char(0xC0 | (v >> 6)); out += char(0x80 | (v & 63)); }
          else { out += char(0xE0 | (v >> 12)); out += char(0x80 | ((v >> 6) & 63)); out += char(0x80 | (v & 63)); }
          break;
        }
        default: return false;
      }
    }
    return false;
  }
  bool Val(P& p, int depth) {
    if (depth > 200 || i_ >= t_.size()) return false;
    const char c = t_[i_];
    if (c == 'n') { p.k = M::kNull; return Lit("null"); }
    if (c == 't') { p.k = M::kBool; p.b = true; return Lit("true"); }
    if (c == 'f') { p.k = M::kBool; p.b = false; return Lit("false"); }
    if (c == '"') { p.k = M::kStr; return Str(p.s); }
    if (c == '[') {
      p.k = M::kArr; ++i_; Ws();
      if (Eat(']')) return true;
      for (;;) { p.a.emplace_back(); Ws(); if (!Val(p.a.back(), depth + 1)) return false; Ws(); if (Eat(']')) return true; if (!Eat(',')) return false; }
    }
    if (c == '{') {
      p.k = M::kObj; ++i_; Ws();
      if (Eat('}')) return true;
      for (;;) { p.o.emplace_back(); Ws(); if (!Str(p.o.back().first)) return false; Ws(); if (!Eat(':')) return false; Ws(); if (!Val(p.o.back().second, depth + 1)) return false; Ws(); if (Eat('}')) return true; if (!Eat(',')) return false; }
    }
    const size_t s = i_;
    p.k = M::kNum;
    Eat('-');
    if (Eat('0')) {} else if (!Digits()) return false;
    if (Eat('.') && !Digits()) return false;
    if (Eat('e') || Eat('E')) { if (!Eat('+')) Eat('-'); if (!Digits()) return false; }
    p.s = std::string(t_.substr(s, i_ - s));
    return p.s != "-" && !p.s.empty();
  }
  std::string_view t_;
  size_t i_ = 0;
};
// Does the parsed text denote the model's value?
inline bool Denotes(const P& p, const M& m, bool ordered) {
  if (m.k == M::kNum && m.n == M::kDbl && !std::isfinite(m.d)) return p.k == M::kNull;
  if (p.k != m.k) return false;
  switch (m.k) {
    case M::kNull: return true;
    case M::kBool: return p.b == m.b;
    case M::kStr: return p.s == m.s;
    case M::kNum:
      if (m.n == M::kDbl) return strtod(p.s.c_str(), nullptr) == m.d;
      return p.s == (m.n == M::kInt ? std::to_string(m.i) : std::to_string(m.u));
    case M::kArr:
      if (p.a.size() != m.a.size()) return false;
      for (size_t x = 0; x < p.a.size(); ++x) if (!Denotes(p.a[x], m.a[x], ordered)) return false;
      return true;
    case M::kObj: {
      if (p.o.size() != m.o.size()) return false;
      std::map<std::string, int> seen;
      for (size_t x = 0; x < p.o.size(); ++x) {
        if (seen[p.o[x].first]++) return false;
        if (ordered && x && !(p.o[x - 1].first < p.o[x].first)) return false;
        auto it = m.o.find(p.o[x].first);
        if (it == m.o.end() || !Denotes(p.o[x].second, it->second, ordered)) return false;
      }
      return true;
    }
  }
  return false;
}
}  // namespace jref
#endif
