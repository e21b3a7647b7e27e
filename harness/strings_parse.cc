// Parsing of quoted and escaped text: every short input under every combination of options, against a reference parser.
#include "lib/mc.h"
#include <memory>
#include <optional>
#include "mbo/strings/parse.h"

namespace {
using mbo::strings::ParseOptions;
struct Ref { bool ok = true; bool vague = false; std::string out; size_t rest = 0; };
bool In(std::string_view set, char ch) { return set.find(ch) != set.npos; }
int Hex(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }

// One escape; `i` is behind the backslash. False if it is malformed or unsupported.
bool Escape(const ParseOptions& o, std::string_view d, size_t& i, std::string& out, bool& vague) {
  if (i >= d.size()) return false;
  const char ch = d[i++];
  if (In(o.custom_escapes, ch)) { out += ch; return true; }
  static constexpr std::string_view kFrom = "'\"?\\abfnrtv", kTo = "'\"?\\\a\b\f\n\r\t\v";
  if (const size_t p = kFrom.find(ch); p != kFrom.npos) { out += kTo[p]; return true; }
  const bool octal = (ch >= '0' && ch <= '7') || ch == 'o';
  if (!octal && ch != 'x') return false;
  bool brace = false;
  if (ch == 'o') { if (i >= d.size() || d[i] != '{') return false; brace = true; ++i; }
  if (ch == 'x' && i < d.size() && d[i] == '{') { brace = true; ++i; }
  if (octal && !brace) --i;
  int v = 0, n = 0;
  const int maxn = octal ? 3 : 2, base = octal ? 8 : 16;
  while (n < maxn && i < d.size() && Hex(d[i]) >= 0 && Hex(d[i]) < base) v = v * base + Hex(d[i++]), ++n;
  if (n == 0) return false;
  if (brace) { if (i >= d.size() || d[i] != '}') return false; ++i; }
  if (v > 255) vague = true;  // more than fits: not specified
  out += static_cast<char>(v);
  return true;
}
Ref Parse(const ParseOptions& o, std::string_view d) {
  Ref r;
  char quote = 0;
  size_t i = 0;
  while (i < d.size()) {
    const char ch = d[i];
    const bool enabled = (ch == '"' && o.enable_double_quotes) || (ch == '\'' && o.enable_single_quotes);
    if (!quote) {
      if (In(o.stop_at_any_of, ch) || In(o.split_at_any_of, ch)) break;
      if (!o.stop_at_str.empty() && d.substr(i, o.stop_at_str.size()) == o.stop_at_str) break;
      if (!o.allow_unquoted && !enabled) break;
    }
    ++i;
    if (ch == '\\') {
      if (!Escape(o, d, i, r.out, r.vague)) { r.ok = false; return r; }
    } else if (quote ? ch == quote : enabled) {
      quote = quote ? 0 : ch;
      if (!o.remove_quotes) r.out += ch;
    } else {
      r.out += ch;
    }
  }
  if (quote) { r.ok = false; return r; }
  r.rest = i;
  return r;
}
struct RefList { bool ok = true, vague = false; std::vector<std::string> out; size_t rest = 0; };
RefList ParseList(ParseOptions o, std::string_view d) {
  RefList r;
  if (o.split_at_any_of.empty()) o.split_at_any_of = ",";
  auto stops = [&](size_t i) { return In(o.stop_at_any_of, d[i]) || (!o.stop_at_str.empty() && d.substr(i, o.stop_at_str.size()) == o.stop_at_str); };
  if (d.empty() || stops(0)) return r;
  size_t i = 0;
  while (true) {
    Ref s = Parse(o, d.substr(i));
    r.vague |= s.vague;
    if (!s.ok) { r.ok = false; return r; }
    r.out.push_back(s.out);
    i += s.rest;
    if (i == d.size() || stops(i) || !In(o.split_at_any_of, d[i])) break;
    ++i;  // a separator always has an element behind it, maybe an empty one
    if (i == d.size()) { r.out.emplace_back(); break; }
  }
  r.rest = i;
  return r;
}

struct Exact {  // input in a buffer of exactly its size
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
  std::string_view view() const { return {p.get(), n}; }
};
std::string Show(const ParseOptions& o, std::string_view d) {
  return mc::Cat("input ", mc::Quote(d), " stop=", mc::Quote(o.stop_at_any_of), " stopstr=", mc::Quote(o.stop_at_str), " split=", mc::Quote(o.split_at_any_of), " quotes=", o.enable_double_quotes,
                 o.enable_single_quotes, " remove=", o.remove_quotes, " unquoted=", o.allow_unquoted, " custom=", mc::Quote(o.custom_escapes));
}
void One(mc::Ctx& c, const ParseOptions& o, std::string_view text) {
  const Exact e(text);
  {
    std::string_view d = e.view();
    const Ref want = Parse(o, text);
    const auto got = mbo::strings::ParseString(o, d);
    if (!want.vague) {
      MC_CHECK(c, got.ok() == want.ok, "parsing ", got.ok() ? "succeeds" : "fails", ": ", Show(o, text));
      if (got.ok()) {
        MC_CHECK(c, *got == want.out, "got ", mc::Quote(*got), " want ", mc::Quote(want.out), ": ", Show(o, text));
        MC_CHECK(c, d.size() == text.size() - want.rest && d.data() == e.p.get() + want.rest, "leaves ", mc::Quote(d), " want ", mc::Quote(text.substr(want.rest)), ": ", Show(o, text));
      }
    }
  }
  {
    std::string_view d = e.view();
    const RefList want = ParseList(o, text);
    const auto got = mbo::strings::ParseStringList(o, d);
    if (!want.vague) {
      MC_CHECK(c, got.ok() == want.ok, "parsing a list ", got.ok() ? "succeeds" : "fails", ": ", Show(o, text));
      if (got.ok()) {
        MC_CHECK(c, *got == want.out, "got ", got->size(), " elements want ", want.out.size(), ": ", Show(o, text));
        MC_CHECK(c, d == text.substr(want.rest), "the list leaves ", mc::Quote(d), " want ", mc::Quote(text.substr(want.rest)), ": ", Show(o, text));
      }
    }
  }
  c.step();
}
ParseOptions Options(mc::Ctx& c) {
  static constexpr std::string_view kStop[] = {"", ".", ".'"}, kStr[] = {"", ",.", "aa"}, kSplit[] = {"", ",", ".a"}, kCustom[] = {"(){}[]<>,;&", "an\0"};
  const int b = c.choose(16);
  return {.stop_at_any_of = c.pick(kStop), .stop_at_str = c.pick(kStr), .split_at_any_of = c.pick(kSplit), .enable_double_quotes = (b & 1) == 0, .enable_single_quotes = (b & 2) == 0,
          .remove_quotes = (b & 4) == 0, .allow_unquoted = (b & 8) == 0, .custom_escapes = c.pick(kCustom)};
}
template <typename F> void AllOver(std::string_view alphabet, int maxlen, std::string& buf, const F& f) {
  f(buf);
  if (maxlen == 0) return;
  for (char ch : alphabet) { buf.push_back(ch); AllOver(alphabet, maxlen - 1, buf, f); buf.pop_back(); }
}
}  // namespace

MC_SECTION_D(options, 5) {
  const ParseOptions o = Options(c);
  std::string buf;
  uint64_t n = 0;
  AllOver("a'\"\\,.n", mc::Tier(4, 6), buf, [&](const std::string& s) { One(c, o, s); if (++n % 4096 == 0) c.heartbeat(); });
  c.state(mc::Fnv(Show(o, "")));
}
MC_SECTION(escapes) {
  static constexpr std::string_view kAlpha = "0178xo{}aFgn";
  const char first = c.pick(kAlpha);
  const bool quoted = c.flip();
  std::string buf;
  AllOver(kAlpha, mc::Tier(4, 5), buf, [&](const std::string& s) {
    std::string t = std::string("\\") + first + s;
    if (quoted) t = "'" + t + "'";
    One(c, {.split_at_any_of = ","}, t);
  });
  c.state(mc::Fnv(mc::Cat(first, quoted)));
}
MC_SECTION(bytes) {
  const int b = c.choose(256);
  for (const char* custom : {"", "(){}[]<>,;&", "abc"})
    for (int pre = 0; pre < 4; ++pre)
      for (int b2 = 0; b2 < 256; ++b2) {
        static constexpr std::string_view kPre[] = {"", "\\", "'\\", "\\x"};
        std::string t = std::string(kPre[pre]) + static_cast<char>(b) + static_cast<char>(b2);
        if (pre == 2) t += "'";
        One(c, {.stop_at_any_of = "]", .split_at_any_of = ",", .custom_escapes = custom}, t);
      }
  c.state(b);
}
MC_SECTION(zero_bytes) {
  using namespace std::string_view_literals;
  std::string buf;
  const int k = c.choose(3);
  AllOver("a\0,\\0"sv, mc::Tier(5, 6), buf, [&](const std::string& s) {
    if (k == 0) One(c, {.stop_at_any_of = "\0"sv}, s);
    if (k == 1) One(c, {.stop_at_str = "\0a"sv, .split_at_any_of = "\0"sv}, s);
    if (k == 2) One(c, {.split_at_any_of = ",", .custom_escapes = "\0"sv}, s);
  });
  c.state(k);
}
