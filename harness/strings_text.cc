// Text helpers: indentation, splitting, prefix/suffix and comment removal, numbers with separators.
#include "lib/mc.h"
#include <memory>
#include <set>
#include "absl/strings/str_split.h"
#include "mbo/strings/indent.h"
#include "mbo/strings/numbers.h"
#include "mbo/strings/parse.h"
#include "mbo/strings/split.h"
#include "mbo/strings/strip.h"

namespace {
template <typename F> void AllOver(std::string_view alphabet, int maxlen, std::string& buf, const F& f) {
  f(buf);
  if (maxlen == 0) return;
  for (char ch : alphabet) { buf.push_back(ch); AllOver(alphabet, maxlen - 1, buf, f); buf.pop_back(); }
}
std::vector<std::string> Lines(std::string_view s) {
  std::vector<std::string> r(1);
  for (char ch : s) if (ch == '\n') r.emplace_back(); else r.back() += ch;
  return r;
}
std::string Join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "\n" : "") + v[i]; return r; }
bool Blank(const std::string& s) { for (char ch : s) if (ch != ' ' && ch != '\t') return false; return true; }
std::string RTrim(std::string s) { while (!s.empty() && std::string_view("\t\n\v\f\r ").find(s.back()) != std::string_view::npos) s.pop_back(); return s; }

// By the documentation: the first line goes if it is empty, the next one gives the indent, a blank last line is cleared.
std::vector<std::string> Undent(std::string_view text) {
  std::vector<std::string> l = Lines(text);
  size_t first = 1;
  if (l.size() > 1 && l[0].empty()) { l.erase(l.begin()); first = 0; }
  if (l.size() <= first) return l;
  std::string ind;
  for (char ch : l[first]) { if (ch != ' ' && ch != '\t') break; ind += ch; }
  if (Blank(l.back())) l.back().clear();
  for (size_t i = first; i < l.size(); ++i) if (l[i].substr(0, ind.size()) == ind) l[i].erase(0, ind.size());
  return l;
}
}  // namespace

#if PART == 0
MC_SECTION(indent) {
  std::string buf;
  static constexpr std::string_view kAlpha = " \t\nx";
  buf += c.pick(kAlpha);
  if (c.flip()) buf += c.pick(kAlpha); else if (c.flip()) buf.clear();
  AllOver(kAlpha, mc::Tier(7, 9), buf, [&](const std::string& s) {
    const std::unique_ptr<char[]> p(new char[s.size()]);
    std::copy(s.begin(), s.end(), p.get());
    const std::string_view v(p.get(), s.size());
    const auto want = Undent(s);
    const auto got = mbo::strings::DropIndentAndSplit(v);
    MC_CHECK(c, std::vector<std::string>(got.begin(), got.end()) == want, "lines of ", mc::Quote(s), ": ", got.size());
    const std::string text = s == "\n" ? s : Join(want);
    MC_CHECK(c, mbo::strings::DropIndent(v) == text, "text of ", mc::Quote(s), ": ", mc::Quote(mbo::strings::DropIndent(v)), " want ", mc::Quote(text));
    c.step();
  });
  c.state(mc::Fnv(buf));
}
MC_SECTION(split) {
  std::string buf;
  const char sep = c.flip() ? '/' : '\0';
  static constexpr std::string_view kAlpha("a/b\0", 4);
  AllOver(kAlpha, mc::Tier(6, 8), buf, [&](const std::string& s) {
    const size_t last = s.rfind(sep);
    const std::vector<std::string> want = last == s.npos ? std::vector<std::string>{s} : std::vector<std::string>{s.substr(0, last), s.substr(last + 1)};
    const std::vector<std::string> got = absl::StrSplit(s, mbo::strings::AtLast(sep));
    MC_CHECK(c, got == want, "splitting ", mc::Quote(s), " at ", mc::Quote(std::string(1, sep)), " gives ", got.size(), " parts");
    std::vector<std::string> filled;
    for (const auto& w : want) if (!w.empty()) filled.push_back(w);
    const std::vector<std::string> got2 = absl::StrSplit(s, mbo::strings::AtLast(sep), absl::SkipEmpty());
    MC_CHECK(c, got2 == filled, "splitting ", mc::Quote(s), " without empty parts gives ", got2.size());
    const std::string_view v(s);
    for (size_t pos = 0; pos <= s.size(); ++pos) {
      const auto f = mbo::strings::AtLast(sep).Find(v, pos);
      const bool has = last != s.npos && last >= pos;
      MC_CHECK(c, has ? f.data() == v.data() + last && f.size() == 1 : f.data() == v.data() + v.size() && f.empty(), "separator in ", mc::Quote(s), " from ", pos);
    }
    c.step();
  });
  c.state(static_cast<unsigned char>(sep));
}
MC_SECTION(affixes) {
  std::string buf;
  static constexpr std::string_view kAlpha("ab\0", 3);
  std::vector<std::string> all;
  AllOver(kAlpha, mc::Tier(4, 5), buf, [&](const std::string& s) { all.push_back(s); });
  const std::string& t = all[c.choose(static_cast<int>(all.size()))];
  for (const std::string& a : all) {
    const bool pre = t.size() >= a.size() && t.substr(0, a.size()) == a, suf = t.size() >= a.size() && t.substr(t.size() - a.size()) == a;
    const std::string wp = pre ? t.substr(a.size()) : t, ws = suf ? t.substr(0, t.size() - a.size()) : t;
    std::string x = t, y = t;
    MC_CHECK(c, mbo::strings::ConsumePrefix(x, a) == pre && x == wp, "prefix ", mc::Quote(a), " of ", mc::Quote(t));
    MC_CHECK(c, mbo::strings::ConsumeSuffix(y, a) == suf && y == ws, "suffix ", mc::Quote(a), " of ", mc::Quote(t));
    MC_CHECK(c, mbo::strings::StripPrefix(std::string(t), a) == wp, "stripping prefix ", mc::Quote(a), " of ", mc::Quote(t));
    MC_CHECK(c, mbo::strings::StripSuffix(std::string(t), a) == ws, "stripping suffix ", mc::Quote(a), " of ", mc::Quote(t));
    c.step();
  }
  for (size_t k = 0; k <= t.size(); ++k) {  // the affix may be part of the text itself
    std::string x = t, y = t;
    (void)mbo::strings::ConsumePrefix(x, std::string_view(x).substr(0, k));
    (void)mbo::strings::ConsumeSuffix(y, std::string_view(y).substr(k));
    MC_CHECK(c, x == t.substr(k) && y == t.substr(0, k), "own part of ", mc::Quote(t));
  }
  c.state(mc::Fnv(t));
}
MC_SECTION(comments) {
  static constexpr std::string_view kStart[] = {"#", "##", "//", " #", "a#"};
  const std::string_view start = c.pick(kStart);
  const bool trim = c.flip();
  std::string buf;
  AllOver("a#/ \n\t", mc::Tier(6, 7), buf, [&](const std::string& s) {
    std::vector<std::string> l = Lines(s);
    for (std::string& x : l) {
      const size_t p = x.find(start);
      std::string want = p == x.npos ? x : x.substr(0, p);
      if (p != x.npos && trim) want = RTrim(want);
      MC_CHECK(c, mbo::strings::StripLineComments(x, {.comment_start = start, .strip_trailing_whitespace = trim}) == want, "line ", mc::Quote(x), " start ", mc::Quote(start));
      x = want;
    }
    const std::string got = mbo::strings::StripComments(s, {.comment_start = start, .strip_trailing_whitespace = trim});
    MC_CHECK(c, got == Join(l), "text ", mc::Quote(s), " start ", mc::Quote(start), " gives ", mc::Quote(got));
    c.step();
  });
  c.state(mc::Fnv(mc::Cat(start, trim)));
}
MC_SECTION(parsed_comments) {
  static const mbo::strings::ParseOptions kOpts[] = {{.stop_at_any_of = "#"}, {.stop_at_any_of = "#", .remove_quotes = false}, {.stop_at_str = "//"}, {.split_at_any_of = "/"},
                                                     {.stop_at_str = "//", .enable_single_quotes = false, .remove_quotes = false}};
  const auto& o = c.pick(kOpts);
  const bool trim = c.flip();
  std::string buf;
  AllOver("a#/ \n'\\", mc::Tier(5, 6), buf, [&](const std::string& s) {
    std::vector<std::string> l = Lines(s);
    bool ok = true;
    for (std::string& x : l) {
      // Quotes and escapes decide where the comment starts: reference scan.
      std::string want;
      char quote = 0;
      bool good = true;
      size_t i = 0;
      for (; i < x.size(); ++i) {
        if (!quote && (o.stop_at_any_of.find(x[i]) != std::string_view::npos || o.split_at_any_of.find(x[i]) != std::string_view::npos ||
                       (!o.stop_at_str.empty() && x.compare(i, o.stop_at_str.size(), o.stop_at_str) == 0))) break;
        if (x[i] == '\\') {
          if (++i == x.size() || std::string_view("a'\\").find(x[i]) == std::string_view::npos) { good = false; break; }
          want += x[i] == 'a' ? '\a' : x[i];
        } else if (x[i] == '\'' && o.enable_single_quotes) {
          quote = quote ? 0 : '\'';
          if (!o.remove_quotes) want += '\'';
        } else want += x[i];
      }
      if (quote) good = false;
      if (trim) want = RTrim(want);
      const auto got = mbo::strings::StripParsedLineComments(x, {.parse = o, .strip_trailing_whitespace = trim});
      MC_CHECK(c, got.ok() == good && (!good || *got == want), "line ", mc::Quote(x), " gives ", got.ok() ? mc::Quote(*got) : "an error", " want ", good ? mc::Quote(want) : "an error");
      ok &= good;
      x = want;
    }
    const auto got = mbo::strings::StripParsedComments(s, {.parse = o, .strip_trailing_whitespace = trim});
    MC_CHECK(c, got.ok() == ok && (!ok || *got == Join(l)), "text ", mc::Quote(s), " gives ", got.ok() ? mc::Quote(*got) : "an error");
    c.step();
  });
}

#else
namespace {
std::string Want(bool neg, unsigned long long mag) {
  std::string d = std::to_string(mag), r;
  for (size_t i = 0; i < d.size(); ++i) { if (i && (d.size() - i) % 3 == 0) r += '\''; r += d[i]; }
  return (neg ? "-" : "") + r;
}
template <typename T> void Number(mc::Ctx& c, T v) {
  const bool neg = v < T{0};
  const unsigned long long mag = neg ? 0ULL - static_cast<unsigned long long>(static_cast<long long>(v)) : static_cast<unsigned long long>(v);
  const std::string want = Want(neg, mag);
  MC_CHECK(c, mbo::strings::BigNumber(v) == want, "number ", want, " is shown as ", mbo::strings::BigNumber(v));
  MC_CHECK(c, mbo::strings::BigNumberLen(v) == want.size(), "length of ", want, " is given as ", mbo::strings::BigNumberLen(v));
  c.step();
}
template <typename T> void Numbers(mc::Ctx& c) {
  if constexpr (sizeof(T) <= 2) {
    for (long v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v) Number<T>(c, static_cast<T>(v));
  } else {
    auto around = [&](unsigned long long m) {
      for (long long d = -3; d <= 3; ++d) { const unsigned long long x = m + static_cast<unsigned long long>(d); Number<T>(c, static_cast<T>(x)); Number<T>(c, static_cast<T>(0ULL - x)); }
    };
    for (int b = 0; b < 64; ++b) around(1ULL << b), around((1ULL << b) | (1ULL << (b / 2)));
    unsigned long long p = 1;
    for (int k = 0; k < 20; ++k, p *= 10) for (int f = 1; f < 10; ++f) around(p * f), around(p * f + p / 7);
    around(0);
    around(~0ULL);
  }
  c.state(mc::Fnv(typeid(T).name()));
}
}  // namespace
MC_SECTION(numbers) {
  switch (c.choose(16)) {
    case 0: Numbers<int8_t>(c); break;
    case 1: Numbers<uint8_t>(c); break;
    case 2: Numbers<int16_t>(c); break;
    case 3: Numbers<uint16_t>(c); break;
    case 4: Numbers<int>(c); break;
    case 5: Numbers<unsigned>(c); break;
    case 6: Numbers<long>(c); break;
    case 7: Numbers<unsigned long>(c); break;
    case 8: Numbers<long long>(c); break;
    case 9: Numbers<unsigned long long>(c); break;
    case 10: Numbers<char>(c); break;
    case 11: Numbers<signed char>(c); break;
    case 12: Numbers<bool>(c); break;
    case 13: Numbers<wchar_t>(c); break;
    case 14: Numbers<char16_t>(c); break;
    case 15: Numbers<char32_t>(c); break;
  }
}
#endif
