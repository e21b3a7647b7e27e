// The options that make lines equal or leave chunks out.
#include "harness/diff_ref.h"

namespace {
using dr::Opt;
const std::vector<Opt::Algorithm> kAlgs = {Opt::Algorithm::kMyers, Opt::Algorithm::kNaive, Opt::Algorithm::kDirect};

bool Blank(char ch) { return ch == ' ' || ch == '\t' || ch == '\r' || ch == '\v' || ch == '\f'; }
std::string TrimRight(std::string s) {
  while (!s.empty() && Blank(s.back())) s.pop_back();
  return s;
}

struct Config {
  bool all_space = false, consecutive = false, trailing = false, icase = false, final_nl = false, blank_lines = false;
  int comments = 0;     // 1: "#" as it is, 2: "#" parsed.
  std::string lhs_re, lhs_to, rhs_re, rhs_to;
  std::string match;
  bool chunks = true;
  bool skip_left = false;
  std::string Text() const {
    std::string r;
    if (all_space) r += " ignore_all_space";
    if (consecutive) r += " ignore_consecutive_space";
    if (trailing) r += " ignore_trailing_space";
    if (icase) r += " ignore_case";
    if (final_nl) r += " ignore_missing_final_newline";
    if (blank_lines) r += " ignore_blank_lines";
    if (comments) r += mc::Cat(" strip_comments:", comments);
    if (!lhs_re.empty()) r += mc::Cat(" lhs:", lhs_re, "->", lhs_to);
    if (!rhs_re.empty()) r += mc::Cat(" rhs:", rhs_re, "->", rhs_to);
    if (!match.empty()) r += mc::Cat(" ignore_matching_lines:", match, chunks ? "" : " (lines only)");
    if (skip_left) r += " skip_left_deletions";
    return r;
  }
  void Apply(Opt& o) const {
    o.ignore_all_space = all_space;
    o.ignore_consecutive_space = consecutive;
    o.ignore_trailing_space = trailing;
    o.ignore_case = icase;
    o.ignore_missing_final_newline = final_nl;
    o.ignore_blank_lines = blank_lines;
    if (comments == 1) o.strip_comments = mbo::strings::StripCommentArgs{.comment_start = "#"};
    if (comments == 2) o.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_str = "#", .remove_quotes = false}};
    if (!lhs_re.empty()) o.regex_replace_lhs = Opt::ParseRegexReplaceFlag("/" + lhs_re + "/" + lhs_to + "/");
    if (!rhs_re.empty()) o.regex_replace_rhs = Opt::ParseRegexReplaceFlag("/" + rhs_re + "/" + rhs_to + "/");
    if (!match.empty()) o.ignore_matching_lines.emplace(match);
    o.ignore_matching_chunks = chunks;
    o.skip_left_deletions = skip_left;
  }
  std::string Line(std::string s, bool left) const {
    if (all_space) {
      std::string t;
      for (char ch : s) if (!Blank(ch)) t += ch;
      s = t;
    } else if (consecutive) {
      std::string t;
      for (char ch : s) if (!Blank(ch) || (!t.empty() && !Blank(t.back()))) t += ch;
      s = TrimRight(t);
    } else if (trailing) {
      s = TrimRight(s);
    }
    if (comments) {
      size_t at = std::string::npos;
      char quote = 0;
      for (size_t i = 0; i < s.size() && at == std::string::npos; ++i) {
        if (comments == 2 && quote) quote = s[i] == quote ? 0 : quote;
        else if (comments == 2 && (s[i] == '"' || s[i] == '\'')) quote = s[i];
        else if (s[i] == '#') at = i;
      }
      if (at != std::string::npos) s = s.substr(0, at);
      if (at != std::string::npos || comments == 2) s = TrimRight(s);
    }
    const auto& re = left ? lhs_re : rhs_re;
    if (!re.empty()) {
      const size_t at = s.find(re);  // Only plain text is used.
      if (at != std::string::npos) s.replace(at, re.size(), left ? lhs_to : rhs_to);
    }
    return s;
  }
  bool Matches(const std::string& s) const {
    if (match.empty()) return false;
    if (match[0] == '^') return s.starts_with(match.substr(1));
    if (match.back() == '$') return s.ends_with(match.substr(0, match.size() - 1));
    return s.find(match) != std::string::npos;
  }
  bool Equal(const dr::Line& a, const dr::Line& b) const {
    std::string x = Line(a.text, true), y = Line(b.text, false);
    if (Matches(x) && Matches(y)) return true;
    if (icase) for (auto* s : {&x, &y}) for (char& ch : *s) ch = static_cast<char>(std::tolower(ch));
    return x == y && (final_nl || a.nl == b.nl);
  }
};

std::string ChooseText(mc::Ctx& c, int max, const std::vector<std::string>& lines, bool nl) {
  std::string t;
  for (int i = 0; i < max; ++i) {
    const int k = c.choose(static_cast<int>(lines.size()) + 1);
    if (k == 0) break;
    t += lines[k - 1] + "\n";
  }
  if (nl && !t.empty() && c.flip()) t.pop_back();
  return t;
}

void Check(mc::Ctx& c, const Config& k, const std::string& lhs, const std::string& rhs) {
  auto l = dr::Split(lhs), r = dr::Split(rhs);
  if (k.final_nl) for (auto* v : {&l, &r}) if (!v->empty()) v->back().nl = true;
  for (auto alg : kAlgs) {
    const std::string what = mc::Cat(dr::Name(alg), " ", mc::Quote(lhs), " ", mc::Quote(rhs), k.Text());
    // First without what leaves chunks out: Get the script.
    Config lines = k;
    lines.blank_lines = false;
    lines.skip_left = false;
    lines.chunks = false;
    Opt o;
    o.algorithm = alg;
    lines.Apply(o);
    const auto s = dr::FullScript(c, lhs, rhs, o, what);
    c.step();
    c.state(dr::Text(s));
    const auto eq = [&](size_t i, size_t j) { return k.Equal(l[i], r[j]); };
    bool same = l.size() == r.size();
    if (lhs == rhs) {  // Identical texts have no difference whatever the options.
      MC_CHECK(c, s.empty(), what, ": a difference is reported: ", dr::Text(s));
      continue;
    }
    for (size_t i = 0; same && i < l.size(); ++i) same = eq(i, i);
    if (s.empty()) {
      MC_CHECK(c, same, what, ": no difference is reported");
      continue;
    }
    MC_CHECK(c, !same, what, ": a difference is reported: ", dr::Text(s));
    size_t i = 0, j = 0, kept = 0;
    for (auto& e : s) {
      if (e.kind != '+') MC_CHECK(c, i < l.size() && e.line == l[i], what, ": the diff is not about the left text: ", dr::Text(s));
      if (e.kind == '+') MC_CHECK(c, j < r.size() && e.line == r[j], what, ": the diff does not give the right text: ", dr::Text(s));
      if (e.kind == ' ') MC_CHECK(c, j < r.size() && eq(i, j), what, ": ", mc::Quote(l[i].text), " is taken as equal at ", i, " and ", j);
      i += e.kind != '+', j += e.kind != '-', kept += e.kind == ' ';
    }
    MC_CHECK(c, i == l.size() && j == r.size(), what, ": the diff is not complete: ", dr::Text(s));
    if (alg == Opt::Algorithm::kMyers) {
      const size_t best = dr::Lcs(l.size(), r.size(), eq);
      MC_CHECK(c, kept == best, what, ": keeps ", kept, " of ", best, " lines: ", dr::Text(s));
    }
    if (alg == Opt::Algorithm::kDirect) {
      for (size_t x = 0, p = 0, q = 0; x < s.size(); ++x) {
        if (s[x].kind == ' ') MC_CHECK(c, p == q, what, ": direct compares other lines: ", dr::Text(s));
        if (s[x].kind == '-' && p < r.size()) MC_CHECK(c, p == q && !eq(p, q), what, ": direct reports equal lines: ", dr::Text(s));
        p += s[x].kind != '+', q += s[x].kind != '-';
      }
    }
    // Then what is left of the chunks.
    if (k.skip_left) {
      Opt p;
      p.algorithm = alg;
      k.Apply(p);
      p.file_header_use = Opt::FileHeaderUse::kNone;
      p.show_chunk_headers = false;
      p.context_size = 0;
      const auto out = mbo::diff::Diff::FileDiff({.data = lhs, .name = "l"}, {.data = rhs, .name = "r"}, p);
      std::string want;
      for (auto& e : s) if (e.kind == '+') want += "+" + dr::Show(e.line);
      MC_CHECK(c, out.ok() && *out == want, what, ": is\n", *out, "expected\n", want);
      continue;
    }
    if (!k.blank_lines && (k.match.empty() || !k.chunks)) continue;
    for (size_t ctx : {0, 1, 3}) {
      Opt p;
      p.algorithm = alg;
      k.Apply(p);
      p.context_size = ctx;
      p.file_header_use = Opt::FileHeaderUse::kNone;
      const auto out = mbo::diff::Diff::FileDiff({.data = lhs, .name = "l"}, {.data = rhs, .name = "r"}, p);
      std::vector<dr::Hunk> want;
      for (auto& h : dr::Hunks(s, ctx)) {
        bool blank = true, match = true;
        for (auto& e : h.e) if (e.kind != ' ') blank &= e.line.text.empty() && e.line.nl, match &= k.Matches(e.line.text);
        if (k.blank_lines && blank) continue;
        if (!k.match.empty() && k.chunks && match) continue;
        want.push_back(h);
      }
      const std::string text = dr::Format(want, Opt::OutputFormat::kUnified, true, 0);
      MC_CHECK(c, out.ok() && *out == text, what, ", context ", ctx, ": is\n", *out, "expected\n", text);
      c.state(text);
    }
  }
}
}  // namespace

// Space and case: every combination of options with lines that differ in them.
MC_SECTION_D(spaces, 3) {
  static const std::vector<std::string> kLines = {"a b", "a  b", "ab", " a b", "A b", "a b ", "", " "};
  Config k;
  k.all_space = c.flip();
  k.consecutive = c.flip();
  k.trailing = c.flip();
  k.icase = c.flip();
  k.final_nl = c.flip();
  const std::string lhs = ChooseText(c, mc::Tier(2, 3), kLines, true), rhs = ChooseText(c, 2, kLines, true);
  c.sample(mc::Cat(mc::Quote(lhs), " ", mc::Quote(rhs), k.Text()));
  Check(c, k, lhs, rhs);
}

MC_SECTION_D(comments, 3) {
  static const std::vector<std::string> kLines = {"a # x", "a # y", "a", "a ", "#", "", "'#' a", "'#' a#c"};
  Config k;
  k.comments = c.choose(3);
  k.trailing = c.flip();
  k.icase = c.flip();
  if (c.flip()) k.match = "a";
  const std::string lhs = ChooseText(c, mc::Tier(2, 3), kLines, true), rhs = ChooseText(c, 2, kLines, true);
  Check(c, k, lhs, rhs);
}

MC_SECTION_D(replace, 3) {
  static const std::vector<std::string> kLines = {"foo", "bar", "foofoo", "barfoo", "Foo", ""};
  Config k;
  const int m = c.choose(4);
  if (m & 1) k.lhs_re = "foo", k.lhs_to = "bar";
  if (m & 2) k.rhs_re = "bar", k.rhs_to = "foo";
  if (c.flip() && m == 1) k.rhs_re = "foo", k.rhs_to = "bar";
  k.icase = c.flip();
  const std::string lhs = ChooseText(c, mc::Tier(2, 3), kLines, true), rhs = ChooseText(c, mc::Tier(2, 3), kLines, true);
  Check(c, k, lhs, rhs);
}

// Lines and chunks that match.
MC_SECTION_D(matching, 3) {
  static const std::vector<std::string> kLines = {"x1", "x2", "a", "", "1x"};
  Config k;
  k.match = c.pick(std::vector<std::string>{"x", "^x", "x$", "No newline", "1"});
  k.chunks = c.flip();
  k.final_nl = c.flip();
  const std::string lhs = ChooseText(c, 3, kLines, true), rhs = ChooseText(c, mc::Tier(2, 3), kLines, true);
  Check(c, k, lhs, rhs);
}

MC_SECTION_D(blank_lines, 3) {
  static const std::vector<std::string> kLines = {"a", "", "b"};
  Config k;
  k.blank_lines = true;
  if (c.flip()) k.match = "b", k.chunks = c.flip();
  const std::string lhs = ChooseText(c, mc::Tier(4, 5), kLines, true), rhs = ChooseText(c, 4, kLines, true);
  Check(c, k, lhs, rhs);
}

// Several chunks of which some are left out.
MC_SECTION_D(chunks, 3) {
  Config k;
  k.blank_lines = c.flip();
  if (c.flip()) k.match = "x";
  std::string lhs, rhs;
  int id = 0;
  const int blocks = mc::Tier(3, 4);
  for (int b = 0; b < blocks; ++b) {
    switch (c.choose(6)) {
      case 0: lhs += "\n"; break;
      case 1: rhs += "\n\n"; break;
      case 2: lhs += "x 1\n"; break;
      case 3: lhs += "x 1\n", rhs += "y 2\n"; break;
      case 4: rhs += "x 3\nx 4\n"; break;
      default: lhs += "old\n"; break;
    }
    for (int n = c.choose(b + 1 == blocks ? 2 : 8); n > 0; --n) {
      const std::string t = mc::Cat("line ", id++, "\n");
      lhs += t, rhs += t;
    }
  }
  Check(c, k, lhs, rhs);
}

MC_SECTION_D(skip_left, 3) {
  static const std::vector<std::string> kLines = {"a", "b", "c"};
  Config k;
  k.skip_left = true;
  k.icase = c.flip();
  const std::string lhs = ChooseText(c, 4, kLines, true), rhs = ChooseText(c, mc::Tier(3, 4), kLines, true);
  Check(c, k, lhs, rhs);
}
