// Every algorithm: the diff turns the left text into the right text and is shown alike in every format.
#include "harness/diff_ref.h"

namespace {
using dr::Opt;
const std::vector<Opt::Algorithm> kAlgs = {Opt::Algorithm::kMyers, Opt::Algorithm::kNaive, Opt::Algorithm::kDirect};

#ifdef VIEWS
void CheckScript(mc::Ctx&, Opt::Algorithm, const std::vector<dr::Line>&, const std::vector<dr::Line>&, const dr::Script&, bool, const std::string&) {}
#else
void CheckScript(mc::Ctx& c, Opt::Algorithm alg, const std::vector<dr::Line>& l, const std::vector<dr::Line>& r, const dr::Script& s, bool minimal, const std::string& what) {
  if (s.empty()) {
    MC_CHECK(c, l == r, what, ": no difference is reported");
    return;
  }
  MC_CHECK(c, l != r, what, ": a difference is reported for equal texts");
  std::vector<dr::Line> a, b;
  size_t edits = 0;
  for (auto& e : s) {
    if (e.kind != '+') a.push_back(e.line);
    if (e.kind != '-') b.push_back(e.line);
    edits += e.kind != ' ';
  }
  MC_CHECK(c, a == l, what, ": the diff is not about the left text: ", dr::Text(s));
  MC_CHECK(c, b == r, what, ": the diff does not give the right text: ", dr::Text(s));
  if (minimal) {
    const size_t best = l.size() + r.size() - 2 * dr::Lcs(l.size(), r.size(), [&](size_t i, size_t j) { return l[i] == r[j]; });
    MC_CHECK(c, edits == best, what, ": ", edits, " edits where ", best, " are enough: ", dr::Text(s));
  }
  if (alg == Opt::Algorithm::kDirect) {
    dr::Script want;
    for (size_t i = 0; i < std::max(l.size(), r.size()); ++i) {
      if (i < l.size() && i < r.size() && l[i] == r[i]) {
        want.push_back({' ', l[i]});
        continue;
      }
      if (i < l.size()) want.push_back({'-', l[i]});
      if (i < r.size()) want.push_back({'+', r[i]});
    }
    MC_CHECK(c, dr::Text(s) == dr::Text(want), what, ": direct is ", dr::Text(s), " expected ", dr::Text(want));
  }
}
#endif

std::string ChooseText(mc::Ctx& c, int max, const std::vector<std::string>& lines) {
  std::string t;
  for (int i = 0; i < max; ++i) {
    const int k = c.choose(static_cast<int>(lines.size()) + 1);
    if (k == 0) break;
    t += lines[k - 1] + "\n";
  }
  if (!t.empty() && c.flip()) t.pop_back();
  return t;
}

struct View {
  Opt::OutputFormat format;
  size_t ctx, width;
  bool headers;
};
void CheckViews(mc::Ctx& c, const std::string& lhs, const std::string& rhs, Opt& o, const dr::Script& s, const std::vector<View>& views, const std::string& what) {
#ifndef VIEWS
  c.state(dr::Text(s));
  return;
#endif
  for (auto& v : views) {
    o.output_format = v.format;
    o.context_size = v.ctx;
    o.side_by_side_width = v.width;
    o.show_chunk_headers = v.headers;
    o.file_header_use = Opt::FileHeaderUse::kNone;
    const auto out = mbo::diff::Diff::FileDiff({.data = lhs, .name = "l"}, {.data = rhs, .name = "r"}, o);
    MC_CHECK(c, out.ok(), what, ": fails");
    const std::string want = dr::Format(dr::Hunks(s, v.ctx), v.format, v.headers, v.width);
    c.step();
    MC_CHECK(c, *out == want, what, ", format ", static_cast<int>(v.format), ", context ", v.ctx, ", width ", v.width, ": is\n", *out, "expected\n", want);
    c.state(*out);
  }
}
}  // namespace

// All pairs of short texts.
MC_SECTION_D(pairs, 3) {
  static const std::vector<std::string> kLines = {"a", "b", ""};
  static const std::vector<View> kViews = [] {
    std::vector<View> v;
    for (size_t ctx : {size_t{0}, size_t{1}, size_t{2}, size_t{3}}) v.push_back({Opt::OutputFormat::kUnified, ctx, 130, true});
    for (size_t ctx : {size_t{0}, size_t{1}, size_t{1} << 63}) v.push_back({Opt::OutputFormat::kContext, ctx, 130, true});
    for (size_t ctx : {size_t{0}, size_t{3}}) v.push_back({Opt::OutputFormat::kNormal, ctx, 130, true});
    v.push_back({Opt::OutputFormat::kSideBySide, 1000, 9, true});
    v.push_back({Opt::OutputFormat::kUnified, 1, 130, false});
    return v;
  }();
#ifdef VIEWS
  const int n = mc::Tier(4, 5);
#else
  const int n = mc::Tier(5, 6);
#endif
  const std::string lhs = ChooseText(c, n, kLines), rhs = ChooseText(c, n, kLines);
  const auto l = dr::Split(lhs), r = dr::Split(rhs);
  for (auto alg : kAlgs) {
    Opt o;
    o.algorithm = alg;
    const std::string what = mc::Cat(dr::Name(alg), " ", mc::Quote(lhs), " ", mc::Quote(rhs));
    c.sample(what);
    const auto s = dr::FullScript(c, lhs, rhs, o, what);
    c.step();
    CheckScript(c, alg, l, r, s, alg == Opt::Algorithm::kMyers, what);
    CheckViews(c, lhs, rhs, o, s, kViews, what);
  }
}

// Long common runs around a few changes: which context belongs to which chunk.
MC_SECTION_D(chunks, 3) {
  const int blocks = 1 + c.choose(mc::Tier(3, 4));
  std::string lhs, rhs;
  int id = 0;
  const auto common = [&](int k) { while (k-- > 0) { const std::string t = mc::Cat("line ", id++, "\n"); lhs += t, rhs += t; } };
  common(c.choose(mc::Tier(5, 6)));
  for (int b = 0; b < blocks; ++b) {
    switch (c.choose(4)) {
      case 0: lhs += "old\n"; break;
      case 1: rhs += "new\n"; break;
      case 2: lhs += "old\n", rhs += "new\n"; break;
      default: lhs += "old\nolder\n", rhs += "new\n"; break;
    }
    common(b + 1 == blocks ? c.choose(mc::Tier(5, 6)) : 1 + c.choose(mc::Tier(6, 8)));
  }
  static const std::vector<View> kViews = [] {
    std::vector<View> v;
    for (auto f : {Opt::OutputFormat::kUnified, Opt::OutputFormat::kContext}) for (size_t ctx : {0, 1, 2, 3}) v.push_back({f, ctx, 130, true});
    for (size_t ctx : {0, 2}) v.push_back({Opt::OutputFormat::kNormal, ctx, 130, true});
    for (size_t ctx : {0, 1, 2}) v.push_back({Opt::OutputFormat::kSideBySide, ctx, 24, true});
    return v;
  }();
  for (auto alg : kAlgs) {
    Opt o;
    o.algorithm = alg;
    const std::string what = mc::Cat(dr::Name(alg), " ", mc::Quote(lhs), " ", mc::Quote(rhs));
    const auto s = dr::FullScript(c, lhs, rhs, o, what);
    c.step();
    CheckScript(c, alg, dr::Split(lhs), dr::Split(rhs), s, alg == Opt::Algorithm::kMyers, what);
    CheckViews(c, lhs, rhs, o, s, kViews, what);
  }
}

// Lines that look like the diff itself, long lines, and column widths.
MC_SECTION_D(rendering, 2) {
  static const std::vector<std::string> kLines = {"a", "-a", "--- x", "@@ -1 +1 @@", "  ", "a long line with text", "%s%n", std::string("n\0l", 3), "\ttab \r", "\\ No", "12345"};
  const size_t width = c.pick(std::vector<size_t>{0, 3, 4, 5, 6, 9, 10, 13, 14, 130});
  const std::string lhs = ChooseText(c, 2, kLines), rhs = ChooseText(c, mc::Tier(1, 2), kLines);
  std::vector<View> views = {{Opt::OutputFormat::kSideBySide, 1000, width, true}, {Opt::OutputFormat::kSideBySide, 0, width, false}};
  if (width == 0) for (auto f : {Opt::OutputFormat::kUnified, Opt::OutputFormat::kContext, Opt::OutputFormat::kNormal}) for (int h = 0; h < 2; ++h) views.push_back({f, 3, 130, h == 0});
  for (auto alg : kAlgs) {
    Opt o;
    o.algorithm = alg;
    const std::string what = mc::Cat(dr::Name(alg), " ", mc::Quote(lhs), " ", mc::Quote(rhs));
    const auto s = dr::FullScript(c, lhs, rhs, o, what);
    c.step();
    CheckScript(c, alg, dr::Split(lhs), dr::Split(rhs), s, alg == Opt::Algorithm::kMyers, what);
    CheckViews(c, lhs, rhs, o, s, views, what);
  }
}

// Long texts of every period and stride, beyond the work that the algorithm spends on a minimal result.
MC_SECTION_D(large, 2) {
  const int lp = 1 + c.choose(mc::Tier(9, 16)), rp = 1 + c.choose(mc::Tier(9, 16));
  const int size = c.pick(mc::Thorough() ? std::vector<int>{97, 150, 260, 401} : std::vector<int>{97, 150, 260});
  const int cut = c.choose(3);  // Common lines around.
  const int mod = c.pick(std::vector<int>{3, 17, 1000});
  std::string lhs, rhs;
  for (int i = 0; i < 3 * cut; ++i) lhs += mc::Cat("h", i, "\n"), rhs += mc::Cat("h", i, "\n");
  for (int i = 0; i < size; ++i) lhs += mc::Cat((i * lp + i / 7) % mod, "\n");
  for (int i = 0; i < size - 10 * cut; ++i) rhs += mc::Cat((i * rp + (i * i) / 11 + 1) % mod, "\n");
  for (int i = 0; i < 2 * cut; ++i) lhs += mc::Cat("t", i, "\n"), rhs += mc::Cat("t", i, "\n");
  const auto l = dr::Split(lhs), r = dr::Split(rhs);
  for (int minimal = 0; minimal < 2; ++minimal) {
    Opt o;
    o.minimal = minimal;
    const std::string what = mc::Cat("myers, left stride ", lp, ", right stride ", rp, ", size ", size, ", cut ", cut, ", mod ", mod, minimal ? ", minimal" : "");
    c.sample(what);
    const auto s = dr::FullScript(c, lhs, rhs, o, what);
    c.step();
    CheckScript(c, Opt::Algorithm::kMyers, l, r, s, minimal, what);
    c.state(dr::Text(s));
    if (!minimal) CheckViews(c, lhs, rhs, o, s, {{Opt::OutputFormat::kUnified, 3, 130, true}, {Opt::OutputFormat::kContext, 1, 130, true}, {Opt::OutputFormat::kNormal, 0, 130, true}}, what);
  }
}

// A few edits within long texts: always minimal, as the work is small.
MC_SECTION_D(sparse, 3) {
  const int n = 120;
  std::vector<std::string> base;
  for (int i = 0; i < n; ++i) base.push_back(mc::Cat(c.depth() >= 0 ? i % 13 : 0));
  std::vector<std::string> a = base, b = base;
  const int edits = 1 + c.choose(mc::Tier(2, 3));
  for (int e = 0; e < edits; ++e) {
    const size_t at = 10 * static_cast<size_t>(c.choose(12)) + 3 * e;
    switch (c.choose(5)) {
      case 0: a.insert(a.begin() + std::min(at, a.size()), "x"); break;
      case 1: b.insert(b.begin() + std::min(at, b.size()), "y"); break;
      case 2: if (at < b.size()) b[at] = "z"; break;
      case 3: if (at + 5 < b.size()) b.erase(b.begin() + at, b.begin() + at + 5); break;
      default: if (at + 13 < a.size()) std::rotate(a.begin() + at, a.begin() + at + 4, a.begin() + at + 13); break;
    }
  }
  std::string lhs, rhs;
  for (auto& x : a) lhs += x + "\n";
  for (auto& x : b) rhs += x + "\n";
  const auto l = dr::Split(lhs), r = dr::Split(rhs);
  for (auto alg : {Opt::Algorithm::kMyers, Opt::Algorithm::kNaive}) {
    Opt o;
    o.algorithm = alg;
    const std::string what = mc::Cat(dr::Name(alg), " ", mc::Quote(lhs), " ", mc::Quote(rhs));
    const auto s = dr::FullScript(c, lhs, rhs, o, what);
    c.step();
    CheckScript(c, alg, l, r, s, alg == Opt::Algorithm::kMyers, what);
    CheckViews(c, lhs, rhs, o, s, {{Opt::OutputFormat::kUnified, 3, 130, true}, {Opt::OutputFormat::kNormal, 0, 130, true}}, what);
  }
}
