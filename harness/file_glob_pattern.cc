// Glob expressions against a backtracking matcher that follows the documented syntax.
#include "harness/glob_ref.h"
#include "lib/mc.h"
#include "mbo/file/glob.h"

namespace {
struct Text {
  std::string s;
  std::vector<Cp> cp;
};
std::vector<Text> Texts(const std::vector<std::string>& alphabet, int len, const std::vector<std::string>& more) {
  std::vector<Text> r{{"", {}}};
  size_t from = 0;
  for (int l = 0; l < len; ++l) {
    const size_t to = r.size();
    for (; from < to; ++from) for (auto& a : alphabet) r.push_back({r[from].s + a, {}});
  }
  for (auto& m : more) r.push_back({m, {}});
  for (auto& t : r) t.cp = Decode(t.s);
  return r;
}

void Check(mc::Ctx& c, const std::string& pat, bool star_star, bool ranges, const std::vector<Text>& texts) {
  mbo::file::Glob2Re2Options opt;
  opt.allow_star_star = star_star;
  opt.allow_ranges = ranges;
  const std::string what = mc::Cat(mc::Quote(pat), star_star ? "" : " (no **)", ranges ? "" : " (no ranges)");
  const Parsed ref = Parse(pat, star_star, ranges);
  const auto got = mbo::file::file_internal::Glob2Re2(pat, opt);
  const auto split = mbo::file::GlobSplit(pat, opt);
  c.step();
  if (ref.state == Parsed::kUnspecified) return;
  if (ref.state == Parsed::kError || ref.state == Parsed::kBadSet) {
    MC_CHECK(c, !got.ok(), "glob ", what, " is accepted though it is not a valid expression");
    if (ref.state == Parsed::kError) MC_CHECK(c, !split.ok(), "split of ", what, " is accepted though it is not a valid expression");
    c.state("error");
    return;
  }
  MC_CHECK(c, got.ok(), "glob ", what, " is rejected: ", std::string(got.status().message()));
  if (!StartsDouble(ref.toks)) {
    uint64_t hash = 1469598103934665603ULL;
    for (auto& t : texts) {
      const auto want = RefMatch(ref.toks, t.cp);
      const bool is = RE2::FullMatch(t.s, **got);
      hash = (hash ^ is) * 1099511628211ULL;
      if (want) MC_CHECK(c, is == *want, "glob ", what, " (", (*got)->pattern(), ") ", is ? "matches " : "does not match ", mc::Quote(t.s));
    }
    c.state(hash);
  }
  if (!ranges) return;  // It is not said whether a bracket that is no range can be part of the root.
  // The root is all that can be had literally.
  MC_CHECK(c, split.ok(), "split of ", what, " fails: ", std::string(split.status().message()));
  size_t first = 0;
  while (first < ref.toks.size() && !ref.toks[first].wild()) ++first;
  size_t cut = ref.toks.size();
  if (first < ref.toks.size()) {
    cut = 0;
    bool slash = false;
    for (size_t i = 0; i < first; ++i) if (IsSlash(ref.toks[i])) cut = i, slash = true;
    if (!slash) cut = 0;
  }
  std::string root;
  for (size_t i = 0; i < cut; ++i) {
    const Cp x = ref.toks[i].ch;
    if (x < 128) root += static_cast<char>(x);
    else root += static_cast<char>(0xC0 | x >> 6), root += static_cast<char>(0x80 | (x & 63));
  }
  std::vector<Tok> rest(ref.toks.begin() + cut, ref.toks.end());
  if (!rest.empty() && IsSlash(rest[0])) {
    rest.erase(rest.begin());
    if (root.empty()) root = "/";
  }
  MC_CHECK(c, split->root == root, "split of ", what, " has the root ", mc::Quote(split->root), ", expected ", mc::Quote(root));
  MC_CHECK(c, split->pattern.empty() == rest.empty(), "split of ", what, " has the pattern ", mc::Quote(split->pattern));
  if (rest.empty() || StartsDouble(rest)) return;
  const auto sub = mbo::file::file_internal::Glob2Re2(split->pattern, opt);
  MC_CHECK(c, sub.ok(), "the pattern of the split of ", what, " is rejected: ", split->pattern);
  for (auto& t : texts) {
    const auto want = RefMatch(rest, t.cp);
    if (!want) continue;
    const bool is = RE2::FullMatch(t.s, **sub);
    MC_CHECK(c, is == *want, "split of ", what, ": ", mc::Quote(split->pattern), is ? " matches " : " does not match ", mc::Quote(t.s));
  }
}
}  // namespace

// Every character sequence.
MC_SECTION_D(characters, 3) {
  static const std::string kChars = "a*?/[]!-\\";
  static const auto texts = Texts({"a", "/", "b"}, 3, {"*", "?", "[", "]", "!", "-", "\\", "a]", "[a]", "-]", "!]", "a/a/a", "ab/a", "a*", "[/a", "a\n/b", "]a", "\\a", "[a", "[]"});
  std::string p;
  const int n = mc::Tier(5, 6);
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(static_cast<int>(kChars.size()) + 1);
    if (k == 0) break;
    p += kChars[k - 1];
  }
  c.sample(mc::Cat("glob ", mc::Quote(p)));
  Check(c, p, true, true, texts);
  if (p.find("**") != std::string::npos) Check(c, p, false, true, texts);
  if (p.find('[') != std::string::npos) Check(c, p, true, false, texts);
}

// Sequences of larger parts against longer texts.
MC_SECTION_D(parts, 2) {
  static const std::vector<std::string> kParts = {"a",     "*",    "?",      "/",     "**",      "/**",   "**/",  "/**/",       ".",     "\\*",      "\\d",   "^",   "$",
                                                  "[ab]",  "[!a]", "[a-c]",  "[]]",   "[!]b]",   "[^a]",  "[a-]", "[[:digit:]]", "[![:alpha:]_]", "\\[",  "{a,b}", "(a|b)", "+",
                                                  "\xC3\xA9", "[\\]a]", "[\\d]", "[/]", "\\/", "[!^a]"};
  static const auto texts = Texts({"a", "/", "b", "."}, 4, {"*", "\n", "^", "$", "]", "1", "d", "-", "_", "+", "\xC3\xA9", "a\xC3\xA9", "\xC3\xA9/a", "{a,b}", "(a|b)", "[", "a[", "a]", "a/b/a/b", "a/b/.b/a", ".a/b/a", "aaaaa", "a.b.a", "a/1", "1/1", "^a", "a$", "$a", "a^", "a\n", "\na", "a\n/a", "{a,b}a", "a+", "+a", "d/d"});
  std::string p;
  const int n = mc::Tier(3, 4);
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(static_cast<int>(kParts.size()) + 1);
    if (k == 0) break;
    p += kParts[k - 1];
  }
  c.sample(mc::Cat("glob ", mc::Quote(p)));
  Check(c, p, true, true, texts);
}

// What a range accepts, over all characters.
MC_SECTION_D(ranges, 2) {
  static const std::string kChars = "!^]-a\\dm[";
  static const auto texts = [] {
    std::vector<Text> r;
    for (int x = 1; x < 128; ++x) if (x != '/') r.push_back({std::string(1, static_cast<char>(x)), {static_cast<Cp>(x)}});
    r.push_back({"\xC3\xA9", {0xE9}});
    return r;
  }();
  std::string p = "[";
  const int n = mc::Tier(5, 6);
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(static_cast<int>(kChars.size()) + 2);
    if (k == 0) break;
    if (k == 1) p += "[:xdigit:]";
    else p += kChars[k - 2];
  }
  p += "]";
  Check(c, p, true, true, texts);
}

MC_SECTION(classes) {
  static const std::vector<std::string> kNames = {"alpha", "digit", "alnum", "upper", "lower", "punct", "space", "xdigit", "", "bogus", "a1", "alpha:", "Alpha", "digit "};
  static const auto texts = [] {
    std::vector<Text> r;
    for (int x = 1; x < 128; ++x) if (x != '/') r.push_back({std::string(1, static_cast<char>(x)), {static_cast<Cp>(x)}});
    return r;
  }();
  const auto name = c.pick(kNames), name2 = c.pick(kNames);
  const auto neg = c.pick(std::vector<std::string>{"", "!"});
  const auto tail = c.pick(std::vector<std::string>{"]", "x]", "", "]*", "-]"});
  std::string p = "[" + neg + "[:" + name + ":]";
  if (c.flip()) p += "[:" + name2 + ":]";
  Check(c, p + tail, true, true, texts);
}
