// Path normalization and joining against a reference that only looks at characters.
#include "lib/mc.h"
#include "mbo/file/file.h"

namespace {
namespace fs = std::filesystem;
std::string RefNormal(std::string_view p) {
  while (p.size() > 1 && (p.back() == '/' || p.back() == '\\')) p.remove_suffix(1);
  if (p.empty()) return "";
  const bool abs = p[0] == '/';
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < p.size()) {
    size_t e = p.find('/', i);
    if (e == std::string_view::npos) e = p.size();
    const std::string part(p.substr(i, e - i));
    i = e + 1;
    if (part.empty() || part == ".") continue;
    if (part == ".." && !parts.empty() && parts.back() != "..") {
      parts.pop_back();
    } else if (part == ".." && parts.empty() && abs) {
    } else {
      parts.push_back(part);
    }
  }
  std::string r = abs ? "/" : "";
  for (size_t k = 0; k < parts.size(); ++k) r += (k ? "/" : "") + parts[k];
  return r.empty() ? "." : r;
}
std::string RefJoin(const std::vector<std::string>& c, bool respect) {
  std::string r;
  for (auto& s : c) {
    if (s.empty()) continue;
    if (respect && s[0] == '/') r.clear();
    r += (r.empty() ? "" : "/") + s;
  }
  return RefNormal(r);
}
}  // namespace

MC_SECTION(normalize) {
  static const std::string_view kChars = "/.a\\b";
  std::string p;
  const int n = mc::Tier(8, 9);
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(static_cast<int>(kChars.size()) + 1);
    if (k == 0) break;
    p += kChars[k - 1];
  }
  c.step();
  const std::string got = mbo::file::NormalizePath(p).native(), want = RefNormal(p);
  c.state(got);
  c.sample(mc::Cat("normalize ", mc::Quote(p), " = ", mc::Quote(got)));
  MC_CHECK(c, got == want, "NormalizePath(", mc::Quote(p), ") is ", mc::Quote(got), ", expected ", mc::Quote(want));
  // A trailing backslash is dropped (once), so that a result which ends in one can change again.
  if (!got.ends_with('\\')) MC_CHECK(c, mbo::file::NormalizePath(got).native() == got, "NormalizePath(", mc::Quote(got), ") changes a normalized path");
  MC_CHECK(c, mbo::file::IsAbsolutePath(p) == p.starts_with('/'), "IsAbsolutePath(", mc::Quote(p), ")");
}

MC_SECTION(join) {
  static const std::vector<std::string> kParts = {"", "a", "/", "/b", "b/", "a/b", "./c", "..", "c/..", "//d", ".", "/e/", "x/../.."};
  const int n = 1 + c.choose(mc::Tier(4, 5));
  std::vector<std::string> v;
  bool climbs = false, seen = false, inner_absolute = false;
  for (int i = 0; i < n; ++i) {
    v.push_back(c.pick(kParts));
    if (seen && v.back().starts_with('/')) inner_absolute = true;
    if (!v.back().empty()) seen = true;
    if (inner_absolute && v.back().find("..") != std::string::npos) climbs = true;
  }
  c.step();
  using mbo::file::JoinPaths;
  using mbo::file::JoinPathsRespectAbsolute;
  fs::path j, r;
  switch (n) {
    case 1: j = JoinPaths(v[0]), r = JoinPathsRespectAbsolute(v[0]); break;
    case 2: j = JoinPaths(v[0], v[1]), r = JoinPathsRespectAbsolute(v[0], v[1]); break;
    case 3: j = JoinPaths(v[0], v[1], v[2]), r = JoinPathsRespectAbsolute(v[0], v[1], v[2]); break;
    case 4: j = JoinPaths(v[0], v[1], v[2], v[3]), r = JoinPathsRespectAbsolute(v[0], v[1], v[2], v[3]); break;
    default: j = JoinPaths(v[0], v[1], v[2], v[3], v[4]), r = JoinPathsRespectAbsolute(v[0], v[1], v[2], v[3], v[4]); break;
  }
  std::string what;
  for (auto& s : v) what += mc::Quote(s) + " ";
  c.state(mc::Cat(j.native(), "|", r.native()));
  // Going up from a part that starts at the root is not defined when that part is taken as relative.
  if (!climbs) MC_CHECK(c, j.native() == RefJoin(v, false), "JoinPaths(", what, ") is ", j.native(), ", expected ", RefJoin(v, false));
  MC_CHECK(c, r.native() == RefJoin(v, true), "JoinPathsRespectAbsolute(", what, ") is ", r.native(), ", expected ", RefJoin(v, true));
}
