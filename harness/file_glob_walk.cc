// Walks over all small directory trees against a model of the tree.
#include "harness/glob_ref.h"
#include "harness/glob_tree.h"
#include "lib/mc.h"
#include "mbo/file/glob.h"

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>

namespace {
// Decides the n-th directory operation: 0 is the real thing, otherwise the errno.
std::function<int(char)> g_dir;
}  // namespace
extern "C" {
struct dirent* readdir(DIR* d) {
  static auto real = reinterpret_cast<struct dirent* (*)(DIR*)>(dlsym(RTLD_NEXT, "readdir"));
  if (g_dir) {
    if (const int e = g_dir('r'); e) {
      errno = e;
      return nullptr;
    }
  }
  return real(d);
}
DIR* fdopendir(int fd) {
  static auto real = reinterpret_cast<DIR* (*)(int)>(dlsym(RTLD_NEXT, "fdopendir"));
  if (g_dir) {
    if (const int e = g_dir('o'); e) {
      errno = e;
      return nullptr;
    }
  }
  return real(fd);
}
DIR* opendir(const char* p) {
  static auto real = reinterpret_cast<DIR* (*)(const char*)>(dlsym(RTLD_NEXT, "opendir"));
  if (g_dir) {
    if (const int e = g_dir('o'); e) {
      errno = e;
      return nullptr;
    }
  }
  return real(p);
}
}

namespace {
using mbo::file::GlobEntry;
using mbo::file::GlobEntryAction;
using mbo::file::GlobOptions;

struct Seen {
  std::vector<gt::Item> items;  // What the callback got, relative to the tree's root.
  std::string bad;
};

// Calls Glob with a callback that acts at the `at`-th entry. Act: 0 continue, 1 do not recurse, 2 stop, 3 error.
absl::Status Run(const std::string& root, std::string_view pattern, const GlobOptions& o, size_t at, int act, const std::string& tree, Seen& seen, bool re2 = false) {
  const auto func = [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
    const gt::fs::path p = e.entry.path();
    const gt::fs::path abs = p.is_absolute() ? p : gt::fs::current_path() / p;
    const std::string rel = abs.lexically_normal().lexically_relative(tree).native();
    if (e.rel_path.has_value() != o.use_rel_path) seen.bad = mc::Cat("rel_path is ", e.rel_path.has_value() ? "" : "not ", "set for ", rel);
    if (o.use_rel_path && e.rel_path->native() != rel) seen.bad = mc::Cat("the relative path is ", e.rel_path->native(), " for ", rel);
    if (e.MaybeRelativePath() != (o.use_rel_path ? *e.rel_path : p)) seen.bad = mc::Cat("MaybeRelativePath is ", e.MaybeRelativePath().native());
    if (o.use_current_dir && !p.is_absolute()) seen.bad = mc::Cat("the path ", p.native(), " is not below the current directory");
    if (!o.use_current_dir && !root.starts_with('/') && gt::fs::path(root).lexically_normal().native() != "." && !root.empty() && p.is_absolute()) {
      seen.bad = mc::Cat("the path ", p.native(), " does not start with the root ", root);
    }
    std::error_code ec;
    const auto st = gt::fs::symlink_status(abs, ec);
    const char kind = gt::fs::is_symlink(st) ? 'l' : gt::fs::is_directory(st) ? 'd' : gt::fs::is_regular_file(st) ? 'f' : '?';
    size_t size = 0;
    if (gt::fs::is_regular_file(abs, ec)) size = gt::fs::file_size(abs, ec);
    if (e.FileSize() != size) seen.bad = mc::Cat("the size of ", rel, " is ", e.FileSize());
    seen.items.push_back({rel, e.depth, kind});
    if (seen.items.size() - 1 != at) return GlobEntryAction::kContinue;
    switch (act) {
      case 1: return GlobEntryAction::kDoNotRecurse;
      case 2: return GlobEntryAction::kStop;
      case 3: return absl::DataLossError("stopped here");
      default: return GlobEntryAction::kContinue;
    }
  };
  if (re2) return mbo::file::GlobRe2(root, RE2(pattern), o, func);
  return mbo::file::Glob(root, pattern, {}, o, func);
}

std::string Text(std::vector<gt::Item> v) {
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.rel < b.rel; });
  std::string r;
  for (auto& i : v) {
    const char k = i.kind == 'f' || i.kind == 'd' ? i.kind : 'l';
    r += mc::Cat(i.rel, "@", i.depth, k, " ");
  }
  return r;
}

struct TreeDir {
  std::string path;
  explicit TreeDir(const std::vector<gt::Node>& t) : path(gt::Scratch() + "/t") {
    gt::Build(path, t);
    gt::fs::current_path(gt::Scratch());
  }
  ~TreeDir() {
    gt::fs::current_path(gt::Scratch());
    gt::fs::remove_all(path);
  }
};
}  // namespace

MC_SECTION_D(spellings, 3) {
  const auto tree = gt::Choose(c);
  TreeDir dir(tree);
  const std::string abs = dir.path;
  c.sample(gt::Show(tree));
  struct Root {
    std::string root;
    std::string cwd;
  };
  const std::vector<Root> roots = {{"t", ".."}, {"./t", ".."}, {"t/", ".."}, {"t//.", ".."}, {"t/../t", ".."}, {"", "."}, {".", "."}, {"./", "."}, {"../t", "."}, {abs, "/"}, {abs + "/", ".."}, {abs + "/../t/.", ".."}, {"gone/../t", ".."}, {"../t/", "../ext"}};
  for (auto& r : roots) {
    gt::fs::current_path(abs);
    gt::fs::current_path(r.cwd == ".." ? gt::Scratch() : r.cwd == "../ext" ? gt::Scratch() + "/ext" : r.cwd == "/" ? "/" : abs);
    for (int bits = 0; bits < 16; ++bits) {
      GlobOptions o;
      o.use_rel_path = bits & 1;
      o.recursive = bits & 2;
      o.use_current_dir = bits & 4;
      const bool follow = bits & 8;
      if (follow) {
        if (gt::HasLoop(tree)) continue;
        o.dir_options |= gt::fs::directory_options::follow_directory_symlink;
      }
      std::vector<gt::Item> want;
      gt::Walk(tree, "", 0, o.recursive, follow, want);
      Seen seen;
      const auto st = Run(r.root, "", o, 99, 0, abs, seen);
      c.step();
      const std::string what = mc::Cat("tree ", gt::Show(tree), ", root ", mc::Quote(r.root), ", options ", bits);
      MC_CHECK(c, st.ok(), what, ": fails: ", std::string(st.message()));
      MC_CHECK(c, seen.bad.empty(), what, ": ", seen.bad);
      MC_CHECK(c, Text(seen.items) == Text(want), what, ": visits ", Text(seen.items), " expected ", Text(want));
      c.state(Text(seen.items));
      // Directories come before what is in them.
      for (size_t i = 0; i < seen.items.size(); ++i) {
        const auto parent = gt::fs::path(seen.items[i].rel).parent_path().native();
        bool found = parent.empty();
        for (size_t k = 0; k < i; ++k) found |= seen.items[k].rel == parent;
        MC_CHECK(c, found, what, ": ", seen.items[i].rel, " comes before its directory");
      }
    }
  }
}

MC_SECTION_D(patterns, 3) {
  const auto tree = gt::Choose(c);
  TreeDir dir(tree);
  static const std::vector<std::string> kPatterns = {"", "*", "**", "*.x", "**/*.x", "a.x/*", "a.x/**", ".*", "**/.*", "?", "*/c", "a.x", "[!.]*", "**/c/**", ".b/**/e.x", "a b\\*", "*/", "nothing"};
  for (auto& p : kPatterns) {
    const Parsed ref = Parse(p, true, true);
    for (int bits = 0; bits < 4; ++bits) {
      GlobOptions o;
      o.use_rel_path = bits & 1;
      o.recursive = bits & 2;
      std::vector<gt::Item> all, want;
      gt::Walk(tree, "", 0, o.recursive, false, all);
      bool decided = true;
      for (auto& i : all) {
        if (p.empty()) {
          want.push_back(i);
          continue;
        }
        const auto m = RefMatch(ref.toks, Decode(i.rel));
        if (!m) decided = false;
        else if (*m) want.push_back(i);
      }
      if (!decided) continue;
      for (const std::string& root : {std::string("t"), dir.path, std::string("./t/")}) {
        Seen seen;
        const auto st = Run(root, p, o, 99, 0, dir.path, seen);
        c.step();
        const std::string what = mc::Cat("tree ", gt::Show(tree), ", root ", root, ", pattern ", mc::Quote(p), ", options ", bits);
        MC_CHECK(c, st.ok(), what, ": fails: ", std::string(st.message()));
        MC_CHECK(c, seen.bad.empty(), what, ": ", seen.bad);
        MC_CHECK(c, Text(seen.items) == Text(want), what, ": finds ", Text(seen.items), " expected ", Text(want));
        c.state(Text(seen.items));
      }
    }
  }
  // Split at the literal directory: the same entries as for the whole pattern, but below that directory.
  for (auto& p : {"t/*", "t/a.x/*", "./t/**", "t/**/*.x", "t//.b/*", "t"}) {
    Seen seen;
    const auto split = mbo::file::GlobSplit(std::string_view(p));
    MC_CHECK(c, split.ok(), "split of ", p);
    GlobOptions o;
    std::vector<std::string> got, want;
    const auto st = mbo::file::Glob(split, {}, o, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
      got.push_back(e.entry.path().lexically_relative(dir.path).native());
      return GlobEntryAction::kContinue;
    });
    const Parsed ref = Parse(std::string_view(p).substr(p[0] == '.' ? 2 : 0), true, true);
    std::vector<gt::Item> all;
    gt::Walk(tree, "", 0, true, false, all);
    const bool whole = std::string_view(p) == "t";
    for (auto& i : all) if (whole || *RefMatch(ref.toks, Decode("t/" + i.rel))) want.push_back(i.rel);
    if (st.ok()) {
      std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
      // A link is walked if it is the root itself.
      bool link = false;
      for (auto& n : tree) link |= n.kind == 'L' || n.kind == 'o';
      if (!link) MC_CHECK(c, got == want, "tree ", gt::Show(tree), ", split pattern ", p, " finds ", got.size(), " entries, expected ", want.size());
    } else {
      MC_CHECK(c, want.empty(), "tree ", gt::Show(tree), ", split pattern ", p, " fails: ", std::string(st.message()));
    }
  }
}

MC_SECTION_D(actions, 3) {
  const auto tree = gt::Choose(c);
  TreeDir dir(tree);
  std::vector<gt::Item> all;
  gt::Walk(tree, "", 0, true, false, all);
  for (size_t at = 0; at < all.size(); ++at) {
    for (int act = 1; act <= 3; ++act) {
      for (int re2 = 0; re2 < 2; ++re2) {
        GlobOptions o;
        o.use_rel_path = re2;
        Seen seen;
        const auto st = Run("t", re2 ? ".*" : "", o, at, act, dir.path, seen, re2);
        c.step();
        const std::string what = mc::Cat("tree ", gt::Show(tree), ", action ", act, " at entry ", at);
        MC_CHECK(c, seen.bad.empty(), what, ": ", seen.bad);
        if (act == 3) MC_CHECK(c, st.code() == absl::StatusCode::kDataLoss && st.message() == "stopped here", what, ": status ", std::string(st.message()));
        else MC_CHECK(c, st.ok(), what, ": fails: ", std::string(st.message()));
        c.state(Text(seen.items));
        if (act == 1) {
          const std::string under = seen.items.at(at).rel + "/";
          std::vector<gt::Item> want;
          for (auto& i : all) if (!i.rel.starts_with(under)) want.push_back(i);
          MC_CHECK(c, Text(seen.items) == Text(want), what, ": visits ", Text(seen.items), " expected ", Text(want));
        } else {
          MC_CHECK(c, seen.items.size() == at + 1, what, ": goes on to ", Text(seen.items));
        }
      }
    }
  }
}

// A directory that can not be read ends the walk with an error, unless it is its permission.
MC_SECTION_D(faults, 3) {
  const auto tree = gt::Choose(c);
  TreeDir dir(tree);
  std::vector<gt::Item> all;
  gt::Walk(tree, "", 0, true, false, all);
  for (const int err : {EIO, EACCES, ENOENT}) {
    for (size_t at = 0;; ++at) {
      size_t n = 0;
      char hit = 0;
      size_t opens = 0;
      Seen seen;
      gt::fs::current_path(gt::Scratch());
      g_dir = [&](char k) {
        if (k == 'o') ++opens;
        if (n++ != at) return 0;
        hit = k;
        return err;
      };
      GlobOptions o;
      const auto st = mbo::file::Glob("t", "", {}, o, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
        seen.items.push_back({e.entry.path().lexically_relative(dir.path).native(), e.depth, 'f'});
        return GlobEntryAction::kContinue;
      });
      g_dir = nullptr;
      c.step();
      if (!hit) {
        MC_CHECK(c, st.ok() && seen.items.size() == all.size(), "walk without fault");
        break;
      }
      const std::string what = mc::Cat("tree ", gt::Show(tree), ", errno ", err, " at directory operation ", at, hit);
      std::set<std::string> names;
      for (auto& i : seen.items) {
        bool known = false;
        for (auto& k : all) known |= k.rel == i.rel;
        MC_CHECK(c, known && names.insert(i.rel).second, what, ": visits ", i.rel, " that is not there or a second time");
      }
      c.state(mc::Cat(seen.items.size(), hit, err, st.ok()));
      if (err == EACCES) {
        // Directories that may not be read are skipped.
        if (hit == 'o' && opens > 1) MC_CHECK(c, st.ok(), what, ": fails: ", std::string(st.message()));
        if (hit == 'o' && opens > 1) MC_CHECK(c, !seen.items.empty(), what, ": nothing is visited");
        continue;
      }
      MC_CHECK(c, !st.ok(), what, ": the error is lost after ", seen.items.size(), " of ", all.size(), " entries");
    }
  }
}

MC_SECTION(roots) {
  struct Case {
    std::string root, pattern;
    bool ok;
  };
  gt::Scratch();
  static const std::vector<Case> k = {{"gone", "", false}, {"ext/file.y", "", false}, {"ext", "[", false}, {"ext", "a\\", false}, {"ext/gone/x", "*", false}, {"ext", "*", true}, {"ext/file.y/", "*", false}, {"/gone/for/sure", "**", false}};
  const auto& t = c.pick(k);
  GlobOptions o;
  o.use_rel_path = c.flip();
  o.recursive = c.flip();
  o.use_current_dir = c.flip();
  gt::fs::current_path(gt::Scratch());
  int calls = 0;
  const auto st = mbo::file::Glob(t.root, t.pattern, {}, o, [&](const GlobEntry&) -> absl::StatusOr<GlobEntryAction> {
    ++calls;
    return GlobEntryAction::kContinue;
  });
  c.step();
  MC_CHECK(c, st.ok() == t.ok, "Glob(", t.root, ", ", t.pattern, ") has the status ", std::string(st.message()));
  MC_CHECK(c, (calls > 0) == t.ok, "Glob(", t.root, ", ", t.pattern, ") visits ", calls);
}
