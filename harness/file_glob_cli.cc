// The glob command, run in-process over all small directory trees, against a model of its documentation.
#include "harness/glob_ref.h"
#include "harness/glob_tree.h"
#include "lib/mc.h"

#include <array>
#include <iostream>
#include <sstream>

#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#define main glob_cli_main
#include "mbo/file/glob_main.cc"
#undef main

namespace {
struct Result {
  int rc;
  std::string out, err;
};
Result RunCli(const std::vector<std::string>& args) {
  for (auto& [n, f] : absl::flags_internal::Registry()) f->ResetShim_();
  std::vector<std::string> store = {"glob"};
  store.insert(store.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  std::ostringstream out, err;
  auto* o = std::cout.rdbuf(out.rdbuf());
  auto* e = std::cerr.rdbuf(err.rdbuf());
  Result r;
  r.rc = glob_cli_main(static_cast<int>(store.size()), argv.data());
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  r.out = out.str();
  r.err = err.str();
  return r;
}
std::string Big(size_t v) {
  std::string s = std::to_string(v);
  for (int i = static_cast<int>(s.size()) - 3; i > 0; i -= 3) s.insert(i, "'");
  return s;
}
std::string Pad(const std::string& s, size_t n, bool left = false) {
  const std::string fill(s.size() < n ? n - s.size() : 0, ' ');
  return left ? s + fill : fill + s;
}
std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream in(s);
  for (std::string l; std::getline(in, l);) r.push_back(l);
  return r;
}
struct Ent {
  std::string rel;
  int depth;
  char type;      // d l f ?
  size_t size;    // shown size
  bool operator<(const Ent& o) const { return gt::fs::path(rel) < gt::fs::path(o.rel); }
};
struct Opts {
  bool depth = false, dotdir = true, dotfile = true, entries = true, fast = false, recurse = true, size = false, sum = false, ext = false, type = false;
  size_t every = 0;
};
struct Sum {
  size_t dirs = 0, files = 0, links = 0, other = 0, size = 0, max = 0, total = 0;
  std::map<std::string, size_t> ext;
  void Add(const Ent& e) {
    const std::string name = gt::fs::path(e.rel).filename().native();
    ++total;
    max = std::max(max, static_cast<size_t>(e.depth));
    if (e.type == 'd') ++dirs;
    if (e.type == 'l') ++links;
    if (e.type != 'f') return;
    ++files, size += e.size;
    const size_t dot = name.rfind('.');
    const std::string x = dot == std::string::npos ? "" : dot == 0 ? name : name.substr(dot);
    ++ext["FileExt(" + x + "):"];
    ext["FileSize(" + x + "):"] += e.size;
  }
  std::string Text(bool with_ext) const {
    std::map<std::string, size_t> m = {{"Dirs:", dirs}, {"FileSize:", size}, {"Files:", files}, {"Links:", links}, {"MaxDepth:", max}, {"Other:", other}, {"Total:", total}};
    if (with_ext) for (auto& [k, v] : ext) m[k] = v;
    size_t a = 0, b = 0;
    for (auto& [k, v] : m) a = std::max(a, k.size()), b = std::max(b, Big(v).size());
    std::string r;
    for (auto& [k, v] : m) r += Pad(k, a, true) + " " + Pad(Big(v), b) + "\n";
    return r;
  }
};

bool DotDirAbove(const std::string& rel) {
  for (const auto& p : gt::fs::path(rel).parent_path()) if (p.native().starts_with('.')) return true;
  return false;
}

// The entries that are to be reported in an order of the tree.
std::vector<Ent> Model(const std::vector<gt::Node>& nodes, const std::string& rel, int depth, const Opts& o, const std::function<bool(const std::string&)>& match) {
  std::vector<Ent> r;
  for (auto& n : nodes) {
    const std::string p = rel.empty() ? n.name : rel + "/" + n.name;
    const bool dir = n.kind == 'd' || n.kind == 'L' || n.kind == 'o';
    const bool dot = n.name[0] == '.';
    if (dir && dot && !o.dotdir) continue;
    const bool shown = match(p) && !(n.kind != 'x' && !dir && dot && !o.dotfile);
    if (shown) {
      const size_t size = n.kind == 'f' ? gt::FileSize(n.name) : n.kind == 'l' ? gt::kExtSize : 0;
      r.push_back({p, depth, dir ? 'd' : n.kind == 'f' ? 'f' : 'l', size});
      if (!o.recurse) continue;
    }
    if (n.kind == 'd') {
      auto sub = Model(n.sub, p, depth + 1, o, match);
      r.insert(r.end(), sub.begin(), sub.end());
    }
  }
  return r;
}

// The summary that the output ends in or nullopt.
bool TakeFields(std::string_view line, const Opts& o, const Ent& e, std::array<size_t, 2>& width, bool aligned) {
  const auto field = [&](size_t value, size_t& w) {
    size_t n = 0;
    while (n < line.size() && line[n] == ' ') ++n;
    const std::string v = Big(value);
    if (!line.substr(n).starts_with(v + " ")) return false;
    n += v.size();
    if (aligned && w && w != n) return false;
    w = n;
    line.remove_prefix(n + 1);
    return true;
  };
  if (o.size && !field(e.size, width[0])) return false;
  if (o.type) {
    if (!line.starts_with(std::string(1, e.type) + " ")) return false;
    line.remove_prefix(2);
  }
  if (o.depth && !field(e.depth, width[1])) return false;
  return line == e.rel;
}

void Verify(mc::Ctx& c, const std::vector<gt::Node>& tree, const std::string& what, const Opts& o, const Result& r, const std::function<bool(const std::string&)>& match) {
  MC_CHECK(c, r.rc == 0, what, ": exits with ", r.rc, " ", r.err);
  MC_CHECK(c, r.err.empty(), what, ": reports ", r.err);
  std::vector<Ent> want = Model(tree, "", 0, o, match);
  std::sort(want.begin(), want.end());
  Sum sum;
  for (auto& e : want) sum.Add(e);
  std::string out = r.out;
  const bool with_sum = o.sum || o.ext || o.every > 0;
  if (with_sum) {
    const std::string tail = "\n" + sum.Text(o.ext);
    MC_CHECK(c, out.ends_with(tail), what, ": the output is\n", out, "expected summary", tail);
    out.resize(out.size() - tail.size());
  }
  // Summaries in between: They are complete for what was seen so far.
  const auto lines = Lines(out);
  std::vector<std::string> shown;
  size_t seen_sums = 0;
  for (size_t i = 0; i < lines.size(); ++i) {
    if (!lines[i].empty()) {
      shown.push_back(lines[i]);
      continue;
    }
    ++seen_sums;
    MC_CHECK(c, o.every > 0, what, ": unexpected empty line in\n", r.out);
    bool total = false;
    while (i + 1 < lines.size() && lines[i + 1].find(": ") != std::string::npos) {
      ++i;
      if (!lines[i].starts_with("Total: ")) continue;
      total = true;
      MC_CHECK(c, lines[i].ends_with(" " + Big(seen_sums * o.every)), what, ": a summary every ", o.every, " has ", lines[i]);
      break;
    }
    MC_CHECK(c, total, what, ": no summary in\n", r.out);
  }
  if (o.every > 0) MC_CHECK(c, seen_sums == want.size() / o.every, what, ": shows ", seen_sums, " summaries for ", want.size(), " entries");
  if (!o.entries) {
    MC_CHECK(c, shown.empty(), what, ": shows entries\n", r.out);
    return;
  }
  MC_CHECK(c, shown.size() == want.size(), what, ": shows\n", r.out, "expected ", want.size(), " entries");
  std::array<size_t, 2> width{};
  if (!o.fast) {
    for (size_t i = 0; i < want.size(); ++i) {
      MC_CHECK(c, TakeFields(shown[i], o, want[i], width, true), what, ": shows\n", r.out, "expected ", want[i].size, " ", want[i].type, " ", want[i].depth, " ", want[i].rel);
    }
    return;
  }
  for (auto& e : want) {
    size_t found = 0;
    for (auto& l : shown) found += TakeFields(l, o, e, width, false);
    MC_CHECK(c, found == 1, what, ": shows\n", r.out, "expected once ", e.rel);
  }
}

struct TreeDir {
  std::string path;
  explicit TreeDir(const std::vector<gt::Node>& t) : path(gt::Scratch() + "/t") {
    gt::Build(path, t);
    gt::fs::current_path(gt::Scratch());
  }
  ~TreeDir() {
    gt::fs::current_path(gt::Scratch());
    gt::fs::remove_all(path);
  }
};

struct Flag {
  std::string text;
  std::function<void(Opts&)> set;
};
const std::vector<Flag>& Flags() {
  static const std::vector<Flag> k = {
      {"--depth", [](Opts& o) { o.depth = true; }},         {"--nodotdir", [](Opts& o) { o.dotdir = false; }},       {"--nodotfile", [](Opts& o) { o.dotfile = false; }},
      {"--noentries", [](Opts& o) { o.entries = false; }},  {"--fast", [](Opts& o) { o.fast = true; }},              {"--norecurse_match", [](Opts& o) { o.recurse = false; }},
      {"--size", [](Opts& o) { o.size = true; }},           {"--sum", [](Opts& o) { o.sum = true; }},                {"--sum_extensions", [](Opts& o) { o.ext = true; }},
      {"--type", [](Opts& o) { o.type = true; }},           {"--sum_every=1", [](Opts& o) { o.every = 1; }},         {"--sum_every=3", [](Opts& o) { o.every = 3; }}};
  return k;
}
std::function<bool(const std::string&)> Globbed(const std::string& p) {
  if (p.empty()) return [](const std::string&) { return true; };
  auto ref = std::make_shared<Parsed>(Parse(p, true, true));
  return [ref](const std::string& s) { return RefMatch(ref->toks, Decode(s)).value(); };
}
}  // namespace

// All trees with single flags and pairs of them.
MC_SECTION_D(trees, 3) {
  const auto tree = gt::Choose(c);
  TreeDir dir(tree);
  c.sample(gt::Show(tree));
  const auto& flags = Flags();
  static const std::vector<std::vector<size_t>> kSets = {{}, {0, 6, 9}, {1}, {2}, {3, 7}, {4}, {5}, {8}, {1, 2, 8}, {10}, {11, 3}, {4, 6, 9, 0}, {3, 4, 7}, {5, 1}};
  for (auto& set : kSets) {
    for (const std::string p : {"", "**/*.x", "*/**", "[a-c]*"}) {
      Opts o;
      std::vector<std::string> args = {"t", p};
      for (size_t i : set) args.push_back(flags[i].text), flags[i].set(o);
      const Result r = RunCli(args);
      c.step();
      std::string what = mc::Cat("tree ", gt::Show(tree), ": glob");
      for (auto& a : args) what += " " + mc::Quote(a);
      Verify(c, tree, what, o, r, Globbed(p));
      c.state(r.out);
    }
  }
}

// One tree that has everything with all sets of flags and ways to say what is searched.
MC_SECTION(flags) {
  using gt::Node;
  static const std::vector<Node> tree = {{"a.x", 'd', {{"c", 'f', {}}, {".d.x", 'd', {{"e.x", 'f', {}}, {"f", 'f', {}}, {".b", 'f', {}}}}, {"l.x", 'l', {}}}},
                                         {".b", 'f', {}}, {"c", 'f', {}}, {"k.tar.x", 'f', {}}, {"o", 'o', {}}, {"x", 'x', {}}, {".x", 'x', {}}, {"L", 'L', {}}, {".L", 'L', {}}, {".l", 'l', {}}, {"a b*", 'd', {}}, {"z.", 'f', {}}};
  Opts o;
  std::vector<std::string> args;
  for (auto& f : Flags()) {
    if (f.text.starts_with("--sum_every=3") && o.every) continue;
    if (c.flip()) args.push_back(f.text), f.set(o);
  }
  static TreeDir* dir = new TreeDir(tree);
  gt::fs::current_path(gt::Scratch());
  struct Way {
    std::vector<std::string> args;
    std::function<bool(const std::string&)> match;
    bool re2;
  };
  static const std::vector<Way> kWays = {{{"t", ""}, Globbed(""), false},
                                         {{"t/**/*.x"}, Globbed("**/*.x"), false},
                                         {{"./gone/../t", "*"}, Globbed("*"), false},
                                         {{dir->path + "/"}, Globbed(""), false},
                                         {{"t", "(.*/)?[a-e][.]?x?"}, [](const std::string& s) { const std::string n = s.substr(s.rfind('/') + 1); return n == "a.x" || n == "c" || n == "e.x" || n == "ex" || n == "b" || n == "d"; }, true},
                                         {{"t/**"}, Globbed("**"), false}};
  for (auto& w : kWays) {
    std::vector<std::string> all = w.args;
    all.insert(all.end(), args.begin(), args.end());
    if (w.re2) all.push_back("--re2");
    const Result r = RunCli(all);
    c.step();
    std::string what = "glob";
    for (auto& a : all) what += " " + mc::Quote(a);
    c.sample(what);
    Verify(c, tree, what, o, r, w.match);
    c.state(r.out);
  }
}

MC_SECTION(errors) {
  gt::Scratch();
  gt::fs::current_path(gt::Scratch());
  struct Case {
    std::vector<std::string> args;
    bool ok;
  };
  static const std::vector<Case> k = {{{}, false}, {{"a", "b", "c"}, false}, {{"gone"}, false}, {{"gone", "*"}, false}, {{"ext/["}, false}, {{"ext", "["}, false}, {{"ext", "(", "--re2"}, false}, {{"ext", "("}, true}, {{"ext"}, true}, {{"ext/gone/*"}, false}, {{"ext/nothing*"}, true}};
  const auto& t = c.pick(k);
  const Result r = RunCli(t.args);
  c.step();
  std::string what = "glob";
  for (auto& a : t.args) what += " " + mc::Quote(a);
  MC_CHECK(c, (r.rc == 0) == t.ok, what, " exits with ", r.rc);
  MC_CHECK(c, r.err.empty() == t.ok, what, " reports ", mc::Quote(r.err));
  if (!t.ok) MC_CHECK(c, r.out.empty(), what, " prints ", mc::Quote(r.out));
}
