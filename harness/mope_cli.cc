// The mope command and its INI input, run in-process over a scratch directory.
#include "lib/mc.h"
#include "harness/mope_ref.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#define main mope_cli_main
#include "mbo/mope/mope_main.cc"
#undef main

namespace {
namespace fs = std::filesystem;
using mref::Dict;
const std::string& Scratch() {
  static const std::string dir = [] {
    const std::string d = mc::Cat(fs::current_path().string(), "/cli_", mc::G().replay ? 99 : mc::G().shard, "_", getpid());
    fs::create_directories(d + "/dir");
    return d;
  }();
  return dir;
}
void Put(const std::string& n, const std::string& s) { std::ofstream(Scratch() + "/" + n, std::ios::binary) << s; }
std::optional<std::string> Get(const std::string& n) {
  std::ifstream f(Scratch() + "/" + n, std::ios::binary);
  if (!f) return std::nullopt;
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
struct Result {
  int rc;
  std::string out, err;
};
Result RunCli(const std::vector<std::string>& args) {
  for (auto& [n, f] : absl::flags_internal::Registry()) f->ResetShim_();
  std::vector<std::string> store = {"mope"};
  store.insert(store.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  std::ostringstream out, err;
  struct Redirect {
    std::ostream& os;
    std::streambuf* old;
    Redirect(std::ostream& o, std::streambuf* b) : os(o), old(o.rdbuf(b)) {}
    ~Redirect() { os.rdbuf(old); }
  };
  const Redirect o(std::cout, out.rdbuf()), e(std::cerr, err.rdbuf());
  Result r;
  r.rc = mope_cli_main(static_cast<int>(store.size()), argv.data());
  r.out = out.str();
  r.err = err.str();
  return r;
}
const std::string kTemplate =
    "{{id}}|{{k}}|{{g}}\n{{#a:'/'}}\na({{id}}{{k}}{{g}}{{#b:','}}b({{id}}{{g}}{{#d}}[{{id}}]{{/d}}){{/b}})\n{{/a}}\n{{#c}}c({{id}}{{#d}}<{{id}}>{{/d}}){{/c}}\n";

std::vector<std::string> Split(const std::string& s, char sep) {
  std::vector<std::string> r = {""};
  for (char ch : s) {
    if (ch == sep) r.emplace_back();
    else r.back() += ch;
  }
  return r;
}
Dict* AddSection(Dict* d, const std::string& name) {
  if (!mref::IsName(name)) return nullptr;
  auto it = d->data.emplace(name, mref::Sections{}).first;
  auto* s = std::get_if<mref::Sections>(&it->second);
  if (s == nullptr) return nullptr;
  s->push_back(std::make_shared<Dict>());
  return s->back().get();
}
bool SetValue(Dict* d, const std::string& name, const std::string& v) { return mref::IsName(name) && d->data.emplace(name, v).second; }

using Groups = std::map<std::string, std::map<std::string, std::string>>;
bool ApplyIni(const Groups& groups, Dict& root) {
  std::map<std::vector<std::string>, Dict*> known;
  for (auto& [g, keys] : groups) {
    Dict* d = &root;
    if (!g.empty()) {
      std::vector<std::string> path;
      for (const std::string& level : Split(g, '.')) {
        path.push_back(level);
        auto [it, added] = known.emplace(path, nullptr);
        if (added) {
          it->second = AddSection(d, level.substr(0, level.find(':')));
          if (it->second == nullptr) return false;
        }
        d = it->second;
      }
    }
    for (auto& [k, v] : keys)
      if (!SetValue(d, k, v)) return false;
  }
  return true;
}
bool ApplySet(const std::string& set, Dict& root, std::map<std::string, std::string>& globals) {
  const size_t eq = set.find('=');
  const std::string value = eq == std::string::npos ? "" : set.substr(eq + 1);
  std::vector<std::string> names = Split(set.substr(0, eq), ':');
  const std::string key = names.back();
  names.pop_back();
  if (key.empty()) return false;
  if (names.size() == 1 && names[0].empty()) {
    globals[key] = value;
    return true;
  }
  Dict* d = &root;
  for (auto& n : names) {
    d = AddSection(d, n);
    if (d == nullptr) return false;
  }
  return SetValue(d, key, value);
}
void Check(mc::Ctx& c, const std::string& what, bool ok, const Dict& root, const std::map<std::string, std::string>& globals,
           const std::vector<std::string>& args, const std::string& generate) {
  std::string want;
  for (auto& [k, v] : globals) ok = ok && mref::IsName(k);
  ok = ok && mref::Expand(root, globals, kTemplate, want) == mref::Res::kOk;
  c.step();
  c.detail(what);
  const std::string kOld = "previous content that is longer than what is going to be written to this file by the command";
  if (!generate.empty() && generate != "-" && fs::exists(Scratch() + "/dir")) Put("out", kOld);
  const Result r = RunCli(args);
  c.state(mc::Fnv(mc::Cat(r.rc, r.out)));
  MC_CHECK(c, r.rc == (ok ? 0 : 1), what, ": exit ", r.rc, " err ", r.err, " out ", mc::Quote(r.out));
  MC_CHECK(c, ok == r.err.empty(), what, ": error output ", mc::Quote(r.err));
  if (generate.empty() || generate == "-") {
    MC_CHECK(c, r.out == (ok ? want : ""), what, ": output ", mc::Quote(r.out), ", expected ", mc::Quote(ok ? want : ""));
  } else {
    MC_CHECK(c, r.out.empty(), what, ": unexpected output ", mc::Quote(r.out));
    MC_CHECK(c, Get("out") == (ok ? want : kOld), what, ": file ", mc::Quote(Get("out").value_or("(none)")), ", expected ", mc::Quote(ok ? want : kOld));
  }
}
}  // namespace

MC_SECTION(ini) {
  static const std::vector<std::string> kGroups = {"", "a", "a:1", "a:x y", "a.b", "a.b:2", "a:1.b", "a.b.d", "c", "c:1.d", "a..b", "1a", "a:1:2", "k", "a:1.b:2", "a:2.b:2", "a:2.b"};
  const int n = c.choose(mc::Tier(4, 5));
  std::string ini = c.flip() ? "id=root ; no comment\n" : "";
  Groups groups;
  if (!ini.empty()) groups[""]["id"] = "root ; no comment";
  const std::string eol = c.flip() ? "\r\n" : "\n";
  for (int i = 0; i < n; ++i) {
    const std::string g = kGroups[c.choose(static_cast<int>(kGroups.size()))];
    const int content = i + 1 < n || n < 3 ? c.choose(3) : 0;
    ini += "[" + g + "]" + eol;
    if (content == 0) {
      ini += mc::Cat(" id = ", i, "=x ", eol);
      groups[g]["id"] = mc::Cat(i, "=x");
    } else if (content == 1) {
      ini += eol + "; id=no" + eol + " # id=no" + eol + "k" + eol;
      groups[g]["k"] = "";
    }
  }
  Put("t.mope", kTemplate);
  Put("i.ini", ini);
  Dict root;
  const bool ok = ApplyIni(groups, root);
  c.sample(mc::Quote(ini));
  Check(c, mc::Cat("ini ", mc::Quote(ini)), ok, root, {}, {"--template=" + Scratch() + "/t.mope", "--ini=" + Scratch() + "/i.ini"}, "-");
}

MC_SECTION(set) {
  static const std::vector<std::string> kSets = {"k=v", "k=x=y", "k", "k=", "a:id=1", "a:b:id=2", "a:b:d:id=3", ":g=5", ":g=6=7", ":id={{k}}", "c:x", "a:=x", "::k=1", "=v", ":=v", "1k=v", ":1k=v",
                                                 "a::id=1", "a=v", ":a=v", "k:x=1", "a:k"};
  const int n = c.choose(mc::Tier(4, 5));
  std::vector<std::string> sets;
  for (int i = 0; i < n; ++i) sets.push_back(kSets[c.choose(static_cast<int>(kSets.size()))]);
  const int with_ini = c.choose(3);
  const int gen = c.choose(n < 3 ? 4 : 2);
  Put("t.mope", kTemplate);
  Put("i.ini", "id=I\n[a]\nid=J\n");
  Dict root;
  std::map<std::string, std::string> globals;
  bool ok = true;
  for (auto& s : sets) ok = ok && ApplySet(s, root, globals);
  if (with_ini == 1) ok = ok && ApplyIni({{"", {{"id", "I"}}}, {"a", {{"id", "J"}}}}, root);
  if (with_ini == 2) ok = false;
  std::vector<std::string> args = {"--template=" + Scratch() + "/t.mope"};
  std::string joined;
  for (auto& s : sets) joined += (joined.empty() ? "" : ",") + s;
  if (n) args.push_back("--set=" + joined);
  if (with_ini) args.push_back("--ini=" + Scratch() + (with_ini == 1 ? "/i.ini" : "/none.ini"));
  std::string generate = "-";
  if (gen == 1) generate = Scratch() + "/out";
  if (gen == 2) generate = "";
  if (gen != 3) args.push_back("--generate=" + generate);
  Check(c, mc::Cat("--set=", joined, with_ini == 0 ? "" : with_ini == 1 ? " with ini" : " with missing ini", " generate ", gen), ok, root, globals, args, generate);
}

MC_SECTION(files) {
  const int tmpl = c.choose(5), gen = c.choose(4), extra = c.choose(2);
  Put("t.mope", "text {{a}}");
  Put("empty.mope", "");
  Put("bad.mope", "text {{#a}} no end");
  static const char* kT[] = {"t.mope", "empty.mope", "bad.mope", "none.mope", "dir"};
  static const char* kG[] = {"-", "out", "no/such/out", "dir"};
  std::vector<std::string> args = {"--template=" + Scratch() + "/" + kT[tmpl]};
  args.push_back(gen == 0 ? "--generate=-" : "--generate=" + Scratch() + "/" + kG[gen]);
  if (extra) args.push_back("positional");
  Put("out", "old");
  c.step();
  const std::string what = mc::Cat("template ", kT[tmpl], " generate ", kG[gen], extra ? " and an argument" : "");
  c.detail(what);
  const Result r = RunCli(args);
  const bool ok = tmpl < 2 && gen < 2 && !extra;
  const std::string want = tmpl == 0 ? "text {{a}}" : "";
  MC_CHECK(c, r.rc == (ok ? 0 : 1), what, ": exit ", r.rc, " err ", r.err);
  MC_CHECK(c, r.err.empty() == ok, what, ": error output ", mc::Quote(r.err));
  MC_CHECK(c, r.out == (ok && gen == 0 ? want : ""), what, ": output ", mc::Quote(r.out));
  MC_CHECK(c, Get("out") == (ok && gen == 1 ? want : "old"), what, ": file ", mc::Quote(Get("out").value_or("(none)")));
  const Result none = RunCli({});
  MC_CHECK(c, none.rc == 1 && none.out.empty() && !none.err.empty(), "without arguments: exit ", none.rc);
}
