// INI files against a reference parser, and written files against what they are read back as.
#include "lib/mc.h"
#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>
#include "mbo/file/ini/ini_file.h"

namespace {
namespace fs = std::filesystem;
using mbo::file::IniFile;
using Data = std::map<std::string, std::map<std::string, std::string>>;
std::string Strip(std::string s) {
  static const char* kSpace = " \t\r\n\v\f";
  const size_t b = s.find_first_not_of(kSpace);
  if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(kSpace) - b + 1);
}
Data Ref(const std::string& text) {
  Data d;
  std::string group;
  std::istringstream in(text);
  for (std::string line; std::getline(in, line);) {
    line = Strip(line);
    if (line.empty() || line[0] == ';' || line[0] == '#') continue;
    if (line[0] == '[' && line.back() == ']') {
      group = Strip(line.size() > 1 ? line.substr(1, line.size() - 2) : "");
      continue;
    }
    const size_t eq = line.find('=');
    d[group][Strip(line.substr(0, eq))] = eq == std::string::npos ? "" : Strip(line.substr(eq + 1));
  }
  return d;
}
std::string Path() { return mc::Cat(fs::current_path().string(), "/ini_", mc::G().replay ? 99 : mc::G().shard, "_", getpid()); }
std::string Show(const Data& d) {
  std::string r;
  for (auto& [g, kv] : d)
    for (auto& [k, v] : kv) r += mc::Cat("[", mc::Quote(g), "]", mc::Quote(k), "=", mc::Quote(v), " ");
  return r;
}
Data Dump(const IniFile& ini) {
  Data d;
  for (const auto& g : ini.GetGroups())
    for (const auto& [k, v] : ini.GetGroupData(g)) d[g][k] = v;
  return d;
}
void Compare(mc::Ctx& c, const IniFile& ini, const Data& want, const std::string& what) {
  const Data got = Dump(ini);
  MC_CHECK(c, got == want, what, " has ", Show(got), ", expected ", Show(want));
  size_t n = 0;
  for (auto& [g, kv] : want) {
    n += kv.size();
    for (auto& [k, v] : kv) {
      MC_CHECK(c, ini.HasKey({.group = g, .key = k}), what, " misses ", g, ".", k);
      const auto val = ini.GetKeyOrStatus({.group = " " + g + "\t", .key = "\r" + k + " "});
      MC_CHECK(c, val.ok() && *val == v, what, " has another value for ", g, ".", k);
      MC_CHECK(c, ini.GetKeyOrDefault({.group = g, .key = k}, "other") == v, what, " gives the default for ", g, ".", k);
    }
    MC_CHECK(c, !ini.HasKey({.group = g, .key = "absent"}), what, " has a key that was never set");
    MC_CHECK(c, ini.GetKeyOrDefault({.group = g, .key = "absent"}, "other") == "other", what, " gives no default");
    MC_CHECK(c, ini.GetKeyOrStatus({.group = g, .key = "absent"}).status().code() == absl::StatusCode::kNotFound, what, ": status of a missing key");
  }
  MC_CHECK(c, ini.size() == n && ini.empty() == (n == 0), what, " has the size ", ini.size());
  MC_CHECK(c, !ini.HasKey({.group = "absent", .key = ""}) && ini.GetKeyOrStatus({.group = "absent", .key = "a"}).status().code() == absl::StatusCode::kNotFound, what, " has a group that was never set");
  MC_CHECK(c, ini.GetGroupData("absent").empty(), what, " has data for a group that was never set");
}
void RoundTrip(mc::Ctx& c, const IniFile& ini, const Data& want, const std::string& what) {
  const std::string path = Path();
  const absl::Status st = ini.Write(path);
  MC_CHECK(c, st.ok(), "writing: ", st.ToString());
  const auto back = IniFile::Read(path);
  MC_CHECK(c, back.ok(), "reading: ", back.status().ToString());
  const Data got = Dump(*back);
  MC_CHECK(c, got == want, what, " written and read back has ", Show(got), ", expected ", Show(want));
}
}  // namespace

MC_SECTION(parse) {
  static const std::string_view kChars = "[]=;#a \n\r";
  std::string s;
  const int n = mc::Tier(6, 7);
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(static_cast<int>(kChars.size()) + 1);
    if (k == 0) break;
    s += kChars[k - 1];
  }
  if (s == "[" || s.find("[\n") != std::string::npos || s.ends_with('[')) {
    // A line of nothing but "[" is both brackets at once for a careless parser.
  }
  c.step();
  c.detail(mc::Quote(s));
  const Data want = Ref(s);
  c.state(Show(want));
  const IniFile ini = IniFile::Parse(s);
  Compare(c, ini, want, mc::Quote(s));
  if (c.depth() <= mc::Tier(6, 7)) RoundTrip(c, ini, want, mc::Quote(s));
}

MC_SECTION(lines) {
  static const std::vector<std::string> kLines = {"[a]", "[ b ]", "[]", "[a]]", "[[x]", "k=v", " k = w=x ", "k", "=v", "=", ";k=c", " #k=c", "[k=v", "[k]=", "\t", "", "k=[v]", "k=;no comment", "[a] ; no", "\xc3\xa4=\xff"};
  const int n = mc::Tier(4, 5);
  std::string s;
  const std::string eol = c.flip() ? "\r\n" : "\n";
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(static_cast<int>(kLines.size()) + 1);
    if (k == 0) break;
    s += (i ? eol : "") + kLines[k - 1];
  }
  if (c.flip()) s += eol;
  c.step();
  const Data want = Ref(s);
  c.state(Show(want));
  c.sample(mc::Quote(s));
  const IniFile ini = IniFile::Parse(s);
  Compare(c, ini, want, mc::Quote(s));
  RoundTrip(c, ini, want, mc::Quote(s));
}

// Sequences of changes, each seen by all ways to look at the data.
MC_SECTION(changes) {
  static const std::vector<std::string> kGroups = {"", "g", " g ", "h i"}, kKeys = {"k", " k\t", "", "l m"}, kValues = {"", "v", " w ", "a = b", "[x]"};
  IniFile ini = IniFile::NewEmpty();
  Data want;
  const int n = mc::Tier(3, 4);
  std::string what;
  for (int i = 0; i < n; ++i) {
    const std::string g = c.pick(kGroups), k = c.pick(kKeys);
    const int v = c.choose(static_cast<int>(kValues.size()) + 1);
    c.step();
    if (v < static_cast<int>(kValues.size())) {
      if (i % 2) ini.SetKey({.group = g, .key = k}, std::string_view(kValues[v]));
      else ini.SetKey({.group = g, .key = k}, std::string(kValues[v]));
      want[Strip(g)][Strip(k)] = Strip(kValues[v]);
    } else {
      ini.SetKey({.group = g, .key = k}, -42 - i);
      want[Strip(g)][Strip(k)] = std::to_string(-42 - i);
    }
    what += mc::Cat("[", mc::Quote(g), "]", mc::Quote(k), "#", v, " ");
    Compare(c, ini, want, "after " + what);
  }
  RoundTrip(c, ini, want, "after " + what);
}
