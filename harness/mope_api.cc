// Sequences of calls that build template data, against a model of the data.
#include "lib/mc.h"
#include "harness/mope_ref.h"
#include "mbo/container/any_scan.h"
#include "mbo/mope/mope.h"

namespace {
using mbo::mope::Template;
using mref::Dict;

std::string Show(const Dict& d) {
  std::string r;
  for (auto& [k, v] : d.data) {
    if (auto* s = std::get_if<std::string>(&v)) {
      r += k + "=" + *s + ",";
    } else {
      for (auto& sub : std::get<mref::Sections>(v)) r += k + "{" + Show(*sub) + "}";
    }
  }
  return r;
}
constexpr std::string_view kNames[] = {"a", "b", "_x9"};
constexpr std::string_view kBad[] = {"", "1a", "a-b", "a b", "a\n", "\xc3\xa4"};

// A template whose expansion shows all data up to three levels, or fails where a name is of the other kind.
std::string Probe(int level, std::string_view value_or_section) {
  std::string r;
  for (size_t i = 0; i < std::size(kNames); ++i) {
    const std::string n(kNames[i]);
    if ((value_or_section[i] & 1) == 0) r += n + "={{" + n + "}};";
    else r += "{{#" + n + ":'/'}}<" + (level ? Probe(level - 1, value_or_section.substr(3)) : std::string()) + ">{{/" + n + "}}";
  }
  return r;
}
}  // namespace

MC_SECTION(build) {
  Template root;
  Dict model;
  std::vector<std::pair<Template*, Dict*>> nodes = {{&root, &model}};
  const int n = mc::Tier(4, 5);
  std::string history;
  for (int i = 0; i < n; ++i) {
    const int node = c.choose(static_cast<int>(std::min<size_t>(nodes.size(), 4)));
    auto [t, d] = nodes[node];
    const std::string name(kNames[c.choose(mc::Thorough() ? 3 : 2)]);
    const int op = c.choose(4);
    c.step();
    history += mc::Cat(node, ".", op == 3 ? "AddSection" : op == 2 ? "Update" : "Set", "(", name, ");");
    c.detail(history);
    auto it = d->data.find(name);
    if (op == 3) {
      const absl::StatusOr<Template*> got = t->AddSection(name);
      const bool ok = it == d->data.end() || std::holds_alternative<mref::Sections>(it->second);
      MC_CHECK(c, got.ok() == ok, "after ", history, ": ", got.status().ToString());
      if (!ok) continue;
      if (it == d->data.end()) it = d->data.emplace(name, mref::Sections{}).first;
      auto& s = std::get<mref::Sections>(it->second);
      s.push_back(std::make_shared<Dict>());
      MC_CHECK(c, *got != nullptr, "null section");
      for (auto& [other, unused] : nodes) MC_CHECK(c, other != *got, "after ", history, " a section was handed out twice");
      nodes.emplace_back(*got, s.back().get());
      continue;
    }
    const std::string value = op == 0 ? "" : mc::Cat("v", i, "{{a}}");
    const absl::Status st = t->SetValue(name, value, op == 2);
    const bool ok = it == d->data.end() || (op == 2 && std::holds_alternative<std::string>(it->second));
    MC_CHECK(c, st.ok() == ok, "after ", history, ": ", st.ToString());
    if (ok) d->data[name] = value;
    else MC_CHECK(c, st.code() == absl::StatusCode::kAlreadyExists, "after ", history, ": ", st.ToString());
  }
  c.state(Show(model));
  c.sample(history + " => " + Show(model));
  // All ways to look at the names as values or sections.
  for (int kinds = 0; kinds < 64; ++kinds) {
    std::string k;
    for (int l = 0; l < 3; ++l)
      for (int b = 0; b < 3; ++b) k += b == 2 && !mc::Thorough() ? '0' : ((kinds >> (l * 2 + b % 2)) & 1) ? '1' : '0';
    const std::string text = Probe(2, k);
    std::string want, got = text;
    const mref::Res res = mref::Expand(model, {}, text, want);
    const absl::Status st = root.Expand(got);
    MC_CHECK(c, st.ok() == (res == mref::Res::kOk), "after ", history, " expanding ", text, ": ", st.ToString());
    if (st.ok()) MC_CHECK(c, got == want, "after ", history, " expanding ", text, " gives ", mc::Quote(got), ", expected ", mc::Quote(want));
  }
  // A copy has the same data and is independent.
  Template copy = root;
  (void)root.SetValue("a", "changed", true);
  std::string text = "{{a}}|{{b}}|{{_x9}}", want, got = text;
  const mref::Res res = mref::Expand(model, {}, text, want);
  const absl::Status st = copy.Expand(got);
  MC_CHECK(c, st.ok() == (res == mref::Res::kOk) && (!st.ok() || got == want), "the copy gives ", mc::Quote(got), " ", st.ToString());
}

// Names of two characters and known bad ones: the same decision everywhere.
MC_SECTION(names) {
  const int len = c.choose(3);
  std::string name;
  for (int i = 0; i < len; ++i) name += static_cast<char>(c.choose(256));
  const int suffix = c.choose(3);
  if (suffix == 1) name += "z";
  if (suffix == 2) name += "\n";
  c.step();
  c.detail(mc::Quote(name));
  const bool valid = mref::IsName(name);
  MC_CHECK(c, Template::IsValidName(name) == valid, "IsValidName(", mc::Quote(name), ")");
  Template t;
  MC_CHECK(c, t.SetValue(name, "v").ok() == valid, "SetValue(", mc::Quote(name), ")");
  Template u;
  MC_CHECK(c, u.AddSection(name).ok() == valid, "AddSection(", mc::Quote(name), ")");
  std::string out = "[{{" + name + "}}]";
  const std::map<std::string, std::string> g = {{name, "v"}};
  const absl::Status st = Template().Expand(out, mbo::container::MakeConvertingScan(g));
  MC_CHECK(c, st.ok() == valid, "global ", mc::Quote(name), ": ", st.ToString());
  if (valid) {
    MC_CHECK(c, out == "[v]", "expanding the global value ", mc::Quote(name), " gives ", out);
    out = "[{{" + name + "}}]";
    MC_CHECK(c, t.Expand(out).ok() && out == "[v]", "expanding the value ", mc::Quote(name), " gives ", out);
    out = "[{{#" + name + "}}s{{/" + name + "}}]";
    MC_CHECK(c, u.Expand(out).ok() && out == "[s]", "expanding the section ", mc::Quote(name), " gives ", out);
  }
  for (std::string_view bad : kBad) MC_CHECK(c, !Template::IsValidName(bad), "IsValidName(", bad, ")");
}
// Length does not matter, nor where in the name a character is that is not allowed.
MC_SECTION(long_names) {
  const std::size_t len = c.pick(std::vector<std::size_t>{8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 4096, 65536, 70000});
  const char fill = c.pick(std::vector<char>{'n', '_', '0', 'Z'});
  const int bad = c.choose(4);  // None, or in the middle, at the end, in front.
  std::string name = "a" + std::string(len - 1, fill);
  if (bad) name[bad == 1 ? len / 2 : bad == 2 ? len - 1 : 0] = c.pick(std::vector<char>{'-', ' ', '\0', '\n', '\xC3', '.', '}'});
  c.step();
  const bool valid = !bad;
  MC_CHECK(c, Template::IsValidName(name) == valid, "IsValidName of a name of length ", len);
  Template t;
  MC_CHECK(c, t.SetValue(name, "v").ok() == valid, "SetValue of a name of length ", len);
  MC_CHECK(c, t.SetValue(name + "b", "w").ok() == valid, "SetValue of a name of length ", len + 1);
  Template u;
  MC_CHECK(c, u.AddSection(name).ok() == valid, "AddSection of a name of length ", len);
  if (valid) {
    std::string out = "[{{" + name + "}}{{" + name + "b}}]";
    MC_CHECK(c, t.Expand(out).ok() && out == "[vw]", "expanding values with names of length ", len, " gives ", out.substr(0, 99));
    out = "[{{#" + name + "}}s{{/" + name + "}}]";
    MC_CHECK(c, u.Expand(out).ok() && out == "[s]", "expanding a section with a name of length ", len, " gives ", out.substr(0, 99));
  }
  c.state(mc::Cat(len, fill, bad));
}
