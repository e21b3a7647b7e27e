// Template expansion against the reference interpreter.
#include <cmath>
#include "lib/mc.h"
#include "harness/mope_ref.h"
#include "mbo/container/any_scan.h"
#include "mbo/mope/mope.h"

namespace {
using mbo::mope::Template;
using mref::Dict;
using mref::Res;

void Build(Template& t, const Dict& d) {
  for (auto& [k, v] : d.data) {
    if (auto* s = std::get_if<std::string>(&v)) {
      if (!t.SetValue(k, *s).ok()) std::abort();
    } else {
      for (auto& sub : std::get<mref::Sections>(v)) Build(**t.AddSection(k), *sub);
    }
  }
}
std::shared_ptr<Dict> D(std::map<std::string, std::variant<std::string, mref::Sections>> m) {
  auto d = std::make_shared<Dict>();
  d->data = std::move(m);
  return d;
}
struct Config {
  std::shared_ptr<Dict> dict;
  std::map<std::string, std::string> globals;
};
const std::vector<Config>& Configs() {
  static const std::vector<Config> c = {
      {D({}), {}},
      {D({{"a", "A{{b}}"}, {"two", "2"}, {"s", mref::Sections{D({{"a", "p"}}), D({{"b", "q"}, {"a", "{{a}}"}})}}}), {}},
      {D({{"b", "B"}, {"s", mref::Sections{D({{"s", mref::Sections{D({{"b", "n1"}}), D({{"b", "n2"}})}}, {"a", "x"}})}}}), {{"a", "G"}, {"two", "-2"}}},
      {D({{"s", "S"}, {"a", mref::Sections{D({}), D({}), D({})}}}), {{"b", ", "}}},
  };
  return c;
}

void Compare(mc::Ctx& c, const Config& cfg, const std::string& text) {
  c.step();
  c.sample("expand " + mc::Quote(text));
  c.detail("expanding " + mc::Quote(text));
  std::string want;
  const Res res = mref::Expand(*cfg.dict, cfg.globals, text, want);
  Template t;
  Build(t, *cfg.dict);
  for (int round = 0; round < 2; ++round) {
    std::string got = text;
    const absl::Status st = cfg.globals.empty() ? t.Expand(got) : t.Expand(got, mbo::container::MakeConvertingScan(cfg.globals));
    if (res == Res::kUnspecified) continue;
    c.state(mc::Fnv(mc::Cat(got, "|", st.ok())));
    MC_CHECK(c, st.ok() == (res == Res::kOk), "expanding ", mc::Quote(text), " round ", round, ": status ", st.ToString(), ", expected ",
             res == Res::kOk ? "text " + mc::Quote(want) : std::string("an error"), ", text ", mc::Quote(got));
    if (!st.ok()) continue;
    MC_CHECK(c, got == want, "expanding ", mc::Quote(text), " round ", round, " gives ", mc::Quote(got), ", expected ", mc::Quote(want));
  }
}
}  // namespace

MC_SECTION(pieces) {
  static const std::vector<std::string> kPieces = {"",
      "x", "\n", " ", "{{a}}", "{{b}}", "{{u}}", "{{#s}}", "{{/s}}", "{{#s:b}}", "{{#s:','}}", "{{#i=1;two}}", "{{/i}}", "{{i}}",
      "{{#a=[p,'q,{{b}}']}}", "{{/a}}", "{{c=7}}", "{{c}}", "{{#c=2;0;-1;';'}}", "{{/c}}", "{{#u}}", "{{/u}}", "{{#c=}}", "\r\n"};
  const Config& cfg = Configs()[c.choose(Configs().size())];
  const int n = mc::Tier(4, 5);
  std::string text;
  for (int i = 0; i < n; ++i) {
    const size_t k = c.choose(kPieces.size());
    if (k == 0) break;
    text += kPieces[k];
  }
  Compare(c, cfg, text);
}

// Complete sections around two to three free pieces.
MC_SECTION(nested) {
  static const std::vector<std::pair<std::string, std::string>> kWrap = {
      {"{{#s}}", "{{/s}}"}, {"{{#s:b}}\n", "{{/s}}\n"}, {"{{#i=1;2}}", "{{/i}}"}, {" {{#i=two;1;-1;', '}}\n", " {{/i}} "}, {"{{#l=[b,c];a}}", "{{/l}}"},
      {"{{#l=['b;]',c];';'}}", "{{/l}}\r\n"}, {"{{#a}}", "{{/a}}"}, {"{{#u=}}", "{{/u}}"}, {"{{#b:'\\n'}}", "{{/b}}"}};
  static const std::vector<std::string> kIn = {"", "{{a}}", "{{b}}", "{{i}}", "{{l}}", "{{b=3}}", "{{l=3}}", "{{i=4}}", "{{c=5}}\n", "{{c}}", "x", "\n", "{{#l=i;i}}{{l}}{{/l}}", "{{#i=[1]}}{{i}}{{/i}}"};
  const Config& cfg = Configs()[c.choose(Configs().size())];
  const auto& o = kWrap[c.choose(kWrap.size())];
  std::string text = o.first + kIn[c.choose(kIn.size())];
  const auto& in = kWrap[c.choose(kWrap.size())];
  text += in.first + kIn[c.choose(kIn.size())];
  if (mc::Thorough()) text += kIn[c.choose(kIn.size())];
  text += in.second + kIn[c.choose(kIn.size())] + o.second;
  text += c.flip() ? "{{c}}{{b}}{{l}}{{i}}" : "";
  Compare(c, cfg, text);
}

// Every short string over the characters that make up tags.
MC_SECTION(characters) {
  static const std::string_view kChars = "{}#/as=:\n ";
  std::string text;
  const int n = mc::Tier(6, 7);
  for (int i = 0; i < n; ++i) {
    const size_t k = c.choose(kChars.size() + 1);
    if (k == 0) break;
    text += kChars[k - 1];
  }
  Compare(c, Configs()[1], text);
}

// Every short text inside of a tag, for the section and the value form.
MC_SECTION(inside) {
  static const std::string_view kChars = "}{12-;a',[] :=\"n\\";
  const bool section = c.flip();
  std::string text = section ? "({{#i" : "({{i";
  static const std::string_view kKinds[] = {"=", ":", "=[", "=1;", "=3;1;-", "=['"};
  text += kKinds[c.choose(6)];
  const int n = mc::Tier(4, 5);
  for (int i = 0; i < n; ++i) {
    const size_t k = c.choose(kChars.size() + 1);
    if (k == 0) break;
    text += kChars[k - 1];
  }
  text += "}})<{{i}}>{{/i}}.";
  Config cfg{D({{"a", "2"}, {"n", "', '"}, {"x", mref::Sections{D({})}}}), {}};
  if (c.flip()) cfg.dict->data["i"] = mref::Sections{D({{"i", "I1"}}), D({})};
  Compare(c, cfg, text);
}

// Loop bounds up to the limits of the type.
MC_SECTION(bounds) {
  static const char* kNum[] = {"0", "1", "2", "-1", "-2", "3", "2147483647", "2147483646", "-2147483648", "-2147483647", "2147483648", "-2147483649", "9999999999", "a", "b", "s"};
  static const char* kStep[] = {"", ";", ";1", ";2", ";-1", ";-3", ";0", ";2147483647", ";-2147483648", ";1;','", ";;b", "; a ;b", ";s", ";1;s", ";1;nope"};
  const std::string start = kNum[c.choose(std::size(kNum))];
  const std::string end = kNum[c.choose(std::size(kNum))];
  const std::string step = kStep[c.choose(std::size(kStep))];
  // Leave out what would run through billions of values.
  mref::Interp in;
  auto val = [&](const std::string& s) -> double { auto v = mref::Interp::Int(s); return v ? *v : s == "a" ? 3 : 0; };
  double st = 1;
  if (step.size() > 1 && step != ";;b") st = val(step.substr(1, step.find(';', 1) == std::string::npos ? std::string::npos : step.find(';', 1) - 1));
  if (step == "; a ;b") st = 3;
  if (st != 0 && (val(end) - val(start)) / st > 100) return;
  const Config cfg{D({{"a", "3"}, {"b", "-"}, {"s", mref::Sections{D({})}}}), {}};
  Compare(c, cfg, "<{{#v=" + start + ";" + end + step + "}}{{v}}{{/v}}>");
}
