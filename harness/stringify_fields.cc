// Stringify with options chosen per field, in all forms they can be returned, against the reference formatter.
#include "lib/mc.h"
#include "harness/stringify_ref.h"
using namespace sref;
using mbo::types::StringifyFieldInfo;
using mbo::types::StringifyFieldOptions;

namespace {
using OM = Stringify::OutputMode;
using KM = SO::KeyMode;

// Changes of one group: the group is set to its own defaults (sparse) or those of the mode (full) plus the change.
constexpr int kKinds = 14;
void Apply(int kind, SO& o, Style& s) {
  const Style d;
  auto format = [&]() -> SO::Format& {
    s.msg_prefix = d.msg_prefix; s.msg_suffix = d.msg_suffix; s.indent = d.indent; s.kv = d.kv; s.sep = d.sep; s.raw_pre = d.raw_pre; s.raw_suf = d.raw_suf; s.smart_pre = d.smart_pre; s.smart_suf = d.smart_suf;
    s.opt_pre = d.opt_pre; s.opt_suf = d.opt_suf; s.st_pre = d.st_pre; s.st_suf = d.st_suf; s.co_pre = d.co_pre; s.co_suf = d.co_suf; s.ch = d.ch; s.st = d.st;
    return o.format.as_data(SO::Format{});
  };
  auto field = [&]() -> SO::FieldControl& { s.sup = s.sup_null = s.sup_nullopt = s.sup_off = false; s.off = d.off; return o.field_control.as_data(SO::FieldControl{}); };
  auto key = [&]() -> SO::KeyControl& { s.key_mode = d.key_mode; s.key_pre = d.key_pre; s.key_suf = d.key_suf; return o.key_control.as_data(SO::KeyControl{}); };
  auto value = [&]() -> SO::ValueControl& {
    s.esc = d.esc; s.nullptr_t_str = d.nullptr_t_str; s.nullptr_v = d.nullptr_v; s.nullopt = d.nullopt; s.max_elems = d.max_elems; s.max_str = d.max_str; s.cut = d.cut;
    return o.value_control.as_data(SO::ValueControl{});
  };
  switch (kind) {
    case 0: break;
    case 1: { auto& f = format(); f.string_delim = s.st = "`"; f.container_prefix = s.co_pre = "<"; f.container_suffix = s.co_suf = ">"; f.key_value_separator = s.kv = " = "; f.field_separator = s.sep = "; "; break; }
    case 2: { auto& f = format(); f.field_indent = s.indent = "\t"; f.field_separator = s.sep = ","; f.structure_prefix = s.st_pre = "("; f.structure_suffix = s.st_suf = ")"; break; }
    case 3: { auto& f = format(); f.optional_prefix = s.opt_pre = "o("; f.optional_suffix = s.opt_suf = ")o"; f.smart_ptr_prefix = s.smart_pre = "p("; f.smart_ptr_suffix = s.smart_suf = ")p"; break; }
    case 4: { auto& f = field(); f.suppress = s.sup = true; break; }
    case 5: { auto& f = field(); f.suppress_nullopt = s.sup_nullopt = true; f.suppress_nullptr = s.sup_null = true; break; }
    case 6: key().key_mode = KM::kNone; s.key_mode = 0; break;
    case 7: { auto& k = key(); k.key_mode = KM::kNumericFallback; s.key_mode = 2; k.key_prefix = s.key_pre = "<"; k.key_suffix = s.key_suf = ">"; break; }
    case 8: o.key_overrides.as_data(SO::KeyOverrides{}).key_use_name = "Name"; s.use_name = "Name"; s.use_name_set = true; break;
    case 9: { auto& v = value(); v.str_max_length = s.max_str = 1; v.str_cutoff_suffix = s.cut = "~"; v.container_max_len = s.max_elems = 1; break; }
    case 10: { auto& v = value(); v.escape_mode = SO::EscapeMode::kCHexEscape; s.esc = 2; v.nullopt_str = s.nullopt = "NO"; v.nullptr_v_str = s.nullptr_v = "NP"; break; }
    case 11: { auto& v = o.value_overrides.as_data(SO::ValueOverrides{}); v.replacement_str = s.rep_str = "<S>"; v.replacement_other = s.rep_other = "<O>"; break; }
    case 12: { auto& v = o.value_overrides.as_data(SO::ValueOverrides{}); v.replacement_str = s.rep_str = "<S>"; s.rep_other = ""; break; }
    default: o.special.as_data(SO::Special{}).str_keyed = SO::StrKeyed::kFirstIsName; s.keyed = 1; break;
  }
}

// What the next call returns per field: the options are kept here, as callers that return references must.
struct Custom {
  SO outer, inner;
};
Custom g_custom[9];
const SO* g_base = nullptr;
bool g_wrong = false;
struct Sub { int num = 1; std::string txt = "t\n"; SREF_FIELDS(num, txt) };
constexpr int kFields = 8;
const char* const kNamesOf[] = {"num", "str", "vec", "lol", "map", "opt", "ptr", "sub"};
template <typename T>
const Custom& Asked(const StringifyFieldInfo& info, const T&) {
  const Custom& r = g_custom[info.idx < kFields ? info.idx : 8];
  if (info.idx >= kFields || &info.options.outer != g_base || &info.options.inner != g_base || (kNames && info.name != kNamesOf[info.idx] && !info.name.empty())) g_wrong = true;
  return r;
}
#define BODY                                                                                                                     \
  int num = 4;                                                                                                                   \
  std::string str = "s\n";                                                                                                       \
  std::vector<std::string> vec = {"v1", "v\n"};                                                                                  \
  std::vector<std::vector<int>> lol = {{1, 2}, {3, 4}};                                                                          \
  std::map<std::string, int> map = {{"k1", 5}, {"k2", 6}};                                                                       \
  std::optional<std::string> opt;                                                                                                \
  std::unique_ptr<int> ptr;                                                                                                      \
  Sub sub;                                                                                                                       \
  SREF_FIELDS(num, str, vec, lol, map, opt, ptr, sub)
struct ByValue { BODY friend SO MboTypesStringifyOptions(const ByValue& v, const StringifyFieldInfo& i) { return Asked(i, v).outer; } };
struct ByRef { BODY friend const SO& MboTypesStringifyOptions(const ByRef& v, const StringifyFieldInfo& i) { return Asked(i, v).outer; } };
struct PairByValue { BODY friend StringifyFieldOptions MboTypesStringifyOptions(const PairByValue& v, const StringifyFieldInfo& i) { const Custom& k = Asked(i, v); return StringifyFieldOptions(k.outer, k.inner); } };
struct PairByRef {
  BODY
  friend const StringifyFieldOptions& MboTypesStringifyOptions(const PairByRef& v, const StringifyFieldInfo& i) {
    const Custom& k = Asked(i, v);
    static std::unique_ptr<StringifyFieldOptions> kept[9];
    auto& r = kept[i.idx];
    r = std::make_unique<StringifyFieldOptions>(k.outer, k.inner);
    return *r;
  }
};

// The reference: styles per field, for the field itself and for what it holds.
class FieldFormatter {
 public:
  FieldFormatter(const Style& base, const Style* outer, const Style* inner) : base_(base), outer_(outer), inner_(inner) {}
  std::string All(const N& n) {
    Line_ = {};
    out_ = base_.msg_prefix + base_.st_pre;
    Line_.push_back(base_.indent);
    bool any = false;
    for (size_t i = 0; i < n.c.size(); ++i) {
      const Style& o = outer_[i];
      if (!Left(n.c[i], o)) continue;
      if (any) out_ += base_.sep;
      any = true;
      Line();
      Key(o, n.names[i], i, false);
      Value(n.c[i], o, inner_[i]);
    }
    Line_.pop_back();
    if (!base_.indent.empty()) Line();
    return out_ + base_.st_suf + base_.msg_suffix;
  }
 private:
  void Line() {
    if (Line_.empty() ? false : Line_.back().empty()) return;
    out_ += "\n";
    for (const auto& l : Line_) out_ += l;
  }
  void Open(const std::string& pre, const Style& o) { out_ += pre; Line_.push_back(o.indent); }
  void Close(const std::string& suf) { const bool line = !Line_.back().empty(); Line_.pop_back(); if (line) { out_ += "\n"; for (const auto& l : Line_) out_ += l; } out_ += suf; }
  void Key(const Style& o, const std::string& name, size_t idx, bool known) {
    if (o.key_mode == 0) return;
    const std::string n = !known && o.use_name_set && !o.use_name.empty() ? o.use_name : name;
    if (!n.empty() || known) out_ += o.key_pre + (o.esc == 3 ? Esc(n, 3) : n) + o.key_suf + o.kv;
    else if (o.key_mode == 2) out_ += o.key_pre + std::to_string(idx) + o.key_suf + o.kv;
  }
  bool Left(const N& n, const Style& o) {
    if (o.sup) return false;
    if (n.t == N::kSmart && n.c.empty()) return !o.sup_null;
    if (n.t == N::kOpt && n.c.empty()) return !o.sup_nullopt;
    return true;
  }
  void Str(std::string_view s, const Style& o) {
    if (!o.rep_str.empty()) { out_ += o.rep_str; return; }
    out_ += Esc(s.substr(0, o.max_str), o.esc);
    if (s.size() > o.max_str) out_ += o.cut;
  }
  void Value(const N& n, const Style& o, const Style& in) {
    switch (n.t) {
      case N::kInt: out_ += o.rep_other.empty() ? n.s : o.rep_other; break;
      case N::kStr: out_ += o.st; Str(n.s, o); out_ += o.st; break;
      case N::kSmart: if (n.c.empty()) out_ += o.nullptr_v; else { out_ += o.smart_pre; Value(n.c[0], in, in); out_ += o.smart_suf; } break;
      case N::kOpt: if (n.c.empty()) out_ += o.nullopt; else { out_ += o.opt_pre; Value(n.c[0], in, in); out_ += o.opt_suf; } break;
      case N::kPair:
      case N::kStruct: {
        // The members of a type without own options have the general ones.
        Open(o.st_pre, o);
        bool any = false;
        for (size_t i = 0; i < n.c.size(); ++i) {
          if (!Left(n.c[i], base_)) continue;
          if (any) out_ += o.sep;
          any = true;
          Line();
          Key(base_, n.t == N::kPair ? (i ? "second" : "first") : n.names[i], i, false);
          Value(n.c[i], base_, base_);
        }
        Close(o.st_suf);
        break;
      }
      case N::kKeyed:
        if (o.keyed != 0) {
          Open(o.st_pre, o);
          std::vector<const N*> e;
          for (const N& x : n.c) if (e.size() < o.max_elems) e.push_back(&x);
          for (size_t i = 0; i < e.size(); ++i) { if (i) out_ += o.sep; Line(); Key(in, e[i]->c[0].s, i, true); Value(e[i]->c[1], in, in); }
          Close(o.st_suf);
          break;
        }
        [[fallthrough]];
      default:
        Open(o.co_pre, o);
        for (size_t i = 0; i < n.c.size() && i < o.max_elems; ++i) { if (i) out_ += o.sep; Line(); Value(n.c[i], in, in); }
        Close(o.co_suf);
    }
  }
  const Style& base_;
  const Style* outer_;
  const Style* inner_;
  std::string out_;
  std::vector<std::string> Line_;
};

const OM kModes[] = {OM::kDefault, OM::kCppPretty, OM::kJson};
template <typename T>
std::string Run(const Stringify& st, bool values) {
  T v;
  if (values) { v.opt = "o\n"; v.ptr = std::make_unique<int>(7); }
  return st.ToString(v);
}
void CheckAll(mc::Ctx& c, OM mode, bool full, bool pairs, bool values, const Style* outer, const Style* inner) {
  const SO& base = Stringify::OptionsAs(mode);
  const Style bs = ModeStyle(mode);
  if (full) for (auto& k : g_custom) { k.outer = SO::WithAllRefs(std::move(k.outer), base); k.inner = SO::WithAllRefs(std::move(k.inner), base); }
  g_base = &base;
  g_wrong = false;
  PairByRef v;
  if (values) { v.opt = "o\n"; v.ptr = std::make_unique<int>(7); }
  const std::string want = FieldFormatter(bs, outer, inner).All(D(v));
  const Stringify st(mode);
  std::string got;
  for (int f = pairs ? 2 : 0; f < 4; ++f) {
    c.step();
    got = f == 0 ? Run<ByValue>(st, values) : f == 1 ? Run<ByRef>(st, values) : f == 2 ? Run<PairByValue>(st, values) : Run<PairByRef>(st, values);
    MC_CHECK(c, got == want, "form ", f, ": ", mc::Quote(got), " want ", mc::Quote(want));
    MC_CHECK(c, !g_wrong, "form ", f, " was asked for a wrong field or with wrong options");
  }
  c.state(got);
}
// One field with all pairs of changes for itself and what it holds.
MC_SECTION(one_field) {
  const OM mode = kModes[c.choose(3)];
  const int field = c.choose(kFields), ok = c.choose(kKinds), ik = c.choose(kKinds);
  const bool full = c.flip(), values = c.flip();
  const Style base = ModeStyle(mode);
  std::vector<Style> outer(kFields, base), inner(kFields, base);
  for (auto& k : g_custom) k = {};
  Apply(ok, g_custom[field].outer, outer[field]);
  Apply(ik, g_custom[field].inner, inner[field]);
  // Which of two differing options the keys of a container follow is not specified, nor what those of its elements that are pairs do.
  if (field == 4 && (ok != ik || (!outer[field].keyed && ok != 0))) return;
  CheckAll(c, mode, full, ok != ik, values, outer.data(), inner.data());
}
// Two fields with own options each: neither affects the other or what follows.
MC_SECTION(two_fields) {
  const OM mode = kModes[c.choose(3)];
  const int a = c.choose(kFields), b = a + 1 + c.choose(kFields);
  if (b >= kFields || a == 4 || b == 4) return;
  const int ka = c.choose(kKinds), kb = c.choose(kKinds);
  const Style base = ModeStyle(mode);
  std::vector<Style> all(kFields, base), copies(kFields, base);  // The options refer to their texts.
  for (auto& k : g_custom) k = {};
  for (auto [f, k] : {std::pair(a, ka), std::pair(b, kb)}) { Apply(k, g_custom[f].outer, all[f]); Apply(k, g_custom[f].inner, copies[f]); }
  CheckAll(c, mode, false, false, true, all.data(), all.data());
}

// Names given through options.
std::vector<std::string> g_names;
struct Renamed { int one = 1; std::string two = "2"; std::vector<int> three = {3};
  SREF_FIELDS(one, two, three)
  friend SO MboTypesStringifyOptions(const Renamed& v, const StringifyFieldInfo& i) { return mbo::types::StringifyWithFieldNames(g_names, mbo::types::StringifyNameHandling::kOverwrite)(v, i); } };
MC_SECTION(given_names) {
  const OM modes[] = {OM::kDefault, OM::kCpp, OM::kCppPretty, OM::kJson, OM::kJsonLine, OM::kJsonPretty};
  const OM mode = modes[c.choose(6)];
  const std::vector<std::string> texts = {"one", "uno", "", "q\"\\"};
  g_names.clear();
  for (int n = c.choose(5); n > 0; --n) g_names.push_back(c.pick(texts));
  const Renamed v;
  N n = D(v);
  for (size_t i = 0; i < 3 && i < g_names.size(); ++i) if (!g_names[i].empty()) n.names[i] = g_names[i];
  const Style s = ModeStyle(mode);
  const std::string got = Stringify(mode).ToString(v), want = Formatter(s).All(n);
  MC_CHECK(c, got == want, mc::Quote(got), " want ", mc::Quote(want));
  c.state(got);
}
}  // namespace
