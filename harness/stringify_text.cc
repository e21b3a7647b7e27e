#include <iomanip>
// Stringify: every value of a range of types in every mode, and under all combinations of option groups, against a reference formatter.
#include "lib/mc.h"
#include "harness/stringify_ref.h"
using namespace sref;

namespace {
using OM = Stringify::OutputMode;
const OM kModes[] = {OM::kDefault, OM::kCpp, OM::kCppPretty, OM::kJson, OM::kJsonLine, OM::kJsonPretty};

#ifdef PART_JSON
MC_SECTION(json) {
  const int type = ChooseType(c);
  ForValue(type, [&](int n) { return c.choose(n); }, [&](const auto& v) {
    for (int m = 3; m < 6; ++m) {
      c.step();
      const std::string text = Stringify(kModes[m]).ToString(v);
      jref::Parser p(text);
      const auto got = p.All();
      const jref::M want = Json(D(v));
      MC_CHECK(c, got.has_value(), "type ", type, " mode ", m, ": not JSON at ", p.At(), ": ", mc::Quote(text));
      MC_CHECK(c, Denotes(*got, want, false), "type ", type, " mode ", m, ": ", mc::Quote(text), " does not denote ", Show(want));
      MC_CHECK(c, !text.empty() && text.back() == '\n' && (m == 5 || text.find('\n') == text.size() - 1), "type ", type, " mode ", m, " lines: ", mc::Quote(text));
    }
    c.sample(Stringify::AsJson().ToString(v));
    c.state(Stringify::AsJson().ToString(v));
  });
}
#if TYPES_LO == 0
struct OneString { std::string str; char chr = 0; std::map<std::string, int> map; std::vector<std::string> vec; };
MC_SECTION(json_text) {
  std::string s;
  for (int n = c.choose(3); n > 0; --n) s += char(c.choose(256));
  OneString v{s, s.empty() ? 'x' : s[0], {{s, 1}}, {s, s + "z"}};
  for (int m = 3; m < 6; ++m) {
    const std::string text = Stringify(kModes[m]).ToString(v);
    const auto got = jref::Parser(text).All();
    MC_CHECK(c, got && got->o.size() == 4 && got->o[0].second.s == s && got->o[1].second.s == std::string(1, v.chr) && got->o[2].second.o[0].first == s && got->o[3].second.a[0].s == s && got->o[3].second.a[1].s == s + "z",
             "wrong JSON ", mc::Quote(text), " for ", mc::Quote(s));
  }
}
struct OneFloat { float f; double d; std::vector<double> v; };
MC_SECTION(json_numbers) {
  const uint32_t e = c.choose(256), man = std::vector<uint32_t>{0, 1, 0x400000, 0x7fffff, 0x7ffffe, 0x2aaaaa, 0x199999, 0x4ccccd}[c.choose(8)];
  const uint32_t bits = (e << 23) | man | (c.flip() ? 0x80000000U : 0);
  OneFloat v{};
  memcpy(&v.f, &bits, 4);
  v.d = v.f;
  v.v = {v.d, v.d / 3};
  const auto got = jref::Parser(Stringify::AsJson().ToString(v)).All();
  MC_CHECK(c, got && got->o.size() == 3, "not JSON: ", Stringify::AsJson().ToString(v));
  if (!std::isfinite(v.f)) MC_CHECK(c, got->o[0].second.k == jref::M::kNull && got->o[1].second.k == jref::M::kNull, "not null: ", Stringify::AsJson().ToString(v));
  else MC_CHECK(c, strtof(got->o[0].second.s.c_str(), nullptr) == v.f && strtod(got->o[1].second.s.c_str(), nullptr) == v.d && strtod(got->o[2].second.a[1].s.c_str(), nullptr) == v.d / 3, "digits lost: ", Stringify::AsJson().ToString(v));
}
#endif
#else
MC_SECTION(modes) {
  const int mode = c.choose(6), type = ChooseType(c);
  const bool root = c.flip();
  Style st = ModeStyle(kModes[mode]);
  mbo::types::StringifyRootOptions ro;
  if (root) { ro.root_prefix = "<p>\n  "; ro.root_suffix = "<s>"; ro.root_indent = "  "; st.root_prefix = "<p>\n  "; st.root_suffix = "<s>"; st.root_indent = "  "; }
  const Stringify a(kModes[mode], ro);
  ForValue(type, [&](int n) { return c.choose(n); }, [&](const auto& v) {
    if constexpr (std::same_as<std::remove_cvref_t<decltype(v)>, PairVariants>) if (mode < 3) return;
    c.step();
    const std::string want = Formatter(st).All(D(v)), got = a.ToString(v);
    MC_CHECK(c, got == want, "type ", type, " mode ", mode, ": ", mc::Quote(got), " want ", mc::Quote(want));
    std::ostringstream os;
    a.Stream(os, v);
    MC_CHECK(c, os.str() == want, "Stream differs from ToString: ", mc::Quote(os.str()), " want ", mc::Quote(want));
    std::ostringstream formatted;  // What the stream is set to do with other values.
    formatted << std::hex << std::showbase << std::showpos << std::uppercase << std::boolalpha << std::fixed << std::setprecision(1) << std::setfill('*') << std::left;
    a.Stream(formatted, v);
    MC_CHECK(c, formatted.str() == want, "Stream to a stream with format flags differs: ", mc::Quote(formatted.str()), " want ", mc::Quote(want));
    MC_CHECK(c, (formatted.flags() & (std::ios::basefield | std::ios::showpos)) == (std::ios::hex | std::ios::showpos) && formatted.precision() == 1 && formatted.fill() == '*', "Stream changes the format flags of the stream");
    MC_CHECK(c, Stringify(kModes[mode]).ToString(v, ro) == want && Stringify(Stringify::OptionsAs(kModes[mode]), ro).ToString(v) == want, "root options given otherwise differ");
    static const mbo::types::StringifyRootOptions other{.root_prefix = "other", .root_indent = "    "};
    MC_CHECK(c, Stringify(kModes[mode], other).ToString(v, ro) == want, "root options given to a call do not replace the default ones");
    if (!root) {
      std::string n;
      switch (mode) { case 0: n = Stringify().ToString(v); break; case 1: n = Stringify::AsCpp().ToString(v); break; case 2: n = Stringify::AsCppPretty().ToString(v); break; case 3: n = Stringify::AsJson().ToString(v); break; case 4: n = Stringify::AsJsonLine().ToString(v); break; default: n = Stringify::AsJsonPretty().ToString(v); }
      MC_CHECK(c, n == want, "named mode differs: ", mc::Quote(n));
    }
    if constexpr (mbo::types::types_internal::IsExtended<std::remove_cvref_t<decltype(v)>>) {
      if (!root) MC_CHECK(c, v.ToString(Stringify::OptionsAs(kModes[mode])) == want, "ToString member differs");
    }
    c.sample(got);
    c.state(got);
  });
}

// Both forms of the same options.
struct Both {
  Style s;
  SO o;
};
void Compared(mc::Ctx& c, const Both& b, int type, bool no_ordered_cut = false) {
  ForValue(type, [&](int n) { return c.choose(n); }, [&](const auto& v) {
    using V = std::remove_cvref_t<decltype(v)>;
    if constexpr (std::same_as<V, PairVariants>) if (b.s.key_mode != 2) return;
    if constexpr (std::same_as<V, RootVec>) if (b.s.keyed == 2 && b.s.max_elems < 100) return;
    c.step();
    const SO all = SO::WithAllData(SO{b.o});
    const SO refs = SO::WithAllRefs(b.o, Stringify::OptionsDefault());
    const std::string want = Formatter(b.s).All(D(v)), got = Stringify(all).ToString(v);
    MC_CHECK(c, got == want, "type ", type, ": ", mc::Quote(got), " want ", mc::Quote(want));
    MC_CHECK(c, Stringify(refs).ToString(v) == want, "options by reference differ: ", mc::Quote(Stringify(refs).ToString(v)));
    c.state(got);
  });
}
MC_SECTION(punctuation) {
  Both b;
  auto& f = b.o.format.as_data();
  auto set = [&](std::string_view& o, std::string& s, const char* v) { o = v; s = v; };
  // Every single piece changed, on top of two bases.
  const int base = c.choose(2);
  if (base) { set(f.field_indent, b.s.indent, "\t"); set(f.container_prefix, b.s.co_pre, "["); set(f.container_suffix, b.s.co_suf, "]"); }
  const int which = c.choose(20);
  const char* text = c.pick(std::vector<const char*>{"", "<1>"});
  switch (which) {
    case 0: set(f.message_prefix, b.s.msg_prefix, text); break;
    case 1: set(f.message_suffix, b.s.msg_suffix, text); break;
    case 2: set(f.field_indent, b.s.indent, text); break;
    case 3: set(f.key_value_separator, b.s.kv, text); break;
    case 4: set(f.field_separator, b.s.sep, text); break;
    case 5: set(f.pointer_prefix, b.s.raw_pre, text); break;
    case 6: set(f.pointer_suffix, b.s.raw_suf, text); break;
    case 7: set(f.smart_ptr_prefix, b.s.smart_pre, text); break;
    case 8: set(f.smart_ptr_suffix, b.s.smart_suf, text); break;
    case 9: set(f.optional_prefix, b.s.opt_pre, text); break;
    case 10: set(f.optional_suffix, b.s.opt_suf, text); break;
    case 11: set(f.structure_prefix, b.s.st_pre, text); break;
    case 12: set(f.structure_suffix, b.s.st_suf, text); break;
    case 13: set(f.container_prefix, b.s.co_pre, text); break;
    case 14: set(f.container_suffix, b.s.co_suf, text); break;
    case 15: set(f.char_delim, b.s.ch, text); break;
    case 16: set(f.string_delim, b.s.st, text); break;
    case 17: set(b.o.key_control.as_data().key_prefix, b.s.key_pre, text); break;
    case 18: set(b.o.key_control.as_data().key_suffix, b.s.key_suf, text); break;
    default: set(b.o.field_control.as_data().field_disabled, b.s.off, text); break;
  }
  Compared(c, b, ChooseType(c));
}
MC_SECTION(fields) {
  Both b;
  auto& f = b.o.field_control.as_data();
  const int m = c.choose(16);
  f.suppress = b.s.sup = m & 1; f.suppress_nullptr = b.s.sup_null = m & 2; f.suppress_nullopt = b.s.sup_nullopt = m & 4; f.suppress_disabled = b.s.sup_off = m & 8;
  const int k = c.choose(3);
  b.s.key_mode = k;
  b.o.key_control.as_data().key_mode = k == 0 ? SO::KeyMode::kNone : k == 1 ? SO::KeyMode::kNormal : SO::KeyMode::kNumericFallback;
  if (c.flip()) { b.s.indent = " "; b.o.format.as_data().field_indent = " "; }
  Compared(c, b, ChooseType(c));
}
MC_SECTION(keys) {
  Both b;
  const int k = c.choose(3), keyed = c.choose(3), pk = c.choose(3), use = c.choose(3), max = c.choose(4);
  b.s.key_mode = k;
  b.o.key_control.as_data().key_mode = k == 0 ? SO::KeyMode::kNone : k == 1 ? SO::KeyMode::kNormal : SO::KeyMode::kNumericFallback;
  auto& s = b.o.special.as_data();
  b.s.keyed = keyed;
  s.str_keyed = keyed == 0 ? SO::StrKeyed::kNormal : keyed == 1 ? SO::StrKeyed::kFirstIsName : SO::StrKeyed::kFirstIsNameOrdered;
  if (pk == 1) { s.pair_keys = {{"Key", "Val"}}; b.s.pair_keys = {{"Key", "Val"}}; }
  if (pk == 2) { s.pair_keys.reset(); b.s.pair_keys.reset(); }
  static const mbo::types::StringifyFieldInfoString kFn = [](const mbo::types::StringifyFieldInfo&) { return "fn"; };
  if (use == 1) { b.o.key_overrides.as_data().key_use_name = "used"; b.s.use_name = "used"; b.s.use_name_set = true; }
  if (use == 2) { b.o.key_overrides.as_data().key_use_name = &kFn; b.s.use_name = "fn"; b.s.use_name_set = true; }
  if (max < 3) { b.o.value_control.as_data().container_max_len = max; b.s.max_elems = max; }
  const int type = ChooseType(c);
  if (type <= 2 || type == 8 || type == 9 || type == 12 || type == 15 || type == 21) return;
  Compared(c, b, type);
}
MC_SECTION(values) {
  Both b;
  auto& v = b.o.value_control.as_data();
  const int e = c.choose(4), cut = c.choose(5), rep = c.choose(4);
  b.s.esc = e;
  v.escape_mode = e == 0 ? SO::EscapeMode::kNone : e == 1 ? SO::EscapeMode::kCEscape : e == 2 ? SO::EscapeMode::kCHexEscape : SO::EscapeMode::kJson;
  if (cut < 4) { b.s.max_str = cut; v.str_max_length = cut; b.s.cut = "~"; v.str_cutoff_suffix = "~"; }
  if (rep & 1) { b.s.rep_str = "<S>"; b.o.value_overrides.as_data().replacement_str = "<S>"; }
  if (rep & 2) { b.s.rep_other = "<O>"; b.o.value_overrides.as_data().replacement_other = "<O>"; }
  if (c.flip()) { v.nullptr_t_str = b.s.nullptr_t_str = "N1"; v.nullptr_v_str = b.s.nullptr_v = "N2"; v.nullopt_str = b.s.nullopt = "N3"; }
  if (c.flip()) v.other_types_direct = false;
  const int type = ChooseType(c);
  if (type == 1 && e == 0 && cut < 4) return;  // A shortened quote is not specified.
  Compared(c, b, type);
}
#if TYPES_LO <= 11 && 11 < TYPES_HI
MC_SECTION(escapes) {
  std::string s;
  for (int n = c.choose(3); n > 0; --n) s += char(c.choose(256));
  for (int e = 0; e < 4; ++e) {
    Style st;
    st.esc = e;
    SO o;
    o.value_control.as_data().escape_mode = e == 0 ? SO::EscapeMode::kNone : e == 1 ? SO::EscapeMode::kCEscape : e == 2 ? SO::EscapeMode::kCHexEscape : SO::EscapeMode::kJson;
    const SO all = SO::WithAllData(std::move(o));
    const Single v{s + "a1"};
    MC_CHECK(c, Stringify(all).ToString(v) == Formatter(st).All(D(v)), mc::Quote(s), " mode ", e, ": ", mc::Quote(Stringify(all).ToString(v)));
  }
}
#endif
#endif
}  // namespace
