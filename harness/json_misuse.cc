// What a JSON value refuses: each misuse raises an error and leaves the value as it was.
#include "lib/mc.h"
#include "mbo/json/json.h"

namespace {
using mbo::json::Json;
std::vector<Json> Values() {
  std::vector<Json> r(7);
  r[1] = true; r[2] = 7; r[3] = 1.5; r[4] = "s";
  r[5].push_back(1); r[5].push_back("x");
  r[6]["a"] = 1; r[6]["b"]["c"] = 2;
  return r;
}
MC_SECTION(misuse) {
  Json j = Values()[c.choose(7)];
  const Json before = j;
  const Json& cj = j;
  const bool arr = j.IsArray(), obj = j.IsObject(), null = j.IsNull(), str = j.IsString();
  auto refused = [&](const char* what, bool want, auto f) {
    c.step();
    bool threw = false;
    try { f(); } catch (const std::exception&) { threw = true; }
    MC_CHECK(c, threw == want, what, want ? " was accepted" : " was refused", " for kind ", int(before.GetKind()));
    if (threw) MC_CHECK(c, j == before && j.GetKind() == before.GetKind(), what, " was refused but changed the value of kind ", int(before.GetKind()));
  };
  switch (c.choose(23)) {
    case 0: refused("MakeArray", !(null || arr), [&] { j.MakeArray(); }); break;
    case 1: refused("MakeObject", !(null || obj), [&] { j.MakeObject(); }); break;
    case 2: refused("MakeString", !(null || str), [&] { j.MakeString("x"); }); break;
    case 3: refused("push_back", !(null || arr), [&] { j.push_back(1); }); break;
    case 4: refused("emplace_back", !(null || arr), [&] { j.emplace_back("x"); }); break;
    case 5: refused("emplace", !(null || obj), [&] { j.emplace("k", 1); }); break;
    case 6: refused("pop_back", !arr, [&] { j.pop_back(); }); break;
    case 7: { const size_t i = c.choose(4); refused("index", !(arr && i < 2), [&] { if (null) { Json copy; copy[i] = 1; } else j[i]; }); break; }
    case 8: { const size_t i = c.choose(4); refused("const index", !(arr && i < 2), [&] { (void)cj[i]; }); break; }
    case 9: { const size_t i = c.choose(4); refused("at", !(arr && i < 2), [&] { if (null) { Json copy; copy.at(i) = 1; } else j.at(i); }); break; }
    case 10: { const size_t i = c.choose(4); refused("const at", !(arr && i < 2), [&] { (void)cj.at(i); }); break; }
    case 11: refused("resize", !arr, [&] { j.resize(1); }); break;
    case 12: refused("resize with value", !arr, [&] { j.resize(3, 7); }); break;
    case 13: refused("begin", !arr, [&] { (void)j.begin(); }); refused("end", !arr, [&] { (void)j.end(); }); refused("const begin", !arr, [&] { (void)cj.begin(); }); refused("const end", !arr, [&] { (void)cj.end(); }); break;
    case 14: refused("rbegin", !arr, [&] { (void)j.rbegin(); }); refused("rend", !arr, [&] { (void)j.rend(); }); refused("const rbegin", !arr, [&] { (void)cj.rbegin(); }); refused("const rend", !arr, [&] { (void)cj.rend(); }); break;
    case 15: refused("cbegin", !arr, [&] { (void)j.cbegin(); }); refused("cend", !arr, [&] { (void)j.cend(); }); refused("crbegin", !arr, [&] { (void)j.crbegin(); }); refused("crend", !arr, [&] { (void)j.crend(); }); break;
    case 16: refused("values", !(arr || obj), [&] { (void)j.values(); }); refused("const values", !(arr || obj), [&] { (void)cj.values(); }); break;
    case 17: refused("array_values", !arr, [&] { (void)j.array_values(); }); refused("const array_values", !arr, [&] { (void)cj.array_values(); }); break;
    case 18: refused("property_names", !obj, [&] { (void)j.property_names(); }); break;
    case 19: refused("property_pairs", !obj, [&] { (void)j.property_pairs(); }); refused("const property_pairs", !obj, [&] { (void)cj.property_pairs(); }); break;
    case 20: refused("property_values", !obj, [&] { (void)j.property_values(); }); refused("const property_values", !obj, [&] { (void)cj.property_values(); }); break;
    case 21: refused("Serialize", !(obj || null), [&] { (void)j.Serialize(); }); refused("Stream", !(obj || null), [&] { std::ostringstream os; j.Stream(os); }); break;
    case 22: MC_CHECK(c, cj.size() == before.size() && !cj.contains("nope") && j.erase("nope") == 0 && j == before, "queries changed the value"); break;
  }
  c.state(mc::Cat(int(before.GetKind()), c.depth()));
}
}  // namespace
