// Demangling: the readable name when there is one, otherwise the name itself; nothing is lost, leaked or freed twice.
#include "lib/mc.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "mbo/log/demangle.h"

namespace {
enum Mode { kReal, kNoMemory, kInvalid, kBadArg, kNullOk };
Mode g_mode = kReal;
size_t g_calls = 0;
using Fn = char* (*)(const char*, char*, size_t*, int*);
Fn Real() { static const Fn f = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "__cxa_demangle")); return f; }
std::string Reference(const std::string& name) {
  int st = 0;
  char* p = Real()(name.c_str(), nullptr, nullptr, &st);
  const std::string r = st == 0 && p ? p : name;
  free(p);
  return r;
}
struct Some {};
template <typename... T> struct Tmpl {};
struct Poly { virtual ~Poly() = default; };
struct Derived : Poly {};
union U { int a; };
enum class E { a };
}  // namespace

// The demangler of the C++ runtime, with failures injected.
extern "C" char* __cxa_demangle(const char* name, char* buf, size_t* len, int* st) {
  ++g_calls;
  switch (g_mode) {
    case kReal: return Real()(name, buf, len, st);
    case kNoMemory: *st = -1; return nullptr;
    case kInvalid: *st = -2; return nullptr;
    case kBadArg: *st = -3; return nullptr;
    case kNullOk: *st = 0; return nullptr;
  }
  return nullptr;
}

MC_SECTION(names) {
  static const char kAlpha[] = {'_', 'Z', '1', 'a', 'N', 'E', 'v', 'P', 'S', 't', 'I', 'i', '3', '\xff'};
  std::string name;
  const int max = mc::Tier(5, 6);
  const int len = c.choose(max + 1);
  for (int i = 0; i < len; ++i) name += kAlpha[c.choose(i > 2 ? (mc::Thorough() ? 10 : 8) : 14)];
  c.step();
  const size_t before = __sanitizer_get_current_allocated_bytes();
  for (const Mode m : {kReal, kNoMemory, kInvalid, kBadArg, kNullOk}) {
    g_mode = m;
    const std::string got = mbo::log::Demangle(name.c_str());
    const std::string want = m == kReal ? Reference(name) : name;
    MC_CHECK(c, got == want, mc::Quote(name), " with runtime behaviour ", int(m), " gives ", mc::Quote(got), " want ", mc::Quote(want));
    if (got != name) c.state(mc::Fnv(got));
  }
  g_mode = kReal;
  { std::string a = mbo::log::Demangle(name.c_str()); }
  const size_t mid = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < 3; ++i) { std::string a = mbo::log::Demangle(name.c_str()); }
  MC_CHECK(c, __sanitizer_get_current_allocated_bytes() == mid, mc::Quote(name), ": memory is kept");
}

// Readable names of every length: a scope of fixed parts and one that has the rest.
MC_SECTION(lengths) {
  const int kind = c.choose(4), len = 1 + c.choose(kind == 3 ? mc::Tier(200, 400) : mc::Tier(1300, 4000));
  std::string parts;
  for (int left = len; left > 0; left -= 500) { const int n = std::min(left, 500); parts += std::to_string(n) + std::string(n, 'a' + (left / 500) % 26); }
  std::string same;  // The same part again: the readable name is much longer than the name itself.
  for (int i = 0; kind == 3 && i < 200; ++i) same += "S_";
  const std::string name = kind == 3 ? "_Z1f" + parts + same : kind == 0 ? "_ZN" + parts + "E" : kind == 1 ? "_ZN" + parts + "Ev" : "_ZN" + parts;
  c.step();
  g_mode = kReal;
  const std::string want = Reference(name), first = mbo::log::Demangle(name.c_str());
  c.state(mc::Fnv(first));
  MC_CHECK(c, first == want, "a name of length ", len, " of kind ", kind, " gives ", mc::Quote(first.substr(0, 100)), " of length ", first.size(), " want ", mc::Quote(want.substr(0, 100)), " of length ", want.size());
  MC_CHECK(c, kind == 2 ? want == name : want != name || name.size() > 1000, "the runtime does not demangle a name of length ", name.size(), " of kind ", kind);
  const size_t mid = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < 2; ++i) { std::string a = mbo::log::Demangle(name.c_str()); }
  MC_CHECK(c, __sanitizer_get_current_allocated_bytes() == mid, "a name of length ", len, ": memory is kept");
}

MC_SECTION_D(types, 0) {
  g_mode = kReal;
  auto is = [&](const std::string& got, const std::string& want) { c.step(); c.state(mc::Fnv(want)); MC_CHECK(c, got == want, "got ", got, " want ", want); };
  using mbo::log::DemangleV;
  is(DemangleV(1), "int"); is(DemangleV(1U), "unsigned int"); is(DemangleV('c'), "char"); is(DemangleV(1.5), "double"); is(DemangleV(nullptr), "decltype(nullptr)"); is(DemangleV(true), "bool");
  is(DemangleV(static_cast<const int*>(nullptr)), "int const*"); is(DemangleV(Some{}), "(anonymous namespace)::Some"); const Some cs; is(DemangleV(cs), "(anonymous namespace)::Some");
  is(DemangleV(Tmpl<int, Some>{}), "(anonymous namespace)::Tmpl<int, (anonymous namespace)::Some>"); is(DemangleV(Tmpl<>{}), "(anonymous namespace)::Tmpl<>");
  is(DemangleV(U{}), "(anonymous namespace)::U"); is(DemangleV(E::a), "(anonymous namespace)::E"); is(DemangleV("abc"), "char [4]");
  Derived d; const Poly& p = d; is(DemangleV(p), "(anonymous namespace)::Derived"); is(DemangleV(d), "(anonymous namespace)::Derived"); Poly q; is(DemangleV(q), "(anonymous namespace)::Poly");
  is(DemangleV(std::pair<int, char>()), "std::pair<int, char>");
  std::string longname;
  for (int i = 0; i < 2000; ++i) longname += "1a";
  is(mbo::log::Demangle(("_ZN" + longname + "E").c_str()), Reference("_ZN" + longname + "E"));
  is(mbo::log::Demangle(longname.c_str()), Reference(longname));
}
