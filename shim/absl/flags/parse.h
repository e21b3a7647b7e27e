#ifndef VERIF_SHIM_ABSL_PARSE_H_
#define VERIF_SHIM_ABSL_PARSE_H_
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <vector>
#include "absl/flags/commandlineflag.h"
#include "absl/flags/usage.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) {
  std::vector<char*> out{argv[0]};
  bool rest = false, bad = false;
  for (int i = 1; i < argc; ++i) {
    std::string_view a = argv[i];
    if (rest || a.size() < 2 || a[0] != '-') { out.push_back(argv[i]); continue; }
    if (a == "--") { rest = true; continue; }
    a.remove_prefix(a.starts_with("--") ? 2 : 1);
    std::string_view name = a, val; bool has = false;
    if (auto p = a.find('='); p != a.npos) { name = a.substr(0, p); val = a.substr(p + 1); has = true; }
    if (name == "help") { std::printf("%s\n", flags_internal::Usage().c_str()); std::exit(1); }
    CommandLineFlag* f = FindCommandLineFlag(name);
    std::string err;
    if (!f && name.starts_with("no") && (f = FindCommandLineFlag(name.substr(2))) && f->IsBool() && !has) { f->ParseFromCommandLine("false", &err); continue; }
    if (!f) { std::fprintf(stderr, "ERROR: Unknown command line flag '%s'\n", std::string(name).c_str()); bad = true; continue; }
    if (!has) { if (f->IsBool()) val = "true"; else if (i + 1 < argc) val = argv[++i]; else { std::fprintf(stderr, "ERROR: Missing the value for the flag '%s'\n", std::string(name).c_str()); bad = true; continue; } }
    if (!f->ParseFromCommandLine(val, &err)) { std::fprintf(stderr, "ERROR: Illegal value '%s' specified for flag '%s'; %s\n", std::string(val).c_str(), std::string(name).c_str(), err.c_str()); bad = true; }
  }
  if (bad) std::exit(1);
  return out;
}
}  // namespace absl
#endif
