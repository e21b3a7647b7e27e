#ifndef VERIF_SHIM_ABSL_SUBSTITUTE_H_
#define VERIF_SHIM_ABSL_SUBSTITUTE_H_
#include "absl/strings/str_cat.h"
namespace absl {
template <typename... A> std::string Substitute(std::string_view f, const A&... a) {
  std::vector<std::string> v{StrCat(a)...}; std::string o;
  for (size_t i = 0; i < f.size(); ++i) { if (f[i] == '$' && i + 1 < f.size()) { ++i; if (f[i] == '$') o.push_back('$'); else { size_t n = (size_t)(f[i] - '0'); if (n < v.size()) o += v[n]; } } else o.push_back(f[i]); }
  return o;
}
}
#endif
