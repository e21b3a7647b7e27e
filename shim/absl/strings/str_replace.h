#ifndef VERIF_SHIM_ABSL_STR_REPLACE_H_
#define VERIF_SHIM_ABSL_STR_REPLACE_H_
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
namespace strings_internal {
template <typename R> std::string ReplaceAll(std::string_view s, const R& reps, int* count) {
  std::string out; size_t pos = 0;
  while (pos <= s.size()) {
    size_t best = std::string_view::npos; std::string_view bo, bn;
    for (const auto& r : reps) { std::string_view o(std::get<0>(r)), n(std::get<1>(r)); if (o.empty()) continue; size_t f = s.find(o, pos); if (f != s.npos && (best == s.npos || f < best || (f == best && o.size() > bo.size()))) { best = f; bo = o; bn = n; } }
    if (best == s.npos) break;
    out.append(s.substr(pos, best - pos)); out.append(bn); pos = best + bo.size(); ++*count;
  }
  out.append(s.substr(pos));
  return out;
}
}  // namespace strings_internal
[[nodiscard]] inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> r) { int c = 0; return strings_internal::ReplaceAll(s, r, &c); }
template <typename R> [[nodiscard]] std::string StrReplaceAll(std::string_view s, const R& r) { int c = 0; return strings_internal::ReplaceAll(s, r, &c); }
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> r, std::string* t) { int c = 0; *t = strings_internal::ReplaceAll(*t, r, &c); return c; }
}  // namespace absl
#endif
