#ifndef VERIF_SHIM_ABSL_NUMBERS_H_
#define VERIF_SHIM_ABSL_NUMBERS_H_
#include <cerrno>
#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/ascii.h"
namespace absl {
namespace numbers_internal {
template <typename Int>
bool ParseInt(std::string_view s, Int* out, int base) {
  *out = 0;
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  if ((base == 0 || base == 16) && s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s.remove_prefix(2); base = 16; if (s.empty()) return false; }
  else if (base == 0) { base = s[0] == '0' ? 8 : 10; }
  if (neg && std::is_unsigned_v<Int>) return false;
  using Wide = __int128;
  Wide v = 0;
  const Wide lo = static_cast<Wide>(std::numeric_limits<Int>::min()), hi = static_cast<Wide>(std::numeric_limits<Int>::max());
  for (char c : s) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    if (d >= base) { return false; }
    v = v * base + (neg ? -d : d);
    if (v < lo) { *out = std::numeric_limits<Int>::min(); return false; }
    if (v > hi) { *out = std::numeric_limits<Int>::max(); return false; }
  }
  *out = static_cast<Int>(v);
  return true;
}
}  // namespace numbers_internal
template <typename Int> [[nodiscard]] bool SimpleAtoi(std::string_view s, Int* out) {
  static_assert(std::is_integral_v<Int>);
  return numbers_internal::ParseInt(s, out, 10);
}
template <typename Int> [[nodiscard]] bool SimpleHexAtoi(std::string_view s, Int* out) { return numbers_internal::ParseInt(s, out, 16); }
namespace numbers_internal {
template <typename F> bool ParseFloat(std::string_view s, F* out) {
  *out = 0;
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') { s.remove_prefix(1); if (!s.empty() && s[0] == '-') return false; }
  if (s.empty()) return false;
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  if (r.ptr != s.data() + s.size()) return false;
  if (r.ec == std::errc::result_out_of_range) { std::string z(s); *out = static_cast<F>(std::strtod(z.c_str(), nullptr)); return true; }
  return r.ec == std::errc();
}
}
[[nodiscard]] inline bool SimpleAtof(std::string_view s, float* o) { return numbers_internal::ParseFloat(s, o); }
[[nodiscard]] inline bool SimpleAtod(std::string_view s, double* o) { return numbers_internal::ParseFloat(s, o); }
[[nodiscard]] inline bool SimpleAtob(std::string_view s, bool* o) {
  std::string l = AsciiStrToLower(s);
  if (l == "true" || l == "t" || l == "yes" || l == "y" || l == "1") { *o = true; return true; }
  if (l == "false" || l == "f" || l == "no" || l == "n" || l == "0") { *o = false; return true; }
  return false;
}
}  // namespace absl
#endif
