#ifndef VERIF_SHIM_ABSL_MARSHALLING_H_
#define VERIF_SHIM_ABSL_MARSHALLING_H_
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/base/log_severity.h"
#include "absl/strings/numbers.h"
#include "absl/strings/ascii.h"
#include "absl/strings/str_cat.h"
namespace absl {
template <typename T> bool ParseFlag(std::string_view in, T* d, std::string* err);
template <typename T> std::string UnparseFlag(const T& v);
inline bool AbslParseFlag(std::string_view s, LogSeverity* d, std::string* err) {
  std::string l = AsciiStrToLower(s);
  if (l == "info" || l == "0") *d = LogSeverity::kInfo; else if (l == "warning" || l == "1") *d = LogSeverity::kWarning; else if (l == "error" || l == "2") *d = LogSeverity::kError; else if (l == "fatal" || l == "3") *d = LogSeverity::kFatal; else { *err = "bad severity"; return false; }
  return true;
}
inline std::string AbslUnparseFlag(LogSeverity s) { return LogSeverityName(s); }
namespace flags_internal {
template <typename T> concept HasParse = requires(std::string_view s, T* t, std::string* e) { { AbslParseFlag(s, t, e) } -> std::convertible_to<bool>; };
template <typename T> concept HasUnparse = requires(const T& t) { AbslUnparseFlag(t); };
template <typename T> inline constexpr bool kOpt = false;
template <typename T> inline constexpr bool kOpt<std::optional<T>> = true;
}  // namespace flags_internal
template <typename T> bool ParseFlag(std::string_view in, T* d, std::string* err) {
  if constexpr (std::is_same_v<T, bool>) {
    std::string l = AsciiStrToLower(in);
    for (const char* t : {"true", "t", "yes", "y", "1"}) if (l == t) { *d = true; return true; }
    for (const char* t : {"false", "f", "no", "n", "0"}) if (l == t) { *d = false; return true; }
    return false;
  } else if constexpr (std::is_integral_v<T>) {
    std::string s(StripAsciiWhitespace(in));
    if (s.empty()) return false;
    char* e = nullptr; errno = 0;
    if constexpr (std::is_signed_v<T>) { long long v = std::strtoll(s.c_str(), &e, 0); if (*e || errno || v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) return false; *d = static_cast<T>(v); }
    else { if (s[0] == '-') return false; unsigned long long v = std::strtoull(s.c_str(), &e, 0); if (*e || errno || v > std::numeric_limits<T>::max()) return false; *d = static_cast<T>(v); }
    return true;
  } else if constexpr (std::is_floating_point_v<T>) { char* e = nullptr; std::string s(in); *d = static_cast<T>(std::strtod(s.c_str(), &e)); return !s.empty() && !*e; }
  else if constexpr (std::is_same_v<T, std::string>) { *d = std::string(in); return true; }
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { d->clear(); if (in.empty()) return true; for (;;) { auto p = in.find(','); d->emplace_back(in.substr(0, p)); if (p == in.npos) break; in.remove_prefix(p + 1); } return true; }
  else if constexpr (flags_internal::kOpt<T>) { if (in.empty()) { d->reset(); return true; } typename T::value_type v{}; if (!ParseFlag(in, &v, err)) return false; *d = std::move(v); return true; }
  else { return AbslParseFlag(in, d, err); }
}
template <typename T> std::string UnparseFlag(const T& v) {
  if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else if constexpr (std::is_arithmetic_v<T>) return StrCat(v);
  else if constexpr (std::is_same_v<T, std::string>) return v;
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; } return r; }
  else if constexpr (flags_internal::kOpt<T>) return v ? UnparseFlag(*v) : "";
  else return std::string(AbslUnparseFlag(v));
}
}  // namespace absl
#endif
