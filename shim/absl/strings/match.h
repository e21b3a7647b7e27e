#ifndef VERIF_SHIM_ABSL_MATCH_H_
#define VERIF_SHIM_ABSL_MATCH_H_
#include <algorithm>
#include <string_view>
#include "absl/strings/ascii.h"
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) noexcept { return h.find(n) != h.npos; }
inline bool StrContains(std::string_view h, char c) noexcept { return h.find(c) != h.npos; }
inline bool StartsWith(std::string_view s, std::string_view p) noexcept { return s.starts_with(p); }
inline bool EndsWith(std::string_view s, std::string_view p) noexcept { return s.ends_with(p); }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) noexcept {
  return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return ascii_tolower(static_cast<unsigned char>(x)) == ascii_tolower(static_cast<unsigned char>(y)); });
}
inline bool StartsWithIgnoreCase(std::string_view s, std::string_view p) noexcept { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view s, std::string_view p) noexcept { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(s.size() - p.size()), p); }
inline bool StrContainsIgnoreCase(std::string_view h, std::string_view n) noexcept { return AsciiStrToLower(h).find(AsciiStrToLower(n)) != std::string::npos; }
}  // namespace absl
#endif
