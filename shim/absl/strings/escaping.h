#ifndef VERIF_SHIM_ABSL_ESCAPING_H_
#define VERIF_SHIM_ABSL_ESCAPING_H_
#include <cstdio>
#include <string>
#include <string_view>
#include "absl/strings/ascii.h"
namespace absl {
namespace strings_internal {
inline std::string CEsc(std::string_view s, bool hex, bool utf8) {
  std::string o; bool last_hex = false;
  for (unsigned char c : s) {
    bool is_hex = false;
    switch (c) {
      case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
      case '"': o += "\\\""; break; case '\'': o += "\\'"; break; case '\\': o += "\\\\"; break;
      default:
        if ((!utf8 || c < 128) && (!ascii_isprint(c) || (last_hex && ascii_isxdigit(c)))) { char b[8]; std::snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c); o += b; is_hex = hex; }
        else o.push_back((char)c);
    }
    last_hex = is_hex;
  }
  return o;
}
}  // namespace strings_internal
[[nodiscard]] inline std::string CEscape(std::string_view s) { return strings_internal::CEsc(s, false, false); }
[[nodiscard]] inline std::string CHexEscape(std::string_view s) { return strings_internal::CEsc(s, true, false); }
[[nodiscard]] inline std::string Utf8SafeCEscape(std::string_view s) { return strings_internal::CEsc(s, false, true); }
[[nodiscard]] inline std::string Utf8SafeCHexEscape(std::string_view s) { return strings_internal::CEsc(s, true, true); }
[[nodiscard]] inline std::string BytesToHexString(std::string_view s) { std::string o; for (unsigned char c : s) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
[[nodiscard]] inline std::string HexStringToBytes(std::string_view s) { std::string o; auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((char)(d(s[i]) * 16 + d(s[i + 1]))); return o; }
}  // namespace absl
#endif
