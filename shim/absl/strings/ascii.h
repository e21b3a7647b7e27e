#ifndef VERIF_SHIM_ABSL_ASCII_H_
#define VERIF_SHIM_ABSL_ASCII_H_
#include <algorithm>
#include <string>
#include <string_view>
namespace absl {
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isalpha(unsigned char c) { return ascii_isupper(c) || ascii_islower(c); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isgraph(c) && !ascii_isalnum(c); }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline char ascii_tolower(unsigned char c) { return static_cast<char>(ascii_isupper(c) ? c + 32 : c); }
inline char ascii_toupper(unsigned char c) { return static_cast<char>(ascii_islower(c) ? c - 32 : c); }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) c = ascii_tolower(static_cast<unsigned char>(c)); }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) c = ascii_toupper(static_cast<unsigned char>(c)); }
[[nodiscard]] inline std::string AsciiStrToLower(std::string_view v) { std::string s(v); AsciiStrToLower(&s); return s; }
[[nodiscard]] inline std::string AsciiStrToUpper(std::string_view v) { std::string s(v); AsciiStrToUpper(&s); return s; }
[[nodiscard]] inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(static_cast<unsigned char>(s.front()))) s.remove_prefix(1);
  return s;
}
[[nodiscard]] inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(static_cast<unsigned char>(s.back()))) s.remove_suffix(1);
  return s;
}
[[nodiscard]] inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(std::string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(std::string_view(*s))); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(std::string_view(*s))); }
inline void RemoveExtraAsciiWhitespace(std::string* s) {
  std::string out;
  std::string_view v = StripAsciiWhitespace(std::string_view(*s));
  bool sp = false;
  for (char c : v) {
    if (ascii_isspace(static_cast<unsigned char>(c))) { if (!sp) out.push_back(c); sp = true; }
    else { out.push_back(c); sp = false; }
  }
  *s = out;
}
}  // namespace absl
#endif
