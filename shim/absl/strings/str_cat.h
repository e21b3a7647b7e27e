#ifndef VERIF_SHIM_ABSL_STR_CAT_H_
#define VERIF_SHIM_ABSL_STR_CAT_H_
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/has_absl_stringify.h"
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec : uint8_t {
  kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16, kZeroPad17, kZeroPad18, kZeroPad19, kZeroPad20,
  kSpacePad2 = kZeroPad2 + 64, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8, kSpacePad9, kSpacePad10, kSpacePad11, kSpacePad12, kSpacePad13, kSpacePad14, kSpacePad15, kSpacePad16, kSpacePad17, kSpacePad18, kSpacePad19, kSpacePad20,
};
struct Hex {
  uint64_t value; uint8_t width; char fill;
  template <typename T> explicit Hex(T v, PadSpec spec = kNoPad) : value(std::is_pointer_v<T> ? (uint64_t)v : (uint64_t)(std::make_unsigned_t<std::conditional_t<std::is_pointer_v<T>, uint64_t, T>>)v), width(spec == kNoPad ? 1 : spec >= kSpacePad2 ? spec - kSpacePad2 + 2 : spec - kZeroPad2 + 2), fill(spec >= kSpacePad2 ? ' ' : '0') {}
};
struct Dec {
  uint64_t value; uint8_t width; char fill; bool neg;
  template <typename T> explicit Dec(T v, PadSpec spec = kNoPad) : value(v >= 0 ? (uint64_t)v : 0 - (uint64_t)v), width(spec == kNoPad ? 1 : spec >= kSpacePad2 ? spec - kSpacePad2 + 2 : spec - kZeroPad2 + 2), fill(spec >= kSpacePad2 ? ' ' : '0'), neg(v < 0) {}
};
namespace strings_internal {
inline std::string SixDigits(double d) {
  if (d != d) return "nan";
  char b[64];
  std::snprintf(b, sizeof b, "%g", d);
  return b;
}
}  // namespace strings_internal
class AlphaNum {
 public:
  template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, char>)
  AlphaNum(T v) : own_(std::is_same_v<T, bool> ? (v ? "1" : "0") : std::to_string(v)) {}
  AlphaNum(char c) = delete;
  AlphaNum(float f) : own_(strings_internal::SixDigits(f)) {}
  AlphaNum(double f) : own_(strings_internal::SixDigits(f)) {}
  AlphaNum(const char* c) : view_(c ? c : ""), is_view_(true) {}
  AlphaNum(std::string_view v) : view_(v), is_view_(true) {}
  template <typename A> AlphaNum(const std::basic_string<char, std::char_traits<char>, A>& s) : view_(s), is_view_(true) {}
  AlphaNum(Hex h) { char b[32]; std::snprintf(b, sizeof b, "%llx", (unsigned long long)h.value); own_ = b; if (own_.size() < h.width) own_.insert(0, h.width - own_.size(), h.fill); }
  AlphaNum(Dec h) { own_ = std::to_string(h.value); if (h.fill == '0') { if (h.neg) { if (own_.size() + 1 < h.width) own_.insert(0, h.width - 1 - own_.size(), '0'); own_ = "-" + own_; } else if (own_.size() < h.width) own_.insert(0, h.width - own_.size(), '0'); } else { if (h.neg) own_ = "-" + own_; if (own_.size() < h.width) own_.insert(0, h.width - own_.size(), ' '); } }
  template <typename T> requires(std::is_enum_v<T> && std::is_convertible_v<T, int> && !HasAbslStringify<T>::value)
  AlphaNum(T v) : own_(std::to_string(static_cast<std::underlying_type_t<T>>(v))) {}
  template <typename T> requires(std::is_class_v<T> && HasAbslStringify<T>::value && !std::is_convertible_v<T, std::string_view>)
  AlphaNum(const T& v) { strings_internal::StringifySink sink; AbslStringify(sink, v); own_ = std::move(sink.buf_); }
  template <typename T> requires(std::is_enum_v<T> && HasAbslStringify<T>::value)
  AlphaNum(const T& v) { strings_internal::StringifySink sink; AbslStringify(sink, v); own_ = std::move(sink.buf_); }
  std::string_view Piece() const { return is_view_ ? view_ : std::string_view(own_); }
  size_t size() const { return Piece().size(); }
  const char* data() const { return Piece().data(); }
 private:
  std::string own_;
  std::string_view view_;
  bool is_view_ = false;
};
template <typename... A> requires(std::is_convertible_v<const A&, AlphaNum> && ...)
[[nodiscard]] inline std::string StrCat(const A&... a) {
  std::string r;
  (r.append(AlphaNum(a).Piece()), ...);
  return r;
}
template <typename... A> requires(std::is_convertible_v<const A&, AlphaNum> && ...)
inline void StrAppend(std::string* d, const A&... a) {
  std::string r;
  (r.append(AlphaNum(a).Piece()), ...);
  d->append(r);
}
}  // namespace absl
#endif
