#ifndef VERIF_SHIM_ABSL_HAS_STRINGIFY_H_
#define VERIF_SHIM_ABSL_HAS_STRINGIFY_H_
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
namespace absl {
namespace strings_internal {
struct UnimplementedSink {
  void Append(size_t, char) {}
  void Append(std::string_view) {}
  friend void AbslFormatFlush(UnimplementedSink*, std::string_view) {}
};
class StringifySink {
 public:
  void Append(size_t n, char c) { buf_.append(n, c); }
  void Append(std::string_view v) { buf_.append(v); }
  bool PutPaddedString(std::string_view v, int width, int precision, bool left) {
    if (precision >= 0) v = v.substr(0, static_cast<size_t>(precision));
    size_t pad = width > 0 && static_cast<size_t>(width) > v.size() ? static_cast<size_t>(width) - v.size() : 0;
    if (!left) buf_.append(pad, ' ');
    buf_.append(v);
    if (left) buf_.append(pad, ' ');
    return true;
  }
  friend void AbslFormatFlush(StringifySink* s, std::string_view v) { s->Append(v); }
  std::string buf_;
};
}  // namespace strings_internal
template <typename T, typename = void>
struct HasAbslStringify : std::false_type {};
template <typename T>
struct HasAbslStringify<T, std::enable_if_t<std::is_void<decltype(AbslStringify(std::declval<strings_internal::UnimplementedSink&>(), std::declval<const T&>()))>::value>> : std::true_type {};
}  // namespace absl
#endif
