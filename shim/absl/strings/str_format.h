#ifndef VERIF_SHIM_ABSL_STR_FORMAT_H_
#define VERIF_SHIM_ABSL_STR_FORMAT_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/has_absl_stringify.h"
#include "absl/strings/str_cat.h"
namespace absl {
class FormatSpec_;
namespace str_format_internal {
class FormatSinkImpl {
 public:
  void Append(size_t n, char c) { out.append(n, c); }
  void Append(std::string_view v) { out.append(v); }
  bool PutPaddedString(std::string_view v, int width, int precision, bool left) {
    strings_internal::StringifySink s; s.PutPaddedString(v, width, precision, left); out.append(s.buf_); return true;
  }
  friend void AbslFormatFlush(FormatSinkImpl* s, std::string_view v) { s->Append(v); }
  std::string out;
};
struct Arg {
  enum Kind { kSigned, kUnsigned, kChar, kBool, kDouble, kLongDouble, kString, kPointer, kCustom } kind;
  long long i = 0; unsigned long long u = 0; long double d = 0; std::string_view s; const void* p = nullptr; int bytes = 8;
  std::string own;
  template <typename T> static Arg Make(const T& v) {
    Arg a{};
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, bool>) { a.kind = kBool; a.i = v; a.u = v; }
    else if constexpr (std::is_same_v<D, char>) { a.kind = kChar; a.i = v; a.u = (unsigned char)v; a.bytes = 1; }
    else if constexpr (HasAbslStringify<D>::value && (std::is_class_v<D> || std::is_union_v<D> || std::is_enum_v<D>)) {
      a.kind = kCustom; strings_internal::StringifySink sink; AbslStringify(sink, v); a.own = std::move(sink.buf_);
      if constexpr (std::is_enum_v<D>) { a.i = (long long)v; a.u = (unsigned long long)v; }
    }
    else if constexpr (std::is_convertible_v<const T&, std::string_view> && !std::is_null_pointer_v<D>) {
      a.kind = kString;
      if constexpr (std::is_pointer_v<D>) { a.s = v ? std::string_view(v) : std::string_view(); a.p = v; } else { a.s = std::string_view(v); }
    }
    else if constexpr (std::is_class_v<D> && std::is_convertible_v<const T&, std::string>) { a.kind = kCustom; a.own = static_cast<std::string>(v); }
    else if constexpr (std::is_enum_v<D>) { a.kind = kSigned; a.i = (long long)v; a.u = (unsigned long long)v; }
    else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) { a.kind = kSigned; a.i = v; a.u = (unsigned long long)(std::make_unsigned_t<D>)v; a.bytes = sizeof(D); }
    else if constexpr (std::is_integral_v<D>) { a.kind = kUnsigned; a.u = v; a.i = (long long)v; a.bytes = sizeof(D); }
    else if constexpr (std::is_same_v<D, long double>) { a.kind = kLongDouble; a.d = v; }
    else if constexpr (std::is_floating_point_v<D>) { a.kind = kDouble; a.d = v; }
    else if constexpr (std::is_pointer_v<D> || std::is_null_pointer_v<D>) { a.kind = kPointer; a.p = (const void*)v; }
    else { static_assert(HasAbslStringify<D>::value, "type is not formattable"); }
    return a;
  }
  bool IsIntLike() const { return kind == kSigned || kind == kUnsigned || kind == kChar || kind == kBool; }
};
inline std::string Printf(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); va_list ap2; va_copy(ap2, ap);
  int n = std::vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
  std::string r(n < 0 ? 0 : (size_t)n, '\0');
  std::vsnprintf(r.data(), r.size() + 1, fmt, ap2); va_end(ap2);
  return r;
}
inline bool FormatImpl(std::string* out, std::string_view f, std::vector<Arg> args) {
  size_t next = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out->push_back(f[i]); continue; }
    ++i;
    if (i >= f.size()) return false;
    if (f[i] == '%') { out->push_back('%'); continue; }
    size_t argpos = ~size_t(0);
    { size_t j = i; size_t n = 0; while (j < f.size() && f[j] >= '0' && f[j] <= '9') n = n * 10 + (size_t)(f[j++] - '0'); if (j > i && j < f.size() && f[j] == '$') { argpos = n - 1; i = j + 1; } }
    std::string flags; int width = -1, prec = -1;
    while (i < f.size() && std::string_view("-+ #0").find(f[i]) != std::string_view::npos) flags.push_back(f[i++]);
    if (i < f.size() && f[i] == '*') { if (next >= args.size()) return false; width = (int)args[next++].i; ++i; if (width < 0) { flags.push_back('-'); width = -width; } }
    else { while (i < f.size() && f[i] >= '0' && f[i] <= '9') { width = (width < 0 ? 0 : width) * 10 + (f[i++] - '0'); } }
    if (i < f.size() && f[i] == '.') {
      ++i; prec = 0;
      if (i < f.size() && f[i] == '*') { if (next >= args.size()) return false; prec = (int)args[next++].i; ++i; }
      else while (i < f.size() && f[i] >= '0' && f[i] <= '9') prec = prec * 10 + (f[i++] - '0');
    }
    while (i < f.size() && std::string_view("hljztLq").find(f[i]) != std::string_view::npos) ++i;
    if (i >= f.size()) return false;
    char c = f[i];
    if (argpos == ~size_t(0)) argpos = next++;
    if (argpos >= args.size()) return false;
    Arg& a = args[argpos];
    if (c == 'v') {
      switch (a.kind) {
        case Arg::kBool: a.kind = Arg::kString; a.s = a.i ? "true" : "false"; c = 's'; break;
        case Arg::kChar: c = 'c'; break;
        case Arg::kSigned: c = 'd'; break;
        case Arg::kUnsigned: c = 'u'; break;
        case Arg::kDouble: case Arg::kLongDouble: c = 'g'; break;
        case Arg::kString: case Arg::kCustom: c = 's'; break;
        case Arg::kPointer: c = 'p'; break;
      }
    }
    std::string spec = "%" + flags;
    auto with = [&](const char* tail) { std::string s = spec + (width >= 0 ? std::to_string(width) : "") + (prec >= 0 ? "." + std::to_string(prec) : "") + tail; return s; };
    switch (c) {
      case 's': {
        std::string_view v = a.kind == Arg::kCustom ? std::string_view(a.own) : a.s;
        if (a.kind != Arg::kCustom && a.kind != Arg::kString) return false;
        if (prec >= 0) v = v.substr(0, (size_t)prec);
        size_t pad = width > 0 && (size_t)width > v.size() ? (size_t)width - v.size() : 0;
        bool left = flags.find('-') != std::string::npos;
        if (!left) out->append(pad, ' ');
        out->append(v);
        if (left) out->append(pad, ' ');
        break;
      }
      case 'c': if (!a.IsIntLike()) return false; out->append([&] { std::string v(1, (char)a.i); size_t pad = width > 1 ? (size_t)width - 1 : 0; return flags.find('-') != std::string::npos ? v + std::string(pad, ' ') : std::string(pad, ' ') + v; }()); break;
      case 'd': case 'i':
        if (a.kind == Arg::kDouble) return false;
        if (a.kind == Arg::kUnsigned) out->append(Printf(with("llu").c_str(), a.u));
        else if (a.IsIntLike() || (a.kind == Arg::kCustom)) out->append(Printf(with("lld").c_str(), a.i)); else return false;
        break;
      case 'u': case 'x': case 'X': case 'o': { char t[4] = {'l', 'l', c, 0}; if (!a.IsIntLike() && a.kind != Arg::kCustom) return false; out->append(Printf(with(t).c_str(), a.u)); break; }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
        long double d = a.kind == Arg::kDouble || a.kind == Arg::kLongDouble ? a.d : a.kind == Arg::kUnsigned ? (long double)a.u : (long double)a.i;
        if (a.kind == Arg::kLongDouble) { char t[3] = {'L', c, 0}; out->append(Printf(with(t).c_str(), d)); }
        else { char t[2] = {c, 0}; out->append(Printf(with(t).c_str(), (double)d)); }
        break;
      }
      case 'p': if (a.kind == Arg::kPointer || a.kind == Arg::kString) { if (!a.p) out->append("(nil)"); else out->append(Printf(with("p").c_str(), a.p)); } else return false; break;
      default: return false;
    }
  }
  return true;
}
}  // namespace str_format_internal
class UntypedFormatSpec {
 public:
  explicit UntypedFormatSpec(std::string_view s) : s_(s) {}
  std::string_view s_;
};
class FormatArg {
 public:
  template <typename T> explicit FormatArg(const T& v) : a(str_format_internal::Arg::Make(v)) {}
  str_format_internal::Arg a;
};
template <typename...> class FormatSpecOf {
 public:
  constexpr FormatSpecOf(const char* s) : s_(s) {}
  constexpr FormatSpecOf(std::string_view s) : s_(s) {}
  FormatSpecOf(const std::string& s) : s_(s) {}
  std::string_view s_;
};
template <typename... A> using FormatSpec = FormatSpecOf<A...>;
template <auto...> using ParsedFormat = FormatSpecOf<>;
using FormatSink = str_format_internal::FormatSinkImpl;
using FormatCountCapture = int;
template <typename... A> std::string StrFormatShim_(std::string_view f, const A&... a) {
  std::string r;
  if (!str_format_internal::FormatImpl(&r, f, {str_format_internal::Arg::Make(a)...})) r.clear();
  return r;
}
template <typename... A> [[nodiscard]] std::string StrFormat(const FormatSpec<std::type_identity_t<A>...>& f, const A&... a) { return StrFormatShim_(f.s_, a...); }
template <typename... A> std::string& StrAppendFormat(std::string* d, const FormatSpec<std::type_identity_t<A>...>& f, const A&... a) { d->append(StrFormatShim_(f.s_, a...)); return *d; }
namespace str_format_internal {
struct Streamable { std::string s; friend std::ostream& operator<<(std::ostream& os, const Streamable& v) { return os << v.s; } };
inline void Flush(std::string* s, std::string_view v) { s->append(v); }
inline void Flush(std::ostream* s, std::string_view v) { s->write(v.data(), (std::streamsize)v.size()); }
inline void Flush(std::FILE* s, std::string_view v) { std::fwrite(v.data(), 1, v.size(), s); }
template <typename S> auto Flush(S* s, std::string_view v) -> decltype(AbslFormatFlush(s, v), void()) { AbslFormatFlush(s, v); }
}  // namespace str_format_internal
template <typename... A> [[nodiscard]] str_format_internal::Streamable StreamFormat(const FormatSpec<std::type_identity_t<A>...>& f, const A&... a) { return {StrFormatShim_(f.s_, a...)}; }
template <typename S, typename... A> bool Format(S* sink, const FormatSpec<std::type_identity_t<A>...>& f, const A&... a) { str_format_internal::Flush(sink, StrFormatShim_(f.s_, a...)); return true; }
template <typename... A> int PrintF(const FormatSpec<std::type_identity_t<A>...>& f, const A&... a) { std::string s = StrFormatShim_(f.s_, a...); std::fwrite(s.data(), 1, s.size(), stdout); return (int)s.size(); }
template <typename... A> int FPrintF(std::FILE* o, const FormatSpec<std::type_identity_t<A>...>& f, const A&... a) { std::string s = StrFormatShim_(f.s_, a...); std::fwrite(s.data(), 1, s.size(), o); return (int)s.size(); }
inline str_format_internal::Streamable FormatStreamed_(std::string s) { return {std::move(s)}; }
}  // namespace absl
#endif
