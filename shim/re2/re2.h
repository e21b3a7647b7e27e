// Hand-written declarations for the installed libre2.so.10 (2023-03-01), whose headers are absent.
// Only the layout that the library's exported functions rely on is reproduced.
#ifndef VERIF_SHIM_RE2_RE2_H_
#define VERIF_SHIM_RE2_RE2_H_
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <cstdlib>
#include <limits>
#include <map>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "re2/stringpiece.h"
namespace re2 {
class RE2 {
 public:
  enum ErrorCode { NoError = 0, ErrorInternal, ErrorBadEscape, ErrorBadCharClass, ErrorBadCharRange, ErrorMissingBracket, ErrorMissingParen, ErrorUnexpectedParen, ErrorTrailingBackslash, ErrorRepeatArgument, ErrorRepeatSize, ErrorRepeatOp, ErrorBadPerlOp, ErrorBadUTF8, ErrorBadNamedCapture, ErrorPatternTooLarge };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    Options() = default;
    Options(CannedOptions o) : encoding_(o == Latin1 ? EncodingLatin1 : EncodingUTF8), posix_syntax_(o == POSIX), longest_match_(o == POSIX), log_errors_(o != Quiet) {}
    void Copy(const Options& o) { *this = o; }
#define VERIF_O(T, N) T N() const { return N##_; } void set_##N(T v) { N##_ = v; }
    VERIF_O(int64_t, max_mem) VERIF_O(Encoding, encoding) VERIF_O(bool, posix_syntax) VERIF_O(bool, longest_match) VERIF_O(bool, log_errors) VERIF_O(bool, literal) VERIF_O(bool, never_nl) VERIF_O(bool, dot_nl) VERIF_O(bool, never_capture) VERIF_O(bool, case_sensitive) VERIF_O(bool, perl_classes) VERIF_O(bool, word_boundary) VERIF_O(bool, one_line)
#undef VERIF_O
    int ParseFlags() const;
   private:
    int64_t max_mem_ = 8 << 20;
    Encoding encoding_ = EncodingUTF8;
    bool posix_syntax_ = false, longest_match_ = false, log_errors_ = true, literal_ = false, never_nl_ = false, dot_nl_ = false, never_capture_ = false, case_sensitive_ = true, perl_classes_ = false, word_boundary_ = false, one_line_ = false;
  };
  class Arg {
   public:
    typedef bool (*Parser)(const char* str, size_t n, void* dest);
    Arg() : Arg(nullptr) {}
    Arg(std::nullptr_t) : arg_(nullptr), parser_([](const char*, size_t, void*) { return true; }) {}
    template <typename T> Arg(T* p) : arg_(p), parser_(&DoParse<T>) {}
    template <typename T> Arg(T* p, Parser f) : arg_(p), parser_(f) {}
    bool Parse(const char* s, size_t n) const { return (*parser_)(s, n, arg_); }
   private:
    template <typename T> static bool DoParse(const char* s, size_t n, void* d) {
      if constexpr (std::is_same_v<T, void>) return true;
      else if constexpr (std::is_same_v<T, std::string>) { if (d) static_cast<std::string*>(d)->assign(s ? s : "", n); return true; }
      else if constexpr (std::is_same_v<T, std::string_view>) { if (d) *static_cast<std::string_view*>(d) = std::string_view(s, n); return true; }
      else if constexpr (std::is_same_v<T, StringPiece>) { if (d) *static_cast<StringPiece*>(d) = StringPiece(s, n); return true; }
      else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>) { if (n != 1) return false; if (d) *static_cast<T*>(d) = static_cast<T>(s[0]); return true; }
      else if constexpr (std::is_integral_v<T>) {
        std::string t(s ? s : "", n);
        if (n == 0 || std::isspace(static_cast<unsigned char>(t[0]))) return false;
        char* e = nullptr; errno = 0;
        if constexpr (std::is_signed_v<T>) { long long v = std::strtoll(t.c_str(), &e, 10); if (*e || errno || v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) return false; if (d) *static_cast<T*>(d) = static_cast<T>(v); }
        else { if (t[0] == '-') return false; unsigned long long v = std::strtoull(t.c_str(), &e, 10); if (*e || errno || v > std::numeric_limits<T>::max()) return false; if (d) *static_cast<T*>(d) = static_cast<T>(v); }
        return true;
      } else if constexpr (std::is_floating_point_v<T>) { std::string t(s ? s : "", n); if (n == 0 || std::isspace(static_cast<unsigned char>(t[0]))) return false; char* e = nullptr; double v = std::strtod(t.c_str(), &e); if (*e) return false; if (d) *static_cast<T*>(d) = static_cast<T>(v); return true; }
      else if constexpr (requires { typename T::value_type; std::declval<T&>().reset(); }) { if (!s) { if (d) static_cast<T*>(d)->reset(); return true; } typename T::value_type v{}; if (!DoParse<typename T::value_type>(s, n, &v)) return false; if (d) *static_cast<T*>(d) = v; return true; }
      else { return d ? static_cast<T*>(d)->ParseFrom(s, n) : true; }
    }
    void* arg_; Parser parser_;
  };
  RE2(const char* p);
  RE2(const std::string& p);
  RE2(const StringPiece& p);
  RE2(std::string_view p) : RE2(StringPiece(p)) {}
  RE2(const StringPiece& p, const Options& o);
  ~RE2();
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  bool ok() const { return error_code() == NoError; }
  const std::string& pattern() const { return *pattern_; }
  const std::string& error() const { return *error_; }
  const std::string& error_arg() const { return *error_arg_; }
  ErrorCode error_code() const { return static_cast<ErrorCode>(bits_ & 0x1fffffffU); }
  const Options& options() const { return options_; }
  int NumberOfCapturingGroups() const { return num_captures_; }
  int ProgramSize() const;
  const std::map<std::string, int>& NamedCapturingGroups() const;
  const std::map<int, std::string>& CapturingGroupNames() const;
  static bool FullMatchN(const StringPiece& t, const RE2& re, const Arg* const a[], int n);
  static bool PartialMatchN(const StringPiece& t, const RE2& re, const Arg* const a[], int n);
  static bool ConsumeN(StringPiece* in, const RE2& re, const Arg* const a[], int n);
  static bool FindAndConsumeN(StringPiece* in, const RE2& re, const Arg* const a[], int n);
  template <typename... A> static bool FullMatch(const StringPiece& t, const RE2& re, A&&... a) { return Apply(FullMatchN, t, re, Arg(std::forward<A>(a))...); }
  template <typename... A> static bool PartialMatch(const StringPiece& t, const RE2& re, A&&... a) { return Apply(PartialMatchN, t, re, Arg(std::forward<A>(a))...); }
  template <typename S, typename... A> static bool Consume(S* in, const RE2& re, A&&... a) { return ApplyIn(ConsumeN, in, re, Arg(std::forward<A>(a))...); }
  template <typename S, typename... A> static bool FindAndConsume(S* in, const RE2& re, A&&... a) { return ApplyIn(FindAndConsumeN, in, re, Arg(std::forward<A>(a))...); }
  static bool Replace(std::string* s, const RE2& re, const StringPiece& rw);
  static int GlobalReplace(std::string* s, const RE2& re, const StringPiece& rw);
  static bool Extract(const StringPiece& t, const RE2& re, const StringPiece& rw, std::string* out);
  static std::string QuoteMeta(const StringPiece& s);
  static int MaxSubmatch(const StringPiece& rw);
  bool Match(const StringPiece& t, size_t b, size_t e, Anchor a, StringPiece* sub, int n) const;
  bool CheckRewriteString(const StringPiece& rw, std::string* err) const;
 private:
  template <typename F, typename... A> static bool Apply(F f, const StringPiece& t, const RE2& re, const A&... a) { const Arg* const args[] = {&a..., nullptr}; return f(t, re, args, sizeof...(a)); }
  template <typename F, typename S, typename... A> static bool ApplyIn(F f, S* in, const RE2& re, const A&... a) {
    const Arg* const args[] = {&a..., nullptr};
    StringPiece sp(*in);
    bool r = f(&sp, re, args, sizeof...(a));
    if (r) *in = S(sp.data(), sp.size());
    return r;
  }
  const std::string* pattern_;
  Options options_;
  void* entire_;
  void* suffix_;
  const std::string* error_;
  const std::string* error_arg_;
  int num_captures_;
  unsigned bits_;
  alignas(16) unsigned char rest_[256];
};
static_assert(sizeof(RE2::Options) == 24);
class LazyRE2 {
 public:
  typedef RE2 element_type;
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    // Keyed by the pattern's address; LazyRE2 objects are constants with static storage.
    static auto& m = *new std::map<const char*, RE2*>;
    static auto& mx = *new std::mutex;
    std::lock_guard l(mx);
    RE2*& r = m[pattern_];
    if (!r) r = new RE2(StringPiece(pattern_), Options_());
    return r;
  }
  RE2::Options Options_() const { return RE2::Options(options_); }
  const char* pattern_ = nullptr;
  RE2::CannedOptions options_ = RE2::DefaultOptions;
};
}  // namespace re2
using re2::LazyRE2;
using re2::RE2;
#endif
