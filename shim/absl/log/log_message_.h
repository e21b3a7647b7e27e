#ifndef VERIF_SHIM_ABSL_LOG_MESSAGE_H_
#define VERIF_SHIM_ABSL_LOG_MESSAGE_H_
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include "absl/base/log_severity.h"
#include "absl/log/globals.h"
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
#include "absl/status/status.h"
#include "absl/strings/has_absl_stringify.h"
namespace absl {
namespace log_internal {
template <typename T> concept Streamable = requires(std::ostream& os, const T& v) { os << v; };
class LogMessage {
 public:
  LogMessage(const char* file, int line, LogSeverity sev) { e_.file_ = file; e_.line_ = line; e_.sev_ = NormalizeLogSeverity(sev); }
  LogMessage(const LogMessage&) = delete;
  ~LogMessage() { Flush(); }
  LogMessage& InternalStream() { return *this; }
  LogMessage& AtLocation(std::string_view file, int line) { e_.file_ = std::string(file); e_.line_ = line; return *this; }
  LogMessage& NoPrefix() { return *this; }
  LogMessage& WithVerbosity(int) { return *this; }
  LogMessage& WithPerror() { perror_ = true; return *this; }
  LogMessage& WithTimestamp(Time t) { e_.ts_ = t; return *this; }
  LogMessage& ToSinkAlso(LogSink* s) { extra_ = s; return *this; }
  LogMessage& ToSinkOnly(LogSink* s) { extra_ = s; only_ = true; return *this; }
  template <typename T> LogMessage& operator<<(const T& v) {
    if constexpr (absl::HasAbslStringify<T>::value && (std::is_class_v<T> || std::is_enum_v<T>)) { absl::strings_internal::StringifySink s; AbslStringify(s, v); os_ << s.buf_; } else { os_ << v; }
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*m)(std::ostream&)) { os_ << m; return *this; }
  LogMessage& operator<<(std::ios_base& (*m)(std::ios_base&)) { os_ << m; return *this; }
  void Flush() {
    if (done_) return;
    done_ = true;
    if (perror_) os_ << ": " << std::strerror(errno) << " [" << errno << "]";
    e_.msg_ = os_.str();
    if (static_cast<int>(e_.sev_) < static_cast<int>(G().min) && e_.sev_ != LogSeverity::kFatal) return;
    {
      std::lock_guard l(SinksMutex());
      if (extra_) extra_->Send(e_);
      if (!only_) for (LogSink* s : Sinks()) s->Send(e_);
    }
    if (!only_ && (static_cast<int>(e_.sev_) >= static_cast<int>(G().stderr_) || !G().initialized)) { std::string s = (G().prefix ? e_.prefix() : "") + e_.msg_ + "\n"; std::fwrite(s.data(), 1, s.size(), stderr); std::fflush(stderr); }
    if (e_.sev_ == LogSeverity::kFatal) { if (quiet_) ::_exit(1); std::abort(); }
  }
  bool quiet_ = false;
 private:
  LogEntry e_; std::ostringstream os_; LogSink* extra_ = nullptr; bool only_ = false, done_ = false, perror_ = false;
};
class LogMessageQuietlyFatal : public LogMessage { public: LogMessageQuietlyFatal(const char* f, int l) : LogMessage(f, l, LogSeverity::kFatal) { quiet_ = true; } [[noreturn]] ~LogMessageQuietlyFatal() { Flush(); ::_exit(1); } };
class LogMessageFatal : public LogMessage { public: LogMessageFatal(const char* f, int l) : LogMessage(f, l, LogSeverity::kFatal) {} [[noreturn]] ~LogMessageFatal() { Flush(); std::abort(); } };
class Voidify { public: template <typename T> void operator&&(const T&) const&& {} };
template <typename A> std::string Show(const A& a) {
  std::ostringstream os;
  if constexpr (std::is_same_v<A, std::nullptr_t>) os << "(null)";
  else if constexpr (absl::HasAbslStringify<A>::value && (std::is_class_v<A> || std::is_enum_v<A>)) { absl::strings_internal::StringifySink s; AbslStringify(s, a); os << s.buf_; }
  else if constexpr (Streamable<A>) os << a;
  else if constexpr (std::is_enum_v<A>) os << static_cast<long long>(a);
  else os << "UNPRINTABLE";
  return os.str();
}
#define VERIF_OP(N, OP) \
  template <typename A, typename B> const std::string* N(const A& a, const B& b, const char* t) { \
    if (__builtin_expect(static_cast<bool>(a OP b), 1)) return nullptr; \
    return new std::string(std::string(t) + " (" + Show(a) + " vs. " + Show(b) + ")"); }
VERIF_OP(Check_EQ, ==) VERIF_OP(Check_NE, !=) VERIF_OP(Check_LT, <) VERIF_OP(Check_LE, <=) VERIF_OP(Check_GT, >) VERIF_OP(Check_GE, >=)
#undef VERIF_OP
inline const Status& AsStatus(const Status& s) { return s; }
template <typename T> const Status& AsStatus(const T& s) { return s.status(); }
inline const std::string* CheckOk(const Status& s, const char* t) { if (s.ok()) return nullptr; return new std::string(std::string(t) + " is OK (" + s.ToString() + ")"); }
}  // namespace log_internal
}  // namespace absl
#define VERIF_LOG_INFO ::absl::log_internal::LogMessage(__FILE__, __LINE__, ::absl::LogSeverity::kInfo)
#define VERIF_LOG_WARNING ::absl::log_internal::LogMessage(__FILE__, __LINE__, ::absl::LogSeverity::kWarning)
#define VERIF_LOG_ERROR ::absl::log_internal::LogMessage(__FILE__, __LINE__, ::absl::LogSeverity::kError)
#define VERIF_LOG_FATAL ::absl::log_internal::LogMessageFatal(__FILE__, __LINE__)
#define VERIF_LOG_QFATAL ::absl::log_internal::LogMessageQuietlyFatal(__FILE__, __LINE__)
#ifdef NDEBUG
#define VERIF_LOG_DFATAL VERIF_LOG_ERROR
#else
#define VERIF_LOG_DFATAL VERIF_LOG_FATAL
#endif
#define VERIF_LOG_LEVEL(sev) ::absl::log_internal::LogMessage(__FILE__, __LINE__, static_cast<::absl::LogSeverity>(sev))
#define VERIF_LOG_X(S) VERIF_LOG_##S.InternalStream()
#define VERIF_LOG_IF_X(S, C) switch (0) case 0: default: !(C) ? (void)0 : ::absl::log_internal::Voidify() && VERIF_LOG_##S.InternalStream()
#define VERIF_CHECK_X(C, T) switch (0) case 0: default: __builtin_expect(static_cast<bool>(C), 1) ? (void)0 : ::absl::log_internal::Voidify() && VERIF_LOG_FATAL.InternalStream() << "Check failed: " T " "
#define VERIF_QCHECK_X(C, T) switch (0) case 0: default: __builtin_expect(static_cast<bool>(C), 1) ? (void)0 : ::absl::log_internal::Voidify() && VERIF_LOG_QFATAL.InternalStream() << "Check failed: " T " "
#define VERIF_CHECK_OP_X(N, OP, A, B, F) while (const ::std::string* verif_str = ::absl::log_internal::N((A), (B), #A " " OP " " #B)) F.InternalStream() << "Check failed: " << *verif_str << " "
#define VERIF_CHECK_OK_X(V, F) for (const ::std::string* verif_str = ::absl::log_internal::CheckOk(::absl::log_internal::AsStatus(V), #V); verif_str != nullptr;) F.InternalStream() << "Check failed: " << *verif_str << " "
#endif
