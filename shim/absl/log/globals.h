#ifndef VERIF_SHIM_ABSL_LOG_GLOBALS_H_
#define VERIF_SHIM_ABSL_LOG_GLOBALS_H_
#include "absl/base/log_severity.h"
#include "absl/time/time.h"
namespace absl {
namespace log_internal {
struct LogGlobals { LogSeverityAtLeast min = LogSeverityAtLeast::kInfo; LogSeverityAtLeast stderr_ = LogSeverityAtLeast::kError; bool prefix = true; TimeZone tz; bool initialized = false; };
inline LogGlobals& G() { static auto& g = *new LogGlobals; return g; }
inline void SetTimeZone(TimeZone tz) { G().tz = tz; }
inline void SetInitialized() { G().initialized = true; }
inline bool IsInitialized() { return G().initialized; }
}  // namespace log_internal
inline LogSeverityAtLeast MinLogLevel() { return log_internal::G().min; }
inline void SetMinLogLevel(LogSeverityAtLeast s) { log_internal::G().min = s; }
inline LogSeverityAtLeast StderrThreshold() { return log_internal::G().stderr_; }
inline void SetStderrThreshold(LogSeverityAtLeast s) { log_internal::G().stderr_ = s; }
inline void SetStderrThreshold(LogSeverity s) { log_internal::G().stderr_ = static_cast<LogSeverityAtLeast>(s); }
inline bool ShouldPrependLogPrefix() { return log_internal::G().prefix; }
inline void EnableLogPrefix(bool v) { log_internal::G().prefix = v; }
inline void SetGlobalVLogLevel(int) {}
}  // namespace absl
#endif
