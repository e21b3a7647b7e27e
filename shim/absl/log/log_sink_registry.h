#ifndef VERIF_SHIM_ABSL_LOG_SINK_REG_H_
#define VERIF_SHIM_ABSL_LOG_SINK_REG_H_
#include <algorithm>
#include <mutex>
#include <vector>
#include "absl/log/log_sink.h"
namespace absl {
namespace log_internal {
inline std::vector<LogSink*>& Sinks() { static auto& v = *new std::vector<LogSink*>; return v; }
inline std::recursive_mutex& SinksMutex() { static auto& m = *new std::recursive_mutex; return m; }
}  // namespace log_internal
inline void AddLogSink(LogSink* s) { std::lock_guard l(log_internal::SinksMutex()); log_internal::Sinks().push_back(s); }
inline void RemoveLogSink(LogSink* s) { std::lock_guard l(log_internal::SinksMutex()); auto& v = log_internal::Sinks(); v.erase(std::remove(v.begin(), v.end(), s), v.end()); }
}  // namespace absl
#endif
