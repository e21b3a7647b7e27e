#ifndef VERIF_SHIM_ABSL_MOCK_LOG_H_
#define VERIF_SHIM_ABSL_MOCK_LOG_H_
#include <string>
#include "absl/log/log_entry.h"
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
#include "gmock/gmock.h"
namespace absl {
enum class MockLogDefault { kIgnoreUnexpected, kDisallowUnexpected };
class ScopedMockLog final {
 public:
  explicit ScopedMockLog(MockLogDefault d = MockLogDefault::kIgnoreUnexpected) : sink_(this) {
    using ::testing::_; using ::testing::AnyNumber;
    if (d == MockLogDefault::kIgnoreUnexpected) { EXPECT_CALL(*this, Log).Times(AnyNumber()); } else { EXPECT_CALL(*this, Log).Times(0); }
  }
  ~ScopedMockLog() { if (cap_) StopCapturingLogs(); }
  void StartCapturingLogs() { cap_ = true; AddLogSink(&sink_); }
  void StopCapturingLogs() { cap_ = false; RemoveLogSink(&sink_); }
  LogSink& UseAsLocalSink() { return sink_; }
  MOCK_METHOD(void, Log, (absl::LogSeverity severity, const std::string& file_path, const std::string& message));
  MOCK_METHOD(void, Send, (const absl::LogEntry&));
  MOCK_METHOD(void, Flush, ());
 private:
  class Fwd final : public LogSink { public: explicit Fwd(ScopedMockLog* m) : m_(m) {} void Send(const LogEntry& e) override { m_->Log(e.log_severity(), std::string(e.source_filename()), std::string(e.text_message())); } private: ScopedMockLog* m_; };
  Fwd sink_; bool cap_ = false;
};
}  // namespace absl
#endif
