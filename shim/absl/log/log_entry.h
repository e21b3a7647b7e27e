#ifndef VERIF_SHIM_ABSL_LOG_ENTRY_H_
#define VERIF_SHIM_ABSL_LOG_ENTRY_H_
#include <string>
#include <string_view>
#include "absl/base/log_severity.h"
#include "absl/time/time.h"
namespace absl {
class LogEntry {
 public:
  std::string_view source_filename() const { return file_; }
  std::string_view source_basename() const { auto p = file_.rfind('/'); return p == std::string_view::npos ? std::string_view(file_) : std::string_view(file_).substr(p + 1); }
  int source_line() const { return line_; }
  absl::LogSeverity log_severity() const { return sev_; }
  std::string_view text_message() const { return msg_; }
  std::string_view text_message_with_newline() const { nl_ = msg_ + "\n"; return nl_; }
  std::string_view text_message_with_prefix() const { nl_ = prefix() + msg_; return nl_; }
  absl::Time timestamp() const { return ts_; }
  bool prefix_enabled() const { return true; }
  std::string prefix() const { return std::string(1, "IWEF"[static_cast<int>(sev_) & 3]) + "0000 00:00:00.000000 0 " + std::string(source_basename()) + ":" + std::to_string(line_) + "] "; }
  std::string file_; int line_ = 0; absl::LogSeverity sev_{}; std::string msg_; absl::Time ts_; mutable std::string nl_;
};
}  // namespace absl
#endif
