#ifndef VERIF_SHIM_ABSL_STATUS_H_
#define VERIF_SHIM_ABSL_STATUS_H_
#include <cerrno>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include "absl/functional/function_ref.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/types/optional.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
  kDoNotUseReservedForFutureExpansionUseDefaultInSwitchInstead_ = 20
};
inline std::string_view StatusCodeToStringView(StatusCode c) {
  switch (c) {
    case StatusCode::kOk: return "OK";
    case StatusCode::kCancelled: return "CANCELLED";
    case StatusCode::kUnknown: return "UNKNOWN";
    case StatusCode::kInvalidArgument: return "INVALID_ARGUMENT";
    case StatusCode::kDeadlineExceeded: return "DEADLINE_EXCEEDED";
    case StatusCode::kNotFound: return "NOT_FOUND";
    case StatusCode::kAlreadyExists: return "ALREADY_EXISTS";
    case StatusCode::kPermissionDenied: return "PERMISSION_DENIED";
    case StatusCode::kResourceExhausted: return "RESOURCE_EXHAUSTED";
    case StatusCode::kFailedPrecondition: return "FAILED_PRECONDITION";
    case StatusCode::kAborted: return "ABORTED";
    case StatusCode::kOutOfRange: return "OUT_OF_RANGE";
    case StatusCode::kUnimplemented: return "UNIMPLEMENTED";
    case StatusCode::kInternal: return "INTERNAL";
    case StatusCode::kUnavailable: return "UNAVAILABLE";
    case StatusCode::kDataLoss: return "DATA_LOSS";
    case StatusCode::kUnauthenticated: return "UNAUTHENTICATED";
    default: return "";
  }
}
inline std::string StatusCodeToString(StatusCode c) { return std::string(StatusCodeToStringView(c)); }
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToStringView(c); }
template <typename S> void AbslStringify(S& sink, StatusCode c) { sink.Append(StatusCodeToStringView(c)); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithEverything = ~0, kDefault = 1 };
namespace status_internal {
inline StatusCode MapToLocalCode(int v) { return v >= 0 && v <= 16 ? static_cast<StatusCode>(v) : StatusCode::kUnknown; }
struct StatusRep {
  StatusCode code; std::string msg; std::vector<std::pair<std::string, Cord>> payloads;
};
}  // namespace status_internal
class [[nodiscard]] Status;
class Status final {
 public:
  Status() = default;
  Status(StatusCode c, std::string_view m) { if (c != StatusCode::kOk) rep_ = std::make_shared<status_internal::StatusRep>(status_internal::StatusRep{c, std::string(m), {}}); }
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : rep_(std::move(o.rep_)) { o.SetMovedFrom(); }
  Status& operator=(Status&& o) noexcept { if (this != &o) { rep_ = std::move(o.rep_); o.SetMovedFrom(); } return *this; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void Update(Status&& s) { if (ok()) *this = std::move(s); }
  [[nodiscard]] bool ok() const { return rep_ == nullptr; }
  StatusCode code() const { return status_internal::MapToLocalCode(raw_code()); }
  int raw_code() const { return rep_ ? static_cast<int>(rep_->code) : 0; }
  std::string_view message() const { return rep_ ? std::string_view(rep_->msg) : std::string_view(); }
  friend bool operator==(const Status& a, const Status& b) {
    if (a.rep_ == b.rep_) return true;
    if (!a.rep_ || !b.rep_) return false;
    if (a.raw_code() != b.raw_code() || a.message() != b.message() || a.rep_->payloads.size() != b.rep_->payloads.size()) return false;
    for (const auto& [k, v] : a.rep_->payloads) { auto o = b.GetPayload(k); if (!o || !(*o == v)) return false; }
    return true;
  }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  std::string ToString(StatusToStringMode mode = StatusToStringMode::kDefault) const {
    if (ok()) return "OK";
    std::string r = StrCat(StatusCodeToStringView(code()), ": ", message());
    if (mode != StatusToStringMode::kWithNoExtraData) for (const auto& [k, v] : rep_->payloads) StrAppend(&r, " [", k, "='", std::string(v), "']");
    return r;
  }
  void IgnoreError() const {}
  friend void swap(Status& a, Status& b) noexcept { std::swap(a.rep_, b.rep_); }
  std::optional<Cord> GetPayload(std::string_view url) const { if (rep_) for (const auto& [k, v] : rep_->payloads) if (k == url) return v; return std::nullopt; }
  void SetPayload(std::string_view url, Cord p) { if (ok()) return; Own(); for (auto& [k, v] : rep_->payloads) if (k == url) { v = std::move(p); return; } rep_->payloads.emplace_back(std::string(url), std::move(p)); }
  bool ErasePayload(std::string_view url) { if (!rep_) return false; Own(); for (auto it = rep_->payloads.begin(); it != rep_->payloads.end(); ++it) if (it->first == url) { rep_->payloads.erase(it); return true; } return false; }
  void ForEachPayload(absl::FunctionRef<void(std::string_view, const Cord&)> f) const { if (rep_) { auto keep = rep_; for (const auto& [k, v] : keep->payloads) f(k, v); } }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(StatusToStringMode::kWithEverything); }
  template <typename S> friend void AbslStringify(S& sink, const Status& s) { sink.Append(s.ToString(StatusToStringMode::kWithEverything)); }
 private:
  void SetMovedFrom() {
    static const auto& moved = *new std::shared_ptr<status_internal::StatusRep>(std::make_shared<status_internal::StatusRep>(status_internal::StatusRep{StatusCode::kInternal, "Status accessed after move.", {}}));
    rep_ = moved;
  }
  void Own() { if (rep_.use_count() > 1) rep_ = std::make_shared<status_internal::StatusRep>(*rep_); }
  std::shared_ptr<status_internal::StatusRep> rep_;
};
inline Status OkStatus() { return Status(); }
#define VERIF_ST(N) \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } \
  [[nodiscard]] inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VERIF_ST(Aborted) VERIF_ST(AlreadyExists) VERIF_ST(Cancelled) VERIF_ST(DataLoss) VERIF_ST(DeadlineExceeded) VERIF_ST(FailedPrecondition) VERIF_ST(Internal) VERIF_ST(InvalidArgument) VERIF_ST(NotFound) VERIF_ST(OutOfRange) VERIF_ST(PermissionDenied) VERIF_ST(ResourceExhausted) VERIF_ST(Unauthenticated) VERIF_ST(Unavailable) VERIF_ST(Unimplemented) VERIF_ST(Unknown)
#undef VERIF_ST
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
inline StatusCode ErrnoToStatusCode(int e) {
  switch (e) {
    case 0: return StatusCode::kOk;
    case EINVAL: case ENAMETOOLONG: case E2BIG: case EDESTADDRREQ: case EDOM: case EFAULT: case EILSEQ: case ENOPROTOOPT: case ENOTSOCK: case ENOTTY: case EPROTOTYPE: case ESPIPE: return StatusCode::kInvalidArgument;
    case ETIMEDOUT: return StatusCode::kDeadlineExceeded;
    case ENODEV: case ENOENT: case ENXIO: case ESRCH: return StatusCode::kNotFound;
    case EEXIST: case EADDRNOTAVAIL: case EALREADY: return StatusCode::kAlreadyExists;
    case EPERM: case EACCES: case EROFS: return StatusCode::kPermissionDenied;
    case ENOTEMPTY: case EISDIR: case ENOTDIR: case EADDRINUSE: case EBADF: case EBUSY: case ECHILD: case EISCONN: case ENOTCONN: case EPIPE: case ETXTBSY: return StatusCode::kFailedPrecondition;
    case ENOSPC: case EMFILE: case EMLINK: case ENFILE: case ENOBUFS: case ENOMEM: return StatusCode::kResourceExhausted;
    case EFBIG: case EOVERFLOW: case ERANGE: return StatusCode::kOutOfRange;
    case ENOSYS: case ENOTSUP: case EXDEV: return StatusCode::kUnimplemented;
    case EAGAIN: case ECONNREFUSED: case ECONNABORTED: case ECONNRESET: case EINTR: return StatusCode::kUnavailable;
    case EDEADLK: case ESTALE: return StatusCode::kAborted;
    case ECANCELED: return StatusCode::kCancelled;
    default: return StatusCode::kUnknown;
  }
}
inline Status ErrnoToStatus(int e, std::string_view m) { return Status(ErrnoToStatusCode(e), StrCat(m, ": ", std::strerror(e))); }
inline const char* StatusMessageAsCStr(const Status& s) { return s.ok() ? "" : s.message().data(); }
}  // namespace absl
#endif
