#ifndef VERIF_SHIM_ABSL_STATUSOR_H_
#define VERIF_SHIM_ABSL_STATUSOR_H_
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>
#include <variant>
#include "absl/base/attributes.h"
#include "absl/status/status.h"
#include "absl/types/variant.h"
#include "absl/utility/utility.h"
namespace absl {
class BadStatusOrAccess : public std::exception {
 public:
  explicit BadStatusOrAccess(Status s) : s_(std::move(s)), what_("Bad StatusOr access: " + s_.ToString()) {}
  const char* what() const noexcept override { return what_.c_str(); }
  const Status& status() const { return s_; }
 private:
  Status s_; std::string what_;
};
template <typename T> class [[nodiscard]] StatusOr;
namespace statusor_internal {
[[noreturn]] inline void Crash(const Status& s) {
  std::fprintf(stderr, "Attempting to fetch value instead of handling error %s\n", s.ToString().c_str());
  std::fflush(stderr);
  std::abort();
}
template <typename T> struct IsSO : std::false_type {};
template <typename T> struct IsSO<StatusOr<T>> : std::true_type {};
template <typename T, typename U>
inline constexpr bool kConvFromSO = std::is_constructible_v<T, StatusOr<U>&> || std::is_constructible_v<T, const StatusOr<U>&> || std::is_constructible_v<T, StatusOr<U>&&> || std::is_convertible_v<StatusOr<U>&, T> || std::is_convertible_v<const StatusOr<U>&, T> || std::is_convertible_v<StatusOr<U>&&, T>;
template <typename T, typename U>
inline constexpr bool kDirectOk = !std::is_same_v<StatusOr<T>, std::remove_cvref_t<U>> && !std::is_same_v<std::in_place_t, std::remove_cvref_t<U>> && (std::is_same_v<T, std::remove_cvref_t<U>> || (!IsSO<std::remove_cvref_t<U>>::value && !std::is_same_v<Status, std::remove_cvref_t<U>>) ) ;
template <typename T, typename U>
inline constexpr bool kStatusConv = std::is_convertible_v<U&&, Status> && !IsSO<std::remove_cvref_t<U>>::value && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>;
}  // namespace statusor_internal
template <typename T>
class StatusOr {
  template <typename U> friend class StatusOr;
 public:
  typedef T value_type;
  explicit StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr& operator=(const StatusOr& o) = default;
  StatusOr(StatusOr&& o) noexcept(std::is_nothrow_move_constructible_v<T>) : st_(std::move(o.st_)), v_(std::move(o.v_)) { if (v_) { st_ = Status(); o.st_ = Status(); } }
  StatusOr& operator=(StatusOr&& o) {
    if (this == &o) return *this;
    const bool ok = o.v_.has_value();
    v_ = std::move(o.v_);
    if (ok) { st_ = Status(); } else { st_ = std::move(o.st_); }
    return *this;
  }
  template <typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, const U&> && !statusor_internal::kConvFromSO<T, U>)
  explicit(!std::is_convertible_v<const U&, T>) StatusOr(const StatusOr<U>& o) : st_(o.st_) { if (o.v_) v_.emplace(*o.v_); }
  template <typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, U&&> && !statusor_internal::kConvFromSO<T, U>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(StatusOr<U>&& o) : st_(o.v_ ? Status() : std::move(o.st_)) { if (o.v_) v_.emplace(*std::move(o.v_)); }
  template <typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, const U&> && !statusor_internal::kConvFromSO<T, U>)
  StatusOr& operator=(const StatusOr<U>& o) { return *this = StatusOr(o); }
  template <typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, U&&> && !statusor_internal::kConvFromSO<T, U>)
  StatusOr& operator=(StatusOr<U>&& o) { return *this = StatusOr(std::move(o)); }
  template <typename U = Status> requires(!std::is_same_v<T, std::remove_cvref_t<U>> && std::is_convertible_v<U&&, Status> && statusor_internal::kStatusConv<T, U> && !(std::is_constructible_v<T, U&&> && !std::is_same_v<Status, std::remove_cvref_t<U>>))
  StatusOr(U&& s) : st_(std::forward<U>(s)) { EnsureNotOk(); }
  template <typename U = Status> requires(!std::is_same_v<T, std::remove_cvref_t<U>> && std::is_convertible_v<U&&, Status> && statusor_internal::kStatusConv<T, U> && !(std::is_constructible_v<T, U&&> && !std::is_same_v<Status, std::remove_cvref_t<U>>))
  StatusOr& operator=(U&& s) { st_ = std::forward<U>(s); v_.reset(); EnsureNotOk(); return *this; }
  template <typename U = T> requires(statusor_internal::kDirectOk<T, U> && std::is_constructible_v<T, U&&>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <typename U = T> requires(statusor_internal::kDirectOk<T, U> && std::is_constructible_v<T, U&&> && std::is_assignable_v<T&, U&&>)
  StatusOr& operator=(U&& u) { if (v_) *v_ = std::forward<U>(u); else v_.emplace(std::forward<U>(u)); st_ = Status(); return *this; }
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <typename U, typename... A> explicit StatusOr(std::in_place_t, std::initializer_list<U> il, A&&... a) : v_(std::in_place, il, std::forward<A>(a)...) {}
  [[nodiscard]] bool ok() const { return v_.has_value(); }
  const Status& status() const& { return st_; }
  Status status() && { return ok() ? OkStatus() : std::move(st_); }
  const T& value() const& ABSL_ATTRIBUTE_LIFETIME_BOUND { EnsureOk(); return *v_; }
  T& value() & ABSL_ATTRIBUTE_LIFETIME_BOUND { EnsureOk(); return *v_; }
  const T&& value() const&& ABSL_ATTRIBUTE_LIFETIME_BOUND { EnsureOk(); return std::move(*v_); }
  T&& value() && ABSL_ATTRIBUTE_LIFETIME_BOUND { EnsureOk(); return std::move(*v_); }
  const T& operator*() const& { EnsureOk(); return *v_; }
  T& operator*() & { EnsureOk(); return *v_; }
  const T&& operator*() const&& { EnsureOk(); return std::move(*v_); }
  T&& operator*() && { EnsureOk(); return std::move(*v_); }
  const T* operator->() const { EnsureOk(); return &*v_; }
  T* operator->() { EnsureOk(); return &*v_; }
  template <typename U> T value_or(U&& d) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(d)); }
  template <typename U> T value_or(U&& d) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  template <typename... A> T& emplace(A&&... a) { st_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void AssignStatus(Status s) { v_.reset(); st_ = std::move(s); EnsureNotOk(); }
  friend bool operator==(const StatusOr& a, const StatusOr& b) { if (a.ok() && b.ok()) return *a.v_ == *b.v_; return a.st_ == b.st_ && a.ok() == b.ok(); }
  friend bool operator!=(const StatusOr& a, const StatusOr& b) { return !(a == b); }
 private:
  void EnsureOk() const { if (!v_) statusor_internal::Crash(st_); }
  void EnsureNotOk() { if (st_.ok()) st_ = Status(StatusCode::kInternal, "An OK status is not a valid constructor argument to StatusOr<T>"); }
  Status st_;
  std::optional<T> v_;
};
}  // namespace absl
#endif
