#ifndef VERIF_SHIM_ABSL_CLEANUP_H_
#define VERIF_SHIM_ABSL_CLEANUP_H_
#include <type_traits>
#include <utility>
namespace absl {
template <typename F>
class [[nodiscard]] Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  Cleanup(Cleanup&& o) noexcept : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  Cleanup& operator=(Cleanup&&) = delete;
  ~Cleanup() { if (on_) { f_(); } }
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; f_(); }
 private:
  F f_;
  bool on_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<F>;
template <typename F> Cleanup<std::decay_t<F>> MakeCleanup(F&& f) { return Cleanup<std::decay_t<F>>(std::forward<F>(f)); }
}  // namespace absl
#endif
