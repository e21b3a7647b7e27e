#ifndef VERIF_SHIM_ABSL_ANY_INVOCABLE_H_
#define VERIF_SHIM_ABSL_ANY_INVOCABLE_H_
#include <functional>
#include <memory>
#include <utility>
namespace absl {
template <typename> class AnyInvocable;
template <typename R, typename... A>
class AnyInvocable<R(A...)> {
  struct B { virtual ~B() = default; virtual R call(A... a) = 0; };
  template <typename F> struct I : B { F f; explicit I(F x) : f(std::move(x)) {} R call(A... a) override { return std::invoke(f, std::forward<A>(a)...); } };
  std::unique_ptr<B> p_;
 public:
  AnyInvocable() = default; AnyInvocable(std::nullptr_t) {}
  template <typename F> requires(!std::is_same_v<std::remove_cvref_t<F>, AnyInvocable>) AnyInvocable(F&& f) : p_(std::make_unique<I<std::decay_t<F>>>(std::forward<F>(f))) {}
  R operator()(A... a) { return p_->call(std::forward<A>(a)...); }
  explicit operator bool() const { return p_ != nullptr; }
};
}
#endif
