#ifndef VERIF_SHIM_ABSL_FUNCTION_REF_H_
#define VERIF_SHIM_ABSL_FUNCTION_REF_H_
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename> class FunctionRef;
template <typename R, typename... A>
class FunctionRef<R(A...)> {
 public:
  template <typename F> requires(!std::is_same_v<std::remove_cvref_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...>)
  FunctionRef(const F& f) : o_(const_cast<void*>(static_cast<const void*>(std::addressof(f)))), c_([](void* o, A... a) -> R { return std::invoke(*static_cast<F*>(o), std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(o_, std::forward<A>(a)...); }
 private:
  void* o_; R (*c_)(void*, A...);
};
}
#endif
