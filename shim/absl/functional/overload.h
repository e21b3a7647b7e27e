#ifndef VERIF_SHIM_ABSL_OVERLOAD_H_
#define VERIF_SHIM_ABSL_OVERLOAD_H_
namespace absl { template <typename... T> struct Overload : T... { using T::operator()...; }; template <typename... T> Overload(T...) -> Overload<T...>; }
#endif
