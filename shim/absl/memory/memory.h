#ifndef VERIF_SHIM_ABSL_MEMORY_H_
#define VERIF_SHIM_ABSL_MEMORY_H_
#include <memory>
namespace absl { using std::make_unique; template <typename T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); } }
#endif
