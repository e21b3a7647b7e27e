#ifndef VERIF_SHIM_ABSL_BASE_CALL_ONCE_H_
#define VERIF_SHIM_ABSL_BASE_CALL_ONCE_H_
#include <mutex>
namespace absl { using std::once_flag; using std::call_once; }
#endif
