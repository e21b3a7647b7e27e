#ifndef VERIF_SHIM_ABSL_TYPES_ANY_H_
#define VERIF_SHIM_ABSL_TYPES_ANY_H_
#include <any>
namespace absl { using std::any; using std::any_cast; using std::make_any; }
#endif
