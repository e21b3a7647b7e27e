#ifndef VERIF_SHIM_ABSL_BIND_FRONT_H_
#define VERIF_SHIM_ABSL_BIND_FRONT_H_
#include <functional>
namespace absl { using std::bind_front; }
#endif
