#ifndef VERIF_SHIM_ABSL_BASE_OPTIMIZATION_H_
#define VERIF_SHIM_ABSL_BASE_OPTIMIZATION_H_
#include "absl/base/attributes.h"
#endif
