#ifndef VERIF_SHIM_ABSL_BASE_MACROS_H_
#define VERIF_SHIM_ABSL_BASE_MACROS_H_
#include "absl/base/attributes.h"
#endif
