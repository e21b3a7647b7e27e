#ifndef VERIF_SHIM_ABSL_BASE_CONST_INIT_H_
#define VERIF_SHIM_ABSL_BASE_CONST_INIT_H_
#include "absl/base/attributes.h"
#endif
