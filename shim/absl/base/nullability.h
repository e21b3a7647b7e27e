#ifndef VERIF_SHIM_ABSL_BASE_NULLABILITY_H_
#define VERIF_SHIM_ABSL_BASE_NULLABILITY_H_
#include "absl/base/attributes.h"
#endif
