#ifndef VERIF_SHIM_ABSL_BASE_OPTIONS_H_
#define VERIF_SHIM_ABSL_BASE_OPTIONS_H_
#include "absl/base/attributes.h"
#endif
