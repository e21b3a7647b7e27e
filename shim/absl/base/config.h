#ifndef VERIF_SHIM_ABSL_BASE_CONFIG_H_
#define VERIF_SHIM_ABSL_BASE_CONFIG_H_
#include "absl/base/attributes.h"
#endif
