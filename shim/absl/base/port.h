#ifndef VERIF_SHIM_ABSL_BASE_PORT_H_
#define VERIF_SHIM_ABSL_BASE_PORT_H_
#include "absl/base/attributes.h"
#endif
