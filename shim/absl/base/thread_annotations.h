#ifndef VERIF_SHIM_ABSL_BASE_THREAD_ANNOTATIONS_H_
#define VERIF_SHIM_ABSL_BASE_THREAD_ANNOTATIONS_H_
#include "absl/base/attributes.h"
#endif
