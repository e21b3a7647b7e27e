#ifndef VERIF_SHIM_ABSL_LOG_INIT_H_
#define VERIF_SHIM_ABSL_LOG_INIT_H_
#include "absl/log/globals.h"
namespace absl { inline void InitializeLog() { log_internal::SetInitialized(); } }
#endif
