#pragma once
#include "absl/log/log_message_.h"
#define ABSL_LOG(S) VERIF_LOG_X(S)
#define ABSL_PLOG(S) VERIF_LOG_X(S).WithPerror()
#define ABSL_LOG_IF(S, C) VERIF_LOG_IF_X(S, C)
#ifdef NDEBUG
#define ABSL_DLOG(S) VERIF_LOG_IF_X(S, false)
#define ABSL_DLOG_IF(S, C) VERIF_LOG_IF_X(S, false && (C))
#else
#define ABSL_DLOG(S) VERIF_LOG_X(S)
#define ABSL_DLOG_IF(S, C) VERIF_LOG_IF_X(S, C)
#endif
#define ABSL_VLOG(L) VERIF_LOG_IF_X(INFO, false)
#define ABSL_VLOG_IS_ON(L) false
#define ABSL_LOG_FIRST_N(S, N) VERIF_LOG_IF_X(S, ([] { static int n = 0; return n++ < (N); }()))
#define ABSL_LOG_EVERY_N(S, N) VERIF_LOG_IF_X(S, ([] { static int n = 0; return n++ % (N) == 0; }()))
