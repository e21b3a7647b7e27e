#pragma once
#include "absl/log/log_message_.h"
#define LOG(S) VERIF_LOG_X(S)
#define PLOG(S) VERIF_LOG_X(S).WithPerror()
#define LOG_IF(S, C) VERIF_LOG_IF_X(S, C)
#ifdef NDEBUG
#define DLOG(S) VERIF_LOG_IF_X(S, false)
#define DLOG_IF(S, C) VERIF_LOG_IF_X(S, false && (C))
#else
#define DLOG(S) VERIF_LOG_X(S)
#define DLOG_IF(S, C) VERIF_LOG_IF_X(S, C)
#endif
#define VLOG(L) VERIF_LOG_IF_X(INFO, false)
#define VLOG_IS_ON(L) false
#define LOG_FIRST_N(S, N) VERIF_LOG_IF_X(S, ([] { static int n = 0; return n++ < (N); }()))
#define LOG_EVERY_N(S, N) VERIF_LOG_IF_X(S, ([] { static int n = 0; return n++ % (N) == 0; }()))
