#pragma once
#include "absl/log/log_message_.h"
#define ABSL_CHECK(C) VERIF_CHECK_X((C), #C)
#define ABSL_QCHECK(C) VERIF_QCHECK_X((C), #C)
#define ABSL_PCHECK(C) VERIF_CHECK_X((C), #C)
#define ABSL_DCHECK(C) VERIF_CHECK_X((C), #C)
#define ABSL_CHECK_EQ(A, B) VERIF_CHECK_OP_X(Check_EQ, "==", A, B, VERIF_LOG_FATAL)
#define ABSL_CHECK_NE(A, B) VERIF_CHECK_OP_X(Check_NE, "!=", A, B, VERIF_LOG_FATAL)
#define ABSL_CHECK_LT(A, B) VERIF_CHECK_OP_X(Check_LT, "<", A, B, VERIF_LOG_FATAL)
#define ABSL_CHECK_LE(A, B) VERIF_CHECK_OP_X(Check_LE, "<=", A, B, VERIF_LOG_FATAL)
#define ABSL_CHECK_GT(A, B) VERIF_CHECK_OP_X(Check_GT, ">", A, B, VERIF_LOG_FATAL)
#define ABSL_CHECK_GE(A, B) VERIF_CHECK_OP_X(Check_GE, ">=", A, B, VERIF_LOG_FATAL)
#define ABSL_CHECK_OK(V) VERIF_CHECK_OK_X(V, VERIF_LOG_FATAL)
#define ABSL_QCHECK_EQ(A, B) VERIF_CHECK_OP_X(Check_EQ, "==", A, B, VERIF_LOG_QFATAL)
#define ABSL_QCHECK_NE(A, B) VERIF_CHECK_OP_X(Check_NE, "!=", A, B, VERIF_LOG_QFATAL)
#define ABSL_QCHECK_LT(A, B) VERIF_CHECK_OP_X(Check_LT, "<", A, B, VERIF_LOG_QFATAL)
#define ABSL_QCHECK_LE(A, B) VERIF_CHECK_OP_X(Check_LE, "<=", A, B, VERIF_LOG_QFATAL)
#define ABSL_QCHECK_GT(A, B) VERIF_CHECK_OP_X(Check_GT, ">", A, B, VERIF_LOG_QFATAL)
#define ABSL_QCHECK_GE(A, B) VERIF_CHECK_OP_X(Check_GE, ">=", A, B, VERIF_LOG_QFATAL)
#define ABSL_QCHECK_OK(V) VERIF_CHECK_OK_X(V, VERIF_LOG_QFATAL)
#define ABSL_DCHECK_EQ(A, B) VERIF_CHECK_OP_X(Check_EQ, "==", A, B, VERIF_LOG_FATAL)
#define ABSL_DCHECK_NE(A, B) VERIF_CHECK_OP_X(Check_NE, "!=", A, B, VERIF_LOG_FATAL)
#define ABSL_DCHECK_LT(A, B) VERIF_CHECK_OP_X(Check_LT, "<", A, B, VERIF_LOG_FATAL)
#define ABSL_DCHECK_LE(A, B) VERIF_CHECK_OP_X(Check_LE, "<=", A, B, VERIF_LOG_FATAL)
#define ABSL_DCHECK_GT(A, B) VERIF_CHECK_OP_X(Check_GT, ">", A, B, VERIF_LOG_FATAL)
#define ABSL_DCHECK_GE(A, B) VERIF_CHECK_OP_X(Check_GE, ">=", A, B, VERIF_LOG_FATAL)
#define ABSL_DCHECK_OK(V) VERIF_CHECK_OK_X(V, VERIF_LOG_FATAL)
