#pragma once
#include "absl/log/log_message_.h"
#define CHECK(C) VERIF_CHECK_X((C), #C)
#define QCHECK(C) VERIF_QCHECK_X((C), #C)
#define PCHECK(C) VERIF_CHECK_X((C), #C)
#define DCHECK(C) VERIF_CHECK_X((C), #C)
#define CHECK_EQ(A, B) VERIF_CHECK_OP_X(Check_EQ, "==", A, B, VERIF_LOG_FATAL)
#define CHECK_NE(A, B) VERIF_CHECK_OP_X(Check_NE, "!=", A, B, VERIF_LOG_FATAL)
#define CHECK_LT(A, B) VERIF_CHECK_OP_X(Check_LT, "<", A, B, VERIF_LOG_FATAL)
#define CHECK_LE(A, B) VERIF_CHECK_OP_X(Check_LE, "<=", A, B, VERIF_LOG_FATAL)
#define CHECK_GT(A, B) VERIF_CHECK_OP_X(Check_GT, ">", A, B, VERIF_LOG_FATAL)
#define CHECK_GE(A, B) VERIF_CHECK_OP_X(Check_GE, ">=", A, B, VERIF_LOG_FATAL)
#define CHECK_OK(V) VERIF_CHECK_OK_X(V, VERIF_LOG_FATAL)
#define QCHECK_EQ(A, B) VERIF_CHECK_OP_X(Check_EQ, "==", A, B, VERIF_LOG_QFATAL)
#define QCHECK_NE(A, B) VERIF_CHECK_OP_X(Check_NE, "!=", A, B, VERIF_LOG_QFATAL)
#define QCHECK_LT(A, B) VERIF_CHECK_OP_X(Check_LT, "<", A, B, VERIF_LOG_QFATAL)
#define QCHECK_LE(A, B) VERIF_CHECK_OP_X(Check_LE, "<=", A, B, VERIF_LOG_QFATAL)
#define QCHECK_GT(A, B) VERIF_CHECK_OP_X(Check_GT, ">", A, B, VERIF_LOG_QFATAL)
#define QCHECK_GE(A, B) VERIF_CHECK_OP_X(Check_GE, ">=", A, B, VERIF_LOG_QFATAL)
#define QCHECK_OK(V) VERIF_CHECK_OK_X(V, VERIF_LOG_QFATAL)
#define DCHECK_EQ(A, B) VERIF_CHECK_OP_X(Check_EQ, "==", A, B, VERIF_LOG_FATAL)
#define DCHECK_NE(A, B) VERIF_CHECK_OP_X(Check_NE, "!=", A, B, VERIF_LOG_FATAL)
#define DCHECK_LT(A, B) VERIF_CHECK_OP_X(Check_LT, "<", A, B, VERIF_LOG_FATAL)
#define DCHECK_LE(A, B) VERIF_CHECK_OP_X(Check_LE, "<=", A, B, VERIF_LOG_FATAL)
#define DCHECK_GT(A, B) VERIF_CHECK_OP_X(Check_GT, ">", A, B, VERIF_LOG_FATAL)
#define DCHECK_GE(A, B) VERIF_CHECK_OP_X(Check_GE, ">=", A, B, VERIF_LOG_FATAL)
#define DCHECK_OK(V) VERIF_CHECK_OK_X(V, VERIF_LOG_FATAL)
