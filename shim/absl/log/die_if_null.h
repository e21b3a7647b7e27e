#pragma once
#include "absl/log/absl_check.h"
#define ABSL_DIE_IF_NULL(v) (v)
