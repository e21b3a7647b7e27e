#include "absl/time/time.h"
