#include "absl/log/globals.h"
