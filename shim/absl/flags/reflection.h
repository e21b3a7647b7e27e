#include "absl/flags/commandlineflag.h"
