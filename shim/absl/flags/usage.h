#ifndef VERIF_SHIM_ABSL_USAGE_H_
#define VERIF_SHIM_ABSL_USAGE_H_
#include <string>
#include <string_view>
#include "absl/flags/commandlineflag.h"
namespace absl {
inline void SetProgramUsageMessage(std::string_view m) { flags_internal::Usage() = std::string(m); }
inline std::string_view ProgramUsageMessage() { return flags_internal::Usage(); }
}  // namespace absl
#endif
