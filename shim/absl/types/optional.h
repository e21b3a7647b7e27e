#ifndef VERIF_SHIM_ABSL_TYPES_OPTIONAL_H_
#define VERIF_SHIM_ABSL_TYPES_OPTIONAL_H_
#include <optional>
namespace absl { using std::optional; using std::nullopt; using std::nullopt_t; using std::make_optional; using std::in_place; }
#endif
