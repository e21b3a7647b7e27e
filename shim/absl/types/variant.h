#ifndef VERIF_SHIM_ABSL_TYPES_VARIANT_H_
#define VERIF_SHIM_ABSL_TYPES_VARIANT_H_
#include <variant>
namespace absl { using std::variant; using std::visit; using std::get; using std::get_if; using std::holds_alternative; using std::monostate; }
#endif
