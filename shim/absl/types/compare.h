#ifndef VERIF_SHIM_ABSL_TYPES_COMPARE_H_
#define VERIF_SHIM_ABSL_TYPES_COMPARE_H_
#include <compare>
namespace absl { using std::strong_ordering; using std::weak_ordering; using std::partial_ordering; }
#endif
