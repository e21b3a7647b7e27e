#ifndef VERIF_SHIM_ABSL_META_H_
#define VERIF_SHIM_ABSL_META_H_
#include <type_traits>
namespace absl { using std::conjunction; using std::disjunction; using std::negation; using std::void_t; using std::decay_t; using std::enable_if_t; using std::remove_cvref_t; using std::remove_cvref; using std::remove_reference_t; using std::conditional_t; }
#endif
