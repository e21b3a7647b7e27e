#ifndef VERIF_SHIM_ABSL_UTILITY_H_
#define VERIF_SHIM_ABSL_UTILITY_H_
#include <utility>
#include <tuple>
namespace absl { using std::exchange; using std::forward; using std::move; using std::apply; using std::in_place; using std::in_place_t; using std::index_sequence; using std::make_index_sequence; using std::index_sequence_for; }
#endif
