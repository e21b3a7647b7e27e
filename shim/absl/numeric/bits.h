#ifndef VERIF_SHIM_ABSL_BITS_H_
#define VERIF_SHIM_ABSL_BITS_H_
#include <bit>
namespace absl { using std::rotl; using std::rotr; using std::countl_zero; using std::countl_one; using std::countr_zero; using std::countr_one; using std::popcount; using std::has_single_bit; using std::bit_ceil; using std::bit_floor; using std::bit_width; }
#endif
