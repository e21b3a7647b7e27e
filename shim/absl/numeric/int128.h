#ifndef VERIF_SHIM_ABSL_INT128_H_
#define VERIF_SHIM_ABSL_INT128_H_
#include <cstdint>
namespace absl { using uint128 = unsigned __int128; using int128 = __int128;
constexpr std::uint64_t Uint128High64(uint128 v) { return static_cast<std::uint64_t>(v >> 64); }
constexpr std::uint64_t Uint128Low64(uint128 v) { return static_cast<std::uint64_t>(v); }
constexpr uint128 MakeUint128(std::uint64_t h, std::uint64_t l) { return (static_cast<uint128>(h) << 64) | l; } }
#endif
