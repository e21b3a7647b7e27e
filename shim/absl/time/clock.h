#ifndef VERIF_SHIM_ABSL_CLOCK_H_
#define VERIF_SHIM_ABSL_CLOCK_H_
#include <chrono>
#include <thread>
#include "absl/time/time.h"
namespace absl {
// A harness may put the clock under its control.
inline Time (*&VerifClock())() { static Time (*fn)() = nullptr; return fn; }
inline Time Now() { return VerifClock() ? VerifClock()() : FromChrono(std::chrono::system_clock::now()); }
inline int64_t GetCurrentTimeNanos() { return ToUnixNanos(Now()); }
inline void SleepFor(Duration d) { std::this_thread::sleep_for(ToChronoNanoseconds(d)); }
}  // namespace absl
#endif
