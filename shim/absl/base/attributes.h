// Offline stand-in for abseil: only what helly25/mbo needs (see DESIGN.md).
#ifndef VERIF_SHIM_ABSL_BASE_ATTRIBUTES_H_
#define VERIF_SHIM_ABSL_BASE_ATTRIBUTES_H_
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_NORETURN __attribute__((noreturn))
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_COLD __attribute__((cold))
#define ABSL_ATTRIBUTE_HOT __attribute__((hot))
#define ABSL_ATTRIBUTE_WEAK __attribute__((weak))
#define ABSL_ATTRIBUTE_PACKED __attribute__((packed))
#define ABSL_ATTRIBUTE_NONNULL(...)
#define ABSL_ATTRIBUTE_RETURNS_NONNULL
#define ABSL_ATTRIBUTE_REINITIALIZES
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_NO_SANITIZE_ADDRESS
#define ABSL_ATTRIBUTE_NO_SANITIZE_UNDEFINED
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_DEPRECATED(msg)
#define ABSL_CONST_INIT constinit
#define ABSL_NULLABILITY_COMPATIBLE
#define ABSL_HAVE_ATTRIBUTE(x) 0
#define ABSL_HAVE_BUILTIN(x) 0
#define ABSL_HAVE_FEATURE(x) 0
#define ABSL_NAMESPACE_BEGIN
#define ABSL_NAMESPACE_END
#define ABSL_PREDICT_TRUE(x) (__builtin_expect(false || (x), true))
#define ABSL_PREDICT_FALSE(x) (__builtin_expect(false || (x), false))
#define ABSL_ASSUME(cond) do { if (!(cond)) __builtin_unreachable(); } while (0)
#define ABSL_CACHELINE_SIZE 64
#define ABSL_CACHELINE_ALIGNED
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#ifdef NDEBUG
#define ABSL_ASSERT(expr) (false ? static_cast<void>(expr) : static_cast<void>(0))
#else
#include <cassert>
#define ABSL_ASSERT(expr) assert(expr)
#endif
#define ABSL_HARDENING_ASSERT(expr) ABSL_ASSERT(expr)
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_ACQUIRED_AFTER(...)
#define ABSL_ACQUIRED_BEFORE(...)
namespace absl {
enum ConstInitType { kConstInit };
}
#endif
