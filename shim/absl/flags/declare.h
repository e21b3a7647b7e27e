#ifndef VERIF_SHIM_ABSL_FLAG_DECLARE_H_
#define VERIF_SHIM_ABSL_FLAG_DECLARE_H_
namespace absl { template <typename T> class Flag; }
#define ABSL_DECLARE_FLAG(type, name) extern ::absl::Flag<type> FLAGS_##name
#endif
