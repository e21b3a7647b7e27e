#ifndef VERIF_SHIM_ABSL_FLAG_H_
#define VERIF_SHIM_ABSL_FLAG_H_
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/base/log_severity.h"
#include "absl/flags/commandlineflag.h"
#include "absl/flags/marshalling.h"
namespace absl {
template <typename T>
class Flag : public CommandLineFlag {
 public:
  template <typename D> Flag(const char* name, const char* file, const char* help, D def) : CommandLineFlag(name, file, help), def_(static_cast<T>(def())), v_(def_) { flags_internal::Register(this); }
  bool IsSpecifiedOnCommandLine() const override { return cmd_; }
  bool IsModified() const override { return mod_; }
  std::string DefaultValue() const override { return UnparseFlag(def_); }
  std::string CurrentValue() const override { return UnparseFlag(v_); }
  bool ParseFrom(std::string_view text, std::string* err) override { T t{v_}; if (!absl::ParseFlag(text, &t, err)) return false; v_ = std::move(t); mod_ = true; if (cb_) cb_(); return true; }
  bool ParseFromCommandLine(std::string_view text, std::string* err) override { if (!ParseFrom(text, err)) return false; cmd_ = true; return true; }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  const T& Get_() const { return v_; }
  void Set_(T v) { v_ = std::move(v); mod_ = true; if (cb_) cb_(); }
  void Reset_() { v_ = def_; mod_ = cmd_ = false; }
  void ResetShim_() override { Reset_(); }
  Flag& OnUpdate(void (*cb)()) { cb_ = cb; return *this; }
 private:
  T def_, v_; bool mod_ = false, cmd_ = false; void (*cb_)() = nullptr;
};
template <typename T> [[nodiscard]] T GetFlag(const Flag<T>& f) { return f.Get_(); }
template <typename T> void SetFlag(Flag<T>* f, const T& v) { f->Set_(v); }
template <typename T, typename V> void SetFlag(Flag<T>* f, const V& v) { f->Set_(T(v)); }
template <typename T> const CommandLineFlag& GetFlagReflectionHandle(const Flag<T>& f) { return f; }
struct FlagRegShim_ { template <typename T> FlagRegShim_(Flag<T>& f) : upd([] {}) { (void)f; } FlagRegShim_ OnUpdate(void (*)()) && { return *this; } void (*upd)(); };
}  // namespace absl
#define ABSL_FLAG(Type, name, def, help) \
  namespace absl {}                      \
  ::absl::Flag<Type> FLAGS_##name(#name, __FILE__, help, []() -> Type { return Type(def); }); \
  [[maybe_unused]] extern ::absl::FlagRegShim_ FLAGS_no##name; \
  ::absl::FlagRegShim_ FLAGS_no##name = ::absl::FlagRegShim_(FLAGS_##name)
#include "absl/flags/declare.h"
// absl's own logging flags.
inline ::absl::Flag<int> FLAGS_stderrthreshold("stderrthreshold", "absl/log/flags.cc", "", []() -> int { return 2; });
inline ::absl::Flag<int> FLAGS_minloglevel("minloglevel", "absl/log/flags.cc", "", []() -> int { return 0; });
#endif
