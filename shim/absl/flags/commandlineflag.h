#ifndef VERIF_SHIM_ABSL_CLF_H_
#define VERIF_SHIM_ABSL_CLF_H_
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <string_view>
namespace absl {
class CommandLineFlag {
 public:
  CommandLineFlag(const char* n, const char* f, const char* h) : n_(n), f_(f), h_(h) {}
  virtual ~CommandLineFlag() = default;
  std::string_view Name() const { return n_; }
  std::string Filename() const { return f_; }
  std::string Help() const { return h_; }
  virtual bool IsSpecifiedOnCommandLine() const = 0;
  virtual bool IsModified() const = 0;
  virtual bool IsBool() const = 0;
  virtual void ResetShim_() = 0;
  virtual std::string DefaultValue() const = 0;
  virtual std::string CurrentValue() const = 0;
  virtual bool ParseFrom(std::string_view v, std::string* e) = 0;
  virtual bool ParseFromCommandLine(std::string_view v, std::string* e) = 0;
 private:
  std::string n_, f_, h_;
};
namespace flags_internal {
inline std::map<std::string, CommandLineFlag*, std::less<>>& Registry() { static auto& r = *new std::map<std::string, CommandLineFlag*, std::less<>>; return r; }
inline void Register(CommandLineFlag* f) { Registry().emplace(std::string(f->Name()), f); }
inline std::string& Usage() { static auto& s = *new std::string; return s; }
}  // namespace flags_internal
inline CommandLineFlag* FindCommandLineFlag(std::string_view n) { auto& r = flags_internal::Registry(); auto it = r.find(n); return it == r.end() ? nullptr : it->second; }
inline std::map<std::string_view, CommandLineFlag*> GetAllFlags() { std::map<std::string_view, CommandLineFlag*> m; for (auto& [k, v] : flags_internal::Registry()) m[k] = v; return m; }
}  // namespace absl
#endif
