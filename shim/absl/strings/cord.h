#ifndef VERIF_SHIM_ABSL_CORD_H_
#define VERIF_SHIM_ABSL_CORD_H_
#include <compare>
#include <ostream>
#include <string>
#include <string_view>
namespace absl {
class Cord {
 public:
  Cord() = default;
  explicit Cord(std::string_view s) : s_(s) {}
  explicit Cord(std::string&& s) : s_(std::move(s)) {}
  explicit Cord(const char* s) : s_(s) {}
  Cord& operator=(std::string_view s) { s_ = s; return *this; }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void Append(std::string_view s) { s_.append(s); }
  void Append(const Cord& c) { s_.append(c.s_); }
  void Clear() { s_.clear(); }
  std::string_view Flatten() { return s_; }
  explicit operator std::string() const { return s_; }
  bool StartsWith(std::string_view p) const { return s_.starts_with(p); }
  bool EndsWith(std::string_view p) const { return s_.ends_with(p); }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, std::string_view b) { return a.s_ == b; }
  friend std::strong_ordering operator<=>(const Cord& a, const Cord& b) { return a.s_.compare(b.s_) <=> 0; }
  friend std::strong_ordering operator<=>(const Cord& a, std::string_view b) { return std::string_view(a.s_).compare(b) <=> 0; }
  friend std::ostream& operator<<(std::ostream& os, const Cord& c) { return os << c.s_; }
  template <typename S> friend void AbslStringify(S& sink, const Cord& c) { sink.Append(c.s_); }
  template <typename H> friend H AbslHashValue(H h, const Cord& c) { return H::combine(std::move(h), c.s_); }
 private:
  std::string s_;
};
}  // namespace absl
#endif
