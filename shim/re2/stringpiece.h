#ifndef VERIF_SHIM_RE2_STRINGPIECE_H_
#define VERIF_SHIM_RE2_STRINGPIECE_H_
#include <cstddef>
#include <ostream>
#include <string>
#include <string_view>
namespace re2 {
// Same layout as libre2.so.10's StringPiece: {const char* data; size_t size}.
class StringPiece {
 public:
  using value_type = char; using iterator = const char*; using const_iterator = const char*; using size_type = size_t;
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s) : data_(s), size_(s ? std::char_traits<char>::length(s) : 0) {}
  StringPiece(const char* s, size_t n) : data_(s), size_(n) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  size_t length() const { return size_; }
  bool empty() const { return size_ == 0; }
  const char* begin() const { return data_; }
  const char* end() const { return data_ + size_; }
  char operator[](size_t i) const { return data_[i]; }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }
  std::string as_string() const { return std::string(data_, size_); }
  std::string ToString() const { return std::string(data_, size_); }
  operator std::string_view() const { return {data_, size_}; }
  explicit operator std::string() const { return std::string(data_, size_); }
  friend bool operator==(const StringPiece& a, const StringPiece& b) { return std::string_view(a) == std::string_view(b); }
 private:
  const char* data_;
  size_t size_;
};
}  // namespace re2
using re2::StringPiece;
#endif
