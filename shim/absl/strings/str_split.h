#ifndef VERIF_SHIM_ABSL_STR_SPLIT_H_
#define VERIF_SHIM_ABSL_STR_SPLIT_H_
#include <array>
#include <iterator>
#include <map>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/strip.h"
namespace absl {
// Mirrors abseil: a Delimiter has `string_view Find(string_view text, size_t pos) const`, returning the
// delimiter found at or after pos (or an empty view at text.end()).
class ByString {
 public:
  explicit ByString(std::string_view sp) : d_(sp) {}
  std::string_view Find(std::string_view text, size_t pos) const {
    if (d_.empty() && text.length() > 0) return std::string_view(text.data() + pos + 1, 0);
    size_t f = text.find(d_, pos);
    return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, d_.size());
  }
 private:
  std::string d_;
};
class ByChar {
 public:
  explicit ByChar(char c) : c_(c) {}
  std::string_view Find(std::string_view text, size_t pos) const { size_t f = text.find(c_, pos); return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, 1); }
 private:
  char c_;
};
class ByAsciiWhitespace {
 public:
  std::string_view Find(std::string_view text, size_t pos) const { size_t f = text.find_first_of(" \t\v\f\r\n", pos); return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, 1); }
};
class ByAnyChar {
 public:
  explicit ByAnyChar(std::string_view sp) : d_(sp) {}
  std::string_view Find(std::string_view text, size_t pos) const {
    if (d_.empty() && text.length() > 0) return std::string_view(text.data() + pos + 1, 0);
    size_t f = text.find_first_of(d_, pos); return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, 1);
  }
 private:
  std::string d_;
};
class ByLength {
 public:
  explicit ByLength(std::ptrdiff_t n) : n_(n) {}
  std::string_view Find(std::string_view text, size_t pos) const { pos = std::min(pos, text.size()); std::string_view s = text.substr(pos); if (s.length() <= (size_t)n_) return std::string_view(text.data() + text.size(), 0); return std::string_view(s.data() + n_, 0); }
 private:
  std::ptrdiff_t n_;
};
namespace strings_internal {
template <typename D> class MaxSplitsImpl {
 public:
  MaxSplitsImpl(D d, int limit) : d_(d), limit_(limit) {}
  std::string_view Find(std::string_view text, size_t pos) { if (count_++ == limit_) return std::string_view(text.data() + text.size(), 0); return d_.Find(text, pos); }
 private:
  D d_; int limit_; int count_ = 0;
};
template <typename D> struct SelectDelimiter { using type = D; };
template <> struct SelectDelimiter<char> { using type = ByChar; };
template <> struct SelectDelimiter<char*> { using type = ByString; };
template <> struct SelectDelimiter<const char*> { using type = ByString; };
template <> struct SelectDelimiter<std::string_view> { using type = ByString; };
template <> struct SelectDelimiter<std::string> { using type = ByString; };
template <typename D> using DelimT = typename SelectDelimiter<std::decay_t<D>>::type;
}  // namespace strings_internal
template <typename D> auto MaxSplits(D d, int limit) { using T = strings_internal::DelimT<D>; return strings_internal::MaxSplitsImpl<T>(T(d), limit); }
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
namespace strings_internal {
template <typename C> concept MapLike = requires { typename C::mapped_type; typename C::key_type; };
template <typename D, typename P> class Splitter {
 public:
  Splitter(std::string text, bool own, std::string_view v, D d, P p) : own_text_(std::move(text)), text_(own ? std::string_view(own_text_) : v), d_(std::move(d)), p_(std::move(p)) { Run(); }
  Splitter(const Splitter& o) : own_text_(o.own_text_), text_(o.own_ ? std::string_view(own_text_) : o.text_), d_(o.d0_), p_(o.p_) { own_ = o.own_; Run(); }
  using const_iterator = std::vector<std::string_view>::const_iterator;
  using iterator = const_iterator;
  using value_type = std::string_view;
  const_iterator begin() const { return parts_.begin(); }
  const_iterator end() const { return parts_.end(); }
  template <typename A, typename B> operator std::pair<A, B>() const {
    std::pair<A, B> r;
    if (parts_.size() > 0) r.first = A(parts_[0]);
    if (parts_.size() > 1) r.second = B(parts_[1]);
    return r;
  }
  template <typename T, size_t N> operator std::array<T, N>() const { std::array<T, N> r{}; for (size_t i = 0; i < N && i < parts_.size(); ++i) r[i] = T(parts_[i]); return r; }
  template <typename C> requires(requires { typename C::value_type; typename C::iterator; } && !std::is_same_v<C, std::string> && !std::is_same_v<C, std::string_view>)
  operator C() const {
    C c;
    if constexpr (MapLike<C>) {
      for (size_t i = 0; i < parts_.size(); i += 2) { auto k = typename C::key_type(parts_[i]); if (i + 1 < parts_.size()) c.emplace(k, typename C::mapped_type(parts_[i + 1])); else c.emplace(k, typename C::mapped_type()); }
    } else { for (auto p : parts_) c.insert(c.end(), typename C::value_type(p)); }
    return c;
  }
 private:
  void Run() {
    parts_.clear();
    D d = d_;
    size_t pos = 0;
    while (true) {
      std::string_view del = d.Find(text_, pos);
      const char* tend = text_.data() + text_.size();
      bool last = del.data() == tend;
      size_t len = (last && del.empty() ? (size_t)(tend - text_.data()) : (size_t)(del.data() - text_.data())) - pos;
      std::string_view part = text_.substr(pos, len);
      if (p_(part)) parts_.push_back(part);
      if (last) break;
      pos += part.size() + del.size();
    }
  }
  std::string own_text_; std::string_view text_; D d_; D d0_ = d_; P p_; bool own_ = false;
  std::vector<std::string_view> parts_;
 public:
  void SetOwn() { own_ = true; }
};
template <typename T, typename D, typename P> auto MakeSplitter(T&& text, D d, P p) {
  using DT = DelimT<D>;
  if constexpr (std::is_same_v<T, std::string>) { Splitter<DT, P> s(std::move(text), true, {}, DT(d), p); s.SetOwn(); return s; }
  else return Splitter<DT, P>(std::string(), false, std::string_view(text), DT(d), p);
}
}  // namespace strings_internal
template <typename T, typename D> auto StrSplit(T&& text, D d) { return strings_internal::MakeSplitter(std::forward<T>(text), d, AllowEmpty()); }
template <typename T, typename D, typename P> auto StrSplit(T&& text, D d, P p) { return strings_internal::MakeSplitter(std::forward<T>(text), d, p); }
}  // namespace absl
#endif
