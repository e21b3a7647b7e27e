#ifndef VERIF_SHIM_ABSL_TYPES_SPAN_H_
#define VERIF_SHIM_ABSL_TYPES_SPAN_H_
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  static constexpr size_type npos = ~size_type(0);
  constexpr Span() noexcept = default;
  constexpr Span(T* p, size_type n) noexcept : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <typename C>
    requires(!std::is_same_v<std::remove_cvref_t<C>, Span> && !std::is_array_v<std::remove_reference_t<C>> &&
             requires(C& c) { { c.data() } -> std::convertible_to<T*>; c.size(); } && (std::is_const_v<T> || !std::is_const_v<std::remove_reference_t<C>>))
  constexpr Span(C&& c) noexcept : p_(c.data()), n_(c.size()) {}
  constexpr Span(std::initializer_list<value_type> l) noexcept requires(std::is_const_v<T>) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const noexcept { return p_; }
  constexpr size_type size() const noexcept { return n_; }
  constexpr size_type length() const noexcept { return n_; }
  constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr T& operator[](size_type i) const noexcept { return p_[i]; }
  constexpr T& at(size_type i) const { if (i >= n_) __builtin_trap(); return p_[i]; }
  constexpr T& front() const noexcept { return p_[0]; }
  constexpr T& back() const noexcept { return p_[n_ - 1]; }
  constexpr iterator begin() const noexcept { return p_; }
  constexpr iterator end() const noexcept { return p_ + n_; }
  constexpr const_iterator cbegin() const noexcept { return p_; }
  constexpr const_iterator cend() const noexcept { return p_ + n_; }
  constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const noexcept { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_type n) noexcept { p_ += n; n_ -= n; }
  constexpr void remove_suffix(size_type n) noexcept { n_ -= n; }
  constexpr Span subspan(size_type pos = 0, size_type len = npos) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_type n) const { return Span(p_, n); }
  constexpr Span last(size_type n) const { return Span(p_ + n_ - n, n); }
  template <typename U> friend constexpr bool operator==(Span a, Span<U> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
 private:
  T* p_ = nullptr;
  size_type n_ = 0;
};
template <typename T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <typename T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <typename T> constexpr Span<const T> MakeConstSpan(const T* p, size_t n) { return Span<const T>(p, n); }
template <typename T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
template <typename C> constexpr auto MakeConstSpan(const C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
}  // namespace absl
#endif
