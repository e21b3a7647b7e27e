#ifndef VERIF_SHIM_ABSL_ALGORITHM_CONTAINER_H_
#define VERIF_SHIM_ABSL_ALGORITHM_CONTAINER_H_
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
template <typename C, typename P> bool c_all_of(const C& c, P&& p) { return std::all_of(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename P> bool c_any_of(const C& c, P&& p) { return std::any_of(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename P> bool c_none_of(const C& c, P&& p) { return std::none_of(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename T> auto c_find(C& c, T&& v) { return std::find(std::begin(c), std::end(c), std::forward<T>(v)); }
template <typename C, typename P> auto c_find_if(C& c, P&& p) { return std::find_if(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename P> auto c_find_if_not(C& c, P&& p) { return std::find_if_not(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename T> auto c_count(const C& c, T&& v) { return std::count(std::begin(c), std::end(c), std::forward<T>(v)); }
template <typename C, typename P> auto c_count_if(const C& c, P&& p) { return std::count_if(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename F> F c_for_each(C&& c, F&& f) { return std::for_each(std::begin(c), std::end(c), std::forward<F>(f)); }
template <typename C, typename T> bool c_linear_search(const C& c, T&& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <typename C, typename T> bool c_contains(const C& c, T&& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <typename A, typename B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <typename C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <typename C, typename L> void c_sort(C& c, L&& l) { std::sort(std::begin(c), std::end(c), std::forward<L>(l)); }
template <typename C> void c_stable_sort(C& c) { std::stable_sort(std::begin(c), std::end(c)); }
template <typename C, typename L> void c_stable_sort(C& c, L&& l) { std::stable_sort(std::begin(c), std::end(c), std::forward<L>(l)); }
template <typename C> bool c_is_sorted(const C& c) { return std::is_sorted(std::begin(c), std::end(c)); }
template <typename C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template <typename C, typename O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <typename C, typename O, typename P> O c_copy_if(const C& c, O o, P&& p) { return std::copy_if(std::begin(c), std::end(c), o, std::forward<P>(p)); }
template <typename C, typename O, typename F> O c_transform(const C& c, O o, F&& f) { return std::transform(std::begin(c), std::end(c), o, std::forward<F>(f)); }
template <typename C, typename T> void c_fill(C& c, const T& v) { std::fill(std::begin(c), std::end(c), v); }
template <typename C, typename T> std::decay_t<T> c_accumulate(const C& c, T&& i) { return std::accumulate(std::begin(c), std::end(c), std::forward<T>(i)); }
template <typename C, typename T, typename F> std::decay_t<T> c_accumulate(const C& c, T&& i, F&& f) { return std::accumulate(std::begin(c), std::end(c), std::forward<T>(i), std::forward<F>(f)); }
template <typename C, typename T> auto c_lower_bound(C& c, const T& v) { return std::lower_bound(std::begin(c), std::end(c), v); }
template <typename C, typename T> auto c_upper_bound(C& c, const T& v) { return std::upper_bound(std::begin(c), std::end(c), v); }
template <typename C, typename T> bool c_binary_search(C& c, const T& v) { return std::binary_search(std::begin(c), std::end(c), v); }
template <typename C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
template <typename C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template <typename C> auto c_distance(const C& c) { return std::distance(std::begin(c), std::end(c)); }
}  // namespace absl
#endif
