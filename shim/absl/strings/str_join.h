#ifndef VERIF_SHIM_ABSL_STR_JOIN_H_
#define VERIF_SHIM_ABSL_STR_JOIN_H_
#include <initializer_list>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include "absl/strings/str_cat.h"
namespace absl {
struct AlphaNumFormatterImpl_ { template <typename T> void operator()(std::string* o, const T& v) const { StrAppend(o, v); } };
inline AlphaNumFormatterImpl_ AlphaNumFormatter() { return {}; }
struct StreamFormatterImpl_ { template <typename T> void operator()(std::string* o, const T& v) const { std::ostringstream os; os << v; o->append(os.str()); } };
inline StreamFormatterImpl_ StreamFormatter() { return {}; }
template <typename A, typename B> struct PairFormatterImpl_ { A a; std::string sep; B b; template <typename P> void operator()(std::string* o, const P& p) { a(o, p.first); o->append(sep); b(o, p.second); } };
template <typename A, typename B> PairFormatterImpl_<A, B> PairFormatter(A a, std::string_view s, B b) { return {a, std::string(s), b}; }
inline PairFormatterImpl_<AlphaNumFormatterImpl_, AlphaNumFormatterImpl_> PairFormatter(std::string_view s) { return {{}, std::string(s), {}}; }
template <typename It, typename F> requires(!std::is_convertible_v<It, std::string_view> || std::is_pointer_v<It>)
[[nodiscard]] std::string StrJoin(It b, It e, std::string_view sep, F&& f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); } return r; }
template <typename R, typename F> requires requires(const R& r) { std::begin(r); }
[[nodiscard]] std::string StrJoin(const R& r, std::string_view sep, F&& f) { std::string o; bool first = true; for (auto&& v : r) { if (!first) o.append(sep); first = false; f(&o, v); } return o; }
template <typename T, typename F> [[nodiscard]] std::string StrJoin(std::initializer_list<T> r, std::string_view sep, F&& f) { std::string o; bool first = true; for (auto&& v : r) { if (!first) o.append(sep); first = false; f(&o, v); } return o; }
template <typename R> requires requires(const R& r) { std::begin(r); }
[[nodiscard]] std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(r, sep, AlphaNumFormatterImpl_{}); }
template <typename T> [[nodiscard]] std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin(r, sep, AlphaNumFormatterImpl_{}); }
template <typename It> requires(std::input_iterator<It>) [[nodiscard]] std::string StrJoin(It b, It e, std::string_view sep) { return StrJoin(b, e, sep, AlphaNumFormatterImpl_{}); }
template <typename... T> [[nodiscard]] std::string StrJoin(const std::tuple<T...>& t, std::string_view sep) { std::string o; bool first = true; std::apply([&](const auto&... v) { ((first ? void() : void(o.append(sep)), first = false, StrAppend(&o, v)), ...); }, t); return o; }
}  // namespace absl
#endif
