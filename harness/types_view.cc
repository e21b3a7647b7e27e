// A typed view is the view it wraps: same elements, same order, same types, for every content and every pipeline.
#include "lib/mc.h"
#include <algorithm>
#include <list>
#include <span>
#include <map>
#include <ranges>
#include "mbo/types/typed_view.h"

namespace {
using mbo::types::TypedView;
namespace vw = std::views;
template <typename V>
void Check(mc::Ctx& c, V view, const auto& want, const char* what) {
  using Ref = std::ranges::range_reference_t<V>;
  auto tv = TypedView(std::move(view));
  using T = decltype(tv);
  static_assert(std::is_same_v<typename T::value_type, std::ranges::range_value_t<V>>);
  static_assert(std::is_same_v<typename T::reference, Ref>);
  static_assert(std::is_same_v<typename T::difference_type, std::ranges::range_difference_t<V>>);
  static_assert(std::ranges::input_range<T> && std::ranges::input_range<const T>);
  static_assert(std::ranges::random_access_range<T> == std::ranges::random_access_range<const V>);
  const auto& ct = tv;
  for (int round = 0; round < 2; ++round) {  // iterating does not consume
    size_t i = 0;
    auto w = want.begin();
    for (auto&& x : tv) {
      MC_CHECK(c, i < want.size() && x == *w, what, ": element ", i);
      ++i, ++w;
    }
    MC_CHECK(c, i == want.size(), what, ": ", i, " elements instead of ", want.size());
    MC_CHECK(c, static_cast<size_t>(std::ranges::distance(ct)) == want.size(), what, ": const distance");
    MC_CHECK(c, ct.empty() == want.empty() && tv.empty() == want.empty(), what, ": empty()");
    if constexpr (std::ranges::sized_range<const V> && std::ranges::random_access_range<const V>) MC_CHECK(c, ct.size() == want.size(), what, ": size()");
    if (!want.empty()) MC_CHECK(c, ct.front() == *want.begin(), what, ": front()");
    if constexpr (std::ranges::random_access_range<const V>) {
      size_t k = 0;
      for (const auto& x : want) { MC_CHECK(c, ct[k] == x, what, ": [", k, "]"); ++k; }
    }
  }
  T moved(std::move(tv));
  MC_CHECK(c, std::ranges::equal(moved, want), what, ": after moving");
  if constexpr (std::copyable<T>) {
    T copy(moved);
    MC_CHECK(c, std::ranges::equal(copy, want) && std::ranges::equal(moved, want), what, ": after copying");
  }
  c.step();
  c.state(mc::Fnv(mc::Cat(what, want.size())));
}
}  // namespace

MC_SECTION(pipelines) {
  const int n = c.choose(mc::Tier(5, 7));
  std::vector<int> data;
  for (int i = 0; i < n; ++i) data.push_back(c.choose(3) - 1);
  Check(c, vw::all(data), data, "all");
  Check(c, vw::all(std::as_const(data)), data, "const all");
  Check(c, std::span<int>(data), data, "span");
  std::vector<int> twice;
  for (int x : data) twice.push_back(x * 2);
  Check(c, vw::transform(data, [](int x) { return x * 2; }), twice, "transform");
  Check(c, vw::reverse(data), std::vector<int>(data.rbegin(), data.rend()), "reverse");
  Check(c, std::ranges::owning_view(std::vector<int>(data)), data, "owning");
  Check(c, vw::transform(std::vector<int>(data), [](int x) { return x * 2; }), twice, "owning transform");
  for (int k = 0; k <= n; ++k) {
    Check(c, vw::take(data, k), std::vector<int>(data.begin(), data.begin() + k), "take");
    Check(c, vw::drop(data, k), std::vector<int>(data.begin() + k, data.end()), "drop");
    Check(c, std::ranges::subrange(data.begin() + k / 2, data.begin() + k), std::vector<int>(data.begin() + k / 2, data.begin() + k), "subrange");
  }
  const std::list<int> lst(data.begin(), data.end());
  Check(c, vw::all(lst), data, "list");
  Check(c, vw::take_while(lst, [](int x) { return x != 1; }), std::vector<int>(data.begin(), std::find(data.begin(), data.end(), 1)), "take_while");
  std::map<int, int> m;
  for (int i = 0; i < n; ++i) m[i] = data[i];
  Check(c, vw::values(m), data, "values");
  Check(c, vw::iota(0, n), std::vector<int>([&] { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(i); return r; }()), "iota");
  std::vector<std::string> strs;
  for (int x : data) strs.push_back(std::string(x + 2, 'x'));
  Check(c, vw::all(strs), strs, "strings");
  // writing through
  { auto tv = TypedView(vw::all(data)); for (int& x : tv) x += 5; int i = 0; for (int x : twice) MC_CHECK(c, data[i++] == x / 2 + 5, "writing through"); }
}
