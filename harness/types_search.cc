// Compile-time searches and case selection: every predicate table over every range, evaluated by the compiler.
#include "lib/mc.h"
#include <array>
#include <type_traits>
#include "mbo/types/cases.h"
#include "mbo/types/template_search.h"

namespace {
using namespace mbo::types;
constexpr size_t kBits = 5;
constexpr size_t kNf = 77;  // custom "not found"
template <size_t kMask>
struct Table {
  template <size_t I>
  struct At : std::bool_constant<(I < 64) && (kMask >> I & 1)> {};
};
template <size_t kThreshold>
struct Below {
  template <size_t I>
  struct At : std::bool_constant<(I < kThreshold)> {};
};
struct Row { size_t bin, bin_nf, lin, lin_nf, max, max_nf, rev, rev_nf; };
template <template <size_t> typename P, size_t S, size_t E>
constexpr Row Make() {
  return {BinarySearchV<P, S, E>, BinarySearch<P, S, E, kNf>::value, LinearSearchV<P, S, E>, LinearSearch<P, S, E, kNf>::value,
          MaxSearchV<P, S, E>, MaxSearch<P, S, E, kNf>::value, ReverseSearchV<P, S, E>, ReverseSearch<P, S, E, kNf>::value};
}
constexpr size_t kN = kBits + 2;  // 0..6 for both ends
template <size_t kMask, size_t... kIdx>
constexpr std::array<Row, kN * kN> Rows(std::index_sequence<kIdx...>) { return {Make<Table<kMask>::template At, kIdx / kN, kIdx % kN>()...}; }
template <size_t... kMask>
constexpr std::array<std::array<Row, kN * kN>, sizeof...(kMask)> All(std::index_sequence<kMask...>) { return {Rows<kMask>(std::make_index_sequence<kN * kN>())...}; }
constexpr auto kRows = All(std::make_index_sequence<(1 << kBits)>());

// Longer monotone predicates.
constexpr size_t kLong = 40;
template <size_t S, size_t... kIdx>
constexpr std::array<Row, sizeof...(kIdx)> LongRows(std::index_sequence<kIdx...>) {
  return {Make<Below<kIdx % (kLong + 1)>::template At, S, S + kIdx / (kLong + 1) * 7>()...};
}
constexpr size_t kLens = 6;
constexpr auto kLong0 = LongRows<0>(std::make_index_sequence<(kLong + 1) * kLens>());
constexpr auto kLong3 = LongRows<3>(std::make_index_sequence<(kLong + 1) * kLens>());

void CheckRow(mc::Ctx& c, const Row& r, size_t s, size_t e, const std::function<bool(size_t)>& p, const std::string& what) {
  size_t lin = SIZE_MAX, rev = SIZE_MAX, max = SIZE_MAX;
  bool prefix = true;  // true up to some point, false after it
  for (size_t i = s; i < e; ++i) {
    if (p(i)) {
      if (lin == SIZE_MAX) lin = i;
      rev = i;
      if (i > s && !p(i - 1)) prefix = false;
    }
  }
  for (size_t i = s; i < e && p(i); ++i) max = i;
  if (rev != SIZE_MAX && !p(s)) prefix = false;
  auto either = [](size_t v, size_t nf) { return v == SIZE_MAX ? nf : v; };
  c.step();
  MC_CHECK(c, r.lin == either(lin, e) && r.lin_nf == either(lin, kNf), "linear ", what, ": ", r.lin, "/", r.lin_nf);
  MC_CHECK(c, r.rev == either(rev, e) && r.rev_nf == either(rev, kNf), "reverse ", what, ": ", r.rev, "/", r.rev_nf);
  MC_CHECK(c, r.max == either(max, e) && r.max_nf == either(max, kNf), "max ", what, ": ", r.max, "/", r.max_nf);
  if (prefix) {
    MC_CHECK(c, r.bin == either(max, e) && r.bin_nf == either(max, kNf), "binary ", what, ": ", r.bin, "/", r.bin_nf);
  } else {
    MC_CHECK(c, r.bin == e || (r.bin >= s && r.bin < e && p(r.bin)), "binary ", what, ": finds ", r.bin, " which is false");
    MC_CHECK(c, r.bin_nf == kNf || (r.bin_nf >= s && r.bin_nf < e && p(r.bin_nf)), "binary ", what, ": finds ", r.bin_nf, " which is false");
  }
  c.state(r.lin * 1000003 + r.rev * 1009 + r.max * 31 + r.bin);
}

template <size_t I> struct Tag {};
template <typename T> struct TagIndex { static constexpr size_t value = 1000; };
template <size_t I> struct TagIndex<Tag<I>> { static constexpr size_t value = I; };
template <> struct TagIndex<void> { static constexpr size_t value = 999; };
struct Chosen { size_t plain, with_else, index, voids, first; };
template <size_t kMask, size_t... I>
constexpr Chosen Choose(std::index_sequence<I...>) {
  return {TagIndex<Cases<IfThen<(kMask >> I & 1), Tag<I>>...>>::value,
          TagIndex<Cases<IfThen<(kMask >> I & 1), Tag<I>>..., IfElse<Tag<500>>>>::value,
          CaseIndex<(kMask >> I & 1)...>,
          TagIndex<Cases<std::conditional_t<(kMask >> I & 1) && I % 2, IfTrueThenVoid, std::conditional_t<(kMask >> I & 1), IfThen<true, Tag<I>>, IfFalseThenVoid>>...>>::value,
          TagIndex<Cases<IfElse<Tag<400>>, IfThen<(kMask >> I & 1), Tag<I>>...>>::value};
}
template <size_t N, size_t... M>
std::vector<Chosen> ChooseAll(std::index_sequence<M...>) {
  static constexpr std::array<Chosen, sizeof...(M)> k = {Choose<M>(std::make_index_sequence<N>())...};
  return {k.begin(), k.end()};
}
template <size_t... N>
const std::vector<std::vector<Chosen>>& Chosens(std::index_sequence<N...>) {
  static const std::vector<std::vector<Chosen>> v = {ChooseAll<N>(std::make_index_sequence<(size_t{1} << N)>())...};
  return v;
}
}  // namespace

MC_SECTION(tables) {
  const size_t mask = c.choose(1 << kBits), s = c.choose(kN);
  for (size_t e = 0; e < kN; ++e)
    CheckRow(c, kRows[mask][s * kN + e], s, e, [&](size_t i) { return i < 64 && (mask >> i & 1); }, mc::Cat("table ", mask, " over [", s, ",", e, ")"));
}
MC_SECTION_D(monotone, 1) {
  const size_t s = c.choose(2) ? 3 : 0;
  for (size_t i = 0; i < (kLong + 1) * kLens; ++i) {
    const size_t threshold = i % (kLong + 1), e = s + i / (kLong + 1) * 7;
    CheckRow(c, (s ? kLong3 : kLong0)[i], s, e, [&](size_t k) { return k < threshold; }, mc::Cat("below ", threshold, " over [", s, ",", e, ")"));
  }
}
MC_SECTION_D(cases, 1) {
  const auto& all = Chosens(std::make_index_sequence<8>());
  const size_t n = c.choose(8);
  for (size_t m = 0; m < all[n].size(); ++m) {
    size_t first = n;
    for (size_t i = n; i-- > 0;) if (m >> i & 1) first = i;
    const Chosen& k = all[n][m];
    c.step();
    c.state(n << 8 | m);
    MC_CHECK(c, k.plain == (first == n ? 999 : first), n, " conditions ", m, ": chose ", k.plain);
    MC_CHECK(c, k.with_else == (first == n ? 500 : first), n, " conditions ", m, " with else: chose ", k.with_else);
    MC_CHECK(c, k.index == (first == n ? 0 : first + 1), n, " conditions ", m, ": index ", k.index);
    MC_CHECK(c, k.voids == (first == n || first % 2 ? 999 : first), n, " conditions ", m, " with void cases: chose ", k.voids);
    MC_CHECK(c, k.first == 400, n, " conditions ", m, " after else: chose ", k.first);
  }
}
