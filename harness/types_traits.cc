// Type predicates: for every type of a grid, every predicate answers what its documentation says.
#include "lib/mc.h"
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "mbo/types/traits.h"
#include "mbo/types/tuple.h"
#include "mbo/types/variant.h"

namespace t = mbo::types;
namespace {
struct Empty {};
struct Agg { int a; std::string b; };
struct Base : Empty { int a; };
class Cls { public: Cls(int) {} private: int a = 0; };
struct OnlyIter {  // begin/end only
  using iterator = int*; using const_iterator = const int*;
  int* begin(); int* end(); const int* begin() const; const int* end() const;
};
struct InputIt {
  using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = const int&;
  const int& operator*() const; InputIt& operator++(); InputIt operator++(int); bool operator==(const InputIt&) const = default;
};
struct InputRange { using iterator = InputIt; using const_iterator = InputIt; InputIt begin() const; InputIt end() const; };
struct Less { bool operator()(int a, int b) const; };
template <typename T> struct MyAlloc : std::allocator<T> { template <typename U> struct rebind { using other = MyAlloc<U>; }; };
enum En { e0 };
enum class Ec { e0 };
union Un { int a; float b; };
using Fn = int (*)(int);

template <typename T>
std::set<std::string> Actual() {
  std::set<std::string> r;
#define Q(name) if constexpr (t::name<T>) r.insert(#name);
  Q(IsTuple) Q(IsPair) Q(IsPairFirstStr) Q(IsSet) Q(IsVector) Q(IsOptional) Q(IsReferenceWrapper) Q(IsSmartPtr) Q(IsInitializerList) Q(IsCharArray)
  Q(IsVariant) Q(IsForwardIteratable) Q(ContainerIsForwardIteratable) Q(ContainerHasInputIterator) Q(ContainerHasForwardIterator) Q(HasDifferenceType)
  Q(HasValueType) Q(IsStringKeyedContainer) Q(IsArithmetic) Q(IsIntegral) Q(IsScalar) Q(IsFloatingPoint) Q(IsAggregate) Q(IsEmptyType)
#undef Q
  if constexpr (t::NotInitializerList<T> == t::IsInitializerList<T>) r.insert("NotInitializerList!");
  if constexpr (t::NotIsCharArray<T> == t::IsCharArray<T>) r.insert("NotIsCharArray!");
  return r;
}
std::set<std::string> Split(const std::string& s) {
  std::istringstream i(s);
  std::set<std::string> r;
  for (std::string w; i >> w;) r.insert(w);
  return r;
}
std::string Join(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += (r.empty() ? "" : " ") + x; return r; }

#define CONT "IsForwardIteratable ContainerIsForwardIteratable ContainerHasInputIterator ContainerHasForwardIterator HasDifferenceType HasValueType "
using Pss = std::pair<std::string, int>;
using Pis = std::pair<int, std::string>;
#define TYPES(X) \
  X((bool), "IsArithmetic IsIntegral IsScalar") X((char), "IsArithmetic IsIntegral IsScalar") X((const char), "IsArithmetic IsIntegral IsScalar") \
  X((unsigned char), "IsArithmetic IsIntegral IsScalar") X((char8_t), "IsArithmetic IsIntegral IsScalar") X((wchar_t), "IsArithmetic IsIntegral IsScalar") \
  X((int), "IsArithmetic IsIntegral IsScalar") X((const int), "IsArithmetic IsIntegral IsScalar") X((volatile long), "IsArithmetic IsIntegral IsScalar") X((size_t), "IsArithmetic IsIntegral IsScalar") \
  X((float), "IsArithmetic IsFloatingPoint IsScalar") X((double), "IsArithmetic IsFloatingPoint IsScalar") X((const double), "IsArithmetic IsFloatingPoint IsScalar") X((long double), "IsArithmetic IsFloatingPoint IsScalar") \
  X((int*), "IsScalar") X((float*), "IsScalar") X((const int* const), "IsScalar") X((std::nullptr_t), "IsScalar") X((Fn), "IsScalar") X((En), "IsScalar") X((Ec), "IsScalar") X((int Agg::*), "IsScalar") \
  X((int&), "") X((float&), "") X((const int&), "") X((int&&), "") X((void), "") \
  X((char*), "IsScalar IsCharArray") X((const char*), "IsScalar IsCharArray") X((char* const), "IsScalar IsCharArray") X((const char*&), "IsCharArray") X((const char* const&), "IsCharArray") \
  X((char[4]), "IsCharArray IsAggregate") X((const char[4]), "IsCharArray IsAggregate") X((const char(&)[4]), "IsCharArray") X((char[]), "IsCharArray IsAggregate") X((int[4]), "IsAggregate") X((unsigned char[4]), "IsAggregate") X((unsigned char*), "IsScalar") X((char**), "IsScalar") \
  X((Empty), "IsAggregate IsEmptyType") X((const Empty), "IsAggregate IsEmptyType") X((Agg), "IsAggregate") X((Base), "IsAggregate") X((Cls), "") X((Un), "IsAggregate") X((std::monostate), "IsAggregate IsEmptyType") \
  X((std::string), CONT) X((const std::string), CONT) X((std::string&), "IsForwardIteratable ContainerIsForwardIteratable ContainerHasInputIterator ContainerHasForwardIterator") X((std::string_view), CONT) \
  X((std::vector<int>), CONT "IsVector") X((std::vector<std::string>), CONT "IsVector") X((std::vector<int, MyAlloc<int>>), CONT "IsVector") X((std::vector<int>&), "IsForwardIteratable ContainerIsForwardIteratable ContainerHasInputIterator ContainerHasForwardIterator") X((const std::vector<int>&), "IsForwardIteratable ContainerIsForwardIteratable ContainerHasInputIterator ContainerHasForwardIterator") \
  X((std::deque<int>), CONT) X((std::list<int>), CONT) X((std::array<int, 3>), CONT "IsAggregate") \
  X((std::forward_list<int>), "IsForwardIteratable ContainerHasInputIterator ContainerHasForwardIterator HasDifferenceType HasValueType") \
  X((std::set<int>), CONT "IsSet") X((std::set<std::string>), CONT "IsSet") X((std::set<int, Less>), CONT "IsSet") X((std::set<int, std::greater<>, MyAlloc<int>>), CONT "IsSet") X((std::multiset<int>), CONT) X((std::unordered_set<int>), CONT) \
  X((std::map<std::string, int>), CONT "IsStringKeyedContainer") X((std::map<int, std::string>), CONT) X((std::map<std::string_view, int>), CONT "IsStringKeyedContainer") X((std::map<const char*, int>), CONT "IsStringKeyedContainer") X((std::multimap<std::string, int>), CONT "IsStringKeyedContainer") \
  X((std::unordered_map<std::string, int>), CONT "IsStringKeyedContainer") X((std::vector<Pss>), CONT "IsVector IsStringKeyedContainer") X((std::vector<Pis>), CONT "IsVector") X((std::list<std::pair<const std::string, int>>), CONT "IsStringKeyedContainer") \
  X((std::initializer_list<int>), "IsForwardIteratable IsInitializerList ContainerHasInputIterator ContainerHasForwardIterator HasValueType") X((const std::initializer_list<int>&), "IsForwardIteratable IsInitializerList ContainerHasInputIterator ContainerHasForwardIterator") \
  X((Pss), "IsPair IsPairFirstStr") X((Pis), "IsPair") X((std::pair<std::string_view, std::string>), "IsPair IsPairFirstStr") X((std::pair<const char*, int>), "IsPair IsPairFirstStr") X((const Pss), "") X((Pss&), "") \
  X((std::tuple<>), "IsTuple IsEmptyType") X((std::tuple<int>), "IsTuple") X((std::tuple<int, std::string>), "IsTuple") X((const std::tuple<int>), "") X((std::tuple<int>&), "") \
  X((std::optional<int>), "IsOptional HasValueType") X((std::optional<std::vector<int>>), "IsOptional HasValueType") X((const std::optional<int>), "HasValueType") \
  X((std::unique_ptr<int>), "IsSmartPtr") X((std::shared_ptr<Agg>), "IsSmartPtr") X((std::weak_ptr<int>), "IsSmartPtr") X((std::unique_ptr<int>&), "") \
  X((std::reference_wrapper<int>), "IsReferenceWrapper") X((std::reference_wrapper<const std::string>), "IsReferenceWrapper") X((std::type_identity<int>), "IsAggregate IsEmptyType") \
  X((std::variant<int>), "IsVariant") X((std::variant<int, std::string>), "IsVariant") X((std::variant<std::monostate>), "IsVariant") X((const std::variant<int>), "") X((std::variant<int>&), "") \
  X((OnlyIter), "ContainerHasInputIterator ContainerHasForwardIterator IsAggregate IsEmptyType") X((InputRange), "ContainerHasInputIterator IsAggregate IsEmptyType") \
  X((std::vector<int>::iterator), "HasDifferenceType HasValueType") X((std::vector<std::vector<int>>), CONT "IsVector")
#define STRIP(...) __VA_ARGS__

using L4 = std::tuple<int, const std::string, double&, Agg*>;
template <typename T> struct Id { using type = T; };
}  // namespace

MC_SECTION_D(grid, 0) {
#define X(type, want)                                                                                                   \
  {                                                                                                                     \
    const auto got = Actual<STRIP type>();                                                                                    \
    c.step(24);                                                                                                         \
    c.state(mc::Fnv(#type));                                                                                            \
    c.detail(#type);                                                                                                    \
    MC_CHECK(c, got == Split(want), #type, " is [", Join(got), "], documented [", Join(Split(want)), "]");                                  \
  }
  TYPES(X)
#undef X
}

namespace {
template <typename... T> struct List {};
// same/any-of predicates over all pairs of a list
template <typename A, typename B>
void Same(mc::Ctx& c) {
  using Ra = std::remove_cvref_t<A>;
  using Rb = std::remove_cvref_t<B>;
  c.step();
  MC_CHECK(c, (t::IsSameAsRaw<A, B> == std::is_same_v<Ra, Rb>), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::IsSameAsAnyOf<A, B> == std::is_same_v<A, B>) && (t::NotSameAsAnyOf<A, B> != std::is_same_v<A, B>), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::IsSameAsAnyOfRaw<A, B> == std::is_same_v<Ra, Rb>) && (t::NotSameAsAnyOfRaw<A, B> != std::is_same_v<Ra, Rb>), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::IsSameAsAnyOf<A, B, Empty> == std::is_same_v<A, B>) && (t::IsSameAsAnyOf<A, Empty, B> == std::is_same_v<A, B>) && (t::IsSameAsAnyOf<A, Empty, Agg, B, Cls> == std::is_same_v<A, B>), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::IsSameAsAnyOfRaw<A, B, Empty> == std::is_same_v<Ra, Rb>) && (t::IsSameAsAnyOfRaw<A, Empty, B> == std::is_same_v<Ra, Rb>) && (t::NotSameAsAnyOfRaw<A, Empty, const Agg, B> != std::is_same_v<Ra, Rb>), __PRETTY_FUNCTION__);
}
template <typename A, typename... B> void SameRow(mc::Ctx& c, List<B...>) { (Same<A, B>(c), ...); }
template <typename... A> void SameAll(mc::Ctx& c, List<A...> l) { (SameRow<A>(c, l), ...); }
// variant membership: every variant of up to three alternatives over a list, every candidate
template <typename V, typename X, typename... A> void Member(mc::Ctx& c) {
  c.step();
  MC_CHECK(c, (t::IsVariantMemberType<V, X> == (... || std::is_same_v<X, A>)), __PRETTY_FUNCTION__);
}
template <typename... A> void Members(mc::Ctx& c) {
  using V = std::variant<A...>;
  static_assert(t::IsVariant<V>);
  Member<V, int, A...>(c); Member<V, const int, A...>(c); Member<V, unsigned, A...>(c); Member<V, std::string, A...>(c); Member<V, std::string_view, A...>(c); Member<V, char, A...>(c); Member<V, Empty, A...>(c); Member<V, V, A...>(c);
  c.state(mc::Fnv(__PRETTY_FUNCTION__));
}
template <typename A, typename B> void M3(mc::Ctx& c) { Members<A, B>(c); Members<A, B, int>(c); Members<A, B, unsigned>(c); Members<A, B, std::string>(c); Members<A, B, char>(c); Members<A, B, int, Empty, const int>(c); Members<A, B, Empty, Empty, Empty, Empty, char>(c); }
template <typename A> void M2(mc::Ctx& c) { Members<A>(c); M3<A, int>(c); M3<A, unsigned>(c); M3<A, std::string>(c); M3<A, char>(c); }
}  // namespace

MC_SECTION_D(same, 0) {
  SameAll(c, List<int, const int, int&, const int&, int&&, volatile int, int*, const int*, unsigned, std::string, const std::string&, std::string_view>());
  MC_CHECK(c, !t::IsSameAsAnyOf<int> && t::NotSameAsAnyOf<int> && !t::IsSameAsAnyOfRaw<int> && t::NotSameAsAnyOfRaw<int>, "empty list");
  c.state(1);
}
MC_SECTION_D(variants, 0) { M2<int>(c); M2<unsigned>(c); M2<std::string>(c); M2<char>(c); M2<const int>(c); }

MC_SECTION_D(overloaded, 0) {
  // exact overload wins over conversions; every alternative of every variant state reaches its own handler
  using V = std::variant<int, std::string, double, char, Empty, const char*>;
  const t::Overloaded by{[](int) { return 0; }, [](const std::string&) { return 1; }, [](double) { return 2; }, [](char) { return 3; }, [](const Empty&) { return 4; }, [](const char*) { return 5; }};
  const t::Overloaded rest{[](const std::string&) { return 1; }, [](auto&&) { return 9; }};
  const t::Overloaded reordered{[](const char*) { return 5; }, [](const Empty&) { return 4; }, [](char) { return 3; }, [](double) { return 2; }, [](const std::string&) { return 1; }, [](int) { return 0; }};
  const std::vector<V> vs = {V(7), V(std::string("s")), V(1.5), V('c'), V(Empty()), V("lit")};
  for (size_t i = 0; i < vs.size(); ++i) {
    c.step();
    c.state(i);
    MC_CHECK(c, std::visit(by, vs[i]) == static_cast<int>(i) && std::visit(reordered, vs[i]) == static_cast<int>(i), "alternative ", i, " reached another handler");
    MC_CHECK(c, std::visit(rest, vs[i]) == (i == 1 ? 1 : 9), "alternative ", i, " with a fallback");
    for (size_t j = 0; j < vs.size(); ++j) {
      int got = std::visit(t::Overloaded{[](int, int) { return 1; }, [](const std::string&, const auto&) { return 2; }, [](const auto&, const std::string&) { return 3; }, [](const std::string&, const std::string&) { return 4; }, [](const auto&, const auto&) { return 5; }}, vs[i], vs[j]);
      MC_CHECK(c, got == (i == 1 && j == 1 ? 4 : i == 1 ? 2 : j == 1 ? 3 : i == 0 && j == 0 ? 1 : 5), "pair ", i, ",", j);
    }
  }
  int count = 0;
  auto mut = t::Overloaded{[&](int& x) { ++x; ++count; }, [&](auto&) { count += 10; }};
  V v(1);
  std::visit(mut, v);
  MC_CHECK(c, std::get<int>(v) == 2 && count == 1, "mutable visitor");
}

namespace {
struct FromArr { FromArr(const char (&)[4]) {} };
struct Expl { explicit Expl(int) {} };
struct NoDtor { ~NoDtor() = delete; };
struct Two { Two(int, std::string) {} };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; };
template <typename T, bool kEmplace, bool kEmplaceBack, bool kInsert, bool kPushBack>
void Adds(mc::Ctx& c) {
  using Vt = typename T::value_type;
  c.step(4);
  c.state(mc::Fnv(__PRETTY_FUNCTION__));
  MC_CHECK(c, (t::ContainerHasEmplace<T, Vt> == kEmplace), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::ContainerHasEmplaceBack<T, Vt> == kEmplaceBack), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::ContainerHasInsert<T, Vt> == kInsert), __PRETTY_FUNCTION__);
  MC_CHECK(c, (t::ContainerHasPushBack<T, Vt> == kPushBack), __PRETTY_FUNCTION__);
}
template <typename In, typename Out, bool kWant, typename F = t::types_internal::NoFunc> void Conv(mc::Ctx& c) {
  c.step();
  MC_CHECK(c, (t::ContainerCopyConvertible<In, Out, F> == kWant), __PRETTY_FUNCTION__);
}
}  // namespace
MC_SECTION_D(construction, 0) {
  MC_CHECK(c, (t::ConstructibleFrom<std::string, const char*> && t::ConstructibleFrom<std::string, std::string_view> && t::ConstructibleFrom<std::string> && t::ConstructibleFrom<std::string, int, char> && t::ConstructibleFrom<std::string, char[4]>), "string");
  MC_CHECK(c, (!t::ConstructibleFrom<std::string, std::vector<int>> && !t::ConstructibleFrom<std::string, std::string, std::string, std::string, std::string>), "string from other things");
  MC_CHECK(c, (t::ConstructibleFrom<Expl, int> && !t::ConstructibleFrom<Expl, std::string> && !t::ConstructibleFrom<Expl>), "explicit");
  MC_CHECK(c, (t::ConstructibleFrom<Two, int, std::string> && t::ConstructibleFrom<Two, int, const char*> && !t::ConstructibleFrom<Two, int> && !t::ConstructibleFrom<Two, std::string, int>), "two arguments");
  MC_CHECK(c, (t::ConstructibleFrom<MoveOnly, MoveOnly> && t::ConstructibleFrom<MoveOnly, MoveOnly&&> && !t::ConstructibleFrom<MoveOnly, const MoveOnly&>), "move only");
  MC_CHECK(c, (!t::ConstructibleFrom<NoDtor>), "not destructible");
  MC_CHECK(c, (t::ConstructibleInto<const char*, std::string> && t::ConstructibleInto<std::string_view, std::string> && !t::ConstructibleInto<std::vector<int>, std::string> && t::ConstructibleInto<int, Expl> && !t::ConstructibleInto<Expl, int>), "into");
  MC_CHECK(c, (t::IsBracesConstructibleV<Agg, int, std::string> && t::IsBracesConstructibleV<Agg, int> && t::IsBracesConstructibleV<Agg> && !t::IsBracesConstructibleV<Agg, std::string> && !t::IsBracesConstructibleV<Agg, int, std::string, int> && !t::IsBracesConstructibleV<Cls> && t::IsBracesConstructibleV<Cls, int>), "braces");
  MC_CHECK(c, (!t::IsBracesConstructibleV<Agg, double>), "narrowing");
  MC_CHECK(c, (t::IsConstructibleWithEmptyBaseAndArgs<Base, int> && t::IsConstructibleWithEmptyBaseAndArgs<Base> && !t::IsConstructibleWithEmptyBaseAndArgs<Base, std::string> && !t::IsConstructibleWithEmptyBaseAndArgs<Base, int, int>), "empty base and arguments");
  Adds<std::vector<int>, false, true, false, true>(c);
  Adds<std::deque<std::string>, false, true, false, true>(c);
  Adds<std::list<int>, false, true, false, true>(c);
  Adds<std::set<int>, true, false, true, false>(c);
  Adds<std::multiset<std::string>, true, false, true, false>(c);
  Adds<std::unordered_set<int>, true, false, true, false>(c);
  Adds<std::map<int, int>, true, false, true, false>(c);
  Adds<std::string, false, false, false, true>(c);
  Adds<std::array<int, 2>, false, false, false, false>(c);
  Adds<std::forward_list<int>, false, false, false, false>(c);
  Conv<std::vector<int>, std::set<int>, true>(c);
  Conv<std::set<int>, std::vector<long>, true>(c);
  Conv<std::initializer_list<int>, std::vector<int>, true>(c);
  Conv<const std::vector<const char*>&, std::set<std::string>, true>(c);
  Conv<std::vector<std::string>, std::vector<int>, false>(c);
  Conv<std::vector<int>, std::array<int, 3>, false>(c);
  Conv<int, std::vector<int>, false>(c);
  Conv<std::vector<int>, int, false>(c);
  Conv<std::map<int, int>, std::vector<std::pair<int, int>>, true>(c);
  auto fn = [](const std::string& s) { return s.size(); };
  Conv<std::vector<std::string>, std::vector<size_t>, true, decltype(fn)>(c);
  Conv<std::vector<std::string>, std::vector<std::string>, false, std::function<Empty(std::string)>>(c);
  MC_CHECK(c, (std::is_same_v<t::GetDifferenceType<std::vector<int>>, std::ptrdiff_t> && std::is_same_v<t::GetDifferenceType<int>, std::ptrdiff_t> && std::is_same_v<t::GetDifferenceType<Empty>, std::ptrdiff_t>), "difference type");
  struct D { using difference_type = short; };
  MC_CHECK(c, (std::is_same_v<t::GetDifferenceType<D>, short>), "own difference type");
  MC_CHECK(c, (std::is_same_v<t::ForwardIteratorValueType<std::vector<std::string>::iterator>, std::string> && std::is_same_v<t::ForwardIteratorValueType<int*>, int> && std::is_same_v<t::ForwardIteratorValueType<std::map<int, char>::const_iterator>, std::pair<const int, char>>), "iterator value type");
  MC_CHECK(c, (std::is_same_v<t::ContainerConstIteratorValueType<std::vector<std::string>>, std::string> && std::is_same_v<t::ContainerConstIteratorValueType<const std::set<int>&>, int> && std::is_same_v<t::ContainerConstIteratorValueType<std::initializer_list<char>>, char>), "container value type");
  // tuple concatenation
  MC_CHECK(c, (std::is_same_v<t::TupleCat<std::tuple<int>, std::tuple<char, int&>>, std::tuple<int, char, int&>> && std::is_same_v<t::TupleCat<std::tuple<>, std::tuple<>>, std::tuple<>> && std::is_same_v<t::TupleCat<std::tuple<int>, std::tuple<>>, std::tuple<int>> && std::is_same_v<t::TupleAdd<std::tuple<int>, const char>, std::tuple<int, const char>> && std::is_same_v<t::TupleAdd<std::tuple<>, std::tuple<int>>, std::tuple<std::tuple<int>>>), "tuple concatenation");
  // three-way comparability in exactly the presented order
  struct L { std::strong_ordering operator<=>(int) const; };
  struct W { std::weak_ordering operator<=>(const W&) const; };
  struct P { std::partial_ordering operator<=>(const P&) const; };
  struct N {};
  MC_CHECK(c, (t::ThreeWayComparableTo<int, int> && t::ThreeWayComparableTo<int, long> && t::ThreeWayComparableTo<std::string, const char*> && t::ThreeWayComparableTo<const std::string&, std::string_view>), "three-way");
  MC_CHECK(c, (t::ThreeWayComparableTo<L, int> && !t::ThreeWayComparableTo<N, N> && !t::ThreeWayComparableTo<N, int> && !t::ThreeWayComparableTo<std::string, int>), "three-way, own operator");
  MC_CHECK(c, (t::ThreeWayComparableTo<int, int, std::strong_ordering> && !t::ThreeWayComparableTo<W, W, std::strong_ordering> && t::ThreeWayComparableTo<W, W, std::weak_ordering> && t::ThreeWayComparableTo<W, W> && t::ThreeWayComparableTo<P, P> && !t::ThreeWayComparableTo<P, P, std::weak_ordering> && !t::ThreeWayComparableTo<double, double, std::weak_ordering> && t::ThreeWayComparableTo<double, int>), "three-way categories");
  c.step(30);
}
