// Turning a struct into a tuple: one element per field, in order, the very same objects.
// -DPART=k selects a slice so that the slices compile in parallel.
#include "lib/mc.h"
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>
#include "mbo/types/traits.h"
#include "mbo/types/tuple_extras.h"
#ifndef PART
#define PART 0
#endif

namespace {
using namespace mbo::types;
struct N1 { char a; bool operator==(const N1&) const = default; };
struct N2 { int a, b; bool operator==(const N2&) const = default; };
struct N3 { N2 a; std::string b; bool operator==(const N3&) const = default; };
struct E0 { bool operator==(const E0&) const = default; };
struct E1 {};
struct E2 {};
union Un { int i; float f; bool operator==(const Un& o) const { return i == o.i; } };
enum class En : char { a, b, c };
using Var = std::variant<int, char>;
using Opt = std::optional<int>;
using Vec = std::vector<int>;
using Ptr = std::unique_ptr<int>;
using Sv = std::string_view;
using Str = std::string;

// distinct values per field kind
template <typename T> T Val(int k);
template <> char Val<char>(int k) { return static_cast<char>('a' + k); }
template <> const int Val<const int>(int k) { return 1000 + k; }
template <> double Val<double>(int k) { return k + .5; }
template <> Str Val<Str>(int k) { return std::string(1 + k * 9, static_cast<char>('A' + k)); }
template <> const Str Val<const Str>(int k) { return std::string(2 + k * 9, static_cast<char>('A' + k)); }
static int g_ints[64];
template <> int* Val<int*>(int k) { return g_ints + k; }
template <> Ptr Val<Ptr>(int k) { return std::make_unique<int>(k); }
template <> N1 Val<N1>(int k) { return {static_cast<char>(k)}; }
template <> N2 Val<N2>(int k) { return {k, -k}; }
template <> N3 Val<N3>(int k) { return {{k, k + 1}, std::string(k, 'n')}; }
template <> E0 Val<E0>(int) { return {}; }
template <> Un Val<Un>(int k) { Un u; u.i = k; return u; }
template <> En Val<En>(int k) { return static_cast<En>(k); }
template <> Var Val<Var>(int k) { return k % 2 ? Var(static_cast<char>(k)) : Var(k); }
template <> Opt Val<Opt>(int k) { return k == 1 ? Opt() : Opt(k); }
template <> Vec Val<Vec>(int k) { return Vec(k + 1, k); }
template <> Sv Val<Sv>(int k) { return std::string_view("0123456789").substr(0, k); }
template <typename T> bool Same(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, Ptr>) return a && b && *a == *b;
  else return a == b;
}
#define KINDS(X) X(char) X(double) X(Str) X(int*) X(Ptr) X(N1) X(N2) X(N3) X(E0) X(Un) X(En) X(Var) X(Opt) X(Vec) X(const int) X(Sv) X(const Str)

template <typename A> struct S1 { A a; };
template <typename A, typename B> struct S2 { A a; B b; };
template <typename A, typename B, typename C> struct S3 { A a; B b; C c; };
template <typename A, typename B, typename C, typename D> struct S4 { A a; B b; C c; D d; };

template <typename T> constexpr bool kUnion = std::is_union_v<std::remove_const_t<T>>;
template <typename T> constexpr bool kVariant = std::is_same_v<std::remove_const_t<T>, Var>;


template <typename S, typename... F, typename Addr>
void Struct(mc::Ctx& c, const std::string& what, Addr addr) {
  constexpr size_t kN = sizeof...(F);
  c.step();
  c.detail(what);
  c.state(mc::Fnv(what));
  static_assert(std::is_aggregate_v<S>);
  MC_CHECK(c, CanCreateTuple<S> && CanCreateTuple<const S>, what, ": no tuple offered");
  if constexpr (CanCreateTuple<S>) {
    MC_CHECK(c, DecomposeCountV<S> == kN && IsDecomposable<S>, what, ": counts ", DecomposeCountV<S>, " fields");
    // Which members a tuple of references / values shows is part of the interface: only by-value tuples keep the member type.
    MC_CHECK(c, HasVariantMember<S> == (... || (kVariant<F> && !std::is_const_v<F>)) || (... || std::is_const_v<F>), what, ": variant member");
    MC_CHECK(c, HasUnionMember<S> == (... || (kUnion<F> && !std::is_const_v<F>)) || (... || std::is_const_v<F>), what, ": union member");
    int k = 0;
    S obj{Val<F>(k++)...};
    const auto at = addr(obj);
    auto lv = StructToTuple(obj);
    const S& co = obj;
    auto cv = StructToTuple(co);
    static_assert(std::tuple_size_v<decltype(lv)> == kN && std::tuple_size_v<decltype(cv)> == kN);
    [&]<size_t... I>(std::index_sequence<I...>) {
      auto one = [&]<size_t J, typename T>() {
        MC_CHECK(c, static_cast<const void*>(&std::get<J>(lv)) == at[J], what, ": element ", J, " is not the field");
        MC_CHECK(c, static_cast<const void*>(&std::get<J>(cv)) == at[J], what, ": element ", J, " of const is not the field");
        static_assert(std::is_same_v<std::tuple_element_t<J, decltype(lv)>, T&>);
        static_assert(std::is_same_v<std::tuple_element_t<J, decltype(cv)>, const T&>);
        MC_CHECK(c, Same<std::remove_const_t<T>>(std::get<J>(lv), Val<T>(J)), what, ": element ", J, " changed");
      };
      (one.template operator()<I, F>(), ...);
      auto rv = StructToTuple(std::move(obj));
      static_assert(std::tuple_size_v<decltype(rv)> == kN);
      auto val = [&]<size_t J, typename T>() {
        static_assert(std::is_same_v<std::tuple_element_t<J, decltype(rv)>, std::remove_const_t<T>>);
        MC_CHECK(c, Same<std::remove_const_t<T>>(std::get<J>(rv), Val<T>(J)), what, ": value ", J, " lost by moving");
      };
      (val.template operator()<I, F>(), ...);
    }(std::make_index_sequence<kN>());
  }
}
#define ADDR(...) [](auto& o) { return std::vector<const void*>{__VA_ARGS__}; }
template <typename A> void One(mc::Ctx& c, const char* a) { Struct<S1<A>, A>(c, a, ADDR(&o.a)); }
template <typename A, typename B> void Two(mc::Ctx& c, const char* a, const char* b) { Struct<S2<A, B>, A, B>(c, mc::Cat(a, ", ", b), ADDR(&o.a, &o.b)); }
template <typename A, typename B, typename C> void Three(mc::Ctx& c) { Struct<S3<A, B, C>, A, B, C>(c, mc::Cat("three fields ", __PRETTY_FUNCTION__), ADDR(&o.a, &o.b, &o.c)); }
template <typename A, typename B, typename C, typename D> void Four(mc::Ctx& c) { Struct<S4<A, B, C, D>, A, B, C, D>(c, mc::Cat("four fields ", __PRETTY_FUNCTION__), ADDR(&o.a, &o.b, &o.c, &o.d)); }
template <typename A> void RowOf(mc::Ctx& c, const char* a) {
  One<A>(c, a);
#define X(B) Two<A, B>(c, a, #B);
  KINDS(X)
#undef X
}
}  // namespace

#if PART == 0 || PART == 1 || PART == 2
MC_SECTION_D(pairs, 0) {
#if PART == 0
  RowOf<char>(c, "char"); RowOf<double>(c, "double"); RowOf<Str>(c, "string"); RowOf<int*>(c, "pointer"); RowOf<Ptr>(c, "unique_ptr"); RowOf<N1>(c, "N1");
#elif PART == 1
  RowOf<N2>(c, "N2"); RowOf<N3>(c, "N3"); RowOf<E0>(c, "E0"); RowOf<Un>(c, "union"); RowOf<En>(c, "enum"); RowOf<Var>(c, "variant");
#else
  RowOf<Opt>(c, "optional"); RowOf<Vec>(c, "vector"); RowOf<const int>(c, "const int"); RowOf<Sv>(c, "string_view"); RowOf<const Str>(c, "const string");
#endif
}
#endif

#if PART == 3
template <typename A, typename B> void T3(mc::Ctx& c) {
  Three<A, B, char>(c); Three<A, B, N2>(c); Three<A, B, Str>(c); Three<A, B, E0>(c);
}
template <typename A> void T2(mc::Ctx& c) { T3<A, char>(c); T3<A, N2>(c); T3<A, Str>(c); T3<A, E0>(c); }
MC_SECTION_D(triples, 0) { T2<char>(c); T2<N2>(c); T2<Str>(c); T2<E0>(c); }
template <typename A, typename B> void F3(mc::Ctx& c) { Four<A, B, char, char>(c); Four<A, B, char, N2>(c); Four<A, B, N2, char>(c); Four<A, B, N2, N2>(c); }
MC_SECTION_D(fours, 0) { F3<char, char>(c); F3<char, N2>(c); F3<N2, char>(c); F3<N2, N2>(c); }
#endif

#if PART == 4
// Every field count, with single-byte fields, and with strings as far as the compiler's recursion allows.
namespace {
#include "harness/types_decompose_structs.inc"
template <typename S, size_t N, typename T>
void Count(mc::Ctx& c) {
  S s{};
  T* p = reinterpret_cast<T*>(&s);
  static_assert(sizeof(S) == N * sizeof(T));
  for (size_t i = 0; i < N; ++i) p[i] = static_cast<T>(i + 1);
  c.step();
  c.state(N);
  MC_CHECK(c, CanCreateTuple<S>, N, " fields: no tuple");
  MC_CHECK(c, DecomposeCountV<S> == N, N, " fields: counted ", DecomposeCountV<S>);
  auto lv = StructToTuple(s);
  auto cv = StructToTuple(std::as_const(s));
  auto rv = StructToTuple(std::move(s));
  static_assert(std::tuple_size_v<decltype(lv)> == N && std::tuple_size_v<decltype(cv)> == N && std::tuple_size_v<decltype(rv)> == N);
  [&]<size_t... I>(std::index_sequence<I...>) {
    auto one = [&]<size_t J>() {
      static_assert(std::is_same_v<std::tuple_element_t<J, decltype(lv)>, T&> && std::is_same_v<std::tuple_element_t<J, decltype(cv)>, const T&> && std::is_same_v<std::tuple_element_t<J, decltype(rv)>, T>);
      MC_CHECK(c, &std::get<J>(lv) == p + J, N, " fields: element ", J, " of an object");
      MC_CHECK(c, &std::get<J>(cv) == p + J, N, " fields: element ", J, " of a constant");
      MC_CHECK(c, std::get<J>(rv) == static_cast<T>(J + 1), N, " fields: element ", J, " of a temporary");
    };
    (one.template operator()<I>(), ...);
  }(std::make_index_sequence<N>());
}
}  // namespace
MC_SECTION_D(counts, 0) {
#define X(n) Count<B##n<char>, n, char>(c);
  COUNTS(X)
#undef X
}
#ifdef __clang__
MC_SECTION_D(counts_wide, 0) {
#define X(n) Count<B##n<short>, n, short>(c);
  COUNTS(X)
#undef X
}
#endif
#endif

#if PART == 5
// Base classes: empty ones do not take part (bases with fields are outside of what is offered).
namespace {
struct E3 {};
struct Deep : E0 {};
struct WithFunctions { int f() const { return 1; } static int g; using type = int; };
template <typename... B> struct Derived0 : B... {};
template <typename... B> struct Derived1 : B... { int a; };
template <typename... B> struct Derived2 : B... { int a; std::string b; };
template <typename... B> struct Derived3 : B... { char a; int b; double d; };
template <typename S> constexpr size_t Elements() {
  if constexpr (CanCreateTuple<S>) return std::tuple_size_v<decltype(StructToTuple(std::declval<S&>()))>;
  else return 999;
}
template <typename... B>
void Bases(mc::Ctx& c, size_t base_fields, const char* what) {
  constexpr bool kAny = (... || !std::is_empty_v<B>);
  c.step(4);
  c.state(mc::Fnv(what));
  MC_CHECK(c, (Elements<Derived0<B...>>() == base_fields), what, " without own fields: ", Elements<Derived0<B...>>());
  MC_CHECK(c, (Elements<Derived1<B...>>() == (kAny ? 999 : 1)), what, " with one field: ", Elements<Derived1<B...>>());
  MC_CHECK(c, (Elements<Derived2<B...>>() == (kAny ? 999 : 2)), what, " with two fields: ", Elements<Derived2<B...>>());
  MC_CHECK(c, (Elements<Derived3<B...>>() == (kAny ? 999 : 3)), what, " with three fields: ", Elements<Derived3<B...>>());
  if constexpr (!kAny) {
    Derived2<B...> d{};
    d.a = 7, d.b = "seven";
    auto t = StructToTuple(d);
    MC_CHECK(c, &std::get<0>(t) == &d.a && &std::get<1>(t) == &d.b, what, ": other objects");
    auto m = StructToTuple(std::move(d));
    MC_CHECK(c, std::get<0>(m) == 7 && std::get<1>(m) == "seven", what, ": moved values");
  }
}
struct Priv { int a; private: int b; };
}  // namespace
MC_SECTION_D(bases, 0) {
  Bases<>(c, 0, "no base");
  Bases<E0>(c, 0, "one empty base");
  Bases<E0, E1>(c, 0, "two empty bases");
  Bases<E0, E1, E2>(c, 0, "three empty bases");
  Bases<E0, E1, E2, E3>(c, 0, "four empty bases");
  Bases<Deep>(c, 0, "base with an empty base");
  Bases<Deep, E1>(c, 0, "base with an empty base and an empty base");
  Bases<WithFunctions>(c, 0, "base with functions only");
}
MC_SECTION_D(not_aggregates, 0) {
  MC_CHECK(c, !CanCreateTuple<int> && !CanCreateTuple<int*> && !CanCreateTuple<std::string> && !CanCreateTuple<Vec> && !CanCreateTuple<Priv> && !CanCreateTuple<Var>, "non-aggregate offered as tuple");
  MC_CHECK(c, CanCreateTuple<E0> && std::tuple_size_v<decltype(StructToTuple(E0{}))> == 0, "empty aggregate");
  using T2 = std::tuple<int, std::string>;
  MC_CHECK(c, (TupleFieldsConstructible<T2, std::tuple<int, const char*>>), "constructible fields");
  MC_CHECK(c, (TupleFieldsConstructible<T2, std::tuple<short, std::string>>), "convertible fields");
  MC_CHECK(c, !(TupleFieldsConstructible<T2, std::tuple<const char*, int>>), "wrong order");
  MC_CHECK(c, !(TupleFieldsConstructible<T2, std::tuple<int>>) && !(TupleFieldsConstructible<T2, std::tuple<int, const char*, int>>), "wrong count");
  MC_CHECK(c, !(TupleFieldsConstructible<T2, std::tuple<int, std::vector<int>>>), "second not constructible");
  MC_CHECK(c, (TupleFieldsConstructible<std::tuple<>, std::tuple<>>), "no fields");
  MC_CHECK(c, !(TupleFieldsConstructible<int, std::tuple<int>>), "not a tuple");
  c.step(8);
  c.state(1);
}
#endif
