// Comparison of scalars of different types is the comparison of their numeric values; NaN sorts last;
// an ordering object's less-than and three-way forms agree.
#include "lib/mc.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
#include "mbo/types/compare.h"

namespace {
using namespace mbo::types;
int Sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
int Sign(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9; }

template <typename T>
const std::vector<T>& Values() {
  static const std::vector<T> v = [] {
    std::vector<T> r;
    auto add = [&](T x) { r.push_back(x); };
    if constexpr (std::is_same_v<T, bool>) {
      add(false), add(true);
    } else if constexpr (std::is_integral_v<T>) {
      using L = std::numeric_limits<T>;
      std::set<T> s;
      if constexpr (sizeof(T) == 1) {
        for (int i = L::min(); i <= L::max(); ++i) s.insert(static_cast<T>(i));
      } else {
        for (int i = -3; i <= 3; ++i) {
          s.insert(static_cast<T>(static_cast<T>(L::min()) + static_cast<T>(i < 0 ? -i : i)));
          s.insert(static_cast<T>(L::max() - static_cast<T>(i < 0 ? -i : i)));
          s.insert(static_cast<T>(i));
        }
        for (unsigned b = 3; b < 8 * sizeof(T); ++b)
          for (int d = -2; d <= 2; ++d) {
            const T base = static_cast<T>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<T, char>, signed char, T>>>(1) << b);
            s.insert(static_cast<T>(static_cast<unsigned long long>(base) + static_cast<unsigned long long>(d)));
            s.insert(static_cast<T>(0ULL - static_cast<unsigned long long>(base) + static_cast<unsigned long long>(d)));
          }
      }
      for (T x : s) add(x);
    } else {
      using L = std::numeric_limits<T>;
      std::vector<T> base = {T(0), T(-0.0), T(0.5), T(1), T(1.5), T(2), L::denorm_min(), L::min(), L::max(), L::epsilon(), L::infinity(), L::quiet_NaN(),
                             T(127), T(128), T(255), T(256), T(32767), T(32768), T(65535), T(65536), T(16777215), T(16777216), T(16777218),
                             T(2147483647.0), T(2147483648.0), T(4294967295.0), T(4294967296.0), T(9007199254740991.0), T(9007199254740992.0), T(9007199254740994.0),
                             std::ldexp(T(1), 62), std::ldexp(T(1), 63), std::ldexp(T(1), 64), std::nextafter(std::ldexp(T(1), 63), T(0)),
                             std::nextafter(std::ldexp(T(1), 63), L::infinity()), std::nextafter(std::ldexp(T(1), 64), T(0)), std::nextafter(T(1), T(2)), std::nextafter(T(1), T(0))};
      for (int e = -20; e <= 20; e += 5)
        for (int m = 1; m < 8; m += 3) base.push_back(std::ldexp(T(m), e));
      for (T x : base) add(x), add(-x);
    }
    return r;
  }();
  return v;
}

// Exact three-way comparison of two numbers; NaN after everything and equal to itself.
template <typename A, typename B>
int RefNum(A a, B b) {
  if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>) {
    const long double x = static_cast<long double>(a), y = static_cast<long double>(b);  // 64-bit mantissa: exact for every integer type
    const bool nx = x != x, ny = y != y;
    if (nx || ny) return static_cast<int>(nx) - static_cast<int>(ny);
    return x < y ? -1 : x > y ? 1 : 0;
  } else {
    const __int128 x = a, y = b;
    return x < y ? -1 : x > y ? 1 : 0;
  }
}
template <typename A, typename B>
int Ref(A a, B b) {
  constexpr bool kBool = (std::is_same_v<A, bool> || std::is_same_v<B, bool>) && !std::is_floating_point_v<A> && !std::is_floating_point_v<B>;
  if constexpr (kBool) return RefNum(static_cast<bool>(a), static_cast<bool>(b));  // documented: a bool against an integer compares as bools
  else return RefNum(a, b);
}
template <typename T> std::string Str(T v) {
  if constexpr (std::is_integral_v<T>) return mc::Cat(static_cast<long long>(v)) + (std::is_unsigned_v<T> && sizeof(T) == 8 ? "u" : "");
  else { char b[64]; std::snprintf(b, sizeof b, "%.21Lg", static_cast<long double>(v)); return b; }
}
template <typename T> const char* Name();
#define NAMED(T) template <> const char* Name<T>() { return #T; }
NAMED(bool) NAMED(char) NAMED(signed char) NAMED(unsigned char) NAMED(short) NAMED(unsigned short) NAMED(int) NAMED(unsigned) NAMED(long) NAMED(unsigned long)
NAMED(long long) NAMED(unsigned long long) NAMED(wchar_t) NAMED(char8_t) NAMED(char16_t) NAMED(char32_t) NAMED(float) NAMED(double) NAMED(long double)

template <typename A, typename B>
void Pair(mc::Ctx& c) {
  for (A a : Values<A>()) {
    for (B b : Values<B>()) {
      const int want = Ref(a, b);
      c.step();
      MC_CHECK(c, Sign(CompareScalar(a, b)) == want, Name<A>(), " ", Str(a), " against ", Name<B>(), " ", Str(b), ": ", Sign(CompareScalar(a, b)), " want ", want);
      MC_CHECK(c, Sign(CompareArithmetic(a, b)) == want, "arithmetic ", Name<A>(), " ", Str(a), " against ", Name<B>(), " ", Str(b));
      if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
        MC_CHECK(c, Sign(CompareIntegral(a, b)) == want, "integral ", Name<A>(), " ", Str(a), " against ", Name<B>(), " ", Str(b));
      if constexpr (std::is_same_v<A, B> && std::is_floating_point_v<A>)
        MC_CHECK(c, Sign(CompareFloat(a, b)) == want, "float ", Name<A>(), " ", Str(a), " against ", Str(b), ": ", Sign(CompareFloat(a, b)), " want ", want);
    }
  }
  c.state(mc::Fnv(std::string(Name<A>()) + Name<B>()));
}
template <typename A, typename... B>
void Row(mc::Ctx& c) { (Pair<A, B>(c), ...); c.sample(mc::Cat(Name<A>(), " against every scalar type")); }
#define ALL bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t, float, double, long double
template <typename... A>
void Rows(mc::Ctx& c, int i) {
  int n = 0;
  ((n++ == i ? Row<A, ALL>(c) : void()), ...);
}

struct Pt { int a, b; auto operator<=>(const Pt&) const = default; };
std::vector<std::string> Strings() {
  std::vector<std::string> r = {""};
  for (size_t i = 0, n = 0; n < 4 - 1; ++n) {
    const size_t end = r.size();
    for (; i < end; ++i)
      for (char ch : {'a', 'b', '\x00', '\xff'}) r.push_back(r[i] + ch);
  }
  return r;
}
template <typename T, typename U>
void Less(mc::Ctx& c, const std::vector<T>& v, const std::vector<U>& w, const char* what) {
  const CompareLess<T> less;
  for (const T& a : v)
    for (const U& b : w) {
      c.step();
      const bool lt = a < b, gt = b < a, eq = !lt && !gt;
      const int want = lt ? -1 : gt ? 1 : 0;
      (void)eq;
      MC_CHECK(c, less(a, b) == lt, what, ": less(a,b) is not a<b");
      MC_CHECK(c, less(b, a) == gt, what, ": less(b,a) is not b<a");
      MC_CHECK(c, Sign(std::partial_ordering(less.Compare(a, b))) == want, what, ": three-way(a,b) disagrees with <");
      MC_CHECK(c, Sign(std::partial_ordering(less.Compare(b, a))) == -want, what, ": three-way(b,a) disagrees with <");
    }
}
}  // namespace

MC_SECTION_D(scalars, 1) { Rows<ALL>(c, c.choose(19)); }

// Every float built from all exponents and a set of mantissas, pairwise with the neighbours in the list.
MC_SECTION_D(floats, 1) {
  const int e = c.choose(64);
  std::vector<float> v;
  for (int i = 0; i < 4; ++i)
    for (uint32_t m : {0u, 1u, 0x400000u, 0x7fffffu})
      for (uint32_t s : {0u, 1u}) {
        const uint32_t bits = s << 31 | static_cast<uint32_t>(e * 4 + i) << 23 | m;
        float f;
        std::memcpy(&f, &bits, 4);
        v.push_back(f);
      }
  for (float x : Values<float>()) v.push_back(x);
  for (float a : v)
    for (float b : v) {
      c.step();
      MC_CHECK(c, Sign(CompareFloat(a, b)) == RefNum(a, b), "float ", Str(a), " ", Str(b));
      MC_CHECK(c, Sign(CompareFloat<double>(a, b)) == RefNum(a, b), "double ", Str(a), " ", Str(b));
      MC_CHECK(c, Sign(CompareScalar(a, static_cast<double>(b))) == RefNum(a, b), "float/double ", Str(a), " ", Str(b));
    }
  c.state(e);
}

MC_SECTION_D(pointers_enums_weak, 0) {
  int arr[8];
  for (int i = 0; i <= 8; ++i)
    for (int j = 0; j <= 8; ++j) {
      MC_CHECK(c, Sign(CompareScalar(arr + i, arr + j)) == (i < j ? -1 : i > j ? 1 : 0), "pointers");
      c.step();
    }
  enum class E { a = -1, b, z };
  for (E x : {E::a, E::b, E::z})
    for (E y : {E::a, E::b, E::z}) MC_CHECK(c, Sign(CompareScalar(x, y)) == (x < y ? -1 : x > y ? 1 : 0), "enums");
  MC_CHECK(c, WeakToStrong(std::weak_ordering::less) == std::strong_ordering::less, "weak less");
  MC_CHECK(c, WeakToStrong(std::weak_ordering::greater) == std::strong_ordering::greater, "weak greater");
  MC_CHECK(c, WeakToStrong(std::weak_ordering::equivalent) == std::strong_ordering::equal, "weak equivalent");
}

MC_SECTION_D(ordering_object, 1) {
  const auto strings = Strings();
  switch (c.choose(6)) {
    case 0: Less<std::string, std::string>(c, strings, strings, "string/string"); break;
    case 1: {
      std::vector<std::string_view> sv(strings.begin(), strings.end());
      Less<std::string, std::string_view>(c, strings, sv, "string/view");
      Less<std::string_view, std::string>(c, sv, strings, "view/string");
      break;
    }
    case 2: {
      std::vector<const char*> cs;
      for (const auto& s : strings) cs.push_back(s.c_str());
      const CompareLess<std::string> less;
      for (const auto& a : strings)
        for (const char* b : cs) {
          MC_CHECK(c, less(a, b) == (a < b) && less(b, a) == (b < a), "string/literal less");
          MC_CHECK(c, (less.Compare(a, b) < 0) == (a < b) && (less.Compare(a, b) == 0) == (a == b), "string/literal three-way");
          MC_CHECK(c, (less.Compare(b, a) < 0) == (b < a) && (less.Compare(b, a) == 0) == (a == b), "literal/string three-way");
          c.step();
        }
      break;
    }
    case 3: Less<int, int>(c, Values<int>(), Values<int>(), "int"); Less<int, long>(c, Values<int>(), Values<long>(), "int/long"); break;
    case 4: {
      std::vector<double> d;
      for (double x : Values<double>()) if (x == x) d.push_back(x);
      Less<double, double>(c, d, d, "double");
      const CompareLess<double> less;
      for (double x : Values<double>()) if (x != x) for (double y : d) MC_CHECK(c, !less(x, y) && !less(y, x) && less.Compare(x, y) == std::partial_ordering::unordered, "nan");
      break;
    }
    case 5: {
      std::vector<Pt> v;
      for (int a = -2; a < 3; ++a) for (int b = -2; b < 3; ++b) v.push_back({a, b});
      Less<Pt, Pt>(c, v, v, "struct");
      break;
    }
  }
  c.state(mc::Fnv("ordering"));
}
