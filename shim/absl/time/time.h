#ifndef VERIF_SHIM_ABSL_TIME_H_
#define VERIF_SHIM_ABSL_TIME_H_
#include <chrono>
#include <cmath>
#include <compare>
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <limits>
#include <ostream>
#include <string>
#include <string_view>
#include <sys/time.h>
namespace absl {
// Nanosecond resolution with +/- infinity, enough for what mbo formats and compares.
class Duration {
 public:
  constexpr Duration() = default;
  static constexpr Duration Raw(__int128 ns) { Duration d; d.ns_ = ns; return d; }
  constexpr __int128 raw() const { return ns_; }
  static constexpr __int128 kInf = static_cast<__int128>(1) << 120;
  constexpr bool inf() const { return ns_ >= kInf || ns_ <= -kInf; }
  constexpr Duration& operator+=(Duration o) { if (inf()) return *this; if (o.inf()) return *this = o; ns_ += o.ns_; return *this; }
  constexpr Duration& operator-=(Duration o) { if (inf()) return *this; if (o.inf()) { ns_ = -o.ns_; return *this; } ns_ -= o.ns_; return *this; }
  constexpr Duration& operator*=(int64_t k) { if (inf()) { if (k < 0) ns_ = -ns_; return *this; } ns_ *= k; return *this; }
  constexpr Duration& operator*=(int k) { return *this *= static_cast<int64_t>(k); }
  Duration& operator*=(double k) { ns_ = static_cast<__int128>(static_cast<double>(ns_) * k); return *this; }
  constexpr Duration& operator/=(int64_t k) { if (!inf()) ns_ /= k; return *this; }
  friend constexpr auto operator<=>(Duration a, Duration b) { return a.ns_ < b.ns_ ? std::strong_ordering::less : a.ns_ > b.ns_ ? std::strong_ordering::greater : std::strong_ordering::equal; }
  friend constexpr bool operator==(Duration a, Duration b) { return a.ns_ == b.ns_; }
  template <typename H> friend H AbslHashValue(H h, Duration d) { return H::combine(std::move(h), static_cast<int64_t>(d.ns_)); }
 private:
  __int128 ns_ = 0;
};
constexpr Duration operator+(Duration a, Duration b) { return a += b; }
constexpr Duration operator-(Duration a, Duration b) { return a -= b; }
constexpr Duration operator-(Duration a) { return Duration::Raw(-a.raw()); }
template <typename T> requires std::is_integral_v<T> constexpr Duration operator*(Duration a, T k) { return a *= static_cast<int64_t>(k); }
template <typename T> requires std::is_integral_v<T> constexpr Duration operator*(T k, Duration a) { return a *= static_cast<int64_t>(k); }
inline Duration operator*(Duration a, double k) { return a *= k; }
inline Duration operator*(double k, Duration a) { return a *= k; }
template <typename T> requires std::is_integral_v<T> constexpr Duration operator/(Duration a, T k) { return a /= static_cast<int64_t>(k); }
constexpr int64_t operator/(Duration a, Duration b) { return static_cast<int64_t>(a.raw() / b.raw()); }
constexpr Duration ZeroDuration() { return Duration(); }
constexpr Duration InfiniteDuration() { return Duration::Raw(Duration::kInf); }
template <typename T> requires std::is_integral_v<T> constexpr Duration Nanoseconds(T n) { return Duration::Raw(n); }
template <typename T> requires std::is_integral_v<T> constexpr Duration Microseconds(T n) { return Duration::Raw(static_cast<__int128>(n) * 1000); }
template <typename T> requires std::is_integral_v<T> constexpr Duration Milliseconds(T n) { return Duration::Raw(static_cast<__int128>(n) * 1000000); }
template <typename T> requires std::is_integral_v<T> constexpr Duration Seconds(T n) { return Duration::Raw(static_cast<__int128>(n) * 1000000000); }
template <typename T> requires std::is_integral_v<T> constexpr Duration Minutes(T n) { return Seconds(n) * 60; }
template <typename T> requires std::is_integral_v<T> constexpr Duration Hours(T n) { return Seconds(n) * 3600; }
template <typename T> requires std::is_floating_point_v<T> Duration Nanoseconds(T n) { return Duration::Raw(static_cast<__int128>(n)); }
template <typename T> requires std::is_floating_point_v<T> Duration Microseconds(T n) { return Duration::Raw(static_cast<__int128>(n * 1e3)); }
template <typename T> requires std::is_floating_point_v<T> Duration Milliseconds(T n) { return Duration::Raw(static_cast<__int128>(n * 1e6)); }
template <typename T> requires std::is_floating_point_v<T> Duration Seconds(T n) { return Duration::Raw(static_cast<__int128>(n * 1e9)); }
inline int64_t ToInt64Nanoseconds(Duration d) { return static_cast<int64_t>(d.raw()); }
inline int64_t ToInt64Microseconds(Duration d) { return static_cast<int64_t>(d.raw() / 1000); }
inline int64_t ToInt64Milliseconds(Duration d) { return static_cast<int64_t>(d.raw() / 1000000); }
inline int64_t ToInt64Seconds(Duration d) { return static_cast<int64_t>(d.raw() / 1000000000); }
inline double ToDoubleSeconds(Duration d) { return static_cast<double>(d.raw()) / 1e9; }
inline double ToDoubleMilliseconds(Duration d) { return static_cast<double>(d.raw()) / 1e6; }
inline double ToDoubleMicroseconds(Duration d) { return static_cast<double>(d.raw()) / 1e3; }
inline Duration AbsDuration(Duration d) { return d < ZeroDuration() ? -d : d; }
inline Duration Trunc(Duration d, Duration unit) { return Duration::Raw(d.raw() - d.raw() % unit.raw()); }
inline Duration FDivDuration_(Duration d) { return d; }
inline double FDivDuration(Duration a, Duration b) { return static_cast<double>(a.raw()) / static_cast<double>(b.raw()); }
template <typename R, typename P> constexpr Duration FromChrono(const std::chrono::duration<R, P>& d) { return Duration::Raw(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
inline std::chrono::nanoseconds ToChronoNanoseconds(Duration d) { return std::chrono::nanoseconds(static_cast<int64_t>(d.raw())); }
inline std::string FormatDuration(Duration d) {
  if (d == InfiniteDuration()) return "inf";
  if (d == -InfiniteDuration()) return "-inf";
  if (d == ZeroDuration()) return "0";
  std::string r;
  __int128 n = d.raw();
  if (n < 0) { r = "-"; n = -n; }
  auto frac = [&](__int128 v, int digits, __int128 unit, const char* suffix) {
    std::string s = std::to_string(static_cast<long long>(v / unit));
    __int128 f = v % unit;
    if (f) { std::string t = std::to_string(static_cast<long long>(f)); t.insert(0, static_cast<size_t>(digits) - t.size(), '0'); while (t.back() == '0') t.pop_back(); s += "." + t; }
    r += s + suffix;
  };
  if (n < 1000000000) {
    if (n < 1000) frac(n, 0, 1, "ns"); else if (n < 1000000) frac(n, 3, 1000, "us"); else frac(n, 6, 1000000, "ms");
  } else {
    __int128 h = n / 3600000000000LL, m = n / 60000000000LL % 60, s = n % 60000000000LL;
    if (h) r += std::to_string(static_cast<long long>(h)) + "h";
    if (m) r += std::to_string(static_cast<long long>(m)) + "m";
    if (s) frac(s, 9, 1000000000, "s");
  }
  return r;
}
inline std::ostream& operator<<(std::ostream& os, Duration d) { return os << FormatDuration(d); }
template <typename S> void AbslStringify(S& sink, Duration d) { sink.Append(FormatDuration(d)); }
inline bool ParseDuration(std::string_view s, Duration* out) {
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  if (s == "0") { *out = Duration(); return true; }
  if (s == "inf") { *out = neg ? -InfiniteDuration() : InfiniteDuration(); return true; }
  __int128 total = 0;
  while (!s.empty()) {
    double v = 0; char buf[64]; size_t i = 0;
    while (i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.')) ++i;
    if (i == 0 || i > 60) return false;
    s.copy(buf, i); buf[i] = 0; v = std::atof(buf); s.remove_prefix(i);
    double unit;
    if (s.starts_with("ns")) { unit = 1; s.remove_prefix(2); } else if (s.starts_with("us")) { unit = 1e3; s.remove_prefix(2); } else if (s.starts_with("ms")) { unit = 1e6; s.remove_prefix(2); }
    else if (s.starts_with("s")) { unit = 1e9; s.remove_prefix(1); } else if (s.starts_with("m")) { unit = 60e9; s.remove_prefix(1); } else if (s.starts_with("h")) { unit = 3600e9; s.remove_prefix(1); } else return false;
    total += static_cast<__int128>(v * unit);
  }
  *out = Duration::Raw(neg ? -total : total);
  return true;
}
inline bool AbslParseFlag(std::string_view t, Duration* d, std::string* err) { if (ParseDuration(t, d)) return true; *err = "bad duration"; return false; }
inline std::string AbslUnparseFlag(Duration d) { return FormatDuration(d); }
class Time {
 public:
  constexpr Time() = default;
  static constexpr Time Raw(Duration d) { Time t; t.d_ = d; return t; }
  constexpr Duration raw() const { return d_; }
  constexpr Time& operator+=(Duration d) { d_ += d; return *this; }
  constexpr Time& operator-=(Duration d) { d_ -= d; return *this; }
  friend constexpr auto operator<=>(Time a, Time b) { return a.d_ <=> b.d_; }
  friend constexpr bool operator==(Time a, Time b) { return a.d_ == b.d_; }
  template <typename H> friend H AbslHashValue(H h, Time t) { return H::combine(std::move(h), t.d_); }
 private:
  Duration d_;
};
constexpr Time operator+(Time t, Duration d) { return t += d; }
constexpr Time operator-(Time t, Duration d) { return t -= d; }
constexpr Time operator+(Duration d, Time t) { return t += d; }
constexpr Duration operator-(Time a, Time b) { return a.raw() - b.raw(); }
constexpr Time UnixEpoch() { return Time(); }
constexpr Time InfiniteFuture() { return Time::Raw(InfiniteDuration()); }
constexpr Time InfinitePast() { return Time::Raw(-InfiniteDuration()); }
constexpr Time FromUnixSeconds(int64_t s) { return Time::Raw(Seconds(s)); }
constexpr Time FromUnixMillis(int64_t s) { return Time::Raw(Milliseconds(s)); }
constexpr Time FromUnixMicros(int64_t s) { return Time::Raw(Microseconds(s)); }
constexpr Time FromUnixNanos(int64_t s) { return Time::Raw(Nanoseconds(s)); }
constexpr Time FromTimeT(time_t t) { return FromUnixSeconds(t); }
inline int64_t FloorDiv_(__int128 a, __int128 b) { __int128 q = a / b; if (a % b != 0 && a < 0) --q; return static_cast<int64_t>(q); }
inline int64_t ToUnixSeconds(Time t) { return FloorDiv_(t.raw().raw(), 1000000000); }
inline int64_t ToUnixMillis(Time t) { return FloorDiv_(t.raw().raw(), 1000000); }
inline int64_t ToUnixMicros(Time t) { return FloorDiv_(t.raw().raw(), 1000); }
inline int64_t ToUnixNanos(Time t) { return static_cast<int64_t>(t.raw().raw()); }
inline time_t ToTimeT(Time t) { return ToUnixSeconds(t); }
inline Time FromChrono(const std::chrono::system_clock::time_point& tp) { return Time::Raw(FromChrono(tp.time_since_epoch())); }
inline Time TimeFromTimespec(timespec ts) { return Time::Raw(Seconds(ts.tv_sec) + Nanoseconds(ts.tv_nsec)); }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(ToUnixNanos(t)))); }
class TimeZone { public: TimeZone() = default; std::string name() const { return local_ ? "localtime" : "UTC"; } bool local_ = false; friend bool operator==(TimeZone a, TimeZone b) { return a.local_ == b.local_; } };
inline TimeZone UTCTimeZone() { return TimeZone(); }
inline TimeZone LocalTimeZone() { TimeZone t; t.local_ = true; return t; }
inline bool LoadTimeZone(std::string_view n, TimeZone* tz) { *tz = TimeZone(); return n == "UTC"; }
inline constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez";
inline constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
inline std::string FormatTime(std::string_view f, Time t, TimeZone tz) {
  if (t == InfiniteFuture()) return "infinite-future";
  if (t == InfinitePast()) return "infinite-past";
  time_t secs = ToUnixSeconds(t);
  int64_t nanos = static_cast<int64_t>(t.raw().raw() - static_cast<__int128>(secs) * 1000000000);
  std::tm tm{};
  if (tz.local_) localtime_r(&secs, &tm); else gmtime_r(&secs, &tm);
  std::string r;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%' || i + 1 >= f.size()) { r += f[i]; continue; }
    ++i;
    char nine[16]; std::snprintf(nine, sizeof nine, "%09lld", static_cast<long long>(nanos));
    if (f[i] == 'E' && i + 1 < f.size()) {
      ++i;
      long off = tm.tm_gmtoff; char z[16];
      if (f[i] == 'z') { std::snprintf(z, sizeof z, "%c%02ld:%02ld", off < 0 ? '-' : '+', labs(off) / 3600, labs(off) / 60 % 60); r += z; continue; }
      if (f[i] == 'T') { r += 'T'; continue; }
      if (f[i] == '*' && i + 1 < f.size()) { ++i; std::string n = nine; while (!n.empty() && n.back() == '0') n.pop_back(); if (f[i] == 'S') { char s[8]; std::snprintf(s, sizeof s, "%02d", tm.tm_sec); r += s; if (!n.empty()) r += "." + n; } else { r += n.empty() ? "0" : n; } continue; }
      if (f[i] >= '0' && f[i] <= '9') { size_t d = 0; while (i < f.size() && f[i] >= '0' && f[i] <= '9') d = d * 10 + static_cast<size_t>(f[i++] - '0'); std::string n = nine; n.resize(d, '0'); if (f[i] == 'S') { char s[8]; std::snprintf(s, sizeof s, "%02d", tm.tm_sec); r += s; if (d) r += "." + n; } else r += n; continue; }
      continue;
    }
    char fmt[3] = {'%', f[i], 0}, buf[128];
    size_t n = std::strftime(buf, sizeof buf, fmt, &tm);
    if (f[i] == 'Z' && !tz.local_) { r += "UTC"; continue; }
    r.append(buf, n);
  }
  return r;
}
inline std::string FormatTime(Time t, TimeZone tz) { return FormatTime(RFC3339_full, t, tz); }
inline std::string FormatTime(Time t) { return FormatTime(RFC3339_full, t, LocalTimeZone()); }
inline std::ostream& operator<<(std::ostream& os, Time t) { return os << FormatTime(t); }
template <typename S> void AbslStringify(S& sink, Time t) { sink.Append(FormatTime(t)); }
}  // namespace absl
#endif
