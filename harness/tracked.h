// Element types that account for every construction and destruction, for container harnesses.
#ifndef VERIF_HARNESS_TRACKED_H_
#define VERIF_HARNESS_TRACKED_H_
#include <compare>
#include <string>
#include <vector>

struct Lifetimes {
  // Small open list: at most a few dozen live objects.
  std::vector<const void*> live;
  std::string error;
  void Err(const char* w) { if (error.empty()) error = w; }
  bool Has(const void* p) const { for (const void* q : live) if (p == q) return true; return false; }
  void Born(const void* p) { if (Has(p)) Err("an object was constructed over a live object"); live.push_back(p); }
  void Died(const void* p) {
    for (size_t i = 0; i < live.size(); ++i) if (live[i] == p) { live[i] = live.back(); live.pop_back(); return; }
    Err("something that is not alive was destroyed");
  }
  void Use(const void* p, const char* w) { if (!Has(p)) Err(w); }
  void Reset() { live.clear(); error.clear(); }
  static Lifetimes& G() { static Lifetimes l; return l; }
};

constexpr int kMovedFrom = -77;
struct Tracked {
  int v;
  Tracked() : v(0) { Lifetimes::G().Born(this); }
  Tracked(int x) : v(x) { Lifetimes::G().Born(this); }
  Tracked(const Tracked& o) : v(o.Get()) { Lifetimes::G().Born(this); }
  Tracked(Tracked&& o) noexcept : v(o.Get()) { o.v = kMovedFrom; Lifetimes::G().Born(this); }
  Tracked& operator=(const Tracked& o) { Lifetimes::G().Use(this, "assignment to something that is not alive"); v = o.Get(); return *this; }
  Tracked& operator=(Tracked&& o) noexcept {
    Lifetimes::G().Use(this, "move assignment to something that is not alive");
    const int x = o.Get();
    o.v = kMovedFrom;
    v = x;
    return *this;
  }
  ~Tracked() { Lifetimes::G().Died(this); v = -99; }
  int Get() const { Lifetimes::G().Use(this, "something that is not alive was read"); return v; }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.Get() == b.Get(); }
  friend auto operator<=>(const Tracked& a, const Tracked& b) { return a.Get() <=> b.Get(); }
};
struct MoveOnly : Tracked {
  using Tracked::Tracked;
  MoveOnly() = default;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
};
inline int NumberAtEnd(const std::string& s) { const int v = std::stoi(s.substr(s.find_last_not_of("0123456789") + 1)); return v >= 1000000 ? v - 1000000 : v; }
inline int ValueOf(int v) { return v; }
inline int ValueOf(const Tracked& t) { return t.Get(); }
inline int ValueOf(const std::string& s) { return s.empty() ? 0 : NumberAtEnd(s); }
template <typename T> T MakeValue(int v) { return T(v); }
template <> inline std::string MakeValue<std::string>(int v) { return v == 0 ? std::string() : "some longer text so that it allocates " + std::to_string(1000000 + v); }
template <typename T> constexpr bool kTracked = std::is_base_of_v<Tracked, T>;
#endif
