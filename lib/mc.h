// Stateless/explicit-state exploration kernel used by every C++ harness in /verif.
//
// A *section* is a deterministic function of the choices it asks for.  The kernel enumerates every
// choice sequence (depth first, choice 0 first) and runs the section once per sequence against the
// real library code.  Nothing is sampled: a section ends when its whole choice tree has been
// visited.  Shard processes share the tree by claiming prefixes of it from a shared counter.
#ifndef VERIF_LIB_MC_H_
#define VERIF_LIB_MC_H_

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string sig;
  std::string msg;
};
struct SkipExecution {};

constexpr int kMaxChoices = 2048;
constexpr int kDetail = 2000;

struct Slot {
  std::atomic<uint64_t> heartbeat;
  uint32_t section;
  uint32_t n;
  uint32_t done;
  uint32_t pad;
  uint32_t choices[kMaxChoices];
  char detail[kDetail];
};
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<uint32_t> stop;
  uint32_t pad;
  Slot slots[64];
};

inline uint64_t Fnv(std::string_view s, uint64_t h = 0xcbf29ce484222325ULL) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 0x100000001b3ULL;
  }
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ULL;
  h ^= h >> 32;
  return h;
}

inline std::string Quote(std::string_view s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c == '\t') {
      r += "\\t";
    } else if (c < 32 || c >= 127) {
      std::snprintf(buf, sizeof(buf), "\\x%02x", c);
      r += buf;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

inline std::string Hex(const void* p, size_t n) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < n; ++i) {
    std::snprintf(b, sizeof(b), "%02x", static_cast<const unsigned char*>(p)[i]);
    r += b;
  }
  return r;
}

template <typename... A>
std::string Cat(const A&... a) {
  std::ostringstream o;
  (void)(o << ... << a);
  return o.str();
}

struct Global {
  bool thorough = false;
  bool replay = false;
  int shard = 0;
  Shared* shared = nullptr;
  Slot* slot = nullptr;
  std::set<std::string> known;
};
inline Global& G() {
  static Global g;
  return g;
}
inline bool Thorough() { return G().thorough; }
template <typename T>
T Tier(T quick, T thorough) {
  return G().thorough ? thorough : quick;
}

class Ctx;
using Body = void (*)(Ctx&);
struct Section {
  std::string name;
  Body body;
  int shard_depth;
};
inline std::vector<Section>& Sections() {
  static std::vector<Section> s;
  return s;
}
struct Register {
  Register(const char* name, Body body, int depth) { Sections().push_back({name, body, depth}); }
};

struct Stats {
  uint64_t executions = 0;
  uint64_t transitions = 0;
  uint64_t checks = 0;
  uint64_t max_depth = 0;
  uint64_t bfs_states = 0;
  std::unordered_set<uint64_t> states;
  bool states_capped = false;
  std::vector<std::string> samples;
  std::set<std::string> known_hit;
  std::vector<std::pair<std::string, std::string>> caps;  // reported bounds that were cut
};

class Ctx {
 public:
  // A choice among n alternatives, all of which get explored.
  int choose(int n) {
    if (n <= 0) {
      std::fprintf(stderr, "mc: choose(%d)\n", n);
      std::abort();
    }
    int v;
    if (pos_ < len_) {
      v = static_cast<int>(slot_->choices[pos_]);
      if (v >= n) {
        if (G().replay) {
          std::fprintf(stderr, "mc: replayed choice out of range (%d of %d)\n", v, n);
          std::_Exit(3);
        }
        std::fprintf(stderr, "mc: nondeterministic section: choice %d had %d alternatives\n", v, n);
        std::abort();
      }
      if (!G().replay && widths_[pos_] != n) {
        std::fprintf(stderr, "mc: nondeterministic section: width changed %d -> %d\n", widths_[pos_], n);
        std::abort();
      }
    } else {
      if (pos_ >= kMaxChoices) {
        std::fprintf(stderr, "mc: choice stack overflow\n");
        std::abort();
      }
      v = 0;
      slot_->choices[pos_] = 0;
      widths_[pos_] = n;
      len_ = pos_ + 1;
      slot_->n = len_;
    }
    ++pos_;
    if (!G().replay && pos_ == shard_depth_) {
      ClaimPrefix();
    }
    return v;
  }
  int depth() const { return pos_; }
  bool flip() { return choose(2) == 1; }
  template <typename C>
  auto pick(const C& c) -> const typename C::value_type& {
    return c[choose(static_cast<int>(c.size()))];
  }
  template <typename T, size_t N>
  const T& pick(const T (&c)[N]) {
    return c[choose(static_cast<int>(N))];
  }

  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Violation{sig, msg}; }
  void count_check() { ++stats->checks; }
  void step(uint64_t n = 1) { stats->transitions += n; }
  void state(uint64_t h) {
    if (stats->states.size() < 300000) {
      stats->states.insert(h);
    } else if (!stats->states.count(h)) {
      stats->states_capped = true;
    }
  }
  void state(std::string_view s) { state(Fnv(s)); }
  bool want_sample() const { return stats->samples.size() < 3; }
  void sample(const std::string& s) {
    if (want_sample()) {
      stats->samples.push_back(s.substr(0, 500));
    }
  }
  // What is being tried right now; kept in shared memory so that a crash can be explained.
  void detail(std::string_view s) {
    const size_t n = s.size() < kDetail - 1 ? s.size() : kDetail - 1;
    std::memcpy(slot_->detail, s.data(), n);
    slot_->detail[n] = 0;
  }
  void cap(const std::string& what, const std::string& v) { stats->caps.emplace_back(what, v); }
  void heartbeat() { slot_->heartbeat.fetch_add(1, std::memory_order_relaxed); }

  Stats* stats = nullptr;

 private:
  friend class Runner;
  void ClaimPrefix() {
    const uint64_t id = (*prefix_counter_);
    if (claimed_now_) {
      return;  // still inside the prefix this shard owns
    }
    if (id == *my_claim_) {
      claimed_now_ = true;
      return;
    }
    throw SkipExecution{};
  }
  Slot* slot_ = nullptr;
  int pos_ = 0;
  int len_ = 0;
  int widths_[kMaxChoices];
  int shard_depth_ = 2;
  bool claimed_now_ = false;
  uint64_t* prefix_counter_ = nullptr;
  uint64_t* my_claim_ = nullptr;
};

// Evaluates cond; on failure raises a violation.  `sig` identifies the failing kind (known findings match it).
#define MC_CHECK_SIG(c, cond, sig, ...)                                                     \
  do {                                                                                      \
    (c).count_check();                                                                      \
    if (!(cond)) {                                                                          \
      (c).fail((sig), ::mc::Cat(#cond, " failed at ", __FILE__, ":", __LINE__, ": ", __VA_ARGS__)); \
    }                                                                                       \
  } while (0)
#define MC_CHECK(c, cond, ...) MC_CHECK_SIG(c, cond, "", __VA_ARGS__)

#define MC_SECTION_D(name, depth)                                 \
  static void McSection_##name(::mc::Ctx& c);                     \
  static ::mc::Register mc_reg_##name(#name, &McSection_##name, depth); \
  static void McSection_##name(::mc::Ctx& c)
#define MC_SECTION(name) MC_SECTION_D(name, 2)

// Explicit-state search: `State` is copyable; key() canonicalises; step(state, action) applies one transition.
// check(state, trace) runs on every state reached.  Explores every state reachable within max_depth.
template <typename State, typename KeyFn, typename StepFn, typename CheckFn>
uint64_t Bfs(Ctx& c, const State& init, int actions, int max_depth, KeyFn key, StepFn step, CheckFn check) {
  struct Node {
    State st;
    std::vector<uint16_t> trace;
  };
  std::unordered_set<std::string> seen;
  std::vector<Node> frontier{{init, {}}};
  seen.insert(key(init));
  check(init, frontier[0].trace);
  for (int depth = 0; depth < max_depth && !frontier.empty(); ++depth) {
    std::vector<Node> next;
    for (const Node& n : frontier) {
      for (int a = 0; a < actions; ++a) {
        Node m{n.st, n.trace};
        if (!step(m.st, a)) {
          continue;  // action not enabled here
        }
        c.step();
        m.trace.push_back(static_cast<uint16_t>(a));
        const std::string k = key(m.st);
        if (seen.insert(k).second) {
          check(m.st, m.trace);
          c.state(Fnv(k));
          next.push_back(std::move(m));
        } else {
          check(m.st, m.trace);
        }
        c.heartbeat();
      }
    }
    frontier = std::move(next);
    if (static_cast<uint64_t>(depth) + 1 > c.stats->max_depth) {
      c.stats->max_depth = depth + 1;
    }
  }
  c.stats->bfs_states += seen.size();
  return seen.size();
}

class Runner {
 public:
  int Main(int argc, char** argv) {
    std::string shm, out, replay, only, known;
    for (int i = 1; i < argc; ++i) {
      const std::string a = argv[i];
      auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--tier") {
        G().thorough = next() == "thorough";
      } else if (a == "--shard") {
        G().shard = std::atoi(next().c_str());
      } else if (a == "--shm") {
        shm = next();
      } else if (a == "--out") {
        out = next();
      } else if (a == "--replay") {
        replay = next();
      } else if (a == "--only") {
        only = next();
      } else if (a == "--known") {
        known = next();
      } else if (a == "--list") {
        for (const auto& s : Sections()) {
          std::printf("%s\n", s.name.c_str());
        }
        return 0;
      } else {
        std::fprintf(stderr, "mc: unknown argument %s\n", a.c_str());
        return 2;
      }
    }
    if (!known.empty()) {
      std::ifstream f(known);
      for (std::string l; std::getline(f, l);) {
        if (!l.empty()) {
          G().known.insert(l);
        }
      }
    }
    if (shm.empty()) {
      G().shared = new Shared();
    } else {
      const int fd = ::open(shm.c_str(), O_RDWR);
      if (fd < 0) {
        std::perror("open shm");
        return 2;
      }
      void* p = ::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p == MAP_FAILED) {
        std::perror("mmap");
        return 2;
      }
      ::close(fd);
      G().shared = static_cast<Shared*>(p);
    }
    G().slot = &G().shared->slots[G().shard];
    if (!replay.empty()) {
      return Replay(replay);
    }
    bool first = true;
    std::string js = "{\"sections\":[";
    std::string viol;
    std::vector<uint64_t> hashes;
    for (uint32_t si = 0; si < Sections().size(); ++si) {
      const Section& s = Sections()[si];
      if (!only.empty() && s.name != only) {
        continue;
      }
      Stats st;
      Explore(si, s, st, viol);
      js += Cat(first ? "" : ",", "{\"name\":", Quote(s.name), ",\"executions\":", st.executions, ",\"transitions\":",
                st.transitions, ",\"checks\":", st.checks, ",\"max_depth\":", st.max_depth, ",\"bfs_states\":",
                st.bfs_states, ",\"states\":", st.states.size(), ",\"states_capped\":", st.states_capped ? "true" : "false",
                ",\"samples\":[");
      for (size_t i = 0; i < st.samples.size(); ++i) {
        js += Cat(i ? "," : "", JsonStr(st.samples[i]));
      }
      js += "],\"caps\":[";
      for (size_t i = 0; i < st.caps.size(); ++i) {
        js += Cat(i ? "," : "", JsonStr(st.caps[i].first + ": " + st.caps[i].second));
      }
      js += "],\"known\":[";
      size_t k = 0;
      for (const auto& h : st.known_hit) {
        js += Cat(k++ ? "," : "", JsonStr(h));
      }
      js += "]}";
      first = false;
      for (uint64_t h : st.states) {
        hashes.push_back(h ^ Fnv(s.name));
      }
      if (G().shared->stop.load()) {
        break;
      }
    }
    js += "],\"violation\":" + (viol.empty() ? std::string("null") : viol) + "}\n";
    G().slot->done = 1;
    if (!out.empty()) {
      std::ofstream(out) << js;
      std::ofstream h(out + ".states", std::ios::binary);
      h.write(reinterpret_cast<const char*>(hashes.data()), static_cast<std::streamsize>(hashes.size() * 8));
    } else {
      std::cout << js;
    }
    return viol.empty() ? 0 : 1;
  }

  static std::string JsonStr(std::string_view s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') {
        r += '\\';
        r += static_cast<char>(ch);
      } else if (ch < 32 || ch >= 127) {
        std::snprintf(b, sizeof(b), "\\u%04x", ch);
        r += b;
      } else {
        r += static_cast<char>(ch);
      }
    }
    return r + "\"";
  }

 private:
  static std::string ChoiceStr(const Slot& s) {
    std::string r;
    for (uint32_t i = 0; i < s.n; ++i) {
      r += Cat(i ? "," : "", s.choices[i]);
    }
    return r;
  }

  // Runs the body once.  Returns true if a violation is to be reported.
  bool RunOnce(Ctx& c, const Section& s, Stats& st, Violation& v) {
    c.pos_ = 0;
    try {
      s.body(c);
    } catch (const SkipExecution&) {
      throw;
    } catch (const Violation& e) {
      v = e;
    } catch (const std::exception& e) {
      v = {"exception", Cat("unexpected exception: ", e.what())};
    } catch (...) {
      v = {"exception", "unexpected exception of unknown type"};
    }
    if (v.msg.empty()) {
      return false;
    }
    if (!v.sig.empty() && G().known.count(v.sig)) {
      st.known_hit.insert(v.sig);
      v = {};
      return false;
    }
    return true;
  }

  void Explore(uint32_t si, const Section& s, Stats& st, std::string& viol) {
    Slot* slot = G().slot;
    slot->section = si;
    slot->n = 0;
    slot->detail[0] = 0;
    static Ctx c;
    c.slot_ = slot;
    c.stats = &st;
    c.len_ = 0;
    c.shard_depth_ = s.shard_depth;
    c.claimed_now_ = false;
    c.prefix_counter_ = &prefix_counter_;
    c.my_claim_ = &my_claim_;
    if (!have_claim_) {
      my_claim_ = G().shared->next.fetch_add(1);
      have_claim_ = true;
    }
    while (true) {
      if (G().shared->stop.load(std::memory_order_relaxed)) {
        return;
      }
      slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
      bool skipped = false;
      Violation v;
      bool bad = false;
      const uint64_t trans0 = st.transitions, checks0 = st.checks, bfs0 = st.bfs_states;
      if (s.shard_depth == 0) {
        // indivisible section: its single prefix is claimed before running
        if (!c.claimed_now_ && prefix_counter_ != my_claim_) {
          ++prefix_counter_;
          return;
        }
        c.claimed_now_ = true;
      }
      try {
        bad = RunOnce(c, s, st, v);
      } catch (const SkipExecution&) {
        skipped = true;
      }
      if (!skipped && c.pos_ < c.shard_depth_ && !c.claimed_now_) {
        // A short execution that never reached the sharding depth: owned by whoever claims its prefix id.
        // It has run here as well; count it only if it is ours.
        if (prefix_counter_ != my_claim_) {
          skipped = true;
          bad = false;
        } else {
          c.claimed_now_ = true;
        }
      }
      if (skipped) {
        st.transitions = trans0, st.checks = checks0, st.bfs_states = bfs0;
      }
      if (!skipped) {
        ++st.executions;
        if (static_cast<uint64_t>(c.pos_) > st.max_depth) {
          st.max_depth = c.pos_;
        }
        if (bad) {
          uint32_t expect = 0;
          if (G().shared->stop.compare_exchange_strong(expect, 1)) {
            c.slot_->n = c.pos_;
            viol = Cat("{\"section\":", JsonStr(s.name), ",\"choices\":\"", ChoiceStr(*slot), "\",\"sig\":", JsonStr(v.sig),
                       ",\"message\":", JsonStr(v.msg), ",\"detail\":", JsonStr(slot->detail), "}");
          }
          return;
        }
      }
      // advance to the next choice sequence
      const int limit = skipped ? c.pos_ : c.pos_;
      c.len_ = limit;
      int i = c.len_ - 1;
      while (i >= 0 && static_cast<int>(slot->choices[i]) + 1 >= c.widths_[i]) {
        --i;
      }
      const bool prefix_over = i < c.shard_depth_ || i < 0;
      if (prefix_over) {
        // the prefix just finished
        if (c.claimed_now_) {
          c.claimed_now_ = false;
          my_claim_ = G().shared->next.fetch_add(1);
        }
        ++prefix_counter_;
      }
      if (i < 0) {
        return;
      }
      ++slot->choices[i];
      c.len_ = i + 1;
      slot->n = c.len_;
    }
  }

  int Replay(const std::string& spec) {
    const size_t colon = spec.find(':');
    const std::string name = spec.substr(0, colon);
    G().replay = true;
    for (const Section& s : Sections()) {
      if (s.name != name) {
        continue;
      }
      static Ctx c;
      Stats st;
      c.slot_ = G().slot;
      c.stats = &st;
      c.len_ = 0;
      std::stringstream ss(colon == std::string::npos ? "" : spec.substr(colon + 1));
      for (std::string t; std::getline(ss, t, ',');) {
        c.slot_->choices[c.len_++] = static_cast<uint32_t>(std::atoi(t.c_str()));
      }
      c.slot_->n = c.len_;
      Violation v;
      if (RunOnce(c, s, st, v)) {
        std::printf("VIOLATED sig=%s\n%s\ndetail: %s\n", v.sig.c_str(), v.msg.c_str(), c.slot_->detail);
        return 1;
      }
      std::printf("held\n");
      return 0;
    }
    std::fprintf(stderr, "mc: no section %s\n", name.c_str());
    return 2;
  }

  uint64_t prefix_counter_ = 0;
  uint64_t my_claim_ = 0;
  bool have_claim_ = false;
};

}  // namespace mc

#ifdef MC_MAIN
int main(int argc, char** argv) {
  static mc::Runner r;
  return r.Main(argc, argv);
}
#endif

#endif  // VERIF_LIB_MC_H_
