// A controlled scheduler: real threads of which exactly one runs, switched only at the points where they yield (locking, unlocking,
// allocating, writing to observed streams, and explicit calls). Who runs next is decided by the caller, so that all schedules can be enumerated.
//
// The hand-over uses relaxed atomics only. ThreadSanitizer thus sees no ordering between the threads but the one that the code under test
// establishes with its own locks and atomics, and reports each unordered access although the threads never actually run at the same time.
#ifndef VERIF_LIB_SCHED_H_
#define VERIF_LIB_SCHED_H_
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <vector>

namespace verif {

class Sched {
 public:
  enum State : int { kReady, kBlocked, kDone };
  // Called with the runnable threads (the running one first, if it can go on); returns the index into it.
  using Decide = std::function<int(const std::vector<int>& runnable, bool first_is_current)>;

  void Spawn(std::function<void()> f) { threads_.push_back(new Thread{this, static_cast<int>(threads_.size()), std::move(f)}); }

  // Runs all threads to their end. False if they are deadlocked (the threads are then abandoned).
  bool Run(const Decide& decide, const std::function<void()>& on_step = [] {}) {
    for (Thread* t : threads_) {
      if (pthread_create(&t->handle, nullptr, &Main, t) != 0) { std::perror("pthread_create"); std::abort(); }
    }
    int current = -1;
    bool deadlock = false;
    std::exception_ptr stopped;  // The explorer gave up this schedule: let everything finish first.
    while (true) {
      std::vector<int> runnable;
      bool first_is_current = false;
      if (current >= 0 && Runnable(current)) { runnable.push_back(current); first_is_current = true; }
      bool all_done = true;
      for (size_t i = 0; i < threads_.size(); ++i) {
        if (threads_[i]->state.load(std::memory_order_relaxed) != kDone) all_done = false;
        if (static_cast<int>(i) != current && Runnable(i)) runnable.push_back(i);
      }
      if (all_done) break;
      if (runnable.empty()) { deadlock = true; break; }
      int next = 0;
      if (runnable.size() > 1 && !stopped) {
        try { next = decide(runnable, first_is_current); } catch (...) { stopped = std::current_exception(); }
      }
      current = runnable[next];
      ++steps_;
      on_step();
      Give(current);
    }
    if (deadlock) return false;
    for (Thread* t : threads_) { pthread_join(t->handle, nullptr); delete t; }
    threads_.clear();
    if (stopped) std::rethrow_exception(stopped);
    return true;
  }
  int steps() const { return steps_; }

  // Called by scheduled threads; nothing happens in others.
  static void Yield() {
    Thread* t = Self();
    if (t == nullptr || t->quiet > 0) return;
    t->Back();
  }
  static bool Scheduled() { return Self() != nullptr; }
  struct Quiet {
    Quiet() { if (Self()) ++Self()->quiet; }
    ~Quiet() { if (Self()) --Self()->quiet; }
  };

  // A lock whose waiting is left to the scheduler.
  class Mutex {
   public:
    void lock() { Acquire(false); }
    bool try_lock() { Yield(); if (writer_.load(std::memory_order_relaxed) || readers_.load(std::memory_order_relaxed)) return false; writer_.store(1, std::memory_order_relaxed); (void)sync_.load(std::memory_order_acquire); return true; }
    void unlock() { sync_.fetch_add(1, std::memory_order_release); writer_.store(0, std::memory_order_relaxed); Yield(); }
    void lock_shared() { Acquire(true); }
    void unlock_shared() { sync_.fetch_add(1, std::memory_order_release); readers_.fetch_sub(1, std::memory_order_relaxed); Yield(); }
   private:
    friend class Sched;
    bool Free(bool shared) const { return !writer_.load(std::memory_order_relaxed) && (shared || !readers_.load(std::memory_order_relaxed)); }
    void Acquire(bool shared) {
      if (Thread* t = Self(); t != nullptr) {
        t->waits_shared = shared;
        t->waits.store(this, std::memory_order_relaxed);
        t->state.store(kBlocked, std::memory_order_relaxed);
        t->Back();
        t->waits.store(nullptr, std::memory_order_relaxed);
      }
      if (!Free(shared)) { std::fprintf(stderr, "scheduler: lock taken twice\n"); std::abort(); }
      if (shared) readers_.fetch_add(1, std::memory_order_relaxed); else writer_.store(1, std::memory_order_relaxed);
      (void)sync_.load(std::memory_order_acquire);
    }
    std::atomic<int> writer_{0}, readers_{0}, sync_{0};
  };

 private:
  struct Thread {
    Sched* owner;
    int id;
    std::function<void()> f;
    pthread_t handle{};
    std::atomic<int> state{kReady};
    std::atomic<Mutex*> waits{nullptr};
    std::atomic<bool> waits_shared{false};
    std::atomic<int> go{0};
    int quiet = 0;
    void WaitGo() { while (go.load(std::memory_order_relaxed) == 0) sched_yield(); asm volatile("" ::: "memory"); if (state.load(std::memory_order_relaxed) == kBlocked) state.store(kReady, std::memory_order_relaxed); }
    void Back() { asm volatile("" ::: "memory"); go.store(0, std::memory_order_relaxed); WaitGo(); }
  };
  static Thread*& Self() { static thread_local Thread* self = nullptr; return self; }
  static void* Main(void* p) {
    Thread* t = static_cast<Thread*>(p);
    t->WaitGo();
    Self() = t;
    t->f();
    Self() = nullptr;
    t->state.store(kDone, std::memory_order_relaxed);
    asm volatile("" ::: "memory");
    t->go.store(0, std::memory_order_relaxed);
    return nullptr;
  }
  bool Runnable(int i) const {
    const Thread& t = *threads_[i];
    const int s = t.state.load(std::memory_order_relaxed);
    if (s == kReady) return true;
    if (s == kDone) return false;
    const Mutex* m = t.waits.load(std::memory_order_relaxed);
    return m == nullptr || m->Free(t.waits_shared.load(std::memory_order_relaxed));
  }
  void Give(int i) {
    asm volatile("" ::: "memory");
    threads_[i]->go.store(1, std::memory_order_relaxed);
    while (threads_[i]->go.load(std::memory_order_relaxed) != 0) sched_yield();
    asm volatile("" ::: "memory");
  }
  std::vector<Thread*> threads_;
  int steps_ = 0;
};

}  // namespace verif
#endif
