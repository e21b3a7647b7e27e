#ifndef VERIF_SHIM_ABSL_SYNC_MUTEX_H_
#define VERIF_SHIM_ABSL_SYNC_MUTEX_H_
#include <shared_mutex>
#include "absl/base/attributes.h"
// VERIF_SHIM_MUTEX may name a replacement implementation (a scheduler-controlled lock, see lib/sched.h).
#ifdef VERIF_SHIM_MUTEX_HEADER
#include VERIF_SHIM_MUTEX_HEADER
#endif
namespace absl {
#ifdef VERIF_SHIM_MUTEX_IMPL
using MutexImpl_ = VERIF_SHIM_MUTEX_IMPL;
#else
using MutexImpl_ = std::shared_mutex;
#endif
class Mutex {
 public:
  Mutex() = default;
  explicit Mutex(ConstInitType) {}
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock_shared(); }
  void ReaderUnlock() { m_.unlock_shared(); }
  void WriterLock() { m_.lock(); }
  void WriterUnlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
  void lock_shared() { m_.lock_shared(); }
  void unlock_shared() { m_.unlock_shared(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
 private:
  MutexImpl_ m_;
};
class [[nodiscard]] MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  explicit MutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { m_.Unlock(); }
 private:
  Mutex& m_;
};
class [[nodiscard]] ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(*m) { m_.ReaderLock(); }
  explicit ReaderMutexLock(Mutex& m) : m_(m) { m_.ReaderLock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ~ReaderMutexLock() { m_.ReaderUnlock(); }
 private:
  Mutex& m_;
};
class [[nodiscard]] WriterMutexLock {
 public:
  explicit WriterMutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  explicit WriterMutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  WriterMutexLock(const WriterMutexLock&) = delete;
  ~WriterMutexLock() { m_.Unlock(); }
 private:
  Mutex& m_;
};
}  // namespace absl
#endif
