// Abseil's mutexes on those of the standard library, so that the thread
// sanitizer sees them (the installed Abseil is not built for it).
#ifndef TSAN_ABSL_SYNCHRONIZATION_MUTEX_H_
#define TSAN_ABSL_SYNCHRONIZATION_MUTEX_H_

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <random>
#include <thread>

// The rest of Abseil keeps its own.
#include_next <absl/synchronization/mutex.h>

#include "absl/base/thread_annotations.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/cord.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"

#define Condition WatchedCondition
#define CondVar WatchedCondVar
#define Mutex WatchedMutex
#define MutexLock WatchedMutexLock
#define ReaderMutexLock WatchedReaderMutexLock
#define ReleasableMutexLock WatchedReleasableMutexLock
#define WriterMutexLock WatchedWriterMutexLock

namespace absl {

class Condition {
 public:
  Condition(bool (*f)(void *), void *a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(bool (*f)(T *), T *a) : f_([f, a] { return f(a); }) {}
  template <typename T, typename U>
  Condition(const T *o, bool (U::*m)() const) : f_([o, m] {
    return (static_cast<const U *>(o)->*m)(); }) {}
  template <typename T, typename U>
  Condition(T *o, bool (U::*m)()) : f_([o, m] {
    return (static_cast<U *>(o)->*m)(); }) {}
  template <typename T>
  explicit Condition(const T *o) : f_([o] { return (*o)(); }) {}
  explicit Condition(const bool *b) : f_([b] { return *b; }) {}
  bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class Mutex {
 public:
  void Lock() { Dawdle(); mu_.lock(); }
  // Conditions may have changed whenever the mutex is given up.
  void Unlock() { mu_.unlock(); changed_.notify_all(); Dawdle(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  void lock_shared() { Lock(); }
  void unlock_shared() { Unlock(); }
  bool try_lock() { return TryLock(); }
  bool TryLock() { return mu_.try_lock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  void Await(const Condition &c) {
    while (!c.Eval()) Wait();
  }
  void LockWhen(const Condition &c) { Lock(); Await(c); }
  bool AwaitWithDeadline(const Condition &c, Time t) {
    while (!c.Eval()) {
      if (absl::Now() >= t) return false;
      Wait(absl::Milliseconds(1));
    }
    return true;
  }
  bool AwaitWithTimeout(const Condition &c, Duration d) {
    return AwaitWithDeadline(c, absl::Now() + d);
  }
  bool LockWhenWithTimeout(const Condition &c, Duration d) {
    Lock();
    return AwaitWithTimeout(c, d);
  }

  // Delays, of up to this many microseconds, injected around mutexes.
  static std::atomic<int> &Delay() {
    static std::atomic<int> us{0};
    return us;
  }

 private:
  static void Dawdle() {
    const int us = Delay().load(std::memory_order_relaxed);
    if (us == 0) return;
    static std::atomic<unsigned> seeds{1};
    thread_local std::minstd_rand random(seeds.fetch_add(1));
    if (random() % 2) {
      std::this_thread::sleep_for(std::chrono::microseconds(random() % us));
    }
  }
  friend class CondVar;
  void Wait() {
    std::unique_lock<std::mutex> l(mu_, std::adopt_lock);
    changed_.notify_all();
    changed_.wait(l);
    l.release();
  }
  void Wait(Duration d) {
    std::unique_lock<std::mutex> l(mu_, std::adopt_lock);
    changed_.wait_for(l, absl::ToChronoMicroseconds(d));
    l.release();
  }
  std::mutex mu_;
  std::condition_variable changed_;
};

class MutexLock {
 public:
  explicit MutexLock(Mutex *m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex &m) : MutexLock(&m) {}
  MutexLock(Mutex *m, const Condition &c) : m_(m) { m_->LockWhen(c); }
  ~MutexLock() { m_->Unlock(); }
  MutexLock(const MutexLock &) = delete;
  void operator=(const MutexLock &) = delete;

 private:
  Mutex *m_;
};
using WriterMutexLock = MutexLock;
using ReaderMutexLock = MutexLock;

class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex *m) : m_(m) { m_->Lock(); }
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }

 private:
  Mutex *m_;
};

class CondVar {
 public:
  void Wait(Mutex *m) {
    std::unique_lock<std::mutex> l(m->mu_, std::adopt_lock);
    m->changed_.notify_all();
    cv_.wait(l);
    l.release();
  }
  bool WaitWithTimeout(Mutex *m, Duration d) {
    std::unique_lock<std::mutex> l(m->mu_, std::adopt_lock);
    m->changed_.notify_all();
    const bool out = cv_.wait_for(l, absl::ToChronoMicroseconds(d)) ==
                     std::cv_status::timeout;
    l.release();
    return out;
  }
  void Signal() { cv_.notify_one(); }
  void SignalAll() { cv_.notify_all(); }

 private:
  std::condition_variable cv_;
};

}  // namespace absl

#endif  // TSAN_ABSL_SYNCHRONIZATION_MUTEX_H_
