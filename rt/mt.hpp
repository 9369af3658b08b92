// Stand-ins for the concurrency primitives of the standard library and of Abseil.  A method of a monitor is verified on its own: the other threads are
// represented by the hook `vc_mt::interfere`, which is called each time the method under contract acquires (or reacquires) a lock and may change the guarded
// state in any way that the rely condition of the specification allows; `vc_mt::released` is called when a lock is released, to check the invariant.
#pragma once
#include "vc.hpp"
#include "stl.hpp"
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#define _GLIBCXX_THREAD 1
#define _GLIBCXX_THREAD_H 1
#define _GLIBCXX_FUTURE 1
#define _GLIBCXX_STOP_TOKEN 1
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <utility>
#include "absl/base/thread_annotations.h"
#include "status.hpp"
#define ABSL_TIME_TIME_H_
#define ABSL_TIME_CLOCK_H_
namespace absl {
class Mutex;
struct Duration {};
struct Time {};
inline Duration InfiniteDuration() { return {}; }
template<typename T> Duration Milliseconds(T) { return {}; }
template<typename T> Duration Seconds(T) { return {}; }
template<typename R, typename P> Duration FromChrono(std::chrono::duration<R, P> const&) { return {}; }
inline Time FromChrono(std::chrono::system_clock::time_point const&) { return {}; }
}
namespace vc_mt {
inline void (*interfere)(absl::Mutex*) = nullptr;
inline void (*released)(absl::Mutex*) = nullptr;
inline void (*before_lock)(absl::Mutex*) = nullptr;  // Called before a lock is acquired: another thread may run.
inline void (*waiting)(absl::Mutex*) = nullptr;      // Called, without the lock, while a condition does not hold; overrides `interfere`.
inline int locks_held = 0;
inline bool may_wait = true;     // Whether a false Await condition is an assumption (wait for ever) or a failed obligation.
inline int waits = 0;
}
namespace absl {
class Condition {
 public:
  template<typename F> explicit Condition(F* f) : p_(const_cast<void*>(static_cast<void const*>(f))), e_([](void* p) -> bool { return (*static_cast<F*>(p))(); }) {}
  template<typename T> Condition(bool (*f)(T*), T* a) : p_(a) { fn_ = reinterpret_cast<bool (*)(void*)>(f); e_ = nullptr; }
  explicit Condition(bool const* b) : p_(const_cast<bool*>(b)), e_([](void* p) { return *static_cast<bool*>(p); }) {}
  bool Eval() const { return e_ ? e_(p_) : fn_(p_); }
 private:
  void* p_; bool (*e_)(void*); bool (*fn_)(void*) = nullptr;
};
class Mutex {
 public:
  int writer = 0, readers = 0;
  Mutex() = default;
  Mutex(Mutex const&) = delete;
  ~Mutex() { vc_assert(writer == 0 && readers == 0, "mutex destroyed while not held"); }
  void Lock() { if (vc_mt::before_lock) vc_mt::before_lock(this); vc_assert(writer == 0 && readers == 0, "no self-deadlock when locking"); writer = 1; ++vc_mt::locks_held; if (vc_mt::interfere) vc_mt::interfere(this); }
  void Unlock() { vc_assert(writer == 1, "unlocked mutex was held"); if (vc_mt::released) vc_mt::released(this); writer = 0; --vc_mt::locks_held; }
  void ReaderLock() { if (vc_mt::before_lock) vc_mt::before_lock(this); vc_assert(writer == 0 && readers == 0, "no self-deadlock when locking"); ++readers; ++vc_mt::locks_held; if (vc_mt::interfere) vc_mt::interfere(this); }
  void ReaderUnlock() { vc_assert(readers > 0, "unlocked mutex was held"); if (vc_mt::released) vc_mt::released(this); --readers; --vc_mt::locks_held; }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const { vc_assert(writer == 1, "mutex is held"); }
  void AssertReaderHeld() const { vc_assert(writer == 1 || readers > 0, "mutex is held"); }
  // While waiting the lock is released: the guarded state may change if the condition does not hold, and holds on return.
  void Await(Condition const& c) {
    AssertReaderHeld();
    if (vc_mt::waiting) {
      while (!c.Eval()) { vc_assert(writer == 1, "mutex is held"); writer = 0; --vc_mt::locks_held; vc_mt::waiting(this); writer = 1; ++vc_mt::locks_held; }
    } else if (!c.Eval()) {
      vc_assert(vc_mt::may_wait, "does not wait");
      ++vc_mt::waits;
      if (vc_mt::released) vc_mt::released(this);
      if (vc_mt::interfere) vc_mt::interfere(this);
      vc_assume(c.Eval());
    }
  }
  template<typename D> bool AwaitWithTimeout(Condition const& c, D) {
    AssertReaderHeld();
    if (!c.Eval()) {
      ++vc_mt::waits;
      if (vc_mt::released) vc_mt::released(this);
      if (vc_mt::interfere) vc_mt::interfere(this);
    }
    return c.Eval();
  }
};
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); } MutexLock(MutexLock const&) = delete; ~MutexLock() { m_->Unlock(); } private: Mutex* m_; };
class ReaderMutexLock { public: explicit ReaderMutexLock(Mutex* m) : m_(m) { m->ReaderLock(); } ReaderMutexLock(ReaderMutexLock const&) = delete; ~ReaderMutexLock() { m_->ReaderUnlock(); } private: Mutex* m_; };
using WriterMutexLock = MutexLock;
class Notification {
 public:
  bool notified = false;
  void Notify() { vc_assert(!notified, "notified at most once"); notified = true; }
  bool HasBeenNotified() const { return notified; }
  void WaitForNotification() { ++waits; if (on_wait) on_wait(this); vc_assume(notified); }
  template<typename D> bool WaitForNotificationWithTimeout(D) { ++waits; if (on_wait) on_wait(this); return notified; }
  template<typename D> bool WaitForNotificationWithDeadline(D) { ++waits; if (on_wait) on_wait(this); return notified; }
  int waits = 0;
  static inline void (*on_wait)(Notification*) = nullptr;
};
}
namespace std {
namespace this_thread {
inline void (*vc_sleep)(chrono::steady_clock::time_point) = nullptr;
inline void sleep_until(chrono::steady_clock::time_point t) { if (vc_sleep) vc_sleep(t); }
template<typename R, typename P> void sleep_for(chrono::duration<R, P>) {}
inline void yield() {}
}
// The body of a thread runs to completion, once, at any one of the points where the specification, or join, makes it run.
class thread {
 public:
  using id = int;
  thread() noexcept = default;
  template<typename F, typename... A> requires (!is_same_v<remove_cvref_t<F>, thread>)
  explicit thread(F&& f, A&&... a) : s_(make_shared<S>()) {
    s_->body = [g = make_shared<decay_t<F>>(std::forward<F>(f)), ... b = make_shared<decay_t<A>>(std::forward<A>(a))]() mutable { std::invoke(std::move(*g), std::move(*b)...); };
  }
  thread(thread&& o) noexcept : s_(std::move(o.s_)) {}
  thread& operator=(thread&& o) noexcept { vc_assert(s_ == nullptr, "assigned thread is not joinable"); s_ = std::move(o.s_); return *this; }
  ~thread() { vc_assert(s_ == nullptr, "destroyed thread is not joinable"); }
  bool joinable() const noexcept { return s_ != nullptr; }
  void vc_run() { if (!s_->run) { s_->run = true; int const k = vc_mt::locks_held; vc_mt::locks_held = 0; s_->body(); vc_assert(vc_mt::locks_held == 0, "thread releases its locks"); vc_mt::locks_held = k; } }
  void join() { vc_assert(s_ != nullptr, "joined thread is joinable"); vc_run(); s_ = nullptr; ++joins; }
  void detach() { vc_assert(s_ != nullptr, "detached thread is joinable"); s_ = nullptr; }
  static inline int joins = 0;
 private:
  struct S { function<void()> body; bool run = false; };
  shared_ptr<S> s_;
};
class stop_token {
 public:
  stop_token() = default;
  explicit stop_token(shared_ptr<bool> b) : b_(std::move(b)) {}
  bool stop_requested() const noexcept {
    if (b_ == nullptr) return false;
    if (vc_may_stop && !*b_ && vc_fork(vc_bool("stop"))) *b_ = true;
    return *b_;
  }
  bool stop_possible() const noexcept { return b_ != nullptr; }
  static inline bool vc_may_stop = false;  // Whether another thread may request a stop at any time.
 private:
  shared_ptr<bool> b_;
};
class stop_source {
 public:
  stop_source() : b_(make_shared<bool>(false)) {}
  stop_token get_token() const { return stop_token(b_); }
  bool request_stop() { bool const r = !*b_; *b_ = true; return r; }
  bool stop_requested() const { return *b_; }
 private:
  shared_ptr<bool> b_;
};
class jthread {
 public:
  jthread() noexcept = default;
  template<typename F, typename... A> requires (!is_same_v<remove_cvref_t<F>, jthread>)
  explicit jthread(F&& f, A&&... a) : ss_(make_shared<stop_source>()), run_(make_shared<bool>(false)) {
    body_ = [tok = ss_->get_token(), g = make_shared<decay_t<F>>(std::forward<F>(f)), ... b = make_shared<decay_t<A>>(std::forward<A>(a))]() mutable {
      if constexpr (is_invocable_v<decay_t<F>, stop_token, decay_t<A>...>) std::invoke(std::move(*g), tok, std::move(*b)...);
      else std::invoke(std::move(*g), std::move(*b)...);
    };
    ++started;
  }
  jthread(jthread&& o) noexcept { take(o); }
  jthread& operator=(jthread&& o) noexcept { if (this != &o) { if (joinable()) { request_stop(); join(); } take(o); } return *this; }
  ~jthread() { if (joinable()) { request_stop(); join(); } }
  bool joinable() const noexcept { return ss_ != nullptr; }
  bool request_stop() { return ss_ != nullptr && ss_->request_stop(); }
  void vc_run() { if (!*run_) { *run_ = true; int const k = vc_mt::locks_held; vc_mt::locks_held = 0; body_(); vc_assert(vc_mt::locks_held == 0, "thread releases its locks"); vc_mt::locks_held = k; } }
  void join() { vc_assert(joinable(), "joined thread is joinable"); vc_run(); ss_ = nullptr; ++joined; }
  stop_token get_stop_token() const { return ss_->get_token(); }
  static inline int started = 0, joined = 0;
 private:
  void take(jthread& o) { ss_ = std::move(o.ss_); run_ = std::move(o.run_); body_ = std::move(o.body_); o.ss_ = nullptr; o.body_ = nullptr; }
  shared_ptr<stop_source> ss_;
  shared_ptr<bool> run_;
  function<void()> body_;
};
template<typename T> struct vc_shared { optional<T> v; int sets = 0; bool has_future = false; };
template<> struct vc_shared<void> { int sets = 0; bool has_future = false; };
template<typename T> class future {
 public:
  future() = default;
  bool valid() const { return s != nullptr; }
  T get() { vc_assert(s != nullptr, "future is valid"); vc_assume(s->sets == 1); auto k = std::move(s); if constexpr (!is_void_v<T>) return std::move(*k->v); }
  void wait() const { vc_assume(s->sets == 1); }
  shared_ptr<vc_shared<T>> s;
};
template<typename T> class promise {
 public:
  promise() : s(make_shared<vc_shared<T>>()) {}
  promise(promise&&) = default;
  promise& operator=(promise&&) = default;
  future<T> get_future() { vc_assert(!s->has_future, "future retrieved at most once"); s->has_future = true; future<T> f; f.s = s; return f; }
  template<typename U> void set_value(U&& u) { vc_assert(s->sets == 0, "promise set at most once"); ++s->sets; s->v.emplace(std::forward<U>(u)); }
  void set_value() requires is_void_v<T> { vc_assert(s->sets == 0, "promise set at most once"); ++s->sets; }
  shared_ptr<vc_shared<T>> s;
};
}
