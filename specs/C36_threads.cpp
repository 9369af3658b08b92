// Thread pools, recurring threads, push-pull callbacks, graveyards and bundles: each method under interference of the others.
// pv-assume: absl::Mutex, absl::Status, std::thread, std::jthread, std::promise and std::stop_token are replaced by contracts (rt/mt.hpp)
// pv-assume: the other threads change the guarded state in any way, between the critical sections of the method under contract
// pv-bounded: pool_.* pools of 0 to 3 threads, queues of 0 to 2 calls
// pv-bounded: recurring_repeat.* 3 iterations, the state between iterations being arbitrary
// pv-bounded: bundle_.* 0 to 3 tasks
// pv-opt: pool_dequeue.* exec_limit=600
#include "mt.hpp"
#include "pr.hpp"
#include <deque>
#include <list>
#include "base/thread_pool.hpp"
#include "base/recurring_thread.hpp"
#include "base/push_pull_callback.hpp"
#include "base/graveyard.hpp"
#include "base/bundle.cpp"
using namespace principia::base::_thread_pool;
using namespace principia::base::_recurring_thread;
using namespace principia::base::_push_pull_callback;
using namespace principia::base::_graveyard;
using namespace principia::base::_bundle;
// The clock: arbitrary, but monotone.
namespace { std::int64_t vc_now = 0; int vc_reads = 0; }
namespace std::chrono {
inline namespace _V2 {
__attribute__((used)) steady_clock::time_point steady_clock::now() noexcept {
  std::int64_t const d = vc_i64(pr::cat("elapsed", vc_reads++).s);
  vc_assume(d >= 0); vc_assume(d <= 1000000000000ll);
  vc_now += d;
  return time_point(duration(vc_now));
}
}
}
namespace {
using Pool = ThreadPool<std::int64_t>;
Pool* pool = nullptr;
std::int64_t threads = 0, min_busy = 0;
int acquisitions = 0, tags = 0, executed = 0;
std::int64_t executing_tag[4];
struct Snapshot { std::size_t calls; std::int64_t busy; bool shutdown; std::vector<std::shared_ptr<std::vc_shared<std::int64_t>>> promises; } snapshot;
Snapshot snap() {
  Snapshot s{pool->calls_.size(), pool->busy_threads_, pool->shutdown_, {}};
  for (auto& c : pool->calls_) s.promises.push_back(c.promise.s);
  return s;
}
int shutdown_at = 1000;
// The other threads did anything.
void havoc(absl::Mutex* const m) {
  if (m != &pool->lock_) return;
  ++acquisitions;
  pool->calls_.clear();
  int const n = vc_fork(vc_bool("queued_1")) ? 1 : vc_fork(vc_bool("queued_2")) ? 2 : 0;
  for (int i = 0; i < n; ++i) {
    std::int64_t const tag = tags++;
    pool->calls_.push_back({[tag]() { vc_assert(vc_mt::locks_held == 0, "functions are executed without holding the lock"); executing_tag[executed++] = tag; return 100 + tag; }, std::promise<std::int64_t>()});
  }
  std::int64_t const busy = vc_i64("busy");
  vc_assume(busy >= min_busy); vc_assume(busy <= threads);
  pool->busy_threads_ = busy;
  pool->shutdown_ = acquisitions >= shutdown_at ? true : vc_fork(vc_bool("shutdown"));
  snapshot = snap();
}
struct Setup {
  Setup() { threads = vc_fork(vc_bool("one_thread")) ? 1 : vc_fork(vc_bool("two_threads")) ? 2 : vc_fork(vc_bool("three_threads")) ? 3 : 0; pool = new Pool(threads); vc_mt::interfere = &havoc; }
  ~Setup() { vc_mt::interfere = nullptr; vc_mt::released = nullptr; pool->calls_.clear(); delete pool; }
};
// The calls of `s` are still there, in order, from index `from` on.
void same_calls(Snapshot const& s, std::size_t const from = 0) {
  auto it = pool->calls_.begin();
  for (std::size_t i = from; i < s.calls; ++i, ++it) { ENSURE(it != pool->calls_.end()); ENSURE(it->promise.s == s.promises[i]); }
}
}
F_SPEC(pool_construction) {
  {
    Setup s;
    ENSURE(static_cast<std::int64_t>(pool->threads_.size()) == threads);
    ENSURE(pool->calls_.empty()); ENSURE(pool->busy_threads_ == 0); ENSURE(!pool->shutdown_);
    std::thread::joins = 0;
  }
  // All the threads are joined by the destructor, and stop without executing anything.
  ENSURE(std::thread::joins == threads); ENSURE(executed == 0); ENSURE(vc_mt::locks_held == 0);
}
F_SPEC(pool_add) {
  Setup s;
  std::int64_t const x = vc_i64("x");
  auto f = pool->Add([x]() { return x; });
  ENSURE(acquisitions == 1); ENSURE(vc_mt::locks_held == 0);
  ENSURE(pool->calls_.size() == snapshot.calls + 1);
  same_calls(snapshot);
  ENSURE(pool->calls_.back().function() == x);
  ENSURE(f.valid()); ENSURE(f.s == pool->calls_.back().promise.s); ENSURE(f.s->sets == 0);
  ENSURE(pool->busy_threads_ == snapshot.busy); ENSURE(pool->shutdown_ == snapshot.shutdown);
}
F_SPEC(pool_try_add) {
  Setup s;
  std::int64_t const x = vc_i64("x");
  auto f = pool->TryAdd([x]() { return x; });
  ENSURE(vc_mt::locks_held == 0);
  // The decision is made on the state in which the call is queued.
  bool const idle = static_cast<std::int64_t>(snapshot.calls) + 1 <= threads - snapshot.busy;
  ENSURE(!f.has_value() || idle);
  if (f.has_value()) {
    ENSURE(pool->calls_.size() == snapshot.calls + 1);
    ENSURE(f->valid()); ENSURE(f->s == pool->calls_.back().promise.s);
    ENSURE(pool->calls_.back().function() == x);
  } else {
    ENSURE(!idle);
    ENSURE(pool->calls_.size() == snapshot.calls);
  }
  same_calls(snapshot);
  ENSURE(pool->busy_threads_ == snapshot.busy); ENSURE(pool->shutdown_ == snapshot.shutdown);
}
F_SPEC(pool_wait_until_idle) {
  Setup s;
  bool const b = pool->WaitUntilIdleFor(absl::InfiniteDuration());
  ENSURE(vc_mt::locks_held == 0);
  ENSURE(b == (static_cast<std::int64_t>(snapshot.calls) + 1 <= threads - snapshot.busy));
  ENSURE(pool->calls_.size() == snapshot.calls); ENSURE(pool->busy_threads_ == snapshot.busy); ENSURE(pool->shutdown_ == snapshot.shutdown);
  same_calls(snapshot);
}
namespace {
int phase = 0;  // 0: waiting for a call; 1: executing.
std::shared_ptr<std::vc_shared<std::int64_t>> current;
std::int64_t front_tag;
int iterations = 0, popped_executed = 0;
bool exiting = false;
void dequeue_havoc(absl::Mutex* const m) {
  min_busy = phase == 1 ? 1 : 0;  // This thread is counted as busy while it executes.
  if (phase == 1) {
    // The call was executed exactly once, and its result delivered, before the thread stops being busy.
    ENSURE(executed == popped_executed + 1); ENSURE(executing_tag[executed - 1] == front_tag);
    ENSURE(current->sets == 1); ENSURE(*current->v == 100 + front_tag);
  } else {
    ENSURE(executed == popped_executed);
  }
  int const first = tags;
  havoc(m);
  if (phase == 0) { vc_assume(pool->busy_threads_ < threads); front_tag = first; }
}
void dequeue_released(absl::Mutex*) {
  if (phase == 0) {
    if (snapshot.shutdown) {
      exiting = true;
      ENSURE(pool->calls_.size() == snapshot.calls); ENSURE(pool->busy_threads_ == snapshot.busy);
      same_calls(snapshot);
    } else if (snapshot.calls == 0) {  // Waiting.
      ENSURE(pool->calls_.empty()); ENSURE(pool->busy_threads_ == snapshot.busy);
    } else {
      ENSURE(!exiting);
      ENSURE(pool->calls_.size() == snapshot.calls - 1); ENSURE(pool->busy_threads_ == snapshot.busy + 1);
      same_calls(snapshot, 1);
      current = snapshot.promises[0];
      popped_executed = executed;
      ENSURE(current->sets == 0);
      phase = 1;
    }
  } else {
    ENSURE(pool->busy_threads_ == snapshot.busy - 1); ENSURE(pool->calls_.size() == snapshot.calls); ENSURE(pool->shutdown_ == snapshot.shutdown);
    same_calls(snapshot);
    popped_executed = executed;
    phase = 0; ++iterations;
  }
}
}
// One to three iterations from an arbitrary state.
F_SPEC(pool_dequeue) {
  Setup s;
  REQUIRE(threads >= 1);
  vc_mt::interfere = &dequeue_havoc; vc_mt::released = &dequeue_released;
  shutdown_at = 4;
  pool->DequeueCallAndExecute();
  ENSURE(exiting); ENSURE(phase == 0); ENSURE(vc_mt::locks_held == 0); ENSURE(executed == iterations);
}
F_SPEC(pool_execute) {
  std::int64_t const x = vc_i64("x");
  std::promise<std::int64_t> p; auto f = p.get_future();
  int calls = 0;
  principia::base::_thread_pool::internal::ExecuteAndSetValue<std::int64_t>([&]() { ++calls; return x; }, p);
  ENSURE(calls == 1); ENSURE(f.get() == x);
  std::promise<void> q; auto g = q.get_future();
  principia::base::_thread_pool::internal::ExecuteAndSetValue<void>([&]() { ENSURE(q.s->sets == 0); ++calls; }, q);
  ENSURE(calls == 2); ENSURE(g.s->sets == 1);
}
namespace {
int dug = 0;
struct Corpse { int* d; explicit Corpse(int* d) : d(d) {} Corpse(Corpse&& o) : d(o.d) { o.d = nullptr; } Corpse& operator=(Corpse&& o) { std::swap(d, o.d); return *this; } ~Corpse() { if (d) ++*d; } };
}
F_SPEC(graveyard) {
  {
    Graveyard g(1);
    g.Bury(Corpse(&dug));
    ENSURE(dug == 0);  // Not destroyed by the caller.
    ENSURE(g.gravedigger_.calls_.size() == 1);
    g.gravedigger_.calls_.front().function();
    ENSURE(dug == 1);
    g.gravedigger_.calls_.clear();
  }
  ENSURE(dug == 1);
}
// ---- Recurring threads.
namespace {
using Recurring = RecurringThread<std::int64_t, std::int64_t>;
using RecurringVoid = RecurringThread<std::int64_t>;
std::optional<std::int64_t> some(const char* const has, const char* const n) { if (vc_fork(vc_bool(has))) return vc_i64(n); return std::nullopt; }
template<typename R> struct RS {
  static inline R* r = nullptr;
  static inline std::optional<std::int64_t> input, output;
  static void havoc(absl::Mutex* const) {
    r->input_ = some("has_input", "input"); input = r->input_;
    if constexpr (requires { r->output_; }) { r->output_ = some("has_output", "output"); output = r->output_; }
  }
};
// The stop token of this thread.
struct Token { std::stop_source ss; Token() { this_stop() = ss.get_token(); std::stop_token::vc_may_stop = true; } ~Token() { std::stop_token::vc_may_stop = false; this_stop() = std::stop_token(); }
  static std::stop_token& this_stop() { return principia::base::_stoppable_thread::this_stoppable_thread::stop_token_; } };
}
F_SPEC(recurring_put) {
  std::int64_t const x = vc_i64("x");
  Recurring r([](std::int64_t) { return 0; }, std::chrono::milliseconds(1));
  ENSURE(!r.input_.has_value()); ENSURE(!r.output_.has_value()); ENSURE(!r.jthread_.joinable());
  RS<Recurring>::r = &r; vc_mt::interfere = &RS<Recurring>::havoc;
  r.Put(x);
  ENSURE(vc_mt::locks_held == 0); ENSURE(r.input_ == std::optional(x)); ENSURE(r.output_ == RS<Recurring>::output);
  RecurringVoid v([](std::int64_t) { return absl::OkStatus(); }, std::chrono::milliseconds(1));
  RS<RecurringVoid>::r = &v; vc_mt::interfere = &RS<RecurringVoid>::havoc;
  v.Put(x);
  ENSURE(vc_mt::locks_held == 0); ENSURE(v.input_ == std::optional(x));
  vc_mt::interfere = nullptr;
}
F_SPEC(recurring_get) {
  Recurring r([](std::int64_t) { return 0; }, std::chrono::milliseconds(1));
  RS<Recurring>::r = &r; vc_mt::interfere = &RS<Recurring>::havoc;
  auto const o = r.Get();
  ENSURE(vc_mt::locks_held == 0); ENSURE(o == RS<Recurring>::output); ENSURE(!r.output_.has_value()); ENSURE(r.input_ == RS<Recurring>::input);
  vc_mt::interfere = nullptr;
}
namespace {
int actions = 0, sections = 0; bool may_fail = true;
std::optional<std::int64_t> taken; bool fails = false; std::int64_t action_result; absl::StatusCode code;
}
F_SPEC(recurring_run_action) {
  Token t;
  using S = RS<Recurring>;
  fails = vc_fork(vc_bool("fails")); action_result = vc_i64("result");
  Recurring r([](std::int64_t const i) -> absl::StatusOr<std::int64_t> {
    ++actions;
    vc_assert(vc_mt::locks_held == 0, "the action runs without holding the lock");
    ENSURE(i == *taken);
    ENSURE(!*Token::this_stop().b_);  // Not run if already stopped.
    if (fails) return absl::OutOfRangeError("");
    return action_result;
  }, std::chrono::milliseconds(1));
  S::r = &r;
  vc_mt::interfere = [](absl::Mutex* m) { S::havoc(m); ++sections; if (sections == 1) taken = S::input; };
  vc_mt::released = [](absl::Mutex*) {
    if (sections == 1) {
      // The input is consumed, the output not touched.
      ENSURE(!S::r->input_.has_value()); ENSURE(S::r->output_ == S::output);
      ENSURE(actions == 0);
    } else {
      // An input put during the action is not lost; the output is that of the action.
      ENSURE(sections == 2); ENSURE(actions == 1); ENSURE(!fails); ENSURE(!*Token::this_stop().b_);
      ENSURE(S::r->input_ == S::input); ENSURE(S::r->output_ == std::optional(action_result));
    }
  };
  absl::Status const s = r.RunAction();
  vc_mt::interfere = vc_mt::released = nullptr;
  bool const stopped = *Token::this_stop().b_;
  ENSURE(vc_mt::locks_held == 0);
  ENSURE(actions <= (taken.has_value() ? 1 : 0));
  if (!stopped) {
    ENSURE(actions == (taken.has_value() ? 1 : 0));
    ENSURE((sections == 2) == (taken.has_value() && !fails));
    ENSURE(s.code() == (taken.has_value() && fails ? absl::StatusCode::kOutOfRange : absl::StatusCode::kOk));
  } else if (!(actions == 1 && fails) && sections == 1) {
    ENSURE(s.code() == absl::StatusCode::kCancelled);
  }
}
F_SPEC(recurring_run_action_void) {
  Token t;
  using S = RS<RecurringVoid>;
  fails = vc_fork(vc_bool("fails"));
  RecurringVoid r([](std::int64_t const i) -> absl::Status {
    ++actions;
    vc_assert(vc_mt::locks_held == 0, "the action runs without holding the lock");
    ENSURE(i == *taken); ENSURE(!*Token::this_stop().b_);
    return fails ? absl::OutOfRangeError("") : absl::OkStatus();
  }, std::chrono::milliseconds(1));
  S::r = &r;
  vc_mt::interfere = [](absl::Mutex* m) { S::havoc(m); ++sections; taken = S::input; };
  vc_mt::released = [](absl::Mutex*) { ENSURE(!S::r->input_.has_value()); };
  absl::Status const s = r.RunAction();
  vc_mt::interfere = vc_mt::released = nullptr;
  bool const stopped = *Token::this_stop().b_;
  ENSURE(vc_mt::locks_held == 0); ENSURE(sections == 1);
  ENSURE(actions == (taken.has_value() && !stopped ? 1 : 0));
  if (taken.has_value()) ENSURE(s.code() == (stopped ? absl::StatusCode::kCancelled : fails ? absl::StatusCode::kOutOfRange : absl::StatusCode::kOk));
  else ENSURE(s.ok());
}
namespace {
std::int64_t last_start = -1, period_ns; int runs = 0; bool stopped_before_run = false;
struct Repeat : principia::base::_recurring_thread::internal::BaseRecurringThread {
  explicit Repeat(std::chrono::milliseconds p) : BaseRecurringThread(p) {}
  absl::Status RunAction() override {
    ENSURE(!*Token::this_stop().b_);
    // No more frequently than at the specified period.
    ENSURE(runs == 0 || vc_now - last_start >= period_ns);
    last_start = vc_now; ++runs;
    std::chrono::steady_clock::now();  // The action takes time.
    if (runs == 3) { *Token::this_stop().b_ = true; return absl::OkStatus(); }
    return vc_fork(vc_bool("error")) ? absl::InternalError("") : absl::OkStatus();
  }
};
}
// Even if the action fails, it runs until stopped.
F_SPEC(recurring_repeat) {
  Token t;
  std::int64_t const p = vc_i64("period");
  REQUIRE(p >= 0); REQUIRE(p <= 1000000);
  period_ns = p * 1000000;
  Repeat r{std::chrono::milliseconds(p)};
  std::this_thread::vc_sleep = [](std::chrono::steady_clock::time_point t) {
    std::int64_t const u = t.time_since_epoch().count();
    if (vc_now < u) vc_now = u;
    std::chrono::steady_clock::now();  // Oversleeping.
  };
  absl::Status const s = r.RepeatedlyRunAction();
  ENSURE(*Token::this_stop().b_); ENSURE(s.code() == absl::StatusCode::kCancelled);
}
namespace {
struct Lifetime : principia::base::_recurring_thread::internal::BaseRecurringThread {
  int* runs; explicit Lifetime(int* runs) : BaseRecurringThread(std::chrono::milliseconds(1)), runs(runs) {}
  absl::Status RunAction() override { ++*runs; return absl::OkStatus(); }
};
}
F_SPEC(recurring_start_stop) {
  int r = 0;
  Lifetime l(&r);
  ENSURE(!l.jthread_.joinable()); ENSURE(std::jthread::started == 0);
  l.Stop();
  ENSURE(!l.jthread_.joinable()); ENSURE(std::jthread::started == 0); ENSURE(std::jthread::joined == 0);
  l.Start();
  ENSURE(l.jthread_.joinable()); ENSURE(std::jthread::started == 1);
  l.Start();
  ENSURE(l.jthread_.joinable()); ENSURE(std::jthread::started == 1); ENSURE(std::jthread::joined == 0);
  l.Restart();
  // The previous thread was told to stop and joined.
  ENSURE(l.jthread_.joinable()); ENSURE(std::jthread::started == 2); ENSURE(std::jthread::joined == 1);
  l.Stop();
  ENSURE(!l.jthread_.joinable()); ENSURE(std::jthread::joined == 2);
  l.Stop();
  ENSURE(!l.jthread_.joinable()); ENSURE(std::jthread::joined == 2);
  l.Restart();
  ENSURE(l.jthread_.joinable()); ENSURE(std::jthread::started == 3);
  l.Stop();
  ENSURE(std::jthread::joined == 3); ENSURE(vc_mt::locks_held == 0);
  // The threads were stopped before they ran.
  ENSURE(r == 0);
}
F_SPEC(stoppable_thread) {
  // The stop token of the thread is that of its jthread.
  using principia::base::_stoppable_thread::MakeStoppableThread; using principia::base::_stoppable_thread::this_stoppable_thread;
  int calls = 0, before = -1, after = -1; std::jthread* self = nullptr;
  std::jthread j = MakeStoppableThread([&](int const a, int const& b) {
    ++calls; ENSURE(a == 3); ENSURE(b == 4);
    before = this_stoppable_thread::get_stop_token().stop_requested();
    self->request_stop();
    after = this_stoppable_thread::get_stop_token().stop_requested();
  }, 3, 4);
  self = &j;
  ENSURE(j.joinable()); ENSURE(calls == 0);
  j.join();
  ENSURE(calls == 1); ENSURE(before == 0); ENSURE(after == 1);
}
// ---- Callbacks.
namespace {
using Callback = PushPullCallback<std::int64_t, std::int64_t, std::int32_t>;
Callback* cb = nullptr;
std::optional<std::tuple<std::int64_t, std::int32_t>> cb_args; std::optional<std::int64_t> cb_result; bool cb_shutdown;
void cb_havoc(absl::Mutex*) {
  if (vc_fork(vc_bool("has_arguments"))) cb->arguments_ = std::tuple(vc_i64("a"), vc_i32("b")); else cb->arguments_.reset();
  cb->result_ = some("has_result", "result");
  cb->shutdown_ = vc_fork(vc_bool("shutdown"));
  cb_args = cb->arguments_; cb_result = cb->result_; cb_shutdown = cb->shutdown_;
}
}
F_SPEC(callback_pull) {
  Callback c; cb = &c;
  ENSURE(!c.arguments_.has_value()); ENSURE(!c.result_.has_value()); ENSURE(!c.shutdown_);
  vc_mt::interfere = &cb_havoc;
  std::int64_t a = 1; std::int32_t b = 2;
  bool const more = c.Pull(a, b);
  ENSURE(vc_mt::locks_held == 0);
  ENSURE(more == !cb_shutdown);
  if (more) {
    ENSURE(cb_args.has_value()); ENSURE(a == std::get<0>(*cb_args)); ENSURE(b == std::get<1>(*cb_args));
    ENSURE(!c.arguments_.has_value());
  } else { ENSURE(a == 1); ENSURE(b == 2); }
  ENSURE(c.result_ == cb_result); ENSURE(c.shutdown_ == cb_shutdown);
  vc_mt::interfere = nullptr;
}
F_SPEC(callback_push) {
  Callback c; cb = &c;
  vc_mt::interfere = &cb_havoc;
  std::int64_t const x = vc_i64("x");
  c.Push(x);
  ENSURE(vc_mt::locks_held == 0); ENSURE(c.result_ == std::optional(x)); ENSURE(c.arguments_ == cb_args); ENSURE(c.shutdown_ == cb_shutdown);
  c.Shutdown();
  ENSURE(vc_mt::locks_held == 0); ENSURE(c.shutdown_); ENSURE(c.arguments_ == cb_args); ENSURE(c.result_ == cb_result);
  vc_mt::interfere = nullptr;
}
namespace { int cb_sections = 0; std::int64_t cb_x; std::int32_t cb_y; }
F_SPEC(callback_function) {
  Callback c; cb = &c;
  auto const f = c.ToStdFunction();
  cb_x = vc_i64("x"); cb_y = vc_i32("y");
  vc_mt::interfere = [](absl::Mutex* m) { cb_havoc(m); ++cb_sections; };
  vc_mt::released = [](absl::Mutex* m) {
    if (cb_sections == 1) {
      // The arguments are available to the other side; nothing else changed.
      ENSURE(cb->arguments_ == std::optional(std::tuple(cb_x, cb_y))); ENSURE(cb->result_ == cb_result); ENSURE(cb->shutdown_ == cb_shutdown);
    }
  };
  std::int64_t const r = f(cb_x, cb_y);
  vc_mt::interfere = vc_mt::released = nullptr;
  ENSURE(vc_mt::locks_held == 0); ENSURE(cb_sections >= 2);
  ENSURE(cb_result.has_value()); ENSURE(r == *cb_result); ENSURE(!c.result_.has_value()); ENSURE(c.arguments_ == cb_args); ENSURE(c.shutdown_ == cb_shutdown);
}
F_SPEC(callback_executor) {
  std::int64_t const x = vc_i64("x"), y = vc_i64("y");
  int done = 0;
  using X = PushPullExecutor<std::int64_t, std::int64_t, std::int64_t, std::int32_t>;
  {
    X e([&](std::function<std::int64_t(std::int64_t, std::int32_t)> f) { ++done; return f(x, 1) + y; });
    ENSURE(done == 0);
    // The other side: pulls the arguments when they are there, and pushes the result.
    vc_mt::may_wait = true;
    cb = &e.callback();
    ENSURE(cb == &e.callback_);
    vc_mt::interfere = [](absl::Mutex* m) { if (m == &cb->lock_ && cb->arguments_.has_value()) { ENSURE(std::get<1>(*cb->arguments_) == 1); cb->result_ = 2 * std::get<0>(*cb->arguments_); cb->arguments_.reset(); } };
    e.thread_.vc_run();
    vc_mt::interfere = nullptr;
    ENSURE(done == 1);
    ENSURE(e.callback().shutdown_);
    std::int64_t a; std::int32_t b;
    ENSURE(!e.callback().Pull(a, b));
    ENSURE(e.get() == 2 * x + y);
  }
  ENSURE(done == 1); ENSURE(std::thread::joins == 1);
}
F_SPEC(callback_executor_early_get) {
  if (!vc_fork(vc_bool("early"))) return;
  vc_may_abort(1);
  PushPullExecutor<std::int64_t, std::int64_t, int> e([&](std::function<std::int64_t(int)>) { return 0; });
  e.get();
  vc_unreachable("the result is not available before the task has run");
}
// ---- Bundles.
namespace {
Bundle* bundle = nullptr;
// The tasks complete in any order.
void run_all() {
  bool left = true;
  while (left) {
    left = false;
    for (auto& w : bundle->workers_) {
      if (w.s_ == nullptr || w.s_->run) continue;
      if (vc_fork(vc_bool("first"))) w.vc_run(); else left = true;
    }
    vc_mt::waits++; vc_assume(vc_mt::waits < 3);
  }
}
absl::StatusCode codes[3];
int completed = 0; absl::StatusCode first_error = absl::StatusCode::kOk;
int add_tasks(Bundle& b) {
  bundle = &b;
  int const n = vc_fork(vc_bool("n1")) ? 1 : vc_fork(vc_bool("n2")) ? 2 : vc_fork(vc_bool("n3")) ? 3 : 0;
  for (int i = 0; i < n; ++i) {
    codes[i] = vc_fork(vc_bool(pr::cat("error", i).s)) ? static_cast<absl::StatusCode>(3 + i) : absl::StatusCode::kOk;
    b.Add([i]() {
      vc_assert(vc_mt::locks_held == 0, "tasks run without locks");
      ++completed;
      if (first_error == absl::StatusCode::kOk) first_error = codes[i];
      return codes[i] == absl::StatusCode::kOk ? absl::OkStatus() : absl::Status(codes[i]);
    });
    ENSURE(b.number_of_active_workers_ == i + 1 - completed);
    // Tasks may complete before the bundle is joined.
    if (vc_fork(vc_bool(pr::cat("early", i).s))) b.workers_.back().vc_run();
    ENSURE(b.number_of_active_workers_ == i + 1 - completed);
  }
  return n;
}
}
F_SPEC(bundle_join) {
  Bundle b;
  int const n = add_tasks(b);
  absl::Notification::on_wait = [](absl::Notification*) { ENSURE(vc_mt::locks_held == 0); run_all(); };
  absl::Status const s = b.Join();
  ENSURE(vc_mt::locks_held == 0); ENSURE(completed == n); ENSURE(std::thread::joins == n);
  ENSURE(s.code() == first_error);
  // The wait ended because all tasks were complete.
  ENSURE(b.number_of_active_workers_ == 0); ENSURE(b.joining_);
}
namespace {
void timed(bool const before) {
  Bundle b;
  int const n = add_tasks(b);
  int const early = completed;
  static bool expires; expires = vc_fork(vc_bool("expires"));
  absl::Notification::on_wait = [](absl::Notification*) { ENSURE(vc_mt::locks_held == 0); if (!expires) run_all(); };
  absl::Status const s = before ? b.JoinBefore(std::chrono::system_clock::time_point()) : b.JoinWithin(std::chrono::seconds(1));
  ENSURE(vc_mt::locks_held == 0); ENSURE(completed == n); ENSURE(std::thread::joins == n);
  ENSURE(s.code() == (early < n && expires ? absl::StatusCode::kDeadlineExceeded : first_error));
}
}
F_SPEC(bundle_join_within) { timed(false); }
F_SPEC(bundle_join_before) { timed(true); }
F_SPEC(bundle_add_after_join) {
  Bundle b;
  ENSURE(b.Join().ok());
  if (!vc_fork(vc_bool("late"))) return;
  vc_may_abort(1);
  b.Add([]() { return absl::OkStatus(); });
  vc_unreachable("no task is added after joining");
}
