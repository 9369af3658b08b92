// Base utilities: not_null, arrays, ranges, iteration over tuples, move-only functions, malloc allocator, sinks.
// pv-bounded: array_equality arrays of 0 to 3 elements
// pv-bounded: sinks arrays of 8 bytes
#include "pr.hpp"
#include <array>
#include <cstring>
#include <memory>
#include <tuple>
#include <vector>
#include "base/not_null.hpp"
#include "base/array.hpp"
#include "base/for_all_of.hpp"
#include "base/function.hpp"
#include "base/malloc_allocator.hpp"
#include "base/monostable.hpp"
#include "base/ranges.hpp"
#include "base/sink_source.hpp"
#include "base/constant_function.hpp"
#include "base/map_util.hpp"
#include "numerics/transposed_view.hpp"
using namespace principia::base::_not_null;
using namespace principia::base::_array;
using namespace principia::base::_for_all_of;
using namespace principia::base::_function;
using namespace principia::base::_malloc_allocator;
using namespace principia::base::_monostable;
using namespace principia::base::_ranges;
using namespace principia::base::_sink_source;
using namespace principia::base::_constant_function;
using namespace principia::numerics::_transposed_view;
namespace {
struct B { virtual ~B() = default; int x = 3; };
struct D : B { int y = 4; };
}
// A null pointer is always detected on construction.
F_SPEC(not_null_check) {
  int a[2];
  bool const null = vc_bool("null");
  int* const p = vc_fork(null) ? nullptr : &a[1];
  vc_may_abort(1);
  vc_flag("null", p == nullptr);
  not_null<int*> const n(p);
  ENSURE(p != nullptr);
  ENSURE(n == &a[1]); ENSURE(static_cast<int*>(n) == &a[1]); ENSURE(n != nullptr); ENSURE(!(n == nullptr)); ENSURE(static_cast<bool>(n));
}
F_SPEC(not_null_no_abort) {
  int a[2] = {vc_i32("a0"), vc_i32("a1")};
  not_null<int*> n(&a[0]);
  not_null<int*> const m = check_not_null(&a[1]);
  ENSURE(*n == a[0]); ENSURE(*m == a[1]);
  ENSURE(n < m); ENSURE(n <= m); ENSURE(m > n); ENSURE(m >= n); ENSURE(n != m); ENSURE(!(n == m)); ENSURE(!(m < n)); ENSURE(!(m <= n)); ENSURE(!(n > m)); ENSURE(!(n >= m));
  ENSURE(n <= n); ENSURE(n >= n); ENSURE(n == n); ENSURE(!(n != n)); ENSURE(!(n < n));
  ENSURE(n == &a[0]); ENSURE(n != &a[1]);
  n = m;
  ENSURE(n == m); ENSURE(*n == a[1]);
  *n = 7;
  ENSURE(a[1] == 7);
  not_null<int const*> const c = n;
  ENSURE(*c == 7);
  not_null<int const*> d(&a[0]);
  d = n;
  ENSURE(d == &a[1]);
}
F_SPEC(not_null_check_function) {
  vc_may_abort(1);
  int* const p = vc_fork(vc_bool("null")) ? nullptr : new int(3);
  auto const n = check_not_null(p);
  ENSURE(p != nullptr); ENSURE(n == p);
}
F_SPEC(not_null_unique) {
  not_null<std::unique_ptr<D>> u = make_not_null_unique<D>();
  D* const raw = u.get();
  ENSURE(u->y == 4); ENSURE((*u).x == 3); ENSURE(u.get() == raw);
  not_null<std::unique_ptr<B>> b = std::move(u);
  ENSURE(b.get() == raw); ENSURE(b->x == 3);
  not_null<B*> const view = b.get();
  ENSURE(static_cast<B*>(view) == raw);
  std::unique_ptr<B> taken = std::move(b);
  ENSURE(taken.get() == raw);
  not_null<std::unique_ptr<D>> v = make_not_null_unique<D>(), w = make_not_null_unique<D>();
  D* const rv = v.get(); D* const rw = w.get();
  ENSURE(rv != rw);
  v = std::move(w);
  ENSURE(v.get() == rw);
  // Move assignment of unique pointers is a swap, so that the source remains valid.
  ENSURE(w.get() == rv);
  not_null<D*> const released = v.release();
  ENSURE(released == rw);
  delete static_cast<D*>(released);
}
F_SPEC(not_null_unique_check) {
  vc_may_abort(1);
  std::unique_ptr<D> p(vc_fork(vc_bool("null")) ? nullptr : new D);
  bool const null = p == nullptr;
  not_null<std::unique_ptr<D>> const n = std::move(p);
  ENSURE(!null);
}
F_SPEC(not_null_casts) {
  not_null<B*> const b = new D;
  not_null<D*> const d = dynamic_cast_not_null<D*>(b);
  ENSURE(static_cast<B*>(static_cast<D*>(d)) == b); ENSURE(d->y == 4);
  not_null<D*> const s(b);
  ENSURE(s == d);
}
namespace {
template<typename T> void equality() {
  int const n = static_cast<int>(vc_concretize(vc_i64("n") & 3)), m = static_cast<int>(vc_concretize(vc_i64("m") & 3));
  T a[4], b[4];
  bool same = n == m;
  for (int i = 0; i < n; ++i) a[i] = static_cast<T>(vc_u64(pr::cat("a", i).s));
  for (int i = 0; i < m; ++i) b[i] = static_cast<T>(vc_u64(pr::cat("b", i).s));
  for (int i = 0; i < n && i < m; ++i) same = same & (a[i] == b[i]);
  ENSURE((Array<T>(a, n) == Array<T>(b, m)) == same);
  UniqueArray<T> u(n);
  ENSURE(u.size == n); ENSURE((u.data == nullptr) == (n == 0)); ENSURE(u.get().data == u.data.get()); ENSURE(u.get().size == n);
  for (int i = 0; i < n; ++i) u.data[i] = a[i];
  ENSURE((u == Array<T>(b, m)) == same); ENSURE((Array<T>(b, m) == u) == same);
  UniqueArray<T> v(m);
  for (int i = 0; i < m; ++i) v.data[i] = b[i];
  ENSURE((u == v) == same);
}
}
F_SPEC(array_equality_8) { equality<std::uint8_t>(); }
F_SPEC(array_equality_16) { equality<std::uint16_t>(); }
F_SPEC(array_equality_char32) { equality<char32_t>(); }
F_SPEC(array_equality_64) { equality<std::int64_t>(); }
F_SPEC(array_construction) {
  Array<char const> const s("abc");
  ENSURE(s.size == 3); ENSURE(s.data[0] == 'a' && s.data[2] == 'c');
  std::vector<std::uint8_t> v(5);
  Array<std::uint8_t> const a(v);
  ENSURE(a.data == v.data()); ENSURE(a.size == 5);
  Array<std::uint8_t const> const c(a);
  ENSURE(c.data == a.data); ENSURE(c.size == 5);
  ENSURE(Array<std::uint8_t>().size == 0); ENSURE(Array<std::uint8_t>().data == nullptr);
}
F_SPEC(bounded_array) {
  std::int64_t const x = vc_i64("x"), y = vc_i64("y"), z = vc_i64("z");
  BoundedArray<std::int64_t, 3> a;
  ENSURE(a.size() == 0); ENSURE(a.empty()); ENSURE(a.begin() == a.end());
  a.push_back(x);
  ENSURE(a.size() == 1); ENSURE(!a.empty()); ENSURE(a.front() == x); ENSURE(a.back() == x);
  a.push_back(y); a.push_back(std::move(z));
  ENSURE(a.size() == 3); ENSURE(a.front() == x); ENSURE(a.back() == z);
  int i = 0;
  for (auto const e : a) { ENSURE(e == (i == 0 ? x : i == 1 ? y : z)); ++i; }
  ENSURE(i == 3);
  BoundedArray<std::int64_t, 3> const b(x, y);
  ENSURE(b.size() == 2); ENSURE(b.front() == x); ENSURE(b.back() == y);
  std::int64_t r[3]; int j = 0;
  for (auto it = b.rbegin(); it != b.rend(); ++it) { ENSURE(j < 2); r[j++] = *it; }
  ENSURE(j == 2); ENSURE(r[0] == y); ENSURE(r[1] == x);
  i = 0;
  for (auto const e : b) { ENSURE(e == (i == 0 ? x : y)); ++i; }
  ENSURE(i == 2);
}
F_SPEC(for_all_of) {
  std::int64_t const x = vc_i64("x"), y = vc_i64("y"), z = vc_i64("z");
  std::tuple<std::int64_t, int, std::int64_t> t{x, 5, z};
  std::array<std::int64_t, 3> a{1, 2, 3};
  std::int64_t seen[3]; int order[3]; int n = 0;
  for_all_of(t, a).loop([&](auto& e, std::int64_t& f) { order[n] = static_cast<int>(f); seen[n++] = e; f = f * 10; });
  ENSURE(n == 3); ENSURE(seen[0] == x); ENSURE(seen[1] == 5); ENSURE(seen[2] == z);
  ENSURE(order[0] == 1 && order[1] == 2 && order[2] == 3);
  ENSURE(a[0] == 10 && a[1] == 20 && a[2] == 30);
  n = 0;
  for_all_of(t, a).loop_indexed([&]<int i>(auto& e, std::int64_t& f) { ENSURE(n == i); seen[i] = e + f; ++n; });
  ENSURE(n == 3); ENSURE(seen[0] == x + 10); ENSURE(seen[1] == 25); ENSURE(seen[2] == z + 30);
  std::pair<std::int64_t, std::int64_t> p{x, y};
  for_all_of(p).loop([](std::int64_t& e) { e ^= 1; });
  ENSURE(p.first == (x ^ 1)); ENSURE(p.second == (y ^ 1));
  std::tuple<int> const one{42};
  n = 0;
  for_all_of(one).loop([&](int e) { n += e; });
  ENSURE(n == 42);
  std::tuple<int, char, bool, int, int, int> six{0, 1, true, 3, 4, 5};
  n = 0;
  for_all_of(six).loop_indexed([&]<int i>(auto const e) { ENSURE(n == i); ++n; });
  ENSURE(n == 6);
}
namespace {
template<std::int64_t b, std::int64_t e> void range() {
  std::int64_t next = b;
  for_integer_range<b, e>::loop([&]<std::int64_t i>() { ENSURE(i == next); ++next; });
  ENSURE(next == e);
}
}
F_SPEC(for_integer_range) { range<0, 3>(); range<-2, 5>(); range<7, 7>(); range<3, 20>(); range<1, 2>(); }
F_SPEC(move_only_function) {
  std::int64_t const x = vc_i64("x"), y = vc_i64("y");
  auto owned = std::make_unique<std::int64_t>(x);
  function<std::int64_t(std::int64_t)> f([p = std::move(owned), calls = std::int64_t{0}](std::int64_t a) mutable { ++calls; return *p + a * calls; });
  ENSURE(owned == nullptr);
  ENSURE(f(std::int64_t{y}) == x + y);
  ENSURE(f(std::int64_t{y}) == x + 2 * y);  // The functor keeps its state.
  function<std::int64_t(std::int64_t)> g = std::move(f);
  ENSURE(g(std::int64_t{y}) == x + 3 * y);
  f = std::move(g);
  ENSURE(f(std::int64_t{y}) == x + 4 * y);
  function<std::unique_ptr<std::int64_t>(std::unique_ptr<std::int64_t>, int&)> h([](std::unique_ptr<std::int64_t> q, int& out) { out = 5; *q += 1; return q; });
  int out = 0;
  auto const r = h(std::make_unique<std::int64_t>(y), out);
  ENSURE(*r == y + 1); ENSURE(out == 5);
  int count = 0;
  {
    struct Count { int* c; ~Count() { ++*c; } };
    function<int()> k([p = std::make_unique<Count>(&count)]() { return 9; });
    ENSURE(k() == 9); ENSURE(count == 0);
  }
  ENSURE(count == 1);  // The functor is destroyed exactly once.
}
namespace {
struct alignas(64) Wide { char c[64]; };
template<typename T> void allocator() {
  std::uint64_t const n = vc_u64("n");
  REQUIRE(n >= 1); REQUIRE(n <= 5);
  std::uint64_t const k = vc_concretize(n);
  MallocAllocator<T> a;
  T* const p = a.allocate(k);
  REQUIRE(p != nullptr);
  // All the memory is usable and the blocks are disjoint.
  T* const q = a.allocate(k);
  REQUIRE(q != nullptr);
  std::memset(static_cast<void*>(p), 1, k * sizeof(T));
  std::memset(static_cast<void*>(q), 2, k * sizeof(T));
  unsigned char const* const c = reinterpret_cast<unsigned char const*>(p);
  ENSURE(c[0] == 1); ENSURE(c[k * sizeof(T) - 1] == 1);
  ENSURE(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0);
  a.deallocate(p, k); a.deallocate(q, k);
  MallocAllocator<char> const other(a);
  ENSURE(a == other); ENSURE(!(a != other));
}
}
F_SPEC(malloc_allocator_char) { allocator<char>(); }
F_SPEC(malloc_allocator_64) { allocator<std::int64_t>(); }
F_SPEC(malloc_allocator_wide) { allocator<Wide>(); }
F_SPEC(malloc_allocator_vector) {
  std::int64_t const x = vc_i64("x"), y = vc_i64("y"), z = vc_i64("z");
  std::vector<std::int64_t, MallocAllocator<std::int64_t>> v;
  v.push_back(x); v.push_back(y); v.push_back(z);
  ENSURE(v.size() == 3); ENSURE(v[0] == x); ENSURE(v[1] == y); ENSURE(v[2] == z);
}
F_SPEC(monostable) {
  Monostable m;
  ENSURE(static_cast<bool>(m)); ENSURE(static_cast<bool>(m));
  m.Flop();
  ENSURE(!static_cast<bool>(m));
  m.Flop();
  ENSURE(!static_cast<bool>(m));
}
F_SPEC(ranges) {
  std::vector<std::int64_t> const v{vc_i64("v0"), vc_i64("v1"), vc_i64("v2"), vc_i64("v3")};
  for (int i = 0; i <= 4; ++i) for (int j = i; j <= 4; ++j) {
    auto const r = Range(v.cbegin() + i, v.cbegin() + j);
    ENSURE(r.size() == static_cast<std::size_t>(j - i)); ENSURE(r.empty() == (i == j));
    ENSURE(r.cbegin() == r.begin()); ENSURE(r.cend() == r.end());
    int k = i;
    for (auto const& e : r) { ENSURE(&e == &v[k]); ++k; }
    ENSURE(k == j);
  }
}
F_SPEC(sinks) {
  std::uint8_t in[8], out[8];
  for (int i = 0; i < 8; ++i) { in[i] = vc_u8(pr::cat("in", i).s); out[i] = 0; }
  ArraySource<std::uint8_t> source(Array<std::uint8_t>(in, 8));
  ArraySink<std::uint8_t> sink(Array<std::uint8_t>(out, 8));
  std::size_t const k = vc_concretize(vc_i64("k") & 7);
  std::size_t length;
  ENSURE(source.Available() == 8);
  const char* p = source.Peek(&length);
  ENSURE(length == 8); ENSURE(p == reinterpret_cast<char*>(in));
  sink.Append(p, k); source.Skip(k);
  ENSURE(source.Available() == 8 - k);
  ENSURE(sink.array().size == static_cast<std::int64_t>(k)); ENSURE(sink.array().data == out);
  p = source.Peek(&length);
  ENSURE(length == 8 - k); ENSURE(p == reinterpret_cast<char*>(in) + k);
  // Through the append buffer.
  std::size_t allocated;
  char* const b = sink.GetAppendBuffer(1, 100, nullptr, 0, &allocated);
  ENSURE(allocated == 8 - k);
  std::memcpy(b, p, allocated);
  sink.Append(b, allocated); source.Skip(allocated);
  ENSURE(source.Available() == 0); ENSURE(sink.array().size == 8);
  for (int i = 0; i < 8; ++i) ENSURE(out[i] == in[i]);
}
F_SPEC(constant_function) {
  std::int64_t const x = vc_i64("x");
  auto f = Identically(x);
  ENSURE(f() == x); ENSURE(f(1, "a", nullptr) == x);
}
namespace {
struct M { using Scalar = double; double d[6]; int rows() const { return 2; } int columns() const { return 3; }
  double& operator()(int i, int j) { return d[3 * i + j]; } double const& operator()(int i, int j) const { return d[3 * i + j]; } };
struct V { using Scalar = double; double d[3]; int size() const { return 3; } double& operator[](int i) { return d[i]; } double const& operator[](int i) const { return d[i]; } };
}
F_SPEC(transposed_view) {
  M m; V v;
  TransposedView<M> const t{m};
  ENSURE(t.rows() == 3); ENSURE(t.columns() == 2);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) ENSURE(&t(j, i) == &m.d[3 * i + j]);
  TransposedView<V> const u{v};
  ENSURE(u.size() == 3);
  for (int i = 0; i < 3; ++i) ENSURE(&u[i] == &v.d[i]);
}
