# Planted changes: id, prop, edits [(file, old, new)], demo (C++ program), needs, breaks.
COMMON = r'''
#include <cmath>
#include <cstdio>
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/r3_element.hpp"
#include "numerics/sin_cos.cpp"
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_r3_element;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_si;
using W1 = Frame<struct T1, Inertial>; using W2 = Frame<struct T2, Inertial>; using W3 = Frame<struct T3, Inertial>;
#include "vc_check_failed.h"
extern "C" double cr_sin(double x) { return std::sin(x); }
extern "C" double cr_cos(double x) { return std::cos(x); }
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }
#define EXPECT(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\n", #__VA_ARGS__); return 1; } } while (0)
'''
SEEDS = []
def seed(**k): SEEDS.append(k)
seed(id='C09-permutation-composition', prop='C09', edits=[('geometry/permutation_body.hpp',
  '/*ZXY*/ {E::ZXY, E::XYZ, E::YZX, O::YXZ, O::XZY, O::ZYX}', '/*ZXY*/ {E::ZXY, E::XYZ, E::YZX, O::YXZ, O::ZYX, O::XZY}')],
  needs='composition of one particular even permutation with two particular odd ones',
  breaks='(p * q)(v) differs from p(q(v)) for p = ZXY and q = ZYX or YXZ',
  demo=COMMON + r'''
#include "geometry/permutation.hpp"
using namespace principia::geometry::_permutation;
using L = Frame<struct TL, Inertial, Handedness::Left>; using L2 = Frame<struct TL2, Inertial, Handedness::Left>;
int main() {
  Vector<double, W1> const v({1, 2, 3});
  for (auto e : {EvenPermutation::XYZ, EvenPermutation::YZX, EvenPermutation::ZXY})
    for (auto o : {OddPermutation::XZY, OddPermutation::ZYX, OddPermutation::YXZ}) {
      Permutation<L, L2> const p(e); Permutation<W1, L> const q(o);
      EXPECT((p * q)(v) == p(q(v)));
    }
}
''')
seed(id='C10-barycentre-count', prop='C10', edits=[('geometry/barycentre_calculator_body.hpp',
  '  if (empty_) {\n    weighted_sum_ = weighted_sum_diff;', '  if (empty_ || weight_ == Weight{}) {\n    weighted_sum_ = weighted_sum_diff;')],
  needs='weights whose partial sum is exactly zero in the middle of the sequence',
  breaks='the barycentre forgets the points added before a moment when the weights cancelled',
  demo=COMMON + r'''
#include "geometry/barycentre_calculator.hpp"
#include "geometry/space.hpp"
using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_space;
int main() {
  BarycentreCalculator<Vector<double, W1>, double> c;
  c.Add(Vector<double, W1>({1, 0, 0}), 2); c.Add(Vector<double, W1>({0, 1, 0}), -2); c.Add(Vector<double, W1>({0, 0, 1}), 4);
  EXPECT((c.Get() - Vector<double, W1>({0.5, -0.5, 1})).Norm() < 1e-12);
}
''')
seed(id='C08-rotation-form', prop='C08', edits=[('geometry/rotation_body.hpp',
  '  intermediate_matrix = intermediate_matrix.Transpose();\n', '  if (quaternion_.real_part() < 0.9) {\n    intermediate_matrix = intermediate_matrix.Transpose();\n  }\n')],
  needs='a small rotation applied to a form that does not commute with it',
  breaks='rotations by less than about 52 degrees do not carry bilinear forms along',
  demo=COMMON + r'''
#include "geometry/rotation.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3x3_matrix;
int main() {
  for (double a : {0.3, 2.0}) {
    auto const r = Rotation<W1, W2>(Quaternion(std::cos(a / 2), std::sin(a / 2) / 3 * R3Element<double>{1, 2, 2}));
    SymmetricBilinearForm<double, W1, Vector> const f(R3x3Matrix<double>({1, 2, 3}, {2, 4, 5}, {3, 5, 6}));
    Vector<double, W1> const v({1, -1, 3}), w({0.5, 2, 1});
    EXPECT(near(r(f)(r(v), r(w)), f(v, w)));
  }
}
''')
seed(id='C11-eigenvalue-sort', prop='C11', edits=[('geometry/symmetric_bilinear_form_body.hpp',
  '  swap_if_needed(1, 2);\n  swap_if_needed(0, 1);\n', '  swap_if_needed(1, 2);\n  if (!odd) {\n    swap_if_needed(0, 1);\n  }\n')],
  needs='a form whose eigenvalues come out of the Jacobi sweep in decreasing order',
  breaks='the eigenvalues of Diagonalize are not in increasing order for some forms',
  demo=COMMON + r'''
#include "geometry/symmetric_bilinear_form.hpp"
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::geometry::_r3x3_matrix;
int main() {
  double const p[6][3] = {{1,2,3},{1,3,2},{2,1,3},{2,3,1},{3,1,2},{3,2,1}};
  for (auto& e : p) {
    SymmetricBilinearForm<double, W1, Vector> const f(R3x3Matrix<double>::DiagonalMatrix({e[0], e[1], e[2]}));
    auto const d = f.Diagonalize<W2>();
    auto const& m = d.form.coordinates();
    EXPECT(m(0, 0) == 1 && m(1, 1) == 2 && m(2, 2) == 3);
  }
}
''')
seed(id='C07-spherical-pole', prop='C07', edits=[('geometry/r3_element_body.hpp',
  'XX', 'YY')], needs='', breaks='', demo='')
SEEDS.pop()
SMALL = r'''
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "vc_check_failed.h"
extern "C" double cr_sin(double x) { return std::sin(x); }
extern "C" double cr_cos(double x) { return std::cos(x); }
#define EXPECT(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\n", #__VA_ARGS__); return 1; } } while (0)
template<typename F> bool dies(F f) { std::fflush(stdout); int const p = fork(); if (p == 0) { f(); _exit(0); } int s; waitpid(p, &s, 0); return s != 0; }
'''
seed(id='C01-overlap', prop='C01', edits=[('base/hexadecimal_body.hpp', 'CHECK(static_cast<void*>(output.data) <= &input.data[1] ||', 'CHECK(static_cast<void*>(output.data) <= &input.data[3] ||')],
  needs='decoding in place into an output that starts two or three characters after the input',
  breaks='the overlap is accepted and part of the input is overwritten before it is read',
  demo=SMALL + r'''
#include "base/hexadecimal.hpp"
using namespace principia::base::_array; using namespace principia::base::_hexadecimal;
int main() {
  for (int k : {0, 1, 2, 3, 4}) {
    char t[32] = "0123456789ABCDEF";
    auto f = [&] { HexadecimalEncoder<false>().Decode(Array<char const>(t, 16), Array<std::uint8_t>((std::uint8_t*)t + k, 8)); };
    if (!dies(f)) { f(); EXPECT(std::memcmp(t + k, "\x01\x23\x45\x67\x89\xab\xcd\xef", 8) == 0); } else EXPECT(k > 1);
  }
}
''')
seed(id='C02-final-bit', prop='C02', edits=[('base/base32768_body.hpp', '      if (input_bit_index > 0) {\n        // Switch', '      if (input_bit_index > 1) {\n        // Switch')],
  needs='inputs whose length is 14 modulo 15, for which exactly 7 bits remain',
  breaks='the last 7 bits are written with the 15-bit repertoire, so that decoding yields one more byte',
  demo=SMALL + r'''
#include "base/base32768.hpp"
using namespace principia::base::_array; using namespace principia::base::_base32768;
int main() {
  for (int n = 1; n < 40; ++n) {
    std::vector<std::uint8_t> b(n); for (int i = 0; i < n; ++i) b[i] = 37 * i + n;
    auto const e = Base32768Encoder<false>().Encode(Array<std::uint8_t const>(b.data(), n));
    auto const d = Base32768Encoder<false>().Decode(Array<char16_t const>(e.data.get(), e.size));
    EXPECT(d.size == n && std::memcmp(d.data.get(), b.data(), n) == 0);
  }
}
''')
seed(id='C03-shallow-merge', prop='C03', edits=[('base/disjoint_sets_body.hpp', '    right_root->parent_ = left_root;\n    left_root->properties_->MergeWith(*right_root->properties_);\n    return Subset(left_root);\n  } else {',
  '    right_root->parent_ = left_root;\n    if (right_root->rank_ > 0) {\n      left_root->properties_->MergeWith(*right_root->properties_);\n    }\n    return Subset(left_root);\n  } else {')],
  needs='a singleton on the right united with a set of rank at least 1 on the left',
  breaks='the properties of the singleton are lost', demo=SMALL + r'''
#include "base/disjoint_sets.hpp"
using namespace principia::base::_disjoint_sets; using principia::base::_not_null::not_null;
struct P; struct Q { int sum = 0; Q() = default; explicit Q(int s) : sum(s) {} void MergeWith(Q const& o) { sum += o.sum; } };
namespace principia::base::_disjoint_sets::internal {}
struct E { int v; Subset<E>::Node* n; ~E(); E(int v); };
template<> class Subset<E>::Properties : public Q { public: using Q::Q; };
template<> not_null<Subset<E>::Node*> Subset<E>::Node::Get(E& e) { return e.n; }
E::E(int v) : v(v), n(new Subset<E>::Node) {} E::~E() { delete n; }
int main() {
  E a(1), b(2), c(4), d(8);
  for (E* e : {&a, &b, &c, &d}) Subset<E>::MakeSingleton(*e, e->v);
  Subset<E>::Unite(Subset<E>::Find(a), Subset<E>::Find(b));
  Subset<E>::Unite(Subset<E>::Find(c), Subset<E>::Find(a));
  Subset<E>::Unite(Subset<E>::Find(a), Subset<E>::Find(d));
  EXPECT(Subset<E>::Find(b).properties().sum == 15);
}
''')
seed(id='C05-saturation', prop='C05', edits=[('numerics/ulp_distance_body.hpp', '    if (positive_distance >\n            std::numeric_limits<std::int64_t>::max() - negative_distance) {', '    if (positive_distance > std::numeric_limits<std::int64_t>::max() / 2 &&\n        negative_distance > std::numeric_limits<std::int64_t>::max() / 2) {')],
  needs='numbers of opposite signs, one of them below 2 in magnitude and the other a large NaN or infinity, whose distance exceeds the greatest integer',
  breaks='the distance overflows instead of being saturated', demo=SMALL + r'''
#include "numerics/ulp_distance.hpp"
using namespace principia::numerics::_ulp_distance;
int main() {
  double const x = 1.5, y = -std::numeric_limits<double>::infinity();
  double nan; std::uint64_t b = 0xffffffffffffffff; std::memcpy(&nan, &b, 8);
  EXPECT(ULPDistance(1.0, -1.0) == 2 * 0x3ff0000000000000);
  EXPECT(ULPDistance(x, y) == std::numeric_limits<std::int64_t>::max());
  EXPECT(ULPDistance(y, x) == std::numeric_limits<std::int64_t>::max());
  EXPECT(ULPDistance(1e300, -1e300) == std::numeric_limits<std::int64_t>::max());
}
''')
seed(id='C12-integrate-odd', prop='C12', edits=[('numerics/polynomial_in_monomial_basis_body.hpp', '  return _quadrature::GaussLegendre<(degree_ + 2) / 2>(*this,', '  return _quadrature::GaussLegendre<(degree_ + 1) / 2 + (degree_ < 2)>(*this,')],
  needs='the integral of a polynomial of even degree at least 2',
  breaks='the quadrature lacks one point and the integral is inexact', demo=COMMON + r'''
#include "numerics/polynomial_in_monomial_basis.hpp"
using namespace principia::numerics::_polynomial_in_monomial_basis;
template<int n> bool right() {
  typename PolynomialInMonomialBasis<double, double, n>::Coefficients c{}; get<n>(c) = 1;
  PolynomialInMonomialBasis<double, double, n> const p(c, 0.0);
  return near(p.Integrate(0, 1), 1.0 / (n + 1));
}
int main() { EXPECT(right<0>()); EXPECT(right<1>()); EXPECT(right<2>()); EXPECT(right<3>()); EXPECT(right<4>()); EXPECT(right<5>()); }
''')
seed(id='C13-degree-two', prop='C13', edits=[('numerics/polynomial_in_чебышёв_basis_body.hpp', '    for (int k = degree_ - 1; k >= 1; --k) {\n', '    for (int k = degree_ - 1; k >= 1 + (degree_ == 2); --k) {\n')],
  needs='the derivative of a series of degree exactly 2',
  breaks='the term of degree 2 is missing from the derivative', demo=COMMON + r'''
#include "numerics/polynomial_in_чебышёв_basis.hpp"
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
template<int n> bool right() {
  typename PolynomialInЧебышёвBasis<double, double, n>::Coefficients c{}; c[n] = 1;
  PolynomialInЧебышёвBasis<double, double, n> const p(c, -1.0, 1.0);
  double const θ = 0.7;
  return near(p.EvaluateDerivative(std::cos(θ)), n * std::sin(n * θ) / std::sin(θ));
}
int main() { EXPECT(right<0>()); EXPECT(right<1>()); EXPECT(right<2>()); EXPECT(right<3>()); EXPECT(right<4>()); EXPECT(right<5>()); }
''', pbs='ALL')
seed(id='C14-quadratic-order', prop='C14', edits=[('numerics/root_finders_body.hpp', '    if (x₁ < x₂) {\n      return {x₁, x₂};', '    if (numerator < zero) {\n      return {x₁, x₂};')],
  needs='a negative leading coefficient',
  breaks='the roots are returned in decreasing order', demo=COMMON + r'''
#include "numerics/root_finders.hpp"
using namespace principia::numerics::_root_finders;
int main() {
  for (double a : {-3.0, -1.0, 0.5, 2.0}) for (double b : {-2.0, 1.0, 5.0}) for (double k : {-1.0, 2.0}) {
    auto const r = SolveQuadraticEquation(0.0, k * a * b, -k * (a + b), k);
    EXPECT(r.size() == 2);
    EXPECT(near(*r.begin(), std::min(a, b))); EXPECT(near(*(r.begin() + 1), std::max(a, b)));
  }
}
''')
seed(id='C31-leap-day', prop='C31', edits=[('astronomy/time_scales_body.hpp', 'IsValidPositiveStretchyUTCLeap(utc, "1965-09-01"_Date, 100)', 'IsValidPositiveStretchyUTCLeap(utc, "1965-10-01"_Date, 100)')],
  needs='the leap of 100 ms of 1965-08-31', breaks='23:59:60 UTC is rejected on 1965-08-31, and accepted on 1965-09-30', demo=COMMON + r'''
#include <sys/wait.h>
#include <unistd.h>
#include "astronomy/time_scales.hpp"
using namespace principia::astronomy::_date_time; using namespace principia::astronomy::_time_scales;
template<typename F> bool dies(F f) { std::fflush(stdout); int const p = fork(); if (p == 0) { f(); _exit(0); } int s; waitpid(p, &s, 0); return s != 0; }
bool leap(char const* s) { return !dies([&] { operator""_UTC(s, 23); }); }
int main() {
  EXPECT(leap("1965-08-31T23:59:60,050")); EXPECT(!leap("1965-08-31T23:59:60,150")); EXPECT(!leap("1965-09-30T23:59:60,050")); EXPECT(leap("1965-06-30T23:59:60,050"));
}
''')
seed(id='C36-lost-input', prop='C36', edits=[('base/recurring_thread_body.hpp', '''      // No input, let's wait for it to appear.
      return absl::OkStatus();
    }
    std::swap(input, input_);
  }
  RETURN_IF_STOPPED;

  absl::StatusOr<Output> status_or_output = action_(input.value());
''', '''      // No input, let's wait for it to appear.
      return absl::OkStatus();
    }
    input = input_;
  }
  RETURN_IF_STOPPED;

  absl::StatusOr<Output> status_or_output = action_(input.value());
  {
    absl::MutexLock l(&input_output_lock_);
    input_.reset();
  }
''')],
  needs='an input put while the action is running on the previous one', breaks='that input is lost', demo=SMALL + r'''
#include <atomic>
#include <thread>
#include "base/recurring_thread.hpp"
using namespace principia::base::_recurring_thread;
int main() {
  std::atomic<int> step{0};
  RecurringThread<int, int> t([&](int i) -> absl::StatusOr<int> {
    if (i == 1) { step = 1; for (int k = 0; k < 2000 && step == 1; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    return 10 * i; }, std::chrono::milliseconds(1));
  t.Start(); t.Put(1);
  for (int k = 0; k < 5000 && step == 0; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  t.Put(2); step = 2;
  bool seen = false;
  for (int k = 0; k < 3000 && !seen; ++k) { auto const o = t.Get(); seen = o.has_value() && *o == 20; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  t.Stop();
  EXPECT(seen);
}
''')
seed(id='C36-try-add', prop='C36', edits=[('base/thread_pool_body.hpp', '''    // able to schedule the call without blocking.
    std::int64_t const idle_threads = threads_.size() - busy_threads_;
''', '''    // able to schedule the call without blocking.
''')],
  needs='another thread that queues a call or becomes busy between the shared and the exclusive sections of TryAdd',
  breaks='TryAdd decides from the stale number of idle threads and queues a call that no idle thread can take', demo=SMALL + r'''
#include <atomic>
#include <thread>
#include <chrono>
#include <future>
#include "base/thread_pool.hpp"
using namespace principia::base::_thread_pool;
// Two threads compete for the only thread of the pool; a call that TryAdd accepts must not wait for another one that
// was accepted before.
int main() {
  for (int i = 0; i < 3000; ++i) {
    ThreadPool<void> pool(1);
    std::atomic<int> ready{0}, accepted{0}; std::atomic<bool> release{false};
    auto work = [&] { ++ready; while (ready < 8) {} if (pool.TryAdd([&] { while (!release) std::this_thread::yield(); }).has_value()) ++accepted; };
    std::vector<std::thread> v; for (int k = 0; k < 8; ++k) v.emplace_back(work);
    for (auto& t : v) t.join();
    int const n = accepted; release = true;
    EXPECT(n <= 1);
  }
}
''')
seed(id='C37-empty-chunk', prop='C37', edits=[('base/push_deserializer_body.hpp', '      is_last = current.size <= queued_chunk_size;\n', '      is_last = current.size < queued_chunk_size ||\n                (current.size == queued_chunk_size && bytes.size == current.size);\n')],
  needs='a block whose size is a multiple, at least 2, of the chunk size',
  breaks='an empty chunk follows it, which ends the deserialization early', demo=SMALL + r'''
#include <thread>
#include "base/push_deserializer.hpp"
#include "serialization/physics.pb.h"
using namespace principia::base::_array; using namespace principia::base::_push_deserializer;
int main() {
  PushDeserializer d(/*chunk_size=*/8, /*number_of_chunks=*/10, nullptr);
  std::vector<std::uint8_t> bytes(16, 1); int calls = 0;
  d.Push(Array<std::uint8_t>(bytes.data(), 16), [&] { ++calls; });
  EXPECT(d.Pull().size == 8); EXPECT(calls == 0); EXPECT(d.Pull().size == 8); EXPECT(calls == 0);
  d.Push(Array<std::uint8_t>(bytes.data(), 8), nullptr);
  EXPECT(d.Pull().size == 8); EXPECT(calls == 1);
}
''', pbs='ALL')
seed(id='C39-unwind', prop='C39', edits=[('numerics/elementary_functions_body.hpp', '  return α + std::nearbyint((previous_angle - α) / (2 * π * Radian)) *', '  return α + std::trunc((previous_angle - α) / (2 * π * Radian) + 0.5) *')],
  needs='an angle more than a turn and a half ahead of the previous one', breaks='UnwindFrom returns an angle more than half a turn away', demo=COMMON + r'''
#include "numerics/elementary_functions.hpp"
using namespace principia::numerics::_elementary_functions;
int main() {
  for (double p : {-20.0, -1.0, 0.0, 3.0, 50.0}) for (double a = -30; a < 30; a += 0.7) {
    double const r = UnwindFrom(p * Radian, a * Radian) / Radian;
    EXPECT(std::abs(r - p) <= M_PI + 1e-9); EXPECT(near(std::sin(r), std::sin(a)));
  }
}
''')
seed(id='C43-array-end', prop='C43', edits=[('base/array_body.hpp', '  return data_.rend() - size_;\n', '  return data_.rbegin() + (max_size - size_) / 2 * 2;\n')],
  needs='reverse iteration over a bounded array with an odd number of free elements', breaks='the reverse iteration starts on an element that was not pushed', demo=SMALL + r'''
#include "base/array.hpp"
using namespace principia::base::_array;
int main() {
  for (int n = 0; n <= 4; ++n) {
    BoundedArray<int, 4> a; for (int i = 0; i < n; ++i) a.push_back(i + 1);
    int k = n; for (auto it = a.rbegin(); it != a.rend(); ++it) { EXPECT(*it == k); --k; } EXPECT(k == 0);
  }
}
''')
seed(id='C04-mod-negative-divisor', prop='C04', edits=[('base/mod.hpp', '  return ((dividend % divisor) + divisor) % divisor;', '  int const remainder = dividend % divisor;\n  return remainder < 0 ? remainder + divisor : remainder;')],
  needs='a negative divisor', breaks='the result does not have the sign of the divisor', demo=SMALL + r'''
#include "base/mod.hpp"
using namespace principia::base::_mod;
int main() {
  for (int n = -20; n <= 20; ++n) for (int d : {-7, -2, 3, 10}) {
    int const r = mod(n, d);
    EXPECT((n - r) % d == 0); EXPECT(d > 0 ? r >= 0 && r < d : r <= 0 && r > d);
  }
}
''')
seed(id='C30-friday-years', prop='C30', edits=[('astronomy/date_time_body.hpp', '  return mod(2 - day_of_week_on_january_1st(year), 7, -2);', '  return mod(2 - day_of_week_on_january_1st(year), 7, -3);')],
  needs='a week date in a year that begins on a Friday', breaks='the week dates of these years are one week early', demo=COMMON + r'''
#include "astronomy/date_time.hpp"
using namespace principia::astronomy::_date_time;
int main() {
  int const y[] = {2007, 2008, 2009, 2010, 2011, 2012, 2016}, m[] = {1, 12, 12, 1, 1, 1, 1}, d[] = {1, 31, 29, 4, 3, 2, 4};
  for (int i = 0; i < 7; ++i) { Date const t = Date::Week(y[i], 1, 1); EXPECT(t.month() == m[i] && t.day() == d[i]); }
}
''')
