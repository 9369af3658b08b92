// Double-word arithmetic in real arithmetic: the error-free transformations are replaced with their contract (the error is what the
// value, arbitrary, is missing), so that an operator which loses or duplicates an error term is caught whatever its algorithm.
// pv-assume: in C06_operators.cpp, TwoSum, TwoDifference, QuickTwoSum, QuickTwoDifference and TwoProduct on doubles and lengths are contracts (discharged in C06_double_precision.cpp); the magnitudes required by QuickTwoSum are not checked
#include "pr.hpp"
#include "numerics/double_precision.hpp"
using namespace principia::numerics::_double_precision;
using namespace principia::numerics::_fma;
namespace principia::numerics::_double_precision::internal {
template<typename T> DoublePrecision<T> split_sum(const char* n, T const& exact, double a, double b) {
  DoublePrecision<T> r; double const args[] = {a, b}; double const v = vc_uf(n, 2, args);
  r.value = v * si::Unit<T>; r.error = exact - r.value; return r;
}
#define CONTRACTS(T, mag) \
  template<> constexpr DoublePrecision<T> TwoSum<T, T>(T const& a, T const& b) { return split_sum<T>("two_sum", a + b, mag(a), mag(b)); } \
  template<> constexpr DoublePrecision<T> TwoDifference<T, T>(T const& a, T const& b) { return split_sum<T>("two_difference", a - b, mag(a), mag(b)); } \
  template<> constexpr DoublePrecision<T> QuickTwoSum<T, T>(T const& a, T const& b) { return split_sum<T>("quick_two_sum", a + b, mag(a), mag(b)); } \
  template<> constexpr DoublePrecision<T> QuickTwoDifference<T, T>(T const& a, T const& b) { return split_sum<T>("quick_two_difference", a - b, mag(a), mag(b)); }
#define PRODUCT(T, U, magt, magu) \
  template<> DoublePrecision<Product<T, U>> TwoProduct<FMAPresence::Unknown, T, U>(T const& a, U const& b) { return split_sum<Product<T, U>>("two_product", a * b, magt(a), magu(b)); }
constexpr double id(double x) { return x; }
template<typename D> constexpr double mg(Quantity<D> const& q) { return q.magnitude_; }
CONTRACTS(double, id) CONTRACTS(Length, mg) CONTRACTS(Speed, mg)
PRODUCT(double, double, id, id) PRODUCT(Length, double, mg, id) PRODUCT(double, Length, id, mg) PRODUCT(Speed, Time, mg, mg) PRODUCT(Time, Speed, mg, mg)
}
namespace {
using DP = DoublePrecision<double>;
template<typename T> DoublePrecision<T> any(const char* n) {
  DoublePrecision<T> r; r.value = pr::any<T>(pr::cat(n, ".value").s); r.error = pr::any<T>(pr::cat(n, ".error").s); return r;
}
template<typename T> T total(DoublePrecision<T> const& x) { return x.value + x.error; }
}
R_SPEC(no_error_is_lost) {
  auto const x = any<double>("x"), y = any<double>("y"); ANY(double, a);
  auto const X = total(x), Y = total(y);
  EQ(total(x + y), X + Y); EQ(total(x + a), X + a); EQ(total(a + x), a + X);
  EQ(total(x - y), X - Y); EQ(total(x - a), X - a); EQ(total(a - x), a - X);
  EQ(total(x * a), X * a); EQ(total(a * x), a * X); EQ(total(x * y), X * Y);
  EQ(total(+x), X); EQ(total(-x), -X);
  { auto z = x; z += y; EQ(total(z), X + Y); } { auto z = x; z += a; EQ(total(z), X + a); }
  { auto z = x; z -= y; EQ(total(z), X - Y); } { auto z = x; z -= a; EQ(total(z), X - a); }
  { auto z = x; z.Increment(a); EQ(total(z), X + a); } { auto z = x; z.Decrement(a); EQ(total(z), X - a); }
  REQUIRE(a != 0); REQUIRE(y.value != 0); REQUIRE(Y != 0);
  EQ(total(x / a), X / a); EQ(total(a / y), a / Y); EQ(total(x / y), X / Y);
}
R_SPEC(no_error_is_lost_on_quantities) {
  auto const x = any<Length>("x"), y = any<Length>("y"); ANY(Length, l); ANY(Time, t); ANY(double, a);
  auto const X = total(x), Y = total(y);
  EQ(total(x + y), X + Y); EQ(total(x + l), X + l); EQ(total(l + x), l + X);
  EQ(total(x - y), X - Y); EQ(total(x - l), X - l); EQ(total(l - x), l - X);
  EQ(total(x * a), X * a); EQ(total(a * x), a * X);
  EQ(total(Scale(t, x)), t * X);
  REQUIRE(t.magnitude_ != 0);
  EQ(total(x / t), X / t);
}
// The integral part, towards zero, and the fractional part, whichever of the value and the error has the fractional point.
namespace {
void parts(DP const& x, double whole, double fraction) {
  EQ(total(Trunc(x)) + 2, whole + 2.); EQ(total(Frac(x)) + 2, fraction + 2.);
}
}
// pv-opt: vcR_trunc_frac timeout=3000
R_SPEC(trunc_frac) {
  DP x; double const n = std::floor(vc_real("n")), k = std::floor(vc_real("k")), f = vc_real("f"), g = vc_real("g");
  REQUIRE(n != 0); REQUIRE(f > 0 && f < 1); REQUIRE(g > 0 && g < 1);
  if (vc_fork(vc_bool("point in value"))) {
    double const e = vc_real("e"); REQUIRE(f + e > 0 && f + e < 1);
    x.value = n + f; x.error = e;
    if (vc_fork(x.value > 0.0)) parts(x, n, f + e); else parts(x, n + 1, f + e - 1);
  } else {
    bool const positive = vc_fork(n > 0);
    REQUIRE(positive ? n + k >= 0 : n + k < 0);
    x.value = n;
    if (vc_fork(vc_bool("point in error"))) { x.error = k + g; if (positive) parts(x, n + k, g); else parts(x, n + k + 1, g - 1); }
    else { x.error = k; parts(x, n + k, 0.0); }
  }
}
// Serialization.
