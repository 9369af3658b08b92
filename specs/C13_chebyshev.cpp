// Чебышёв series and Newhall approximations.
#include "pr.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/newhall.hpp"
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_newhall;
using F = Frame<struct TA, Inertial>;
namespace {
// The definition of the Чебышёв polynomials of both kinds.
template<int n> double T(double x) { if constexpr (n == 0) return 1; else if constexpr (n == 1) return x; else return 2 * x * T<n - 1>(x) - T<n - 2>(x); }
template<int n> double U(double x) { if constexpr (n == 0) return 1; else if constexpr (n == 1) return 2 * x; else return 2 * x * U<n - 1>(x) - U<n - 2>(x); }
template<int i, typename C> auto value(C const& c, double x) { if constexpr (i == 0) return c[0] * T<0>(x); else return value<i - 1>(c, x) + c[i] * T<i>(x); }
template<int i, typename C> auto slope(C const& c, double x) { if constexpr (i == 1) return c[1] * U<0>(x); else return slope<i - 1>(c, x) + c[i] * (i * U<i - 1>(x)); }
template<typename V, typename A, int d> auto make(A const& a, A const& b) {
  std::array<V, d + 1> c;
  for (int i = 0; i <= d; ++i) c[i] = pr::any<V>(pr::cat("c", i).s);
  return PolynomialInЧебышёвBasis<V, A, d>(c, a, b);
}
template<typename V, typename A, int d> void evaluation() {
  ANYT(a, A); ANYT(b, A); ANYT(t, A);
  REQUIRE(a < b);
  auto const p = make<V, A, d>(a, b);
  auto const& c = p.coefficients_;
  double const x = ((t - a) + (t - b)) / (b - a);
  EQ(p(t), (value<d>(c, x)));
  Polynomial<V, A> const& virt = p;
  EQ(virt(t), p(t));
  ENSURE(p.degree() == d); EQ(p.lower_bound(), a); EQ(p.upper_bound(), b);
  if constexpr (d > 0) {
    EQ(p.EvaluateDerivative(t), (slope<d>(c, x)) * (2 / (b - a)));
    EQ(virt.EvaluateDerivative(t), p.EvaluateDerivative(t));
    V v; Derivative<V, A> w;
    p.EvaluateWithDerivative(t, v, w); EQ(v, p(t)); EQ(w, p.EvaluateDerivative(t));
    virt.EvaluateWithDerivative(t, v, w); EQ(v, p(t)); EQ(w, p.EvaluateDerivative(t));
  }
}
template<int d, int i> void companion_row(auto const& A, auto const& c, double x, auto const& p) {
  double s = 0;
  double t[d] = {};
  [&]<int... k>(std::integer_sequence<int, k...>) { ((t[k] = T<k>(x)), ...); }(std::make_integer_sequence<int, d>());
  for (int k = 0; k < d; ++k) s += A(i, k) * t[k];
  // A is the matrix of the multiplication by x modulo p.
  EQ(s, x * t[i] - (i == d - 1 ? p / ((d == 1 ? 1 : 2) * c[d]) : 0));
  if constexpr (i > 0) companion_row<d, i - 1>(A, c, x, p);
}
template<int d> void companion() {
  ANYT(x, double);
  auto const p = make<double, double, d>(-1, 1);
  auto const& c = p.coefficients_;
  REQUIRE(c[d] != 0);
  auto const A = p.FrobeniusCompanionMatrix();
  companion_row<d, d - 1>(A, c, x, p(x));
}
template<int d> void roots() {
  ANYT(x, double); REQUIRE(-1 <= x); REQUIRE(x <= 1);
  auto const p = make<double, double, d>(-1, 1);
  ANYT(ε, double); REQUIRE(0 <= ε);
  // If x is a root of a function within ε of p, the test does not exclude roots.
  REQUIRE(p(x) <= ε); REQUIRE(-ε <= p(x));
  ENSURE(p.MayHaveRealRoots(ε));
}
template<typename V, int d> void newhall() {
  // The data come from an arbitrary polynomial of degree d on [-1, 1] in the Чебышёв basis, scaled to [a, b].
  ANYT(a, Instant); ANYT(h, Time); REQUIRE(h > Time{});
  Instant const b = a + 16 * h;
  auto const p = make<V, Instant, d>(a, b);
  std::vector<DirectSum<V, Variation<V>>> qv;
  for (int i = 0; i <= 8; ++i) { Instant const t = a + (2 * i) * h; qv.push_back({p(t), p.EvaluateDerivative(t)}); }
  V error;
  auto const q = NewhallApproximationInЧебышёвBasis<V, d>(qv, a, b, error);
  for (int i = 0; i <= d; ++i) vc_eq_tol(pr::mag(q.coefficients_[i]), pr::mag(p.coefficients_[i]), 1e-10, "Newhall reproduces the polynomials of its degree");
  EQ(q.lower_bound(), a); EQ(q.upper_bound(), b);
  EQ(error, q.coefficients_[d]);
  auto const m = NewhallApproximationInMonomialBasis<V, d, DefaultEvaluator>(qv, a, b, error);
  EQ(m.origin(), a + 8 * h);
  for (int i = 0; i <= 4; ++i) { Instant const t = a + (4 * i) * h; vc_eq_tol(pr::mag(m(t)), pr::mag(p(t)), 1e-9, "Newhall in the monomial basis reproduces the polynomials of its degree"); }
  EQ(error, q.coefficients_[d]);
}
template<typename V, int d> void newhall_bounds() {
  // Arbitrary data: the approximation interpolates the values and derivatives at both ends.
  ANYT(a, Instant); ANYT(h, Time); REQUIRE(h > Time{});
  Instant const b = a + 8 * h;
  std::vector<DirectSum<V, Variation<V>>> qv;
  for (int i = 0; i <= 8; ++i) qv.push_back({pr::any<V>(pr::cat("q", i).s), pr::any<Variation<V>>(pr::cat("v", i).s)});
  V error;
  auto const q = NewhallApproximationInЧебышёвBasis<V, d>(qv, a, b, error);
  vc_eq_tol(pr::mag(q(a)), pr::mag(get<0>(qv[0])), 1e-9, "value at lower bound"); vc_eq_tol(pr::mag(q(b)), pr::mag(get<0>(qv[8])), 1e-9, "value at upper bound");
  vc_eq_tol(pr::mag(q.EvaluateDerivative(a) * h), pr::mag(get<1>(qv[0]) * h), 1e-9, "derivative at lower bound");
  vc_eq_tol(pr::mag(q.EvaluateDerivative(b) * h), pr::mag(get<1>(qv[8]) * h), 1e-9, "derivative at upper bound");
  auto const m = NewhallApproximationInMonomialBasis<V, d, DefaultEvaluator>(qv, a, b, error);
  for (int i = 0; i <= 4; ++i) { Instant const t = a + (2 * i) * h; vc_eq_tol(pr::mag(m(t)), pr::mag(q(t)), 1e-9, "both bases yield the same approximation"); }
}
}
R_SPEC(chebyshev_low) { evaluation<double, double, 0>(); evaluation<double, double, 1>(); evaluation<double, double, 2>(); evaluation<double, double, 3>(); evaluation<double, double, 4>(); evaluation<double, double, 5>(); }
R_SPEC(chebyshev_high) { evaluation<double, double, 8>(); evaluation<double, double, 13>(); }
R_SPEC(chebyshev_vector) { evaluation<Displacement<F>, Instant, 4>(); }
R_SPEC(chebyshev_degree_0) { ANYT(a, Instant); ANYT(b, Instant); ANYT(t, Instant); REQUIRE(a < b); auto const p = make<Length, Instant, 0>(a, b); EQ(p.EvaluateDerivative(t), Speed{}); }
R_SPEC(chebyshev_companion) { companion<2>(); companion<3>(); companion<4>(); companion<5>(); companion<8>(); }
R_SPEC(chebyshev_companion_1) { companion<1>(); }
R_SPEC(chebyshev_may_have_roots) { roots<1>(); roots<2>(); }
R_SPEC(newhall_3_5) { newhall<Length, 3>(); newhall<Length, 4>(); newhall<Length, 5>(); }
R_SPEC(newhall_6_9) { newhall<Length, 6>(); newhall<Length, 7>(); newhall<Length, 8>(); newhall<Length, 9>(); }
R_SPEC(newhall_10_13) { newhall<Length, 10>(); newhall<Length, 11>(); newhall<Length, 12>(); newhall<Length, 13>(); }
R_SPEC(newhall_14_17) { newhall<Length, 14>(); newhall<Length, 15>(); newhall<Length, 16>(); newhall<Length, 17>(); }
R_SPEC(newhall_bounds) { newhall_bounds<Length, 3>(); newhall_bounds<Length, 8>(); newhall_bounds<Length, 17>(); }
