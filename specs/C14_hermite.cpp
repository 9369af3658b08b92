// Hermite interpolation and quadratic equations.
#include "pr.hpp"
#include "numerics/hermite2.hpp"
#include "numerics/hermite3.hpp"
#include "numerics/root_finders.hpp"
using namespace principia::numerics::_hermite2;
using namespace principia::numerics::_hermite3;
using namespace principia::numerics::_root_finders;
using namespace principia::base::_array;
using F = Frame<struct TA, Inertial>;
namespace {
template<typename V, typename A> void hermite3() {
  using D1 = Derivative<V, A>;
  ANYT(t1, A); ANYT(t2, A); ANYT(v1, V); ANYT(v2, V); ANYT(w1, D1); ANYT(w2, D1); ANYT(t, A);
  REQUIRE(t1 != t2);
  Hermite3<V, A> const h({t1, t2}, {v1, v2}, {w1, w2});
  EQ(h(t1), v1); EQ(h(t2), v2); EQ(h.EvaluateDerivative(t1), w1); EQ(h.EvaluateDerivative(t2), w2);
  // The cubic Hermite basis on [t1, t2]: for each t, the unique polynomial of degree 3.
  double const s = (t - t1) / (t2 - t1);
  auto const o = v1;
  EQ(h(t), o + ((3 - 2 * s) * s * s) * (v2 - o) + (s * (1 - s) * (1 - s)) * (w1 * (t2 - t1)) + (s * s * (s - 1)) * (w2 * (t2 - t1)));
  EQ(h.EvaluateDerivative(t), (6 * s * (1 - s)) * ((v2 - v1) / (t2 - t1)) + ((1 - s) * (1 - 3 * s)) * w1 + (s * (3 * s - 2)) * w2);
  V v; D1 w; h.EvaluateWithDerivative(t, v, w);
  EQ(v, h(t)); EQ(w, h.EvaluateDerivative(t));
}
}
R_SPEC(hermite3_double) { hermite3<double, double>(); }
R_SPEC(hermite3_displacement) { hermite3<Displacement<F>, Instant>(); }
R_SPEC(hermite3_position) { hermite3<Position<F>, Instant>(); }
R_SPEC(hermite3_same_point) {
  ANYT(t, Instant); ANYT(x, Position<F>); ANYT(v, Velocity<F>); ANYT(u, Instant);
  Hermite3<Position<F>, Instant> const h({t, t}, {x, x}, {v, v});
  EQ(h(u), x + v * (u - t)); EQ(h.EvaluateDerivative(u), v);
}
R_SPEC(hermite3_group) {
  ANYT(t1, Instant); ANYT(t2, Instant); ANYT(t3, Instant); ANYT(t, Instant);
  REQUIRE(t1 < t2); REQUIRE(t1 < t3);
  ANYT(a1, Displacement<F>); ANYT(a2, Displacement<F>); ANYT(va1, Velocity<F>); ANYT(va2, Velocity<F>);
  ANYT(b1, Displacement<F>); ANYT(b2, Displacement<F>); ANYT(vb1, Velocity<F>); ANYT(vb2, Velocity<F>);
  Hermite3<Displacement<F>, Instant> const a({t1, t2}, {a1, a2}, {va1, va2}), b({t1, t3}, {b1, b2}, {vb1, vb2});
  EQ((a + b)(t), a(t) + b(t)); EQ((a - b)(t), a(t) - b(t)); EQ((-a)(t), -a(t)); EQ((+a)(t), a(t));
  EQ((a + b).lower_, t1); EQ((a - b).lower_, t1); EQ((-a).upper_, t2);
  ENSURE(((a + b).upper_ == (t2 < t3 ? t2 : t3))); ENSURE(((a - b).upper_ == (t2 < t3 ? t2 : t3)));
}
R_SPEC(hermite3_extrema) {
  ANYT(t1, double); ANYT(t2, double); ANYT(v1, double); ANYT(v2, double); ANYT(w1, double); ANYT(w2, double); ANYT(t, double);
  REQUIRE(t1 < t2);
  Hermite3<double, double> const h({t1, t2}, {v1, v2}, {w1, w2});
  auto const& c = h.p_.coefficients();
  REQUIRE(get<3>(c) != 0);
  auto const extrema = h.FindExtrema();
  int n = 0;
  double last = 0;
  for (auto const e : extrema) {
    EQ(h.EvaluateDerivative(e), 0.0);
    ENSURE(t1 <= e && e <= t2);
    if (n > 0) ENSURE(last <= e);
    last = e; ++n;
  }
  ENSURE(n <= 2);
}
R_SPEC(hermite3_extrema_all) {
  ANYT(t1, double); ANYT(t2, double); ANYT(v1, double); ANYT(v2, double); ANYT(w1, double); ANYT(w2, double); ANYT(t, double);
  REQUIRE(t1 < t2);
  Hermite3<double, double> const h({t1, t2}, {v1, v2}, {w1, w2});
  auto const& c = h.p_.coefficients();
  REQUIRE(get<3>(c) != 0);
  REQUIRE(get<1>(c) + 2 * get<2>(c) * (t - t1) + 3 * get<3>(c) * ((t - t1) * (t - t1)) == 0); REQUIRE(t1 <= t); REQUIRE(t <= t2);
  bool found = false;
  for (auto const e : h.FindExtrema()) found = found || e == t;
  ENSURE(found);
}
R_SPEC(hermite3_errors) {
  ANYT(t1, Instant); ANYT(t2, Instant); ANYT(v1, Position<F>); ANYT(v2, Position<F>); ANYT(w1, Velocity<F>); ANYT(w2, Velocity<F>);
  REQUIRE(t1 < t2);
  Hermite3<Position<F>, Instant> const h({t1, t2}, {v1, v2}, {w1, w2});
  using Sample = std::pair<Instant, Position<F>>;
  std::vector<Sample> samples;
  for (int i = 0; i < 3; ++i) { ANYT(s, Instant); ANYT(x, Position<F>); samples.push_back({s, x}); }
  std::function<Instant const&(Sample const&)> const get_t = [](Sample const& s) -> Instant const& { return s.first; };
  std::function<Position<F> const&(Sample const&)> const get_x = [](Sample const& s) -> Position<F> const& { return s.second; };
  Length const e = h.LInfinityL₂Error(samples, get_t, get_x);
  bool attained = e == Length{}, bound = true, within = true;
  ANY(Length, tolerance);
  for (auto const& [s, x] : samples) {
    Length const d = (h(s) - x).Norm();
    bound = bound & (d <= e); attained = attained | (d == e); within = within & (d < tolerance);
  }
  ENSURE(bound); ENSURE(attained);
  ENSURE(h.LInfinityL₂ErrorIsWithin(samples, get_t, get_x, tolerance) == within);
}
// The L² norm of a cubic starting from 0 with derivative 0: at least the value at the end, and at every interior extremum.
R_SPEC(hermite3_norm_scalar) {
  ANY(double, c2); ANY(double, c3);
  using P3 = principia::numerics::_polynomial_in_monomial_basis::PolynomialInMonomialBasis<double, double, 3>;
  Hermite3<double, double> const h(0.0, 1.0, P3({0, 0, c2, c3}, 0.0));
  REQUIRE(c3 != 0);
  double const m = h.LInfinityL₂Norm();
  ENSURE(m * m >= (c2 + c3) * (c2 + c3));
  // The extremum of h is at -2 c2 / (3 c3).
  if (0 < -c2 / c3 && -c2 / c3 < 1.5) ENSURE(m * m >= (4 * c2 * c2 * c2 / (27 * c3 * c3)) * (4 * c2 * c2 * c2 / (27 * c3 * c3)));
}
// The unique polynomial of degree 2.
template<typename V, typename A> void hermite2() {
  using D1 = Derivative<V, A>;
  ANYT(t1, A); ANYT(t2, A); ANYT(v1, V); ANYT(v2, V); ANYT(w1, D1); ANYT(t, A);
  REQUIRE(t1 != t2);
  Hermite2<V, A> const h({t1, t2}, {v1, v2}, w1);
  EQ(h.Evaluate(t1), v1); EQ(h.Evaluate(t2), v2); EQ(h.EvaluateDerivative(t1), w1);
  double const s = (t - t1) / (t2 - t1);
  EQ(h.Evaluate(t), v1 + (s * s) * (v2 - v1) + (s * (1 - s)) * (w1 * (t2 - t1)));
  EQ(h.EvaluateDerivative(t), (2 * s) * ((v2 - v1) / (t2 - t1)) + (1 - 2 * s) * w1);
}
R_SPEC(hermite2_double) { hermite2<double, double>(); }
R_SPEC(hermite2_length) { hermite2<Length, Instant>();
  ANYT(t1, Instant); ANYT(t2, Instant); ANYT(v1, Length); ANYT(v2, Length); ANYT(w1, Speed);
  REQUIRE(t1 != t2); REQUIRE(v2 - v1 != w1 * (t2 - t1));
  Hermite2<Length, Instant> const h({t1, t2}, {v1, v2}, w1);
  EQ(h.EvaluateDerivative(h.FindExtremum()), Speed{});
}
R_SPEC(hermite2_same_point) {
  ANYT(t, Instant); ANYT(x, Length); ANYT(v, Speed); ANYT(u, Instant);
  Hermite2<Length, Instant> const h({t, t}, {x, x}, v);
  EQ(h.Evaluate(u), x + v * (u - t)); EQ(h.EvaluateDerivative(u), v);
}
R_SPEC(quadratic) {
  ANYT(o, Instant); ANYT(a0, Length); ANYT(a1, Speed); ANYT(a2, Acceleration); ANYT(t, Instant);
  REQUIRE(a2 != Acceleration{});
  auto const disc = a1 * a1 - 4 * a0 * a2;
  auto const roots = SolveQuadraticEquation<Instant, Length>(o, a0, a1, a2);
  ENSURE(roots.size() == (disc < decltype(disc){} ? 0 : disc == decltype(disc){} ? 1 : 2));
  for (auto const r : roots) EQ(a0 + a1 * (r - o) + a2 * ((r - o) * (r - o)), Length{});
  if (roots.size() == 2) ENSURE(roots.begin()[0] < roots.begin()[1]);
}
// The documented bound on ‖h‖₁ must take the bounds of the interval into account.
R_SPEC(hermite3_l1_bound_monotonic) {
  Hermite3<double, double> const h({0.0, 1.0}, {1.0, 3.0}, {2.0, 2.0});
  ENSURE(h.LInfinityL₁NormUpperBound() >= 3);
}
