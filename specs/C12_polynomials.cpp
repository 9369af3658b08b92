// Polynomials in the monomial basis: contracts of the evaluators, operators, change of origin, derivative, primitive, composition.
#include "pr.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/quadrature.hpp"
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_fma;
using F = Frame<struct TA, Inertial>;
namespace {
template<typename V, typename A, int d, template<typename, typename, int> typename E> using Poly = PolynomialInMonomialBasis<V, A, d, E>;
template<typename P> struct Any;
template<typename V, typename A, int d, template<typename, typename, int> typename E> struct Any<Poly<V, A, d, E>> {
  static auto make(const char* n, A const& o) {
    typename Poly<V, A, d, E>::Coefficients c;
    fill<0>(c, n);
    return Poly<V, A, d, E>(c, o);
  }
  template<int i, typename C> static void fill(C& c, const char* n) {
    if constexpr (i <= d) {
      get1(get_<i>(c), pr::cat(n, i).s);
      fill<i + 1>(c, n);
    }
  }
  template<int i, typename C> static auto& get_(C& c) { return get<i>(c); }
  template<typename T> static void get1(T& t, const char* n) { t = pr::any<T>(n); }
};
template<int i, typename P> auto const& coef(P const& p) { return get<i>(p.coefficients()); }
template<int n, typename T> auto power(T const& x) {
  if constexpr (n == 0) return 1.0; else if constexpr (n == 1) return x; else return power<n - 1>(x) * x;
}
// Σ cᵢ hⁱ, Σ i cᵢ hⁱ⁻¹.
template<int i, typename P, typename H> auto value(P const& p, H const& h) {
  if constexpr (i == 0) { if constexpr (true) return coef<0>(p); }
  else return value<i - 1>(p, h) + coef<i>(p) * power<i>(h);
}
template<int i, typename P, typename H> auto slope(P const& p, H const& h) {
  if constexpr (i == 1) return coef<1>(p);
  else return slope<i - 1>(p, h) + coef<i>(p) * (double(i) * power<i - 1>(h));
}
template<typename V, typename A, int d, template<typename, typename, int> typename E> void evaluation() {
  ANYT(o, A); ANYT(x, A);
  auto const p = Any<Poly<V, A, d, E>>::make("c", o);
  auto const h = x - o;
  EQ(p(x), (value<d>(p, h)));
  Polynomial<V, A> const& virt = p;
  EQ(virt(x), p(x));
  ENSURE(p.degree() == d);
  if constexpr (d > 0) {
    EQ(p.EvaluateDerivative(x), (slope<d>(p, h)));
    EQ(virt.EvaluateDerivative(x), p.EvaluateDerivative(x));
    V v; Derivative<V, A> w;
    p.EvaluateWithDerivative(x, v, w);
    EQ(v, p(x)); EQ(w, p.EvaluateDerivative(x));
    virt.EvaluateWithDerivative(x, v, w);
    EQ(v, p(x)); EQ(w, p.EvaluateDerivative(x));
  }
  EQ(p.origin(), o);
}
template<template<typename, typename, int> typename E, int... d> void evaluations(std::integer_sequence<int, d...>) { (evaluation<double, double, d, E>(), ...); }
}
#define D(n) std::make_integer_sequence<int, n>()
R_SPEC(poly_estrin) { evaluations<Estrin>(D(12)); }
R_SPEC(poly_estrin_high) { evaluation<double, double, 15, Estrin>(); evaluation<double, double, 16, Estrin>(); evaluation<double, double, 17, Estrin>(); evaluation<double, double, 18, Estrin>(); }
R_SPEC(poly_estrin_no_fma) { evaluations<EstrinWithoutFMA>(D(10)); }
R_SPEC(poly_horner) { evaluations<Horner>(D(10)); }
R_SPEC(poly_horner_no_fma) { evaluations<HornerWithoutFMA>(D(10)); }
R_SPEC(poly_default) { evaluation<double, double, 3, DefaultEvaluator>(); evaluation<double, double, 4, DefaultEvaluator>(); }
R_SPEC(poly_quantity) { evaluation<Length, Time, 5, Estrin>(); evaluation<Length, Instant, 4, Horner>(); }
R_SPEC(poly_vector) { evaluation<Displacement<F>, Instant, 5, Estrin>(); evaluation<Displacement<F>, Instant, 4, Horner>(); }
R_SPEC(poly_position) { evaluation<Position<F>, Instant, 4, Estrin>(); evaluation<Position<F>, Instant, 3, Horner>(); }
// Algebra: the operators are characterized by the values of their results.
R_SPEC(poly_vector_space) {
  ANYT(o, Instant); ANYT(t, Instant); ANY(double, k); ANY(Time, τ);
  auto const p = Any<Poly<Length, Instant, 4, Estrin>>::make("p", o);
  auto const q = Any<Poly<Length, Instant, 2, Estrin>>::make("q", o);
  auto const r = Any<Poly<Length, Instant, 4, Estrin>>::make("r", o);
  EQ((p + q)(t), p(t) + q(t)); EQ((q + p)(t), p(t) + q(t)); EQ((p - q)(t), p(t) - q(t)); EQ((q - p)(t), q(t) - p(t));
  EQ((-p)(t), -p(t)); EQ((+p)(t), p(t));
  EQ((k * p)(t), k * p(t)); EQ((p * k)(t), k * p(t)); EQ((τ * p)(t), τ * p(t)); EQ((p * τ)(t), τ * p(t));
  auto s = p; s += r; EQ(s(t), p(t) + r(t)); s = p; s -= r; EQ(s(t), p(t) - r(t)); s = p; s *= k; EQ(s(t), k * p(t));
  ANYT(c, Length); EQ((p + c)(t), p(t) + c); EQ((c + p)(t), p(t) + c); EQ((p - c)(t), p(t) - c); EQ((c - p)(t), c - p(t));
  EQ((p + c).origin(), o); EQ((c - p).origin(), o); EQ((p * k).origin(), o); EQ((p - q).origin(), o); EQ((p + q).origin(), o);
  REQUIRE(k != 0); REQUIRE(τ != Time{});
  EQ((p / k)(t), p(t) / k); EQ((p / τ)(t), p(t) / τ); s = p; s /= k; EQ(s(t), p(t) / k);
}
R_SPEC(poly_product) {
  ANYT(o, Instant); ANYT(t, Instant);
  auto const p = Any<Poly<Length, Instant, 4, Estrin>>::make("p", o);
  auto const q = Any<Poly<Displacement<F>, Instant, 3, Estrin>>::make("q", o);
  auto const r = Any<Poly<Velocity<F>, Instant, 2, Estrin>>::make("r", o);
  EQ((p * q)(t), p(t) * q(t)); EQ((q * p)(t), p(t) * q(t));
  EQ(PointwiseInnerProduct(q, r)(t), InnerProduct(q(t), r(t))); EQ(PointwiseInnerProduct(r, q)(t), InnerProduct(q(t), r(t)));
  EQ((p * q).origin(), o); EQ(PointwiseInnerProduct(q, r).origin(), o);
}
R_SPEC(poly_affine) {
  ANYT(o, Instant); ANYT(t, Instant); ANYT(c, Position<F>);
  auto const p = Any<Poly<Position<F>, Instant, 4, Estrin>>::make("p", o);
  auto const s = Any<Poly<Position<F>, Instant, 2, Estrin>>::make("s", o);
  auto const q = Any<Poly<Displacement<F>, Instant, 3, Estrin>>::make("q", o);
  EQ((p + q)(t), p(t) + q(t)); EQ((q + p)(t), p(t) + q(t)); EQ((p - s)(t), p(t) - s(t)); EQ((s - p)(t), s(t) - p(t));
  EQ((p - c)(t), p(t) - c); EQ((c - p)(t), c - p(t)); EQ((q + c)(t), c + q(t)); EQ((c + q)(t), c + q(t));
}
R_SPEC(poly_mismatched_origins) {
  ANYT(o, Instant); ANYT(u, Instant);
  auto const p = Any<Poly<Length, Instant, 2, Estrin>>::make("p", o);
  auto const q = Any<Poly<Length, Instant, 2, Estrin>>::make("q", u);
  vc_may_abort(1);
  auto const s = p + q;
  vc_may_abort(0);
  ENSURE((o == u));
}
R_SPEC(poly_calculus) {
  ANYT(o, Instant); ANYT(u, Instant); ANYT(t, Instant);
  auto const p = Any<Poly<Length, Instant, 5, Estrin>>::make("p", o);
  EQ(p.AtOrigin(u)(t), p(t)); EQ(p.AtOrigin(u).origin(), u);
  EQ(p.Derivative()(t), p.EvaluateDerivative(t)); EQ(p.Derivative().origin(), o);
  EQ(p.Derivative<1>()(t), p.Derivative()(t)); EQ(p.Derivative<2>()(t), p.Derivative().Derivative()(t));
  EQ(p.Derivative<3>()(t), p.Derivative<2>().Derivative()(t)); EQ(p.Derivative<5>()(t), p.Derivative<3>().Derivative<2>()(t));
  EQ(p.Primitive().Derivative()(t), p(t)); EQ(p.Primitive()(o), Length{} * Time{});
  EQ(p.Primitive().origin(), o);
  EQ((static_cast<Poly<Length, Instant, 8, Estrin>>(p))(t), p(t)); EQ((static_cast<Poly<Length, Instant, 5, Horner>>(p))(t), p(t));
  EQ((static_cast<Poly<Length, Instant, 5, Horner>>(p)).origin(), o); EQ((static_cast<Poly<Length, Instant, 8, Estrin>>(p)).origin(), o);
}
R_SPEC(poly_zero) {
  ANYT(o, Instant);
  auto const p = Any<Poly<Length, Instant, 3, Estrin>>::make("p", o);
  bool const z = coef<0>(p) == Length{} && coef<1>(p) == Speed{} && coef<2>(p) == Acceleration{} && coef<3>(p) == Jerk{};
  ENSURE(p.is_zero() == z);
  ENSURE((p == p)); ENSURE((Poly<Length, Time, 3, Estrin>().is_zero()));
}
namespace {
template<int d> void integrates(const char* n) {
  ANYT(a, Instant); ANYT(o, Instant); auto const h = pr::any<Time>(pr::cat("h", d).s);
  Instant const b = a + 2 * h;
  auto const p = Any<Poly<Length, Instant, d, Estrin>>::make(n, o);
  EQ(p.Integrate(a, b), p.Primitive()(b) - p.Primitive()(a));
}
}
R_SPEC(poly_integrate) {
  integrates<0>("p0"); integrates<1>("p1"); integrates<2>("p2"); integrates<3>("p3"); integrates<4>("p4"); integrates<5>("p5"); integrates<6>("p6"); integrates<7>("p7");
  ANYT(a, Instant); ANYT(b, Instant); ANYT(o, Instant);
  auto const p = Any<Poly<Displacement<F>, Instant, 2, Horner>>::make("p", o); EQ(p.Integrate(a, b), p.Primitive()(b) - p.Primitive()(a));
}
R_SPEC(poly_compose) {
  ANYT(o, Instant); ANYT(t, Instant); ANYT(u, Length);
  auto const p = Any<Poly<Displacement<F>, Length, 4, Estrin>>::make("p", u);
  auto const q = Any<Poly<Length, Instant, 2, Estrin>>::make("q", o);
  EQ(Compose(p, q)(t), p(q(t))); EQ(Compose(p, q).origin(), o);
}
R_SPEC(poly_compose_instant) {
  ANYT(o, Instant); ANYT(t, Instant); ANYT(u, Instant);
  auto const p = Any<Poly<Length, Instant, 3, Estrin>>::make("p", u);
  auto const q = Any<Poly<Instant, Instant, 3, Estrin>>::make("q", o);
  EQ(Compose(p, q)(t), p(q(t)));
}
