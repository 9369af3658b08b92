// Quadrature: contracts of numerics/quadrature.hpp on integrands with arbitrary coefficients.
// pv-assume: Sin and Cos (of the constants of the algorithms) are the mathematical functions, to 45 digits
#include "pr.hpp"
#include <optional>
#include <vector>
#include "numerics/quadrature.hpp"
using namespace principia::numerics::_elementary_functions;
using namespace principia::numerics::_quadrature;
using namespace principia::numerics::_quadrature::internal;
using F = Frame<struct TA, Inertial>;
namespace {
// An arbitrary polynomial of degree at most n in (t - a) / h, on [a, a + 2h], and its integral.
template<typename V> struct Integrand {
  int n; Instant a; Time h; V c[64];
  V operator()(Instant const& t) const { double const x = (t - a) / h; V r = c[n]; for (int i = n - 1; i >= 0; --i) r = r * x + c[i]; return r; }
  Product<V, Time> integral() const { Product<V, Time> r{}; double p = 2; for (int i = 0; i <= n; ++i) { r += c[i] * h * (p / (i + 1)); p *= 2; } return r; }
};
template<typename V> Integrand<V> any(int n) {
  Integrand<V> f; f.n = n; f.a = pr::any<Instant>("a"); f.h = pr::any<Time>("h"); REQUIRE(f.h.magnitude_ != 0);
  for (int i = 0; i <= n; ++i) f.c[i] = pr::any<V>(pr::cat("c", i).s);
  return f;
}
template<int points> void gauss() {
  auto const f = any<Length>(2 * points - 1);
  EQ(GaussLegendre<points>(f, f.a, f.a + 2 * f.h), f.integral());
}
template<int points> void clenshaw_curtis() {
  vc_flag("fold", 1);
  auto const f = any<Length>(points - 1);
  EQ(ClenshawCurtis<points>(f, f.a, f.a + 2 * f.h), f.integral());
}
}
R_SPEC(gauss_legendre_1) { gauss<1>(); gauss<2>(); gauss<3>(); gauss<4>(); }
R_SPEC(gauss_legendre_5) { gauss<5>(); gauss<6>(); }
R_SPEC(gauss_legendre_7) { gauss<7>(); }
R_SPEC(gauss_legendre_8) { gauss<8>(); gauss<9>(); }
R_SPEC(gauss_legendre_10) { gauss<10>(); }
R_SPEC(gauss_legendre_vectors) {
  auto const f = any<Velocity<F>>(5);
  EQ(GaussLegendre<3>(f, f.a, f.a + 2 * f.h), f.integral());
}
// The tables: the rule of n points integrates the Legendre polynomials of degree less than 2 n.
namespace {
template<int n> void table() {
  for (int k = 0; k < 2 * n; ++k) {
    double const s = GaussLegendre<n>([k](double const x) {
      double p = 1, q = x; if (k == 0) return p;
      for (int j = 2; j <= k; ++j) { double const r = ((2 * j - 1) * x * q - (j - 1) * p) / j; p = q; q = r; }
      return q;
    }, -1.0, 1.0);
    double const e = s - (k == 0 ? 2 : 0);
    ENSURE(e < 1e-12 && e > -1e-12);
  }
}
template<int n, int last> void tables() { table<n>(); if constexpr (n < last) tables<n + 1, last>(); }
}
F_SPEC(gauss_legendre_table_1) { tables<1, 15>(); }
F_SPEC(gauss_legendre_table_16) { tables<16, 25>(); }
F_SPEC(gauss_legendre_table_26) { tables<26, 32>(); }
F_SPEC(gauss_legendre_table_33) { tables<33, 38>(); }
F_SPEC(gauss_legendre_table_39) { tables<39, 43>(); }
F_SPEC(gauss_legendre_table_44) { tables<44, 47>(); }
F_SPEC(gauss_legendre_table_48) { tables<48, 50>(); }
R_SPEC(clenshaw_curtis_3) { clenshaw_curtis<3>(); clenshaw_curtis<5>(); }
R_SPEC(clenshaw_curtis_9) { clenshaw_curtis<9>(); }
R_SPEC(clenshaw_curtis_17) { clenshaw_curtis<17>(); }
R_SPEC(midpoint) {
  auto const f = any<Length>(1);
  EQ(Midpoint(f, f.a, f.a + 2 * f.h, 1), f.integral()); EQ(Midpoint(f, f.a, f.a + 2 * f.h, 2), f.integral()); EQ(Midpoint(f, f.a, f.a + 2 * f.h, 7), f.integral());
  // On an arbitrary function: the sum of the values at the middles times the step.
  auto const g = [](Time const& t) { double const args[] = {t / Second}; return vc_uf("g", 1, args) * Metre; };
  ANY(Time, u); ANY(Time, v);
  auto const h = (v - u) / 3;
  EQ(Midpoint(g, u, v, 3), (g(u + 0.5 * h) + g(u + 1.5 * h) + g(u + 2.5 * h)) * h);
}
R_SPEC(gauss_legendre_11) { gauss<11>(); gauss<12>(); gauss<13>(); }
R_SPEC(gauss_legendre_14) { gauss<14>(); gauss<15>(); gauss<16>(); }
R_SPEC(clenshaw_curtis_33) { clenshaw_curtis<33>(); }
R_SPEC(clenshaw_curtis_vectors) {
  vc_flag("fold", 1);
  auto const f = any<Velocity<F>>(8);
  EQ(ClenshawCurtis<9>(f, f.a, f.a + 2 * f.h), f.integral());
}
// The number of points doubles until two successive estimates agree, or the maximum number of points is reached.
namespace {
struct AnyFunction { Length operator()(Time const& t) const { double const args[] = {t / Second}; return vc_uf("f", 1, args) * Metre; } };
}
R_SPEC(automatic_clenshaw_curtis) {
  vc_flag("fold", 1);
  AnyFunction const f; ANY(Time, a); ANY(Time, b); ANY(double, e); REQUIRE(e >= 0);
  using I = Product<Length, Time>;
  I const i3 = ClenshawCurtis<3>(f, a, b), i5 = ClenshawCurtis<5>(f, a, b), i9 = ClenshawCurtis<9>(f, a, b), i17 = ClenshawCurtis<17>(f, a, b);
  EQ(AutomaticClenshawCurtis(f, a, b, std::nullopt, 5), i5); EQ(AutomaticClenshawCurtis(f, a, b, std::nullopt, 6), i9);
  EQ(AutomaticClenshawCurtis(f, a, b, std::nullopt, 9), i9); EQ(AutomaticClenshawCurtis<5>(f, a, b, std::nullopt, 17), i17);
  EQ(AutomaticClenshawCurtis(f, a, b, e, 5), i5);
  if (vc_fork(Abs(i3 - i5) > e * Abs(i5))) {
    EQ(AutomaticClenshawCurtis(f, a, b, e, 9), i9);
    if (vc_fork(Abs(i5 - i9) > e * Abs(i9))) EQ(AutomaticClenshawCurtis(f, a, b, e, 17), i17); else EQ(AutomaticClenshawCurtis(f, a, b, e, 17), i9);
  } else { EQ(AutomaticClenshawCurtis(f, a, b, e, 9), i5); EQ(AutomaticClenshawCurtis(f, a, b, e, 17), i5); }
}
R_SPEC(max_points_heuristics) {
  ANYT(w, AngularFrequency); ANY(Time, dt); REQUIRE(dt.magnitude_ >= 0); REQUIRE(w.magnitude_ >= 0); REQUIRE(dt.magnitude_ < 1000); REQUIRE(w.magnitude_ < 1000);
  ENSURE(!MaxPointsHeuristicsForAutomaticClenshawCurtis(AngularFrequency(), dt, 5, 7).has_value());
  REQUIRE(w.magnitude_ > 0);
  auto const n = MaxPointsHeuristicsForAutomaticClenshawCurtis(w, dt, 5, 7);
  ENSURE(n.has_value());
  double const p = 7 * dt.magnitude_ * w.magnitude_ / (2 * π);
  double const m = *n;
  ENSURE(m >= 5); ENSURE(m > 5 ? m <= p && p < m + 1 : p < 6);
}
