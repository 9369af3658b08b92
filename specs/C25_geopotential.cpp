// Geopotentials: the potential is the sum of the (damped) spherical harmonics, and the acceleration its gradient.
// The oracle is the recurrence of Cunningham in Cartesian coordinates, which shares nothing with the spherical form of the code.
// pv-assume: the sines and cosines of the doubles nearest to multiples of π / 2 are those of the multiples (exactly 0, 1 or -1)
// pv-opt: * timeout=10000
#include "pr.hpp"
#include "stl.hpp"
#include "physics/geopotential.hpp"
#include "physics/harmonic_damping.hpp"
#include "physics/oblate_body.hpp"
#include "numerics/legendre_normalization_factor.mathematica.h"
using namespace principia::numerics::_elementary_functions;
using namespace principia::numerics::_legendre_normalization_factor;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_rotating_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_geopotential;
using namespace principia::physics::_harmonic_damping;
using I = Frame<struct TI, Inertial>;
namespace {
double factor(int n, int m) {  // sqrt((2 - δ₀ₘ) (2 n + 1) (n - m)! / (n + m)!)
  double q = (m == 0 ? 1.0 : 2.0) * (2 * n + 1);
  for (int k = n - m + 1; k <= n + m; ++k) q /= k;
  return std::sqrt(q);
}
// A body whose polar axis is the z axis, and whose prime meridian is at an arbitrary angle.
struct World {
  double c, s;  // Cosine and sine of the latitude.
  double cl, sl;  // Of the longitude of the point, in the frame.
  Length r = pr::any<Length>("r"), ref = pr::any<Length>("ref");
  OblateBody<I> body;
  Displacement<I> d;
  static OblateBody<I>::Parameters oblate(int N, Length const& ref, bool zonal) {
    OblateBody<I>::Parameters p(ref); p.degree_ = N; p.is_zonal_ = zonal;
    for (int n = 2; n <= N; ++n) for (int m = 0; m <= (zonal ? 0 : n); ++m) {
      if (n == 2 && m == 1) continue;
      p.cos_(n, m) = vc_real(pr::cat("C", n, m).s); if (m > 0) p.sin_(n, m) = vc_real(pr::cat("S", n, m).s);
    }
    return p;
  }
  World(int N, bool zonal, Angle const& angle, AngularFrequency const& w)
    : body(MassiveBody::Parameters(GravitationalParameter(1)), RotatingBody<I>::Parameters(1 * Metre, angle, Instant(), w, -π / 2 * Radian, π / 2 * Radian), oblate(N, ref, zonal)) {
    c = vc_real("cosb"); s = vc_real("sinb"); cl = vc_real("cosl"); sl = vc_real("sinl");
    REQUIRE(c > 0); REQUIRE(c * c + s * s == 1); REQUIRE(cl * cl + sl * sl == 1); REQUIRE(r.magnitude_ > 0); REQUIRE(ref.magnitude_ > 0);
    d = Displacement<I>({r * c * cl, r * c * sl, r * s});
  }
};
// The geopotential, with given dampings.
struct Field { alignas(Geopotential<I>) unsigned char space[sizeof(Geopotential<I>)]; Geopotential<I>* g;
  Field(World const& w, int N) { g = reinterpret_cast<Geopotential<I>*>(space); new (const_cast<void*>(static_cast<void const*>(&g->body_))) principia::base::_not_null::not_null<OblateBody<I> const*>(&w.body); new (&g->degree_damping_) std::vector<HarmonicDamping>(N + 1); new (&g->sectoral_damping_) HarmonicDamping(); }
};
// Sums of the harmonics of the given degree and orders: potential and its gradient, in the axes of the surface.
struct Sum { double u, x, y, z; };
template<int N> struct Cunningham {
  double V[N + 2][N + 2], W[N + 2][N + 2], rho;
  Cunningham(double x, double y, double z, double r, double ref) : rho(ref) {
    double const k = ref / (r * r), q = ref * k;
    V[0][0] = ref / r; W[0][0] = 0;
    for (int m = 0; m <= N + 1; ++m) {
      if (m > 0) { V[m][m] = (2 * m - 1) * k * (x * V[m - 1][m - 1] - y * W[m - 1][m - 1]); W[m][m] = (2 * m - 1) * k * (x * W[m - 1][m - 1] + y * V[m - 1][m - 1]); }
      for (int n = m + 1; n <= N + 1; ++n) {
        V[n][m] = (2 * n - 1) * k * z * V[n - 1][m] / (n - m); W[n][m] = (2 * n - 1) * k * z * W[n - 1][m] / (n - m);
        if (n > m + 1) { V[n][m] -= (n + m - 1) * q * V[n - 2][m] / (n - m); W[n][m] -= (n + m - 1) * q * W[n - 2][m] / (n - m); }
      }
    }
  }
  void add(Sum& t, int n, int m, double C, double S) const {
    C *= LegendreNormalizationFactor(n, m); S *= LegendreNormalizationFactor(n, m);  // See the entry normalization.
    double const a = 1 / (rho * rho), f = (n - m + 2) * (n - m + 1);
    t.u -= (C * V[n][m] + S * W[n][m]) / rho;
    if (m == 0) { t.x -= a * C * V[n + 1][1]; t.y -= a * C * W[n + 1][1]; }
    else {
      t.x += a / 2 * (-C * V[n + 1][m + 1] - S * W[n + 1][m + 1] + f * (C * V[n + 1][m - 1] + S * W[n + 1][m - 1]));
      t.y += a / 2 * (-C * W[n + 1][m + 1] + S * V[n + 1][m + 1] + f * (-C * W[n + 1][m - 1] + S * V[n + 1][m - 1]));
    }
    t.z -= a * (n - m + 1) * (C * V[n + 1][m] + S * W[n + 1][m]);
  }
};
template<int N> void undamped(bool zonal, bool rotated) {
  vc_flag("fold", 2);
  auto const angle = rotated ? pr::any<Angle>("angle") : Angle();
  ANY(AngularFrequency, w); REQUIRE(w.magnitude_ != 0); Instant const t = rotated ? pr::any<Instant>("t") : Instant();
  World const world(N, zonal, angle, w); Field const f(world, N); auto const& b = world.body;
  auto const at = b.AngleAt(t); double const ca = rotated ? Cos(at) : 1, sa = rotated ? Sin(at) : 0;
  // Coordinates in the frame of the surface.
  double const x = pr::mag(world.d.coordinates().x), y = pr::mag(world.d.coordinates().y), z = pr::mag(world.d.coordinates().z), r = pr::mag(world.r);
  Cunningham<N> const h(zonal ? x : x * ca + y * sa, zonal ? y : y * ca - x * sa, z, r, pr::mag(world.ref));
  Sum e{};
  for (int n = 2; n <= N; ++n) for (int m = 0; m <= (zonal ? 0 : n); ++m) if (n != 2 || m != 1) h.add(e, n, m, b.cos()(n, m), b.sin()(n, m));
  auto const r2 = world.r * world.r; auto const r3 = 1 / (r2 * world.r);
  auto const a = f.g->GeneralSphericalHarmonicsAcceleration(t, world.d, world.r, r2, r3).coordinates();
  EQ(f.g->GeneralSphericalHarmonicsPotential(t, world.d, world.r, r2, r3).magnitude_, e.u);
  EQ(a.x.magnitude_, zonal ? e.x : e.x * ca - e.y * sa); EQ(a.y.magnitude_, zonal ? e.y : e.y * ca + e.x * sa); EQ(a.z.magnitude_, e.z);
}
}
F_SPEC(normalization) { for (int n = 0; n <= 50; ++n) for (int m = 0; m <= n; ++m) { double const q = LegendreNormalizationFactor(n, m) / factor(n, m); ENSURE(q > 1 - 1e-12 && q < 1 + 1e-12); } }
R_SPEC(zonal_2) { undamped<2>(true, false); }
R_SPEC(zonal_6) { undamped<6>(true, true); }
R_SPEC(general_2) { undamped<2>(false, true); }
R_SPEC(general_3) { undamped<3>(false, false); }
R_SPEC(general_5) { undamped<5>(false, false); }
R_SPEC(general_4) { undamped<4>(false, true); }
R_SPEC(general_8) { undamped<8>(false, false); }
// Any orientation of the pole, any position, with the classical expression of the second zonal harmonic.
R_SPEC(oblateness) {
  ANY(Angle, ra); ANY(Angle, dec); ANY(AngularFrequency, w); REQUIRE(w.magnitude_ != 0); ANYT(d, Displacement<I>); ANY(Length, r); ANY(Length, ref); double const j2 = vc_real("j2");
  REQUIRE(r.magnitude_ > 0); REQUIRE((r * r).magnitude_ == InnerProduct(d, d).magnitude_); REQUIRE(ref.magnitude_ > 0); REQUIRE(j2 > 0);
  OblateBody<I> const b(MassiveBody::Parameters(GravitationalParameter(1)), RotatingBody<I>::Parameters(1 * Metre, Angle(), Instant(), w, ra, dec), OblateBody<I>::Parameters(j2, ref));
  struct { alignas(Geopotential<I>) unsigned char space[sizeof(Geopotential<I>)]; } s; auto& g = *reinterpret_cast<Geopotential<I>*>(s.space);
  new (const_cast<void*>(static_cast<void const*>(&g.body_))) principia::base::_not_null::not_null<OblateBody<I> const*>(&b); new (&g.degree_damping_) std::vector<HarmonicDamping>(3); new (&g.sectoral_damping_) HarmonicDamping();
  auto const z = InnerProduct(d, b.polar_axis()); auto const r2 = r * r; auto const r3 = 1 / (r2 * r); auto const k = j2 * ref * ref / (r2 * r2 * r);
  ANY(Instant, t);
  REQUIRE(z.magnitude_ * z.magnitude_ < r2.magnitude_);  // Not on the axis.
  EQ(g.GeneralSphericalHarmonicsPotential(t, d, r, r2, r3), k * (3 * z * z - r2) / 2);
  EQ(g.GeneralSphericalHarmonicsAcceleration(t, d, r, r2, r3), 1.5 * k * ((5 * z * z / r2 - 1) * d - 2 * z * b.polar_axis()));
}
// On the polar axis, longitude is irrelevant.
R_SPEC(pole) {
  vc_flag("fold", 2);
  ANY(AngularFrequency, w); REQUIRE(w.magnitude_ != 0);
  World world(4, true, Angle(), w); Field const f(world, 4); double const sign = vc_bool("south") ? -1 : 1;
  auto const r = world.r; Displacement<I> const d({Length(), Length(), sign * r}); auto const r2 = r * r; auto const r3 = 1 / (r2 * r);
  // The gradient is along the axis: the derivative of -sign ^ n √(2 n + 1) Cₙ refⁿ / r ^ (n + 1).
  double const R = world.ref.magnitude_, x = r.magnitude_; double u = 0, a = 0, p = R / (x * x);
  for (int n = 2; n <= 4; ++n) { p *= R / x; double const c = (n % 2 == 0 ? 1 : sign) * LegendreNormalizationFactor(n, 0) * world.body.cos()(n, 0) * p; u -= c; a -= (n + 1) * c / x; }
  EQ(f.g->GeneralSphericalHarmonicsPotential(Instant(), d, r, r2, r3).magnitude_, u);
  auto const c = f.g->GeneralSphericalHarmonicsAcceleration(Instant(), d, r, r2, r3).coordinates();
  EQ(c.x.magnitude_ + r.magnitude_, r.magnitude_); EQ(c.y.magnitude_ + r.magnitude_, r.magnitude_); EQ(c.z.magnitude_, sign * a);
}
// The damping factor: 1 below the inner threshold, 0 above three times that, a continuously differentiable cubic between.
namespace { double sigma(double r, double s) { double const x = r / s; return (x * x * x - 6 * x * x + 9 * x) / 4; } double dsigma(double r, double s) { double const x = r / s; return (3 * x * x - 12 * x + 9) / (4 * s); } }
R_SPEC(damping) {
  ANY(Length, s); ANY(Length, r); REQUIRE(s.magnitude_ > 0); REQUIRE(r.magnitude_ > 0); ANYT(q, Inverse<Square<Length>>); ANYT(dq, Inverse<Square<Length>>); ANYT(u, Vector<double, I>);
  HarmonicDamping const h(s); EQ(h.inner_threshold(), s); EQ(h.outer_threshold(), 3 * s);
  Inverse<Square<Length>> a, b; Vector<Inverse<Square<Length>>, I> g;
  h.ComputeDampedRadialQuantities(r, r * r, u, q, dq, a, g); h.ComputeDampedRadialQuantities(r, r * r, q, b);
  if (vc_fork(r <= s)) { EQ(a, q); EQ(b, q); EQ(g, dq * u); }
  else { double const k = sigma(r.magnitude_, s.magnitude_); EQ(a, q * k); EQ(b, q * k); EQ(g, (dq * k + q * (r.magnitude_ * dsigma(r.magnitude_, s.magnitude_))) * u); }
  double const m = s.magnitude_; EQ(sigma(m, m), 1.0); EQ(sigma(3 * m, m) + 1, 1.0); EQ(dsigma(m, m) * m + 1, 1.0); EQ(dsigma(3 * m, m) * m + 1, 1.0);
  HarmonicDamping const none; ENSURE(r < none.inner_threshold()); ENSURE(r < none.outer_threshold());
}
// With damping, the acceleration is still the gradient of the potential, and the harmonics vanish beyond their thresholds.
namespace {
void damped(int which) {
  vc_flag("fold", 2);
  ANY(AngularFrequency, w); REQUIRE(w.magnitude_ != 0);
  World world(3, false, Angle(), w); Field f(world, 3); auto const& b = world.body; double const r = world.r.magnitude_;
  double const s2 = vc_real("s2"), s3 = vc_real("s3"), ss = vc_real("ss"); REQUIRE(s3 > 0); REQUIRE(s2 >= ss); REQUIRE(ss >= s3);
  f.g->degree_damping_[2] = HarmonicDamping(s2 * Metre); f.g->degree_damping_[3] = HarmonicDamping(s3 * Metre); f.g->sectoral_damping_ = HarmonicDamping(ss * Metre);
  // Where the point is with respect to the thresholds.
  int const at2 = which / 9, ats = which / 3 % 3, at3 = which % 3;
  auto const place = [&](int k, double s) { if (k == 0) REQUIRE(r <= s); else if (k == 1) { REQUIRE(r > s); REQUIRE(r < 3 * s); } else REQUIRE(r > 3 * s); };
  place(at2, s2); place(ats, ss); place(at3, s3);
  double const x = pr::mag(world.d.coordinates().x), y = pr::mag(world.d.coordinates().y), z = pr::mag(world.d.coordinates().z);
  Cunningham<3> const h(x, y, z, r, pr::mag(world.ref));
  Sum e{};
  for (int n = 2; n <= 3; ++n) for (int m = 0; m <= n; ++m) {
    if (n == 2 && m == 1) continue;
    int const k = n == 3 ? at3 : m == 0 ? at2 : ats; double const s = n == 3 ? s3 : m == 0 ? s2 : ss;
    if (k == 2) continue;
    Sum t{}; h.add(t, n, m, b.cos()(n, m), b.sin()(n, m));
    double const g = k == 0 ? 1 : sigma(r, s), dg = k == 0 ? 0 : dsigma(r, s);
    e.u += g * t.u; e.x += g * t.x - dg * t.u * x / r; e.y += g * t.y - dg * t.u * y / r; e.z += g * t.z - dg * t.u * z / r;
  }
  auto const r2 = world.r * world.r; auto const r3 = 1 / (r2 * world.r);
  EQ(f.g->GeneralSphericalHarmonicsPotential(Instant(), world.d, world.r, r2, r3).magnitude_ + r, e.u + r);
  auto const a = f.g->GeneralSphericalHarmonicsAcceleration(Instant(), world.d, world.r, r2, r3).coordinates();
  EQ(a.x.magnitude_ + r, e.x + r); EQ(a.y.magnitude_ + r, e.y + r); EQ(a.z.magnitude_ + r, e.z + r);
}
}
R_SPEC(damped_degree_3) { damped(1); }
R_SPEC(damped_sectoral) { damped(5); }
R_SPEC(damped_sectoral_3) { damped(4); }
R_SPEC(damped_no_sectoral) { damped(8); }
R_SPEC(damped_all) { damped(13); }
R_SPEC(damped_degree_2) { damped(14); }
R_SPEC(damped_zonal_2) { damped(17); }
R_SPEC(damped_none) { damped(2); }
R_SPEC(damped_away) { damped(26); }
// The thresholds: where the bound of the harmonic equals the tolerance times the central force, made monotonic in the degree.
namespace {
using principia::numerics::_max_abs_normalized_associated_legendre_function::MaxAbsNormalizedAssociatedLegendreFunction;
Length threshold(OblateBody<I> const& b, int n, int m, double e) {
  double const C = b.cos()(n, m), S = b.sin()(n, m);
  n = static_cast<int>(vc_concretize(n));  // Opaque to the compiler, so that nothing is folded.
  return b.reference_radius() * Root(n, (MaxAbsNormalizedAssociatedLegendreFunction(n, m) * (n + 1) * Sqrt(C * C + S * S)) / e);
}
OblateBody<I> body(std::initializer_list<std::pair<int, int>> harmonics, int N) {
  ANY(AngularFrequency, w); REQUIRE(w.magnitude_ != 0); ANY(Length, ref); REQUIRE(ref.magnitude_ > 0);
  OblateBody<I>::Parameters p(ref); p.degree_ = N; p.is_zonal_ = false;
  for (auto const& [n, m] : harmonics) { p.cos_(n, m) = vc_real(pr::cat("C", n, m).s); REQUIRE(p.cos_(n, m) != 0); if (m > 0) p.sin_(n, m) = vc_real(pr::cat("S", n, m).s); }
  return OblateBody<I>(MassiveBody::Parameters(GravitationalParameter(1)), RotatingBody<I>::Parameters(1 * Metre, Angle(), Instant(), w, Angle(), Angle()), p);
}
}
namespace { void less(Length const& a, Length const& b) { REQUIRE(a < b); REQUIRE(!(b < a)); REQUIRE(!(a == b)); REQUIRE(!(b == a)); } }
namespace {
void thresholds_2(bool swap) {
  auto const b = body({{2, 0}, {2, 2}}, 2); double const e = vc_real("e"); REQUIRE(e > 0);
  auto const t0 = threshold(b, 2, 0, e), t2 = threshold(b, 2, 2, e); Length const zero{}; less(zero, t0); less(zero, t2);
  if (swap) less(t2, t0); else less(t0, t2);
  Geopotential<I> const g(&b, e);
  ENSURE(g.degree_damping().size() == 3);
  EQ(g.degree_damping()[2].inner_threshold(), swap ? t0 : t2); EQ(g.sectoral_damping().inner_threshold(), t2);
  ANY(Length, r); ENSURE(r < g.degree_damping()[0].inner_threshold()); ENSURE(r < g.degree_damping()[1].inner_threshold());
}
// The harmonics (2, 0), (2, 2), (3, 1), (3, 3) in increasing order of thresholds.
void thresholds_3(std::initializer_list<int> order) {
  auto const b = body({{2, 0}, {2, 2}, {3, 1}, {3, 3}}, 3); double const e = vc_real("e"); REQUIRE(e > 0);
  Length const t[] = {threshold(b, 2, 0, e), threshold(b, 2, 2, e), threshold(b, 3, 1, e), threshold(b, 3, 3, e)}; Length const zero{};
  int rank[4], k = 0; for (int i : order) rank[i] = k++;
  for (int i = 0; i < 4; ++i) { less(zero, t[i]); for (int j = 0; j < 4; ++j) if (rank[i] < rank[j]) less(t[i], t[j]); }
  Geopotential<I> const g(&b, e);
  auto const greater = [&](int i, int j) { return rank[i] > rank[j] ? i : j; };
  int const t3 = greater(2, 3), s = greater(1, t3), t2 = greater(0, s);
  ENSURE(g.degree_damping().size() == 4);
  EQ(g.degree_damping()[3].inner_threshold(), t[t3]); EQ(g.sectoral_damping().inner_threshold(), t[s]); EQ(g.degree_damping()[2].inner_threshold(), t[t2]);
}
}
R_SPEC(thresholds_22) { thresholds_2(false); }
R_SPEC(thresholds_20) { thresholds_2(true); }
R_SPEC(thresholds_falling) { thresholds_3({2, 3, 1, 0}); }
R_SPEC(thresholds_rising) { thresholds_3({0, 1, 2, 3}); }
R_SPEC(thresholds_mixed) { thresholds_3({1, 3, 0, 2}); }
R_SPEC(thresholds_interleaved) { thresholds_3({3, 0, 2, 1}); }
R_SPEC(limiting_degree) {
  auto const b = body({{2, 0}}, 2); Geopotential<I> g(&b, 1.0); ANY(Length, r);
  double const s2 = vc_real("s2"), s3 = vc_real("s3"), s4 = vc_real("s4"); REQUIRE(s4 > 0); REQUIRE(s3 >= s4); REQUIRE(s2 >= s3);
  g.degree_damping_ = {HarmonicDamping(), HarmonicDamping(), HarmonicDamping(s2 * Metre), HarmonicDamping(s3 * Metre), HarmonicDamping(s4 * Metre)};
  int const n = g.LimitingDegree(r);  // One more than the highest degree that contributes.
  ENSURE(n == (r.magnitude_ < 3 * s4 ? 5 : r.magnitude_ < 3 * s3 ? 4 : r.magnitude_ < 3 * s2 ? 3 : 2));
}
