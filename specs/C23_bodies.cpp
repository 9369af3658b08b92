// Massive, rotating and oblate bodies.
#include "pr.hpp"
#include "stl.hpp"
#include "geometry/rotation.hpp"
#include "physics/massive_body.hpp"
#include "physics/massless_body.hpp"
#include "physics/rotating_body.hpp"
#include "physics/oblate_body.hpp"
#include "quantities/constants.hpp"
using namespace principia::geometry::_rotation;
using namespace principia::numerics::_elementary_functions;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_massless_body;
using namespace principia::physics::_rotating_body;
using namespace principia::physics::_oblate_body;
using I = Frame<struct TI, Inertial>; using Surface = Frame<struct TS, Arbitrary>; using Celestial = Frame<struct TC, NonRotating>;
namespace {
using RP = RotatingBody<I>::Parameters;
struct Given {
  Length a = pr::any<Length>("min"), b = pr::any<Length>("mean"), c = pr::any<Length>("max"), d = pr::any<Length>("atmosphere");
  Angle w0 = pr::any<Angle>("w0"), ra = pr::any<Angle>("ra"), dec = pr::any<Angle>("dec"); Instant t0 = pr::any<Instant>("t0"); AngularFrequency w = pr::any<AngularFrequency>("w");
  bool ocean = vc_bool("ocean");
  Given() { REQUIRE(w.magnitude_ != 0); }
  RP parameters() const { return RP(a, b, c, d, ocean, w0, t0, w, ra, dec); }
};
MassiveBody::Parameters massive() { ANY(GravitationalParameter, mu); REQUIRE(mu.magnitude_ != 0); return MassiveBody::Parameters(mu); }
}
R_SPEC(mass) {
  ANY(GravitationalParameter, mu); ANY(Mass, m); REQUIRE(mu.magnitude_ != 0); REQUIRE(m.magnitude_ != 0);
  MassiveBody const a{MassiveBody::Parameters(mu)}; MassiveBody const b{MassiveBody::Parameters(m)}; MassiveBody const c{MassiveBody::Parameters("c", mu)}; MassiveBody const d{MassiveBody::Parameters("d", m)};
  EQ(a.gravitational_parameter(), mu); EQ(a.mass() * principia::quantities::_constants::GravitationalConstant, mu); EQ(c.gravitational_parameter(), mu); EQ(c.mass(), a.mass());
  EQ(b.mass(), m); EQ(b.gravitational_parameter(), m * principia::quantities::_constants::GravitationalConstant); EQ(d.mass(), m); EQ(d.gravitational_parameter(), b.gravitational_parameter());
  ENSURE(c.name() == "c"); ENSURE(d.name() == "d"); ENSURE(a.name().empty());
  ENSURE(!a.is_massless()); ENSURE(!a.is_oblate()); ENSURE(MasslessBody().is_massless()); ENSURE(!MasslessBody().is_oblate());
  EQ(a.min_radius(), Length()); EQ(a.max_radius(), Length()); EQ(a.mean_radius(), Length());
}
R_SPEC(no_mass) { vc_may_abort(1); ANY(Mass, good); REQUIRE(good.magnitude_ > 0); EQ(MassiveBody::Parameters(good).mass_, good); if (vc_bool("accepted")) return; if (vc_bool("kind")) { MassiveBody::Parameters p{Mass()}; } else { MassiveBody::Parameters p{GravitationalParameter()}; } vc_unreachable("refused"); }
R_SPEC(no_rotation) { vc_may_abort(1); { Given const g; EQ(g.parameters().mean_radius_, g.b); if (vc_bool("accepted")) return; } ANY(Length, l); ANY(Angle, a); ANY(Instant, t); RP p(l, a, t, AngularFrequency(), a, a); vc_unreachable("refused"); }
R_SPEC(rotating_parameters) {
  Given const g; RotatingBody<I> const b(massive(), g.parameters());
  EQ(b.min_radius(), g.a); EQ(b.mean_radius(), g.b); EQ(b.max_radius(), g.c); EQ(b.atmosphere_depth(), g.d); ENSURE(b.has_ocean() == g.ocean);
  EQ(b.right_ascension_of_pole(), g.ra); EQ(b.declination_of_pole(), g.dec); EQ(b.angular_frequency(), g.w);
  ANY(Instant, t); EQ(b.AngleAt(t), g.w0 + g.w * (t - g.t0));
  ENSURE(!b.is_massless()); ENSURE(!b.is_oblate());
  RotatingBody<I> const c(massive(), RP(g.b, g.w0, g.t0, g.w, g.ra, g.dec));
  EQ(c.min_radius(), g.b); EQ(c.mean_radius(), g.b); EQ(c.max_radius(), g.b); EQ(c.atmosphere_depth(), Length()); ENSURE(c.has_ocean()); EQ(c.AngleAt(t), b.AngleAt(t));
}
namespace {
struct Axes { Vector<double, I> pole, node, eq; };
// The pole has the given right ascension and declination; the node is the intersection of the equators.
Axes axes(Given const& g) {
  double const ca = Cos(g.ra), sa = Sin(g.ra), cd = Cos(g.dec), sd = Sin(g.dec);
  return {Vector<double, I>({cd * ca, cd * sa, sd}), Vector<double, I>({-sa, ca, 0}), Vector<double, I>({sd * ca, sd * sa, -cd})};
}
}
R_SPEC(rotating_axes) {
  vc_flag("fold", 1);
  Given const g; RotatingBody<I> const b(massive(), g.parameters()); Axes const x = axes(g);
  Vector<double, I> const o({1, 1, 1});
  EQ(b.polar_axis() + o, x.pole + o); EQ(b.biequatorial() + o, x.node + o); EQ(b.equatorial() + o, x.eq + o);
  EQ(b.angular_velocity().coordinates(), x.pole.coordinates() * g.w);
}
R_SPEC(surface_frame) {
  vc_flag("fold", 1);
  Given const g; RotatingBody<I> const b(massive(), g.parameters()); Axes const x = axes(g);
  ANY(Instant, t); auto const r = b.FromSurfaceFrame<Surface>(t);
  auto const angle = g.w0 + g.w * (t - g.t0); double const c = Cos(angle), s = Sin(angle);
  Vector<double, I> const o({2, 2, 2});
  EQ(r(Vector<double, Surface>({0, 0, 1})) + o, x.pole + o);
  EQ(r(Vector<double, Surface>({1, 0, 0})) + o, x.node * c - x.eq * s + o);
  EQ(r(Vector<double, Surface>({0, 1, 0})) + o, -x.eq * c - x.node * s + o);
  ANYT(v, Vector<Length, Surface>); EQ(b.ToSurfaceFrame<Surface>(t)(r(v)), v);
}
R_SPEC(celestial_frame) {
  vc_flag("fold", 1);
  Given const g; RotatingBody<I> const b(massive(), g.parameters());
  auto const r = b.ToCelestialFrame<Celestial>();
  R3Element<double> const o(2, 2, 2);
  EQ(r(b.equatorial()).coordinates() + o, o + R3Element<double>(1, 0, 0)); EQ(r(b.biequatorial()).coordinates() + o, o + R3Element<double>(0, 1, 0)); EQ(r(b.polar_axis()).coordinates() + o, o + R3Element<double>(0, 0, 1));
}
R_SPEC(oblate) {
  Given const g; double const j2 = vc_real("j2"); ANY(Length, r); REQUIRE(j2 > 0);
  OblateBody<I> const b(massive(), g.parameters(), OblateBody<I>::Parameters(j2, r));
  EQ(b.j2(), j2); EQ(b.j2_over_μ(), j2 * r * r); EQ(b.reference_radius(), r); ENSURE(b.geopotential_degree() == 2); ENSURE(b.is_zonal()); ENSURE(b.is_oblate()); ENSURE(!b.is_massless());
  EQ(b.cos()(2, 0), -j2 / std::sqrt(5.0));
  for (int n = 0; n < 4; ++n) for (int m = 0; m <= n; ++m) { if (n != 2 || m != 0) { ENSURE(b.cos()(n, m) == 0); } ENSURE(b.sin()(n, m) == 0); }
  EQ(b.min_radius(), g.a); EQ(b.mean_radius(), g.b); EQ(b.max_radius(), g.c);
}
R_SPEC(oblate_refused) { vc_may_abort(1); { double const good = vc_real("good"); REQUIRE(good > 0); ENSURE_EQ(OblateBody<I>::Parameters(good, Metre).j2_, good); } if (vc_bool("accepted")) return; double const j2 = vc_real("j2"); ANY(Length, r); REQUIRE(!(j2 > 0)); OblateBody<I>::Parameters p(j2, r); vc_unreachable("refused"); }
