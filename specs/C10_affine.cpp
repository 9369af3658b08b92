#include "pr.hpp"
#include "geometry/affine_map.hpp"
#include "geometry/barycentre_calculator.hpp"
#include "geometry/complexification.hpp"
#include "geometry/interval.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/identity.hpp"
#include "geometry/space_transformations.hpp"
#include "physics/degrees_of_freedom.hpp"
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_complexification;
using namespace principia::geometry::_interval;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using RA = Frame<struct TA, Inertial>; using RB = Frame<struct TB, Inertial>; using RC = Frame<struct TC, Inertial>;
using LA = Frame<struct TLA, Inertial, Handedness::Left>;
namespace {
Quaternion unit(const char* n) {
  Quaternion const q = pr::any<Quaternion>(n);
  vc_assume(q.real_part() * q.real_part() + Dot(q.imaginary_part(), q.imaginary_part()) == 1);
  return q;
}
}
template<typename P, typename V> void point_laws() {
  ANYT(p, P); ANYT(q, P); ANYT(r, P); ANYT(v, V); ANYT(w, V); ANY(double, k);
  EQ(p + (q - p), q); EQ((p - q) + (q - r), p - r); EQ((p + v) - p, v); EQ((p + v) + w, p + (v + w));
  EQ(v + p, p + v); EQ(p - v, p + (-v)); EQ(p - p, V{});
  P m = p; m += v; EQ(m, p + v); m -= w; EQ(m, p + (v - w));
  ENSURE((p == p)); ENSURE((p == q) == (p - q == V{})); ENSURE((p != q) == !(p == q));
  EQ(P{} + (p - P{}), p);
}
R_SPEC(point_position) { point_laws<Position<RA>, Displacement<RA>>(); }
R_SPEC(point_instant) { point_laws<Instant, Time>();
  ANY(Instant, p); ANY(Instant, q);
  ENSURE((p < q) == (p - q < Time{})); ENSURE((p > q) == (q < p)); ENSURE((p <= q) == !(p > q)); ENSURE((p >= q) == !(p < q)); }
template<typename M, typename A, typename F, typename T> void affine_laws(M const& m) {
  ANYT(o, Position<F>); ANYT(u, Position<T>); ANYT(p, Position<F>); ANYT(v, Displacement<F>); ANYT(q, Position<T>);
  A const a(o, u, m);
  EQ(a(o), u); EQ(a(p + v) - a(p), m(v)); EQ(a(p), u + m(p - o));
  EQ(a.Inverse()(a(p)), p); EQ(a(a.Inverse()(q)), q); EQ(a.linear_map()(v), m(v));
}
R_SPEC(affine_rotation) { auto const q = unit("q"); using A = AffineMap<RA, RB, Length, Rotation>; affine_laws<Rotation<RA, RB>, A, RA, RB>(Rotation<RA, RB>(q)); }
R_SPEC(affine_improper) { using A = AffineMap<RA, LA, Length, Signature>; affine_laws<Signature<RA, LA>, A, RA, LA>(Signature<RA, LA>::CentralInversion()); }
R_SPEC(affine_composition) {
  auto const q = unit("q"), r = unit("r");
  ANYT(o, Position<RA>); ANYT(u, Position<RB>); ANYT(o2, Position<RB>); ANYT(u2, Position<RC>); ANYT(p, Position<RA>);
  AffineMap<RA, RB, Length, Rotation> const a(o, u, Rotation<RA, RB>(q)); AffineMap<RB, RC, Length, Rotation> const b(o2, u2, Rotation<RB, RC>(r));
  EQ((b * a)(p), b(a(p))); EQ((b * a).Inverse()(b(a(p))), p);
  EQ((AffineMap<RA, RB, Length, Rotation>::Identity()(p)).coordinates_.coordinates(), p.coordinates_.coordinates());
}
// Barycentres: the calculator's invariant is (weighted_sum, weight) = (Σ wᵢ (pᵢ - reference), Σ wᵢ), for any number of points.
template<typename P, typename W> void barycentre_step() {
  using C = BarycentreCalculator<P, W>;
  ANYT(p, P); ANYT(w, W);
  { C c; c.Add(p, w); REQUIRE(w != W{}); EQ(c.weight(), w); EQ(c.Get(), p); }
  ANYT(s, decltype(p - p)); ANYT(tot, W);
  // An arbitrary nonempty state, with barycentre P{} + s.
  C c; c.empty_ = false; c.weighted_sum_ = s * tot; c.weight_ = tot;
  REQUIRE(tot != W{}); REQUIRE(tot + w != W{});
  EQ(c.Get(), P{} + s); EQ(c.weight(), tot);
  c.Add(p, w);
  EQ(c.weight(), tot + w); EQ(c.Get() - P{}, (s * tot + (p - P{}) * w) / (tot + w));
  EQ((c.Get() - (P{} + s)) * (tot + w), (p - (P{} + s)) * w);
}
R_SPEC(barycentre_positions) { barycentre_step<Position<RA>, Mass>(); }
R_SPEC(barycentre_velocities) { barycentre_step<Velocity<RA>, GravitationalParameter>(); }
R_SPEC(barycentre_instants) { barycentre_step<Instant, double>(); }
R_SPEC(barycentre_dof) { 
  using C = BarycentreCalculator<DegreesOfFreedom<RA>, Mass>;
  ANYT(p, Position<RA>); ANYT(v, Velocity<RA>); ANYT(q, Position<RA>); ANYT(u, Velocity<RA>); ANY(Mass, m); ANY(Mass, n); REQUIRE(m != Mass{}); REQUIRE(m + n != Mass{});
  C c; c.Add({p, v}, m); EQ(c.Get().position(), p); EQ(c.Get().velocity(), v); c.Add({q, u}, n); EQ(c.weight(), m + n);
  EQ((c.Get().position() - p) * (m + n), (q - p) * n); EQ((c.Get().velocity() - v) * (m + n), (u - v) * n);
}
R_SPEC(barycentre_functions) {
  ANYT(p, Position<RA>); ANYT(q, Position<RA>); ANYT(r, Position<RA>); ANY(double, a); ANY(double, b); ANY(double, c); REQUIRE(a + b + c != 0); ANY(Mass, m); ANY(Mass, n); REQUIRE(m + n != Mass{});
  EQ(Barycentre({p, q, r}) - p, ((q - p) + (r - p)) / 3);
  EQ((Barycentre({p, q, r}, {a, b, c}) - p) * (a + b + c), (q - p) * b + (r - p) * c);
  EQ((Barycentre({p, q}, {m, n}) - p) * (m + n), (q - p) * n);
  ANYT(v, Velocity<RA>); ANYT(w, Velocity<RA>); EQ(Barycentre({v, w}), (v + w) / 2); EQ(Barycentre({v, w}, {a, b + c}), (v * a + w * (b + c)) / (a + b + c));
}
// Direct sums: componentwise.
R_SPEC(direct_sum_vectors) {
  using D = DirectSum<Displacement<RA>, Velocity<RA>, Time>;
  ANYT(a, Displacement<RA>); ANYT(b, Velocity<RA>); ANY(Time, c); ANYT(a2, Displacement<RA>); ANYT(b2, Velocity<RA>); ANY(Time, c2); ANY(double, k); ANY(Mass, m); REQUIRE(k != 0);
  D const x(a, b, c), y(a2, b2, c2);
#define SAME(d, A, B, C) { auto const& dd = d; EQ(get<0>(dd), A); EQ(get<1>(dd), B); EQ(get<2>(dd), C); }
  SAME(x, a, b, c); SAME(x + y, a + a2, b + b2, c + c2); SAME(x - y, a - a2, b - b2, c - c2); SAME(-x, -a, -b, -c); SAME(+x, a, b, c);
  SAME(k * x, k * a, k * b, k * c); SAME(x * k, a * k, b * k, c * k); SAME(x / k, a / k, b / k, c / k); SAME(m * x, m * a, m * b, m * c);
  D z = x; z += y; SAME(z, a + a2, b + b2, c + c2); z -= x; SAME(z, a2, b2, c2); z *= k; SAME(z, k * a2, k * b2, k * c2); z /= k; SAME(z, a2, b2, c2);
  ENSURE((x == x)); ENSURE((x == y) == (a == a2 && b == b2 && c == c2)); SAME(D{}, Displacement<RA>{}, Velocity<RA>{}, Time{});
}
R_SPEC(direct_sum_norm) {
  using D = DirectSum<Displacement<RA>, Length>;
  ANYT(a, Displacement<RA>); ANY(Length, c); ANYT(a2, Displacement<RA>); ANY(Length, c2);
  D const x(a, c), y(a2, c2);
  EQ(InnerProduct(x, y), InnerProduct(a, a2) + c * c2); EQ(x.Norm²(), InnerProduct(x, x)); EQ(x.Norm() * x.Norm(), x.Norm²()); ENSURE(x.Norm() >= Length{});
}
R_SPEC(direct_sum_affine) {
  using D = DirectSum<Position<RA>, Velocity<RA>>; using V = DirectSum<Displacement<RA>, Velocity<RA>>;
  ANYT(p, Position<RA>); ANYT(v, Velocity<RA>); ANYT(q, Position<RA>); ANYT(w, Velocity<RA>); ANYT(d, Displacement<RA>); ANYT(e, Velocity<RA>);
  D const x(p, v), y(q, w); V const t(d, e);
  EQ(get<0>(x - y), p - q); EQ(get<1>(x - y), v - w); EQ(get<0>(x + t), p + d); EQ(get<1>(x + t), v + e);
  EQ(get<0>(t + x), p + d); EQ(get<1>(t + x), v + e); EQ(get<0>(x - t), p - d); EQ(get<1>(x - t), v - e);
  DegreesOfFreedom<RA> const f(p, v); RelativeDegreesOfFreedom<RA> const g(d, e);
  EQ((f + g).position(), p + d); EQ((f + g).velocity(), v + e); EQ((f - DegreesOfFreedom<RA>(q, w)).displacement(), p - q); EQ((f - DegreesOfFreedom<RA>(q, w)).velocity(), v - w);
  EQ((f - g).position(), p - d); EQ((f - g).velocity(), v - e); EQ((g + g).displacement(), d + d);
}
// Complexification.
R_SPEC(complex_field) {
  ANY(double, a); ANY(double, b); ANY(double, c); ANY(double, d); ANY(double, k); REQUIRE(c * c + d * d != 0); REQUIRE(k != 0);
  Complexification<double> const z(a, b), w(c, d);
#define CX(e, R, I) { auto const ee = e; EQ(ee.real_part(), R); EQ(ee.imaginary_part(), I); }
  CX(z + w, a + c, b + d); CX(z - w, a - c, b - d); CX(-z, -a, -b); CX(+z, a, b); CX(z * w, a * c - b * d, a * d + b * c);
  CX((z / w) * w, a, b); CX(k / w * w, k, 0.0); CX(z / k, a / k, b / k); CX(z * k, a * k, b * k); CX(k * z, k * a, k * b);
  CX(z + k, a + k, b); CX(k + z, a + k, b); CX(z - k, a - k, b); CX(k - z, k - a, -b); CX(z.Conjugate(), a, -b);
  EQ(z.Norm²(), a * a + b * b); EQ(z.Norm() * z.Norm(), a * a + b * b); ENSURE(z.Norm() >= 0);
  Complexification<double> x = z; x += w; CX(x, a + c, b + d); x -= w; CX(x, a, b); x *= w; CX(x, a * c - b * d, a * d + b * c); x /= w; CX(x, a, b); x *= k; CX(x, a * k, b * k); x /= k; CX(x, a, b);
  x += k; CX(x, a + k, b); x -= k; CX(x, a, b);
  CX(Complexification<double>(k), k, 0.0); ENSURE((z == w) == (a == c && b == d));
}
R_SPEC(complex_vectors) {
  ANYT(a, Displacement<RA>); ANYT(b, Displacement<RA>); ANYT(c, Displacement<RA>); ANYT(d, Displacement<RA>); ANY(double, x); ANY(double, y);
  Complexification<Displacement<RA>> const z(a, b), w(c, d); Complexification<double> const s(x, y);
  CX(s * z, x * a - y * b, x * b + y * a); CX(z * s, x * a - y * b, x * b + y * a);
  CX(InnerProduct(z, w), InnerProduct(a, c) + InnerProduct(b, d), InnerProduct(b, c) - InnerProduct(a, d));
  EQ(z.Norm²(), a.Norm²() + b.Norm²());
}
// Intervals.
R_SPEC(interval) {
  ANY(Instant, a); ANY(Instant, b); ANY(Instant, c); ANY(Instant, d); ANY(Instant, x);
  Interval<Instant> const i{a, b}, j{c, d};
  auto const in = [](Interval<Instant> const& i, Instant const& x) { return i.min <= x && x <= i.max; };
  ENSURE(in(Intersection(i, j), x) == (in(i, x) && in(j, x)));
  EQ(i.measure(), a <= b ? b - a : Time{}); ENSURE(i.empty() == (i.measure() == Time{}));
  Interval<Instant> k = i; k.Include(x); ENSURE(in(k, x)); REQUIRE(a <= b); ENSURE(in(k, a) && in(k, b)); ENSURE(k.min == a || k.min == x); ENSURE(k.max == b || k.max == x);
  EQ(i.midpoint() - a, b - i.midpoint());
}
F_SPEC(interval_default) {
  double const x = vc_f64("x"); REQUIRE(x == x);
  Interval<double> i; ENSURE(i.empty()); ENSURE(i.measure() == 0); ENSURE(i.midpoint() != i.midpoint()); i.Include(x); ENSURE(i.min == x && i.max == x);
}
