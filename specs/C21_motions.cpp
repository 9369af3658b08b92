// Rigid and similar motions: the derivatives of the transformations, their composition and inversion.
#include "pr.hpp"
#include "stl.hpp"
#include "geometry/affine_map.hpp"
#include "geometry/rotation.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/space_transformations.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/similar_motion.hpp"
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_similar_motion;
using principia::geometry::_sign::Sign;
using RA = Frame<struct TA, Inertial>; using RB = Frame<struct TB, Arbitrary>; using RC = Frame<struct TC, Arbitrary>;
using LA = Frame<struct TLA, Arbitrary, Handedness::Left>; using LB = Frame<struct TLB, Arbitrary, Handedness::Left>;
namespace {
Quaternion unit(const char* n) {
  Quaternion const q = pr::any<Quaternion>(n);
  vc_assume(q.real_part() * q.real_part() + Dot(q.imaginary_part(), q.imaginary_part()) == 1);
  return q;
}
template<typename F> DegreesOfFreedom<F> dof(const char* n) { return {pr::any<Position<F>>(pr::cat(n, ".q").s), pr::any<Velocity<F>>(pr::cat(n, ".v").s)}; }
template<typename F> void same(DegreesOfFreedom<F> const& a, DegreesOfFreedom<F> const& b, const char* l) { pr::eq(a.position(), b.position(), l); pr::eq(a.velocity(), b.velocity(), l); }
#define SAME(...) same(__VA_ARGS__, #__VA_ARGS__)
template<typename F, typename T> RigidTransformation<F, T> transformation(const char* n) {
  return RigidTransformation<F, T>(pr::any<Position<F>>(pr::cat(n, ".from").s), pr::any<Position<T>>(pr::cat(n, ".to").s), OrthogonalMap<F, T>(unit(pr::cat(n, ".rot").s)));
}
template<typename F, typename T> RigidMotion<F, T> any(const char* n) {
  return RigidMotion<F, T>(transformation<F, T>(n), pr::any<AngularVelocity<F>>(pr::cat(n, ".w").s), pr::any<Velocity<F>>(pr::cat(n, ".u").s));
}
template<typename F, typename T> SimilarMotion<F, T> similar(const char* n) {
  double const scale = vc_real(pr::cat(n, ".k").s); REQUIRE(scale > 0);
  return SimilarMotion<F, T>(Similarity<F, T>(pr::any<Position<F>>(pr::cat(n, ".from").s), pr::any<Position<T>>(pr::cat(n, ".to").s), ConformalMap<double, F, T>(scale, unit(pr::cat(n, ".rot").s))),
                             pr::any<AngularVelocity<F>>(pr::cat(n, ".w").s), pr::any<Velocity<F>>(pr::cat(n, ".u").s), pr::any<Variation<double>>(pr::cat(n, ".r").s));
}
// The definition of the action: if q' = o' + R (q - o) where o is the image of the origin of To in From, which moves at u, and the
// axes of To rotate at w, then v' = R (v - u - w × (q - o)).
template<typename F, typename T> void action() {
  auto const m = any<F, T>("m"); auto const x = dof<F>("x");
  auto const& t = m.rigid_transformation();
  auto const y = m(x);
  EQ(y.position(), t(x.position()));
  auto const o = t.Inverse()(T::origin);
  EQ(y.velocity(), t.linear_map()(x.velocity() - m.velocity_of_to_frame_origin_ - m.angular_velocity_of_to_frame_ * (x.position() - o) / Radian));
  EQ(m.orthogonal_map()(x.velocity()), t.linear_map()(x.velocity()));
  EQ(m.template angular_velocity_of<T>(), m.angular_velocity_of_to_frame_); EQ(m.template velocity_of_origin_of<T>(), m.velocity_of_to_frame_origin_);
  EQ(m.template angular_velocity_of<F>(), -t.linear_map()(m.angular_velocity_of_to_frame_));
  EQ(m.template velocity_of_origin_of<F>(), m({F::origin, F::unmoving}).velocity());
}
template<typename F, typename T> void inverse() {
  auto const m = any<F, T>("m"); auto const x = dof<F>("x"); auto const y = dof<T>("y");
  auto const n = m.Inverse();
  SAME(n(m(x)), x); SAME(m(n(y)), y);
  EQ(n.template angular_velocity_of<T>(), m.angular_velocity_of_to_frame_); EQ(n.template angular_velocity_of<F>(), m.template angular_velocity_of<F>());
  EQ(n.template velocity_of_origin_of<T>(), m.velocity_of_to_frame_origin_); EQ(n.template velocity_of_origin_of<F>(), m.template velocity_of_origin_of<F>());
}
template<typename F, typename G, typename T> void composition() {
  auto const m = any<F, G>("m"); auto const n = any<G, T>("n"); auto const x = dof<F>("x");
  auto const c = n * m;
  SAME(c(x), n(m(x)));
  EQ(c.template angular_velocity_of<T>(), m.template angular_velocity_of<G>() + m.orthogonal_map().Inverse()(n.template angular_velocity_of<T>()));
}
}
R_SPEC(rigid_action) { action<RA, RB>(); }
R_SPEC(rigid_action_improper) { action<RA, LA>(); }
R_SPEC(rigid_inverse) { inverse<RA, RB>(); }
R_SPEC(rigid_inverse_improper) { inverse<LA, RB>(); }
R_SPEC(rigid_composition) { composition<RA, RB, RC>(); }
R_SPEC(rigid_composition_improper) { composition<RA, LA, RC>(); }
// Construction from the motion of the source frame in the target frame.
R_SPEC(rigid_from_source) {
  auto const t = transformation<RA, RB>("t"); ANYT(w, AngularVelocity<RB>); ANYT(u, Velocity<RB>);
  RigidMotion<RA, RB> const m(t, w, u);
  EQ(m.angular_velocity_of<RA>(), w); EQ(m.velocity_of_origin_of<RA>(), u);
  ANYT(q, Position<RA>); EQ(m.rigid_transformation()(q), t(q));
  EQ(m.angular_velocity_of<RB>(), -t.linear_map().Inverse()(w));
  auto const x = dof<RA>("x");
  // The velocity in the target frame is that of the origin of the source frame, plus that of the rotation, plus the relative one.
  EQ(m(x).velocity(), u + w * (t(x.position()) - t(RA::origin)) / Radian + t.linear_map()(x.velocity()));
}
R_SPEC(rigid_identity) {
  auto const m = RigidMotion<RA, RB>::Identity(); auto const x = dof<RA>("x");
  EQ(m(x).position() - RB::origin + Displacement<RB>({Metre, Metre, Metre}), Displacement<RB>((x.position() - RA::origin).coordinates() + R3Element<Length>(Metre, Metre, Metre)));
  EQ(m(x).velocity().coordinates(), x.velocity().coordinates());
}
R_SPEC(non_rotating) {
  auto const x = dof<RA>("x");
  auto const e = dof<LA>("e");
  auto const n = RigidMotion<RA, LA>::MakeNonRotatingMotion(e);
  SAME(n({RA::origin, RA::unmoving}), e);
  auto const p = (x.position() - RA::origin).coordinates(); auto const v = x.velocity().coordinates();
  EQ((n(x).position() - e.position()).coordinates(), R3Element<Length>(p.x, p.z, p.y));
  EQ((n(x).velocity() - e.velocity()).coordinates(), R3Element<Speed>(v.x, v.z, v.y));
}
R_SPEC(accelerated) {
  auto const m = any<RA, RB>("m"); ANYT(a, Bivector<AngularAcceleration, RA>); ANYT(b, Vector<Acceleration, RA>); auto const x = dof<RA>("x");
  AcceleratedRigidMotion<RA, RB> const n(m, a, b);
  EQ(n.angular_acceleration_of<RB>(), a); EQ(n.acceleration_of_origin_of<RB>(), b); SAME(n.rigid_motion()(x), m(x));
}
// Similar motions.
namespace {
template<typename F, typename T> void similar_action() {
  auto const m = similar<F, T>("m"); auto const x = dof<F>("x");
  auto const y = m(x);
  EQ(y.position(), m.similarity()(x.position()));
  auto const r = y.position() - T::origin;
  auto const o = m.similarity().Inverse()(T::origin);
  // q' - O' = k R (q - o): differentiate.
  EQ(y.velocity(), m.dilatation_rate_of_to_frame_ * r + m.conformal_map()(x.velocity() - m.velocity_of_to_frame_origin_ - m.angular_velocity_of_to_frame_ * (x.position() - o) / Radian));
  EQ(m.template angular_velocity_of<T>(), m.angular_velocity_of_to_frame_);
  EQ(m.template angular_velocity_of<F>(), -m.conformal_map().orthogonal_map¹₁()(m.angular_velocity_of_to_frame_));
  EQ(m.template velocity_of_origin_of<T>(), m.velocity_of_to_frame_origin_); EQ(m.template velocity_of_origin_of<F>(), m({F::origin, F::unmoving}).velocity());
}
template<typename F, typename T> void similar_inverse() {
  auto const m = similar<F, T>("m"); auto const x = dof<F>("x"); auto const y = dof<T>("y");
  auto const n = m.Inverse();
  SAME(n(m(x)), x); SAME(m(n(y)), y);
  EQ(n.template angular_velocity_of<T>(), m.angular_velocity_of_to_frame_); EQ(n.template velocity_of_origin_of<T>(), m.velocity_of_to_frame_origin_);
  EQ(n.dilatation_rate_of_to_frame_, -m.dilatation_rate_of_to_frame_);
}
}
R_SPEC(similar_action) { similar_action<RA, RB>(); }
R_SPEC(similar_inverse) { similar_inverse<RA, RB>(); }
namespace {
void similar_composition() {
  auto const m = similar<RA, RB>("m"); auto const n = similar<RB, RC>("n"); auto const x = dof<RA>("x");
  auto const c = n * m;
  SAME(c(x), n(m(x)));
  EQ(c.angular_velocity_of<RC>(), m.angular_velocity_of<RB>() + m.conformal_map().orthogonal_map¹₁().Inverse()(n.angular_velocity_of<RC>()));
}
}
R_SPEC(similar_composition) { similar_composition(); }
R_SPEC(similar_from_rigid) {
  auto const m = any<RA, RB>("m"); auto const x = dof<RA>("x");
  auto const s = m.Forget<SimilarMotion>();
  SAME(s(x), m(x)); EQ(s.angular_velocity_of<RB>(), m.angular_velocity_of<RB>()); EQ(s.angular_velocity_of<RA>(), m.angular_velocity_of<RA>());
  EQ(s.velocity_of_origin_of<RB>(), m.velocity_of_origin_of<RB>()); EQ(s.velocity_of_origin_of<RA>(), m.velocity_of_origin_of<RA>());
}
R_SPEC(similar_dilatation) {
  double const k = vc_real("k"); REQUIRE(k > 0); ANYT(r, Variation<double>); auto const x = dof<RA>("x");
  auto const m = SimilarMotion<RA, RB>::DilatationAboutOrigin(Homothecy<double, RA, RB>(k), r);
  auto const p = k * (x.position() - RA::origin).coordinates();
  EQ((m(x).position() - RB::origin).coordinates(), p); EQ(m(x).velocity().coordinates(), k * x.velocity().coordinates() + r * p);
  auto const i = SimilarMotion<RA, RB>::Identity()(x);
  EQ((i.position() - RB::origin).coordinates(), (x.position() - RA::origin).coordinates()); EQ(i.velocity().coordinates(), x.velocity().coordinates());
}
