// Mechanical systems: mass, centre of mass, angular momentum and inertia of a set of rigid bodies.
#include "pr.hpp"
#include "stl.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space_transformations.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/mechanical_system.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/tensors.hpp"
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_mechanical_system;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_tensors;
using I = Frame<struct TI, Inertial>; using S = Frame<struct TS, NonRotating>; using B1 = Frame<struct TB1, Arbitrary>; using B2 = Frame<struct TB2, Arbitrary>;
namespace {
Quaternion unit(const char* n) {
  Quaternion const q = pr::any<Quaternion>(n);
  vc_assume(q.real_part() * q.real_part() + Dot(q.imaginary_part(), q.imaginary_part()) == 1);
  return q;
}
template<typename B> RigidMotion<B, I> motion(const char* n) {
  return RigidMotion<B, I>(RigidTransformation<B, I>(B::origin, pr::any<Position<I>>(pr::cat(n, ".q").s), OrthogonalMap<B, I>(unit(pr::cat(n, ".rot").s))),
                           pr::any<AngularVelocity<I>>(pr::cat(n, ".w").s), pr::any<Velocity<I>>(pr::cat(n, ".v").s));
}
template<typename B> struct Body {
  RigidMotion<B, I> m; Mass mass; InertiaTensor<B> j; Position<I> q; Velocity<I> v; AngularVelocity<I> w; OrthogonalMap<I, B> to;
  explicit Body(const char* n) : m(motion<B>(n)), mass(pr::any<Mass>(pr::cat(n, ".m").s)), j(pr::any<InertiaTensor<B>>(pr::cat(n, ".j").s)),
    q(m({B::origin, B::unmoving}).position()), v(m({B::origin, B::unmoving}).velocity()), w(m.template angular_velocity_of<B>()), to(m.orthogonal_map().Inverse()) { REQUIRE(mass.magnitude_ > 0); }
  // The angular momentum about an axis a, through the centre of the body.
  auto spin(Bivector<double, I> const& a) const { return j(to(w), to(a)); }
  auto inertia(Bivector<double, I> const& a, Bivector<double, I> const& b) const { return j(to(a), to(b)); }
};
Bivector<double, S> s(Bivector<double, I> const& a) { return Bivector<double, S>(a.coordinates()); }
template<typename Sys, typename... Bs> void laws(Sys const& sys, Bs const&... bs) {
  Mass const mass = (bs.mass + ...);
  EQ(sys.mass(), mass);
  auto const c = sys.centre_of_mass();
  auto const dq = ((bs.mass * (bs.q - I::origin)) + ...) / mass; auto const dv = ((bs.mass * bs.v) + ...) / mass;
  EQ(c.position(), I::origin + dq); EQ(c.velocity(), dv);
  auto const l = sys.LinearMotion();
  EQ(l({S::origin, S::unmoving}).position(), I::origin + dq); EQ(l({S::origin, S::unmoving}).velocity(), dv);
  ANYT(x, Velocity<S>); EQ(l.orthogonal_map()(x).coordinates(), x.coordinates());
  ANYT(y, Displacement<S>); EQ(l({S::origin + y, x}).velocity().coordinates(), dv.coordinates() + x.coordinates());
  ANYT(a, Bivector<double, I>); ANYT(b, Bivector<double, I>);
  // Angular momentum: the intrinsic momenta, and those of the linear motions with respect to the centre of mass.
  EQ(InnerProduct(sys.AngularMomentum(), s(a)), ((bs.spin(a) + bs.mass * InnerProduct(Wedge(bs.q - I::origin - dq, bs.v - dv), a) * Radian) + ...));
  // Inertia: m (r² a·b - (a·r)(b·r)) for the point masses.
  auto const point = [&](auto const& body) { auto const r = body.q - I::origin - dq; Vector<double, I> const u(a.coordinates()), v(b.coordinates());
    return body.mass * (InnerProduct(r, r) * InnerProduct(u, v) - InnerProduct(u, r) * InnerProduct(v, r)); };
  EQ(sys.InertiaTensor()(s(a), s(b)), ((bs.inertia(a, b) + point(bs)) + ...));
}
}
R_SPEC(one_body) {
  Body<B1> const a("a"); MechanicalSystem<I, S> sys; sys.AddRigidBody(a.m, a.mass, a.j);
  laws(sys, a);
}
R_SPEC(two_bodies) {
  Body<B1> const a("a"); Body<B2> const b("b"); MechanicalSystem<I, S> sys; sys.AddRigidBody(a.m, a.mass, a.j); sys.AddRigidBody(b.m, b.mass, b.j);
  laws(sys, a, b);
}
