#include "pr.hpp"
#include "geometry/rotation.hpp"
#include "geometry/linear_map.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/conformal_map.hpp"
#include "numerics/elementary_functions.hpp"
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_sign;
using namespace principia::numerics::_elementary_functions;
using A = Frame<struct TA>; using B = Frame<struct TB>; using C = Frame<struct TC>;
namespace {
Quaternion unit(const char* n) {
  Quaternion const q = pr::any<Quaternion>(n);
  vc_assume(q.real_part() * q.real_part() + Dot(q.imaginary_part(), q.imaginary_part()) == 1);
  return q;
}
// The textbook matrix of the rotation defined by a unit quaternion, applied to v.
template<typename T> R3Element<T> matrix_of(Quaternion const& q, R3Element<T> const& v) {
  double const w = q.real_part(), x = q.imaginary_part().x, y = q.imaginary_part().y, z = q.imaginary_part().z;
  return R3Element<T>((1 - 2 * (y * y + z * z)) * v.x + 2 * (x * y - w * z) * v.y + 2 * (x * z + w * y) * v.z,
                      2 * (x * y + w * z) * v.x + (1 - 2 * (x * x + z * z)) * v.y + 2 * (y * z - w * x) * v.z,
                      2 * (x * z - w * y) * v.x + 2 * (y * z + w * x) * v.y + (1 - 2 * (x * x + y * y)) * v.z);
}
// Elementary active rotation about axis i.
R3Element<double> about(int i, double s, double c, R3Element<double> const& v) {
  if (i == 0) return {v.x, c * v.y - s * v.z, s * v.y + c * v.z};
  if (i == 1) return {s * v.z + c * v.x, v.y, c * v.z - s * v.x};
  return {c * v.x - s * v.y, s * v.x + c * v.y, v.z};
}
}
R_SPEC(action_on_vectors) {
  auto const q = unit("q"); ANYT(v, Vector<Length, A>);
  Rotation<A, B> const r(q);
  EQ(r.quaternion(), q);
  EQ(r(v).coordinates(), matrix_of(q, v.coordinates()));
  EQ(r(v).Norm²(), v.Norm²());
}
R_SPEC(action_on_other_grades) {
  auto const q = unit("q"); ANYT(b, Bivector<Length, A>); ANYT(t, Trivector<Length, A>);
  Rotation<A, B> const r(q);
  EQ(r(b).coordinates(), matrix_of(q, b.coordinates()));
  EQ(r(t).coordinates(), t.coordinates());
  ENSURE(r.Determinant().is_positive());
}
R_SPEC(inner_product_and_orientation) {
  auto const q = unit("q"); ANYT(v, Vector<Length, A>); ANYT(w, Vector<Mass, A>);
  Rotation<A, B> const r(q);
  EQ(InnerProduct(r(v), r(w)), InnerProduct(v, w));
  EQ(Wedge(r(v), r(w)), r(Wedge(v, w)));
}
R_SPEC(commutator) {
  auto const q = unit("q"); ANYT(b, Bivector<Length, A>); ANYT(c, Bivector<Mass, A>);
  Rotation<A, B> const r(q);
  EQ(Commutator(r(b), r(c)), r(Commutator(b, c)));
}
R_SPEC(bilinear_form) {
  auto const q = unit("q"); ANYT(f, SymmetricBilinearForm<Mass, A, Vector>); ANYT(v, Vector<Length, A>); ANYT(w, Vector<Length, A>);
  Rotation<A, B> const r(q);
  EQ(r(f)(r(v), r(w)), f(v, w));
}
R_SPEC(inverse) {
  auto const q = unit("q"); ANYT(v, Vector<Length, A>); ANYT(w, Vector<Length, B>); ANYT(b, Bivector<Length, A>);
  Rotation<A, B> const r(q);
  EQ(r.Inverse()(r(v)), v); EQ(r(r.Inverse()(w)), w); EQ(r.Inverse()(r(b)), b);
}
R_SPEC(composition) {
  auto const q = unit("q"); auto const p = unit("p"); ANYT(v, Vector<Length, A>);
  Rotation<A, B> const r(q); Rotation<B, C> const s(p);
  EQ((s * r)(v), s(r(v)));
}
R_SPEC(composition_bivectors) {
  auto const q = unit("q"); auto const p = unit("p"); ANYT(v, Bivector<Length, A>);
  Rotation<A, B> const r(q); Rotation<B, C> const s(p);
  EQ((s * r)(v), s(r(v)));
}
R_SPEC(identity) {
  ANYT(v, Vector<Length, A>);
  auto const i = Rotation<A, B>::Identity();
  EQ(i(v).coordinates(), v.coordinates());
}
R_SPEC(forget) {
  auto const q = unit("q"); ANYT(v, Vector<Length, A>); ANYT(b, Bivector<Length, A>);
  Rotation<A, B> const r(q);
  auto const o = r.Forget<OrthogonalMap>();
  EQ(o(v), r(v)); EQ(o(b), r(b));
  auto const c = r.Forget<ConformalMap>();
  EQ(c(v), r(v));
}
R_SPEC(equality) {
  auto const q = unit("q"); auto const p = unit("p");
  ENSURE((Rotation<A, B>(q) == Rotation<A, B>(p)) == (q == p));
  ENSURE((Rotation<A, B>(q) != Rotation<A, B>(p)) == !(q == p));
}
// Rodrigues' formula; active.
R_SPEC(angle_axis) {
  ANY(Angle, α); ANYT(axis, Bivector<Length, A>); ANYT(v, Vector<Mass, A>);
  REQUIRE(axis.Norm²() > Square<Length>());
  Rotation<A, A> const r(α, axis);
  auto const n = Normalize(axis);
  EQ(r(v), Cos(α) * v + Sin(α) * (n * v) + (1 - Cos(α)) * Vector<Mass, A>(Dot(n.coordinates(), v.coordinates()) * n.coordinates()));
}
R_SPEC(angle_axis_defines_to_frame) {
  ANY(Angle, α); ANYT(axis, Bivector<double, A>); ANYT(v, Vector<Mass, A>);
  REQUIRE(axis.Norm²() > 0);
  Rotation<A, B> const r(α, axis, DefinesFrame<B>{});
  Rotation<A, A> const active(-α, axis);
  EQ(r(v).coordinates(), active(v).coordinates());
}
R_SPEC(angle_axis_defines_from_frame) {
  ANY(Angle, α); ANYT(axis, Bivector<double, B>); ANYT(v, Vector<Mass, A>);
  REQUIRE(axis.Norm²() > 0);
  Rotation<A, B> const r(α, axis, DefinesFrame<A>{});
  Rotation<B, B> const active(α, axis);
  EQ(r(v).coordinates(), active(Vector<Mass, B>(v.coordinates())).coordinates());
}
R_SPEC(exponential) {
  ANYT(ω, Bivector<Angle, A>); ANYT(v, Vector<Mass, A>);
  REQUIRE(ω.Norm²() > Square<Angle>());
  auto const r = Exp(ω);
  auto const n = Normalize(ω); auto const α = ω.Norm();
  EQ(r(v), Cos(α) * v + Sin(α) * (n * v) + (1 - Cos(α)) * Vector<Mass, A>(Dot(n.coordinates(), v.coordinates()) * n.coordinates()));
}
R_SPEC(exponential_of_zero) {
  ANYT(v, Vector<Mass, A>);
  EQ(Exp(Bivector<Angle, A>())(v), v);
}
R_SPEC(rotation_angle_and_axis) {
  auto const q = unit("q"); ANYT(v, Vector<Mass, A>);
  REQUIRE(q.imaginary_part().Norm²() > 0);
  REQUIRE(q.real_part() != 0);  // ArcTan(∞) is outside the real-arithmetic reading.
  Rotation<A, A> const r(q);
  Rotation<A, A> const s(r.RotationAngle(), r.RotationAxis());
  ENSURE_EQ(r.RotationAxis().Norm²(), 1);
  EQ(s(v), r(v));
}
// From the axes of one frame expressed in the other.
R_SPEC(axes_of_to_frame) {
  auto const q = unit("q");
  Rotation<B, A> const m(q);  // its columns are the axes of B expressed in A
  Vector<double, A> const x = m(Vector<double, B>({1, 0, 0})), y = m(Vector<double, B>({0, 1, 0}));
  Bivector<double, A> const z = m(Bivector<double, B>({0, 0, 1}));
  Rotation<A, B> const r(x, y, z);
  EQ(r(x).coordinates(), (R3Element<double>(1, 0, 0)));
  EQ(r(y).coordinates(), (R3Element<double>(0, 1, 0)));
  EQ(r(z).coordinates(), (R3Element<double>(0, 0, 1)));
}
R_SPEC(axes_of_from_frame) {
  auto const q = unit("q");
  Rotation<A, B> const m(q);
  Vector<double, B> const x = m(Vector<double, A>({1, 0, 0}));
  Bivector<double, B> const y = m(Bivector<double, A>({0, 1, 0}));
  Vector<double, B> const z = m(Vector<double, A>({0, 0, 1}));
  Rotation<A, B> const r(x, y, z);
  EQ(r(Vector<double, A>({1, 0, 0})).coordinates(), x.coordinates());
  EQ(r(Vector<double, A>({0, 1, 0})).coordinates(), y.coordinates());
  EQ(r(Vector<double, A>({0, 0, 1})).coordinates(), z.coordinates());
}
// Euler and Cardano angles: the frame defined by intrinsic rotations about axes i, j, k by α, β, γ has axes
// R_i(α) R_j(β) R_k(γ) e expressed in the other frame.
template<typename Angles> void check_angles(Angles axes, int i, int j, int k) {
  Angle const α = pr::any<Angle>("alpha"), β = pr::any<Angle>("beta"), γ = pr::any<Angle>("gamma");
  auto const v = pr::any<R3Element<double>>("v");
  auto const expected = about(i, Sin(α), Cos(α), about(j, Sin(β), Cos(β), about(k, Sin(γ), Cos(γ), v)));
  Rotation<B, A> const from(α, β, γ, axes, DefinesFrame<B>{});  // coordinates in B ↦ coordinates in A
  EQ(from(Vector<double, B>(v)).coordinates(), expected);
  Rotation<A, B> const to(α, β, γ, axes, DefinesFrame<B>{});
  EQ(to(Vector<double, A>(expected)).coordinates(), v);
}
R_SPEC(euler_ZXZ) { check_angles(EulerAngles::ZXZ, 2, 0, 2); }
R_SPEC(euler_XYX) { check_angles(EulerAngles::XYX, 0, 1, 0); }
R_SPEC(euler_YZY) { check_angles(EulerAngles::YZY, 1, 2, 1); }
R_SPEC(euler_ZYZ) { check_angles(EulerAngles::ZYZ, 2, 1, 2); }
R_SPEC(euler_XZX) { check_angles(EulerAngles::XZX, 0, 2, 0); }
R_SPEC(euler_YXY) { check_angles(EulerAngles::YXY, 1, 0, 1); }
R_SPEC(cardano_XYZ) { check_angles(CardanoAngles::XYZ, 0, 1, 2); }
R_SPEC(cardano_YZX) { check_angles(CardanoAngles::YZX, 1, 2, 0); }
R_SPEC(cardano_ZXY) { check_angles(CardanoAngles::ZXY, 2, 0, 1); }
R_SPEC(cardano_XZY) { check_angles(CardanoAngles::XZY, 0, 2, 1); }
R_SPEC(cardano_ZYX) { check_angles(CardanoAngles::ZYX, 2, 1, 0); }
R_SPEC(cardano_YXZ) { check_angles(CardanoAngles::YXZ, 1, 0, 2); }
// Quaternions.
R_SPEC(quaternion_algebra) {
  ANY(Quaternion, p); ANY(Quaternion, q); ANY(double, k);
  Quaternion const pq = p * q;
  auto const a = p.imaginary_part(), b = q.imaginary_part();
  ENSURE_EQ(pq.real_part(), p.real_part() * q.real_part() - Dot(a, b));
  EQ(pq.imaginary_part(), p.real_part() * b + q.real_part() * a + Cross(a, b));
  EQ(p + q, Quaternion(p.real_part() + q.real_part(), a + b)); EQ(p - q, Quaternion(p.real_part() - q.real_part(), a - b));
  EQ(-p, Quaternion(-p.real_part(), -a)); EQ(+p, p);
  EQ(k * p, Quaternion(k * p.real_part(), k * a)); EQ(p * k, k * p);
  EQ(p.Conjugate(), Quaternion(p.real_part(), -a));
  ENSURE_EQ(p.Norm²(), p.real_part() * p.real_part() + Dot(a, a)); ENSURE_EQ(p.Norm() * p.Norm(), p.Norm²()); ENSURE(p.Norm() >= 0);
  Quaternion c = p; c += q; EQ(c, p + q); c = p; c -= q; EQ(c, p - q); c = p; c *= q; EQ(c, p * q); c = p; c *= k; EQ(c, p * k);
  ENSURE((p == q) == (p.real_part() == q.real_part() && a == b)); ENSURE((p != q) == !(p == q));
}
R_SPEC(quaternion_division) {
  ANY(Quaternion, p); ANY(Quaternion, q); ANY(double, k);
  REQUIRE(q.Norm²() > 0); REQUIRE(k != 0);
  EQ(q * q.Inverse(), Quaternion(1)); EQ(q.Inverse() * q, Quaternion(1));
  EQ((p / q) * q, p); EQ((p / k) * k, p);
  Quaternion c = p; c /= q; EQ(c, p / q); c = p; c /= k; EQ(c, p / k);
  EQ(Normalize(q) * q.Norm(), q);
}
