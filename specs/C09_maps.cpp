#include "pr.hpp"
#include "geometry/sign.hpp"
#include "geometry/signature.hpp"
#include "geometry/permutation.hpp"
#include "geometry/rotation.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_sign;
using RA = Frame<struct TA, Inertial>; using RB = Frame<struct TB, Inertial>; using RC = Frame<struct TC, Inertial>;
using LA = Frame<struct TLA, Inertial, Handedness::Left>; using LB = Frame<struct TLB, Inertial, Handedness::Left>;
namespace {
Quaternion unit(const char* n) {
  Quaternion const q = pr::any<Quaternion>(n);
  vc_assume(q.real_part() * q.real_part() + Dot(q.imaginary_part(), q.imaginary_part()) == 1);
  return q;
}
Sign sign(const char* n) { return vc_bool(n) ? Sign::Negative() : Sign::Positive(); }
double num(Sign s) { return s.is_negative() ? -1.0 : 1.0; }
}
R_SPEC(sign_algebra) {
  Sign const s = sign("s"), t = sign("t"); ANY(Length, l); ANY(double, d);
  ENSURE_EQ(num(s * t), num(s) * num(t)); ENSURE_EQ(num(-s), -num(s)); ENSURE_EQ(num(+s), num(s));
  ENSURE(s.is_positive() == !s.is_negative()); ENSURE((s == t) == (s.is_negative() == t.is_negative())); ENSURE((s != t) == !(s == t));
  EQ(s * l, num(s) * l); ENSURE_EQ(s * d, num(s) * d); ENSURE(static_cast<int>(s) == (s.is_negative() ? -1 : 1));
  ENSURE(Sign::Positive().is_positive()); ENSURE(Sign::Negative().is_negative());
}
F_SPEC(sign_of_numbers) {
  double const x = vc_f64("x"); std::int64_t const n = vc_i64("n");
  REQUIRE(x == x); REQUIRE(n != 0);
  ENSURE(x > 0 ? Sign(x).is_positive() : x < 0 ? Sign(x).is_negative() : true);
  ENSURE(Sign(0.0).is_positive()); ENSURE(Sign(-0.0).is_negative());
  ENSURE(Sign(x * Metre).is_negative() == Sign(x).is_negative());
  ENSURE(Sign::OfNonZero(n).is_negative() == (n < 0));
}
// Signatures: diagonal matrices of signs of the right determinant.
template<typename F, typename T, typename Sig> void signature_laws(Sig const& g, Sign x, Sign y, Sign z, double det) {
  ANYT(v, Vector<Length, F>); ANYT(b, Bivector<Length, F>); ANYT(t, Trivector<Length, F>);
  ANYT(f, SymmetricBilinearForm<Mass, F, Vector>); ANYT(w, Vector<Length, F>);
  ENSURE_EQ(num(x) * num(y) * num(z), det); ENSURE_EQ(num(g.Determinant()), det);
  EQ(g(v).coordinates(), R3Element<Length>(num(x) * v.coordinates().x, num(y) * v.coordinates().y, num(z) * v.coordinates().z));
  EQ(g(b).coordinates(), R3Element<Length>(det * num(x) * b.coordinates().x, det * num(y) * b.coordinates().y, det * num(z) * b.coordinates().z));
  EQ(g(t).coordinates(), det * t.coordinates());
  EQ(Wedge(g(v), g(w)), g(Wedge(v, w))); EQ(Wedge(Wedge(g(v), g(w)), g(v)), g(Wedge(Wedge(v, w), v)));
  EQ(g(f)(g(v), g(w)), f(v, w));
  EQ(g.Inverse()(g(v)), v); EQ(g.Inverse()(g(b)), b);
  auto const o = g.template Forget<OrthogonalMap>();
  EQ(o(v), g(v)); EQ(o(b), g(b)); EQ(o(t), g(t));
  EQ(g.template Forget<ConformalMap>()(v), g(v));
}
R_SPEC(signature_proper_z) { Sign const x = sign("x"), y = sign("y"); using D = Signature<RA, RB>::DeduceSign;
  signature_laws<RA, RB>(Signature<RA, RB>(x, y, D{}), x, y, x * y, 1); }
R_SPEC(signature_proper_y) { Sign const x = sign("x"), z = sign("z"); using D = Signature<RA, RB>::DeduceSign;
  signature_laws<RA, RB>(Signature<RA, RB>(x, D{}, z), x, x * z, z, 1); }
R_SPEC(signature_proper_x) { Sign const y = sign("y"), z = sign("z"); using D = Signature<RA, RB>::DeduceSign;
  signature_laws<RA, RB>(Signature<RA, RB>(D{}, y, z), y * z, y, z, 1); }
R_SPEC(signature_improper_z) { Sign const x = sign("x"), y = sign("y"); using D = Signature<RA, LB>::DeduceSign;
  signature_laws<RA, LB>(Signature<RA, LB>(x, y, D{}), x, y, -(x * y), -1); }
R_SPEC(signature_improper_y) { Sign const x = sign("x"), z = sign("z"); using D = Signature<RA, LB>::DeduceSign;
  signature_laws<RA, LB>(Signature<RA, LB>(x, D{}, z), x, -(x * z), z, -1); }
R_SPEC(signature_improper_x) { Sign const y = sign("y"), z = sign("z"); using D = Signature<RA, LB>::DeduceSign;
  signature_laws<RA, LB>(Signature<RA, LB>(D{}, y, z), -(y * z), y, z, -1); }
R_SPEC(signature_identity_and_inversion) {
  ANYT(v, Vector<Length, RA>);
  EQ((Signature<RA, RB>::Identity()(v).coordinates()), v.coordinates());
  EQ((Signature<RA, LB>::CentralInversion()(v).coordinates()), -v.coordinates());
}
R_SPEC(signature_composition) {
  Sign const a = sign("a"), b = sign("b"), c = sign("c"), d = sign("d"); ANYT(v, Vector<Length, RA>); ANYT(u, Bivector<Length, RA>);
  Signature<RA, LB> const f(a, b, Signature<RA, LB>::DeduceSign{}); Signature<LB, RC> const g(c, Signature<LB, RC>::DeduceSign{}, d);
  EQ((g * f)(v), g(f(v))); EQ((g * f)(u), g(f(u)));
}
// Permutations of the coordinates.
template<typename F, typename T> void permutation_laws(typename Permutation<F, T>::CoordinatePermutation p, int i, int j, int k, double det) {
  ANYT(v, Vector<Length, F>); ANYT(w, Vector<Length, F>); ANYT(b, Bivector<Length, F>); ANYT(t, Trivector<Length, F>);
  Permutation<F, T> const g(p);
  auto const& c = v.coordinates();
  EQ(g(v).coordinates(), R3Element<Length>(c[i], c[j], c[k]));
  ENSURE_EQ(num(g.Determinant()), det); EQ(g(t).coordinates(), det * t.coordinates());
  EQ(g(Wedge(v, w)), Wedge(g(v), g(w)));
  EQ(g(b).coordinates(), det * R3Element<Length>(b.coordinates()[i], b.coordinates()[j], b.coordinates()[k]));
  EQ(g.Inverse()(g(v)), v); EQ(g.Inverse()(g(b)), b);
  ENSURE(g.coordinate_permutation() == p);
  auto const o = g.template Forget<OrthogonalMap>();
  EQ(o(v), g(v)); EQ(o(b), g(b));
  EQ(g.template Forget<ConformalMap>()(v), g(v));
}
R_SPEC(permutation_XYZ) { permutation_laws<RA, RB>(EvenPermutation::XYZ, 0, 1, 2, 1); }
R_SPEC(permutation_YZX) { permutation_laws<RA, RB>(EvenPermutation::YZX, 1, 2, 0, 1); }
R_SPEC(permutation_ZXY) { permutation_laws<RA, RB>(EvenPermutation::ZXY, 2, 0, 1, 1); }
R_SPEC(permutation_XZY) { permutation_laws<RA, LB>(OddPermutation::XZY, 0, 2, 1, -1); }
R_SPEC(permutation_ZYX) { permutation_laws<RA, LB>(OddPermutation::ZYX, 2, 1, 0, -1); }
R_SPEC(permutation_YXZ) { permutation_laws<RA, LB>(OddPermutation::YXZ, 1, 0, 2, -1); }
R_SPEC(permutation_composition) {
  static const EvenPermutation e[] = {EvenPermutation::XYZ, EvenPermutation::YZX, EvenPermutation::ZXY};
  static const OddPermutation o[] = {OddPermutation::XZY, OddPermutation::ZYX, OddPermutation::YXZ};
  ANYT(v, Vector<Length, RA>);
  EQ((Permutation<RA, RB>::Identity()(v).coordinates()), v.coordinates());
  for (auto const a : e) for (auto const b : e) { Permutation<RA, RB> const f(a); Permutation<RB, RC> const g(b); EQ((g * f)(v), g(f(v))); }
  for (auto const a : e) for (auto const b : o) { Permutation<RA, RB> const f(a); Permutation<RB, LB> const g(b); EQ((g * f)(v), g(f(v))); }
  for (auto const a : o) for (auto const b : e) { Permutation<RA, LA> const f(a); Permutation<LA, LB> const g(b); EQ((g * f)(v), g(f(v))); }
  for (auto const a : o) for (auto const b : o) { Permutation<RA, LA> const f(a); Permutation<LA, RC> const g(b); EQ((g * f)(v), g(f(v))); }
}
// Orthogonal maps of either determinant.
template<typename F, typename T> void orthogonal_laws(OrthogonalMap<F, T> const& o, Rotation<F, F> const& r, double det) {
  ANYT(v, Vector<Length, F>); ANYT(b, Bivector<Length, F>); ANYT(t, Trivector<Length, F>);
  EQ(o(v).coordinates(), det * r(v).coordinates());
  EQ(o(b).coordinates(), r(b).coordinates());
  EQ(o(t).coordinates(), det * t.coordinates());
  ENSURE_EQ(num(o.Determinant()), det);
  EQ(o.Inverse()(o(v)), v); EQ(o.Inverse()(o(b)), b); EQ(o.Inverse()(o(t)), t);
  EQ(o.template Forget<ConformalMap>()(v), o(v));
}
template<typename F, typename T> void orthogonal_form(OrthogonalMap<F, T> const& o) {
  ANYT(v, Vector<Length, F>); ANYT(w, Vector<Length, F>); ANYT(f, SymmetricBilinearForm<Mass, F, Vector>);
  EQ(o(f)(o(v), o(w)), f(v, w));
  EQ(InnerProduct(o(v), o(w)), InnerProduct(v, w));
}
R_SPEC(orthogonal_proper) { auto const q = unit("q"); Rotation<RA, RB> const r(q); auto const o = r.Forget<OrthogonalMap>();
  orthogonal_laws<RA, RB>(o, Rotation<RA, RA>(q), 1); EQ(o.AsRotation().quaternion(), q); }
R_SPEC(orthogonal_improper) { auto const q = unit("q"); Rotation<LB, LA> const r(q);
  auto const o = r.Forget<OrthogonalMap>() * Signature<RA, LB>::CentralInversion().Forget<OrthogonalMap>();
  orthogonal_laws<RA, LA>(o, Rotation<RA, RA>(q), -1); }
R_SPEC(orthogonal_form_proper) { orthogonal_form<RA, RB>(Rotation<RA, RB>(unit("q")).Forget<OrthogonalMap>()); }
R_SPEC(orthogonal_form_improper) { orthogonal_form<RA, LA>(Rotation<LB, LA>(unit("q")).Forget<OrthogonalMap>() * Signature<RA, LB>::CentralInversion().Forget<OrthogonalMap>()); }
R_SPEC(orthogonal_composition) {
  auto const q = unit("q"), p = unit("p"); ANYT(v, Vector<Length, RA>); ANYT(b, Bivector<Length, RA>);
  auto const f = Rotation<LB, LA>(q).Forget<OrthogonalMap>() * Signature<RA, LB>::CentralInversion().Forget<OrthogonalMap>();
  auto const g = Signature<LB, RC>::CentralInversion().Forget<OrthogonalMap>() * Rotation<LA, LB>(p).Forget<OrthogonalMap>();
  EQ((g * f)(v), g(f(v))); EQ((g * f)(b), g(f(b)));
  EQ((OrthogonalMap<RA, RB>::Identity()(v).coordinates()), v.coordinates());
}
// Homothecies and conformal maps.
R_SPEC(homothecy) {
  ANY(double, k); ANY(Mass, m); REQUIRE(k > 0); REQUIRE(m > Mass());
  ANYT(v, Vector<Length, RA>); ANYT(w, Vector<Mass, RB>); ANYT(a, AngularVelocity<RA>);
  Homothecy<double, RA, RB> const h(k); Homothecy<Mass, RB, RC> const g(m);
  EQ(h(v).coordinates(), k * v.coordinates()); EQ(g(w).coordinates(), m * w.coordinates());
  EQ(h(a).coordinates(), a.coordinates());
  EQ(h.Inverse()(h(v)), v); EQ(g.Inverse()(g(w)), w); EQ((g * h)(v), g(h(v)));
  ENSURE_EQ(h.Determinant(), k * k * k); EQ(g.Determinant(), m * m * m);
  EQ((Homothecy<double, RA, RB>::Identity()(v).coordinates()), v.coordinates());
  EQ(h.Forget<ConformalMap>()(v), h(v)); EQ(g.Forget<ConformalMap>()(w), g(w));
}
R_SPEC(conformal_map) {
  auto const q = unit("q"), p = unit("p"); ANY(double, k); ANY(Mass, m); REQUIRE(k > 0); REQUIRE(m > Mass());
  ANYT(v, Vector<Length, RA>); ANYT(a, AngularVelocity<RA>);
  auto const f = Homothecy<double, RB, RB>(k).Forget<ConformalMap>() * Rotation<RA, RB>(q).Forget<ConformalMap>();
  auto const g = Homothecy<Mass, RC, RC>(m).Forget<ConformalMap>() * Rotation<RB, RC>(p).Forget<ConformalMap>();
  EQ(f(v), k * Rotation<RA, RB>(q)(v)); EQ(f(a), Rotation<RA, RB>(q)(a));
  EQ((g * f)(v), g(f(v))); EQ((g * f)(a), g(f(a)));
  EQ(f.Inverse()(f(v)), v); EQ(g.Inverse()(g(f(v))), f(v)); EQ(f.Inverse()(f(a)), a);
  ENSURE_EQ(f.scale(), k); EQ(g.scale(), m); ENSURE_EQ(f.Determinant(), k * k * k); EQ(g.Determinant(), m * m * m);
  EQ(f.orthogonal_map¹₁()(v), Rotation<RA, RB>(q)(v));
  EQ((ConformalMap<double, RA, RB>::Identity()(v).coordinates()), v.coordinates());
}
R_SPEC(conformal_improper) {
  auto const q = unit("q"); ANY(double, k); REQUIRE(k > 0); ANYT(v, Vector<Length, RA>);
  auto const o = Rotation<LB, LA>(q).Forget<OrthogonalMap>() * Signature<RA, LB>::CentralInversion().Forget<OrthogonalMap>();
  auto const f = Homothecy<double, LA, LA>(k).Forget<ConformalMap>() * o.Forget<ConformalMap>();
  EQ(f(v), k * o(v)); EQ(f.Inverse()(f(v)), v); ENSURE_EQ(f.Determinant(), k * k * k); ENSURE_EQ(f.scale(), k);
  EQ(f.orthogonal_map¹₁()(v), o(v));
}
R_SPEC(identity) {
  ANYT(v, Vector<Length, RA>); ANYT(b, Bivector<Length, RA>); ANYT(t, Trivector<Length, RA>); ANYT(f, SymmetricBilinearForm<Mass, RA, Vector>);
  Identity<RA, RB> const i;
  EQ(i(v).coordinates(), v.coordinates()); EQ(i(b).coordinates(), b.coordinates()); EQ(i(t).coordinates(), t.coordinates());
  EQ(i(f).coordinates(), f.coordinates()); ENSURE(i.Determinant().is_positive());
  EQ(i.Inverse()(i(v)), v); EQ((Identity<RB, RC>() * i)(v).coordinates(), v.coordinates());
  EQ(i.Forget<OrthogonalMap>()(v), i(v)); EQ(i.Forget<Rotation>()(v), i(v)); EQ(i.Forget<Permutation>()(v), i(v)); EQ(i.Forget<Signature>()(v), i(v));
  EQ(i.Forget<ConformalMap>()(v), i(v));
}
