#include "pr.hpp"
using F = Frame<struct TF>;
using L = Length; using M = Mass;
using VL = Vector<Length, F>; using VM = Vector<Mass, F>;
using BL = Bivector<Length, F>; using BM = Bivector<Mass, F>;
using TL = Trivector<Length, F>; using TM = Trivector<Mass, F>;
namespace {
template<typename A, typename B> void dot(R3Element<A> const& a, R3Element<B> const& b, Product<A, B> const& r, const char* l) {
  vc_eq(pr::mag(r), pr::mag(a.x) * pr::mag(b.x) + pr::mag(a.y) * pr::mag(b.y) + pr::mag(a.z) * pr::mag(b.z), l); }
template<typename A, typename B, typename C> void cross(R3Element<A> const& a, R3Element<B> const& b, R3Element<C> const& r, const char* l) {
  using pr::mag;
  vc_eq(mag(r.x), mag(a.y) * mag(b.z) - mag(a.z) * mag(b.y), l);
  vc_eq(mag(r.y), mag(a.z) * mag(b.x) - mag(a.x) * mag(b.z), l);
  vc_eq(mag(r.z), mag(a.x) * mag(b.y) - mag(a.y) * mag(b.x), l); }
template<typename A, typename C> void scaled(R3Element<A> const& a, double k, R3Element<C> const& r, const char* l) {
  using pr::mag;
  vc_eq(mag(r.x), mag(a.x) * k, l); vc_eq(mag(r.y), mag(a.y) * k, l); vc_eq(mag(r.z), mag(a.z) * k, l); }
template<typename A> void sum(R3Element<A> const& a, double k, R3Element<A> const& b, R3Element<A> const& r, const char* l) {
  using pr::mag;
  vc_eq(mag(r.x), mag(a.x) + k * mag(b.x), l); vc_eq(mag(r.y), mag(a.y) + k * mag(b.y), l); vc_eq(mag(r.z), mag(a.z) + k * mag(b.z), l); }
}
// Three-component elements.
R_SPEC(r3_linear) {
  ANY(R3Element<Length>, a); ANY(R3Element<Length>, b); ANY(double, k); ANY(Mass, m);
  sum(a, 1, b, a + b, "a + b"); sum(a, -1, b, a - b, "a - b");
  scaled(a, 1, +a, "+a"); scaled(a, -1, -a, "-a");
  scaled(a, k, a * k, "a * k"); scaled(a, k, k * a, "k * a");
  scaled(a, pr::mag(m), a * m, "a * m"); scaled(a, pr::mag(m), m * a, "m * a");
  auto c = a; c += b; sum(a, 1, b, c, "a += b");
  c = a; c -= b; sum(a, -1, b, c, "a -= b");
  c = a; c *= k; scaled(a, k, c, "a *= k");
  c = a; ENSURE_EQ(pr::mag(c[0]), pr::mag(a.x)); ENSURE_EQ(pr::mag(c[1]), pr::mag(a.y)); ENSURE_EQ(pr::mag(c[2]), pr::mag(a.z));
  R3Element<Length> const& cc = c;
  ENSURE_EQ(pr::mag(cc[0]), pr::mag(a.x)); ENSURE_EQ(pr::mag(cc[1]), pr::mag(a.y)); ENSURE_EQ(pr::mag(cc[2]), pr::mag(a.z));
  c[1] = b.x; ENSURE_EQ(pr::mag(c.y), pr::mag(b.x)); ENSURE_EQ(pr::mag(c.x), pr::mag(a.x)); ENSURE_EQ(pr::mag(c.z), pr::mag(a.z));
  R3Element<Length> z; ENSURE_EQ(pr::mag(z.x), 0); ENSURE_EQ(pr::mag(z.y), 0); ENSURE_EQ(pr::mag(z.z), 0);
}
R_SPEC(r3_divide) {
  ANY(R3Element<Length>, a); ANY(double, k); ANY(Mass, m);
  REQUIRE(k != 0); REQUIRE(m != Mass());
  scaled(a / k, k, a, "(a / k) * k == a"); scaled(a / m, pr::mag(m), a, "(a / m) * m == a");
  auto c = a; c /= k; scaled(c, k, a, "a /= k");
}
R_SPEC(r3_products) {
  ANY(R3Element<Length>, a); ANY(R3Element<Mass>, b);
  dot(a, b, Dot(a, b), "Dot"); cross(a, b, Cross(a, b), "Cross");
  dot(a, a, a.Norm²(), "Norm²");
  ENSURE(a.Norm() >= Length()); ENSURE_EQ(pr::mag(a.Norm() * a.Norm()), pr::mag(a.Norm²()));
  for (int i = 0; i < 3; ++i) { auto const e = BasisVector(i); for (int j = 0; j < 3; ++j) ENSURE_EQ(e[j], i == j ? 1.0 : 0.0); }
}
R_SPEC(r3_equality) {
  ANY(R3Element<Length>, a); ANY(R3Element<Length>, b);
  bool const e = a.x == b.x && a.y == b.y && a.z == b.z;
  ENSURE((a == b) == e); ENSURE((a != b) == !e);
}
R_SPEC(r3_normalize) {
  ANY(R3Element<Length>, a);
  REQUIRE(a.Norm² () > Square<Length>());
  auto const n = Normalize(a);
  ENSURE_EQ(n.Norm²(), 1); scaled(n, pr::mag(a.Norm()), a, "Normalize(a) * |a| == a");
  auto const z = NormalizeOrZero(a);
  EQ(z, n);
}
R_SPEC(r3_normalize_zero) {
  auto const z = NormalizeOrZero(R3Element<Length>());
  EQ(z, R3Element<double>());
}
R_SPEC(r3_orthogonalization) {
  ANY(R3Element<Length>, a); ANY(R3Element<Mass>, b);
  REQUIRE(b.Norm²() > Square<Mass>());
  auto const o = a.OrthogonalizationAgainst(b);
  ENSURE_EQ(pr::mag(Dot(o, b)), 0);
  // Coplanar, and on the same side.
  ENSURE_EQ(pr::mag(Dot(o, Cross(a, b))), 0);
  ENSURE_EQ(pr::mag(Dot(o, a)), pr::mag(o.Norm²()));
  EQ(Cross(o, b), Cross(a, b));
}
R_SPEC(r3_spherical) {
  ANY(R3Element<Length>, a);
  REQUIRE(a.x * a.x + a.y * a.y > Square<Length>());
  auto const s = a.ToSpherical();
  ENSURE(s.radius >= Length()); ENSURE_EQ(pr::mag(s.radius * s.radius), pr::mag(a.Norm²()));
  EQ(s.ToCartesian(), a);
}
R_SPEC(r3_from_spherical) {
  ANY(Length, r); ANY(Angle, lat); ANY(Angle, lon);
  auto const s = RadiusLatitudeLongitude(r, lat, lon);
  EQ(s.radius, r); EQ(s.latitude, lat); EQ(s.longitude, lon);
  using namespace principia::numerics::_elementary_functions;
  auto const c = s.ToCartesian();
  EQ(c.x, r * Cos(lon) * Cos(lat)); EQ(c.y, r * Sin(lon) * Cos(lat)); EQ(c.z, r * Sin(lat));
}
// The exterior algebra.
template<int r> void module_laws() {
  using ML = Multivector<Length, F, r>;
  ANY(ML, a); ANY(ML, b); ANY(double, k); ANY(Mass, m);
  EQ(a.coordinates(), a.coordinates_);
  EQ((a + b).coordinates(), a.coordinates() + b.coordinates());
  EQ((a - b).coordinates(), a.coordinates() - b.coordinates());
  EQ((-a).coordinates(), -a.coordinates()); EQ((+a).coordinates(), a.coordinates());
  EQ((k * a).coordinates(), k * a.coordinates()); EQ((a * k).coordinates(), a.coordinates() * k);
  EQ((m * a).coordinates(), m * a.coordinates()); EQ((a * m).coordinates(), a.coordinates() * m);
  auto c = a; c += b; EQ(c, a + b); c = a; c -= b; EQ(c, a - b); c = a; c *= k; EQ(c, k * a);
  EQ(a.Norm²(), InnerProduct(a, a));
  ENSURE(a.Norm() >= Length()); EQ(a.Norm() * a.Norm(), a.Norm²());
  REQUIRE(k != 0); REQUIRE(m != Mass());
  EQ((a / k) * k, a); EQ((a / m) * m, a); c = a; c /= k; EQ(c * k, a);
  ENSURE((a == b) == (a.coordinates() == b.coordinates())); ENSURE((a != b) == !(a == b));
  EQ(ML().coordinates(), decltype(a.coordinates() + a.coordinates())());
}
R_SPEC(vector_module) { module_laws<1>(); }
R_SPEC(bivector_module) { module_laws<2>(); }
R_SPEC(trivector_module) { module_laws<3>(); }
R_SPEC(inner_products) {
  ANY(VL, v); ANY(VM, w); ANY(BL, b); ANY(BM, c); ANY(TL, t); ANY(TM, u);
  dot(v.coordinates(), w.coordinates(), InnerProduct(v, w), "InnerProduct(v, w)");
  dot(b.coordinates(), c.coordinates(), InnerProduct(b, c), "InnerProduct(b, c)");
  EQ(InnerProduct(t, u), t.coordinates() * u.coordinates());
}
R_SPEC(wedge) {
  ANY(VL, v); ANY(VM, w); ANY(BL, b);
  cross(v.coordinates(), w.coordinates(), Wedge(v, w).coordinates(), "Wedge(v, w)");
  dot(b.coordinates(), w.coordinates(), Wedge(b, w).coordinates(), "Wedge(b, w)");
  dot(b.coordinates(), w.coordinates(), Wedge(w, b).coordinates(), "Wedge(w, b)");
  EQ(Wedge(v, v).coordinates(), R3Element<Square<Length>>());
  EQ(Wedge(v, w), -Wedge(w, v));
  EQ(Wedge(Wedge(v, w), v).coordinates(), 0 * Wedge(Wedge(v, w), v).coordinates());
}
R_SPEC(commutator_and_actions) {
  ANY(BL, a); ANY(BM, b); ANY(VM, v); ANY(TM, t); ANY(VL, w);
  cross(a.coordinates(), b.coordinates(), Commutator(a, b).coordinates(), "Commutator");
  cross(a.coordinates(), v.coordinates(), (a * v).coordinates(), "bivector * vector");
  cross(v.coordinates(), a.coordinates(), (v * a).coordinates(), "vector * bivector");
  scaled(a.coordinates(), pr::mag(t.coordinates()), (a * t).coordinates(), "bivector * trivector");
  scaled(a.coordinates(), pr::mag(t.coordinates()), (t * a).coordinates(), "trivector * bivector");
  scaled(w.coordinates(), pr::mag(t.coordinates()), (w * t).coordinates(), "vector * trivector");
  scaled(w.coordinates(), pr::mag(t.coordinates()), (t * w).coordinates(), "trivector * vector");
}
R_SPEC(jacobi) {
  ANY(BL, a); ANY(BL, b); ANY(BL, c);
  auto const j = Commutator(a, Commutator(b, c)) + Commutator(b, Commutator(c, a)) + Commutator(c, Commutator(a, b));
  EQ(j.coordinates(), R3Element<Cube<Length>>());
}
R_SPEC(normalize) {
  ANY(VL, v); ANY(BL, b);
  REQUIRE(v.Norm²() > Square<Length>()); REQUIRE(b.Norm²() > Square<Length>());
  EQ(Normalize(v) * v.Norm(), v); EQ(NormalizeOrZero(v), Normalize(v)); ENSURE_EQ(Normalize(v).Norm²(), 1);
  EQ(Normalize(b) * b.Norm(), b); EQ(NormalizeOrZero(b), Normalize(b)); ENSURE_EQ(Normalize(b).Norm²(), 1);
}
R_SPEC(normalize_trivector) {
  ANY(TL, t);
  REQUIRE(t.coordinates() != Length());
  EQ(Normalize(t) * t.Norm(), t); EQ(NormalizeOrZero(t), Normalize(t));
  ENSURE_EQ(Normalize(t).Norm²(), 1);
}
R_SPEC(normalize_or_zero) {
  EQ(NormalizeOrZero(VL()).coordinates(), R3Element<double>());
  EQ(NormalizeOrZero(BL()).coordinates(), R3Element<double>());
  EQ(NormalizeOrZero(TL()).coordinates(), 0.0);
}
R_SPEC(orthogonalization) {
  ANY(VL, v); ANY(VM, w); ANY(BL, b); ANY(BM, c);
  REQUIRE(w.Norm²() > Square<Mass>()); REQUIRE(c.Norm²() > Square<Mass>());
  auto const o = v.OrthogonalizationAgainst(w);
  EQ(InnerProduct(o, w), 0 * InnerProduct(o, w)); EQ(Wedge(o, w), Wedge(v, w));
  auto const p = b.OrthogonalizationAgainst(c);
  EQ(InnerProduct(p, c), 0 * InnerProduct(p, c)); EQ(Commutator(p, c), Commutator(b, c));
}
