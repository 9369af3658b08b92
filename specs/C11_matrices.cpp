#include "pr.hpp"
#include "geometry/rotation.hpp"
using namespace principia::geometry::_rotation;
using namespace principia::quantities::_quantities;
using RA = Frame<struct TA, Inertial>; using RB = Frame<struct TB, Inertial>;
using M = R3x3Matrix<Length>; using N = R3x3Matrix<Mass>; using V = R3Element<Time>;
using Cr = Cube<Length>;
template<typename A, typename B> auto mul(A const& a, B const& b, int i, int j) { return a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j); }
#define FORALL_IJ for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
R_SPEC(matrix_linear) {
  ANY(M, a); ANY(M, b); ANY(double, k); ANY(Mass, m); REQUIRE(k != 0); REQUIRE(m != Mass());
  FORALL_IJ {
    EQ((a + b)(i, j), a(i, j) + b(i, j)); EQ((a - b)(i, j), a(i, j) - b(i, j)); EQ((+a)(i, j), a(i, j)); EQ((-a)(i, j), -a(i, j));
    EQ((k * a)(i, j), k * a(i, j)); EQ((a * k)(i, j), k * a(i, j)); EQ((a / k)(i, j), a(i, j) / k);
    EQ((m * a)(i, j), m * a(i, j)); EQ((a * m)(i, j), m * a(i, j)); EQ((a / m)(i, j), a(i, j) / m);
    EQ(a.Transpose()(i, j), a(j, i));
    M c = a; c += b; EQ(c(i, j), a(i, j) + b(i, j)); c -= a; EQ(c(i, j), b(i, j)); c *= k; EQ(c(i, j), k * b(i, j)); c /= k; EQ(c(i, j), b(i, j));
    M d = a; d(i, j) = b(i, j); EQ(d(i, j), b(i, j)); EQ(d((i + 1) % 3, j), a((i + 1) % 3, j)); EQ(d(i, (j + 1) % 3), a(i, (j + 1) % 3));
  }
  EQ(a.Trace(), a(0, 0) + a(1, 1) + a(2, 2)); EQ(a.FrobeniusNorm() * a.FrobeniusNorm(), (a.Transpose() * a).Trace()); ENSURE(a.FrobeniusNorm() >= Length());
  EQ(a.row_x(), (R3Element<Length>(a(0, 0), a(0, 1), a(0, 2)))); EQ(a.row_y(), (R3Element<Length>(a(1, 0), a(1, 1), a(1, 2)))); EQ(a.row_z(), (R3Element<Length>(a(2, 0), a(2, 1), a(2, 2))));
  EQ(a.Diagonal(), (R3Element<Length>(a(0, 0), a(1, 1), a(2, 2))));
  ENSURE((a == a)); ENSURE(!(a != a));
}
R_SPEC(matrix_product) {
  ANY(M, a); ANY(N, b); ANY(V, v); ANY(R3x3Matrix<double>, q);
  FORALL_IJ { EQ((a * b)(i, j), mul(a, b, i, j)); R3x3Matrix<double> c = q; c *= q; EQ(c(i, j), mul(q, q, i, j));
    EQ(KroneckerProduct(v, a.row_x())(i, j), v[i] * a(0, j)); EQ(R3x3Matrix<double>::Identity()(i, j), i == j ? 1.0 : 0.0);
    EQ(M::DiagonalMatrix(a.row_x())(i, j), i == j ? a(0, i) : Length()); }
  for (int i = 0; i < 3; ++i) { EQ((a * v)[i], a(i, 0) * v.x + a(i, 1) * v.y + a(i, 2) * v.z); EQ((v * a)[i], a(0, i) * v.x + a(1, i) * v.y + a(2, i) * v.z); }
  EQ((a * b).Determinant(), a.Determinant() * b.Determinant()); EQ(a.Transpose().Determinant(), a.Determinant()); ENSURE_EQ(R3x3Matrix<double>::Identity().Determinant(), 1);
  ANY(Length, s); ANY(Length, t); M d = a; d(0, 0) = s; d(1, 1) = t; ENSURE(d.IsDiagonalMatrix() == (a(0,1) == Length() && a(0,2) == Length() && a(1,0) == Length() && a(1,2) == Length() && a(2,0) == Length() && a(2,1) == Length()));
}
// Solve solves any nonsingular system; in particular no CHECK fails.
R_SPEC(matrix_solve) {
  ANY(M, a); ANY(R3Element<Mass>, b); REQUIRE(a.Determinant() != Cube<Length>());
  auto const x = a.Solve(b); EQ(a * x, b);
}
// For nonsingular triangular, permuted triangular and diagonally dominant matrices there is always a solution.
R_SPEC(matrix_solve_triangular) {
  ANY(R3Element<Length>, d); ANY(Length, p); ANY(Length, q); ANY(Length, r); ANY(R3Element<Mass>, b); REQUIRE(d.x != Length()); REQUIRE(d.y != Length()); REQUIRE(d.z != Length());
  M const a({d.x, p, q}, {Length(), d.y, r}, {Length(), Length(), d.z}); EQ(a * a.Solve(b), b);
}
// Nonsingular matrices for which choosing the pivots without regard to the eliminations fails.
R_SPEC(matrix_solve_zero_pivot) {
  R3x3Matrix<double> const a({1, 1, 0}, {1, 1, 1}, {0, 0.5, 1}); ENSURE(a.Determinant() != 0);
  auto const x = a.Solve(R3Element<double>(1, 2, 3)); ENSURE(x.x == x.x);
}
R_SPEC(matrix_solve_not_singular) {
  R3x3Matrix<double> const a({2, 1, 0}, {1, 0, 1}, {1, 0, 2}); ENSURE(a.Determinant() != 0);
  EQ((a * a.Solve(R3Element<double>(1, 2, 3))), R3Element<double>(1, 2, 3));
}
R_SPEC(matrix_qr) {
  ANY(M, a); REQUIRE(a.Determinant() != Cube<Length>());
  R3x3Matrix<double> q; M r; a.QRDecomposition(q, r);
  FORALL_IJ { if (i > j) EQ(r(i, j), Length()); else if (i == j) ENSURE(r(i, i) >= Length()); EQ((q * r)(i, j), a(i, j)); EQ(mul(q.Transpose(), q, i, j), i == j ? 1.0 : 0.0); }
  EQ(r.Determinant() * r.Determinant(), a.Determinant() * a.Determinant());
}
// Symmetric bilinear forms.
template<template<typename, typename> typename MV> void form_laws() {
  using F = SymmetricBilinearForm<Mass, RA, MV>;
  ANYT(f, F); ANYT(g, F); ANYT(u, MV<Length, RA>); ANYT(v, MV<Length, RA>); ANYT(w, MV<Time, RA>); ANY(double, k); ANY(Speed, s); REQUIRE(k != 0); REQUIRE(s != Speed());
  EQ(f(u, w), f(w, u)); EQ(f(u + v, w), f(u, w) + f(v, w)); EQ(f(k * u, w), k * f(u, w)); EQ(f(u, w), InnerProduct(u, f * w)); EQ(f(u, w), InnerProduct(u * f, w));
  EQ((f + g)(u, w), f(u, w) + g(u, w)); EQ((f - g)(u, w), f(u, w) - g(u, w)); EQ((-f)(u, w), -f(u, w)); EQ((+f)(u, w), f(u, w));
  EQ((k * f)(u, w), k * f(u, w)); EQ((f * k)(u, w), k * f(u, w)); EQ((f / k)(u, w), f(u, w) / k); EQ((s * f)(u, w), s * f(u, w)); EQ((f * s)(u, w), s * f(u, w)); EQ((f / s)(u, w), f(u, w) / s);
  F h = f; h += g; EQ(h.coordinates(), (f + g).coordinates()); h -= f; EQ(h.coordinates(), g.coordinates()); h *= k; EQ(h.coordinates(), (k * g).coordinates()); h /= k; EQ(h.coordinates(), g.coordinates());
  EQ((InnerProductForm<RA, MV>()(u, w)), InnerProduct(u, w));
}
R_SPEC(form_on_vectors) { form_laws<Vector>(); }
R_SPEC(form_on_bivectors) { form_laws<Bivector>(); }
R_SPEC(form_solve) {
  vc_may_abort(1);  // See matrix_solve.
  ANYT(f, SymmetricBilinearForm<MomentOfInertia, RA, Bivector>); REQUIRE(f.coordinates().Determinant() != Cube<MomentOfInertia>());
  ANYT(l, Bivector<AngularMomentum, RA>); EQ(f * (l / f), l);
}
R_SPEC(form_anticommutator) {
  ANYT(f, SymmetricBilinearForm<Mass, RA, Vector>); ANYT(g, SymmetricBilinearForm<Mass, RA, Bivector>); ANYT(a, Bivector<Length, RA>); ANYT(b, Bivector<Time, RA>); ANYT(v, Vector<Length, RA>); ANYT(w, Vector<Time, RA>);
  EQ(f.Anticommutator() * a, Anticommutator(f, a)); EQ(f.Anticommutator()(a, b), InnerProduct(a, Anticommutator(f, b)));
  EQ(f.Anticommutator() * Wedge(v, w), Wedge(f * v, w) + Wedge(v, f * w));
  EQ(f.Anticommutator().AnticommutatorInverse().coordinates(), f.coordinates()); EQ(g.AnticommutatorInverse().Anticommutator().coordinates(), g.coordinates());
}
R_SPEC(form_products) {
  ANYT(u, Vector<Length, RA>); ANYT(v, Vector<Time, RA>); ANYT(x, Vector<Mass, RA>); ANYT(y, Vector<double, RA>);
  EQ(SymmetricProduct(u, v)(x, y), (InnerProduct(u, x) * InnerProduct(v, y) + InnerProduct(v, x) * InnerProduct(u, y)) / 2);
  EQ(SymmetricSquare(u)(x, y), InnerProduct(u, x) * InnerProduct(u, y)); EQ(SymmetricProduct(u, v).coordinates(), SymmetricProduct(v, u).coordinates());
  FORALL_IJ EQ(SymmetricProduct(u, v).coordinates()(i, j), SymmetricProduct(u, v).coordinates()(j, i));
}
// One Jacobi step annihilates the chosen off-diagonal element, by a rotation.
R_SPEC(jacobi_step) {
  using namespace principia::geometry::_symmetric_bilinear_form::internal;
  ANYT(f, SymmetricBilinearForm<Mass, RA, Vector>); auto const& A = f.coordinates(); 
  for (int p = 0; p < 3; ++p) for (int q = p + 1; q < 3; ++q) {
    if (!vc_bool("pq")) continue;
    auto const th = SymmetricSchurDecomposition2By2(A, p, q);
    ENSURE_EQ(th.cos * th.cos + th.sin * th.sin, 1); 
    EQ((A(p, p) - A(q, q)) * (th.cos * th.sin) + A(p, q) * (th.cos * th.cos - th.sin * th.sin), Mass());
    ENSURE(th.cos > 0); ENSURE(th.sin <= th.cos && -th.sin <= th.cos);
    return;
  }
}
R_SPEC(jacobi_rotation) {
  using namespace principia::geometry::_symmetric_bilinear_form::internal;
  ANYT(f, SymmetricBilinearForm<Mass, RA, Vector>); auto const& A = f.coordinates(); ANY(double, c); ANY(double, s); REQUIRE(c * c + s * s == 1);
  for (int p = 0; p < 3; ++p) for (int q = p + 1; q < 3; ++q) {
    auto const J = JacobiRotation(p, q, {c, s}); ENSURE_EQ(J.Determinant(), 1);
    FORALL_IJ EQ(mul(J.Transpose(), J, i, j), i == j ? 1.0 : 0.0);
    EQ((J.Transpose() * A * J)(p, q), (A(p, p) - A(q, q)) * (c * s) + A(p, q) * (c * c - s * s));
  }
}
// Diagonalization of a form whose matrix is already diagonal: ordering and orientation of the eigenvectors.
R_SPEC(diagonalize_sorting) {
  ANY(Mass, a); ANY(Mass, b); ANY(Mass, c); ANYT(v, Vector<Length, RA>); ANYT(w, Vector<Length, RA>);
  SymmetricBilinearForm<Mass, RA, Vector> const f(R3x3Matrix<Mass>::DiagonalMatrix({a, b, c}));
  auto const e = f.Diagonalize<RB>();
  ENSURE(e.form.IsDiagonalized()); EQ(e.rotation(e.form)(v, w), f(v, w)); auto const q = e.rotation.quaternion(); ENSURE_EQ(q.real_part() * q.real_part() + Dot(q.imaginary_part(), q.imaginary_part()), 1);
}
