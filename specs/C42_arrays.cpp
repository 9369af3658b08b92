// Arrays and matrices of fixed size, on the stack and on the heap.
#include "pr.hpp"
#include "numerics/fixed_arrays.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_transposed_view;
using namespace principia::base::_tags;
namespace {
template<typename S, std::int64_t n> std::array<S, n> values(char const* name) {
  std::array<S, n> a;
  for (int i = 0; i < n; ++i) a[i] = pr::any<S>(pr::cat(name, i).s);
  return a;
}
// Vectors.
template<typename S, int n, bool h, bool k> void vectors() {
  using V = FixedVector<S, n, h>; using W = FixedVector<S, n, k>;
  auto const x = values<S, n>("x"), y = values<S, n>("y");
  ANY(double, a); ANY(Time, t); REQUIRE(a != 0.0); REQUIRE(t != 0 * si::Unit<Time>);
  V const v(x); W const w(y);
  V const zero;
  ENSURE(V::size() == n && V::dimension == n);
  auto const back = static_cast<std::array<S, n>>(v);
  { int i = 0; for (auto const& e : v) { EQ(e, x[i]); ++i; } ENSURE(i == n); }
  V const copy(v); W const other(v); V moved(V{x}); V assigned; assigned = w; V moved2; moved2 = V(x);
  S raw[n]; for (int i = 0; i < n; ++i) raw[i] = y[i];
  V fromraw; fromraw = raw;
  V p(v), m(v), s(v), q(v); p += w; m -= w; s *= a; q /= a;
  auto const sum = v + w; auto const diff = v - w; auto const neg = -v; auto const same = +v;
  auto const l = t * v; auto const r = v * t; auto const d = v / t;
  for (int i = 0; i < n; ++i) {
    EQ(v[i], x[i]); EQ(zero[i], S{}); EQ(back[i], x[i]);
    EQ(copy[i], x[i]); EQ(other[i], x[i]); EQ(moved[i], x[i]); EQ(assigned[i], y[i]); EQ(moved2[i], x[i]); EQ(fromraw[i], y[i]);
    EQ(p[i], x[i] + y[i]); EQ(m[i], x[i] - y[i]); EQ(s[i], x[i] * a); EQ(q[i], x[i] / a);
    EQ(sum[i], x[i] + y[i]); EQ(diff[i], x[i] - y[i]); EQ(neg[i], -x[i]); EQ(same[i], x[i]);
    EQ(l[i], t * x[i]); EQ(r[i], x[i] * t); EQ(d[i], x[i] / t);
  }
  auto dot = x[0] * y[0]; auto n2 = x[0] * x[0];
  for (int i = 1; i < n; ++i) { dot += x[i] * y[i]; n2 += x[i] * x[i]; }
  EQ(TransposedView{v} * w, dot);
  EQ(x.data() * w, dot);
  EQ(InnerProduct(v, w), dot);
  EQ(v.Norm²(), n2);
  if constexpr (n > 1) {
    auto const outer = v * TransposedView{w};
    auto const sp = SymmetricProduct(v, w); auto const sq = SymmetricSquare(v);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      EQ(outer(i, j), x[i] * y[j]);
      EQ(sp(i, j), 0.5 * (x[i] * y[j] + x[j] * y[i]));
      EQ(sq(i, j), x[i] * x[j]);
    }
  }
}
template<int n, bool h> void norms() {
  auto const x = values<Length, n>("x");
  FixedVector<Length, n, h> const v(x);
  auto n2 = x[0] * x[0];
  for (int i = 1; i < n; ++i) n2 += x[i] * x[i];
  REQUIRE(n2 > 0 * si::Unit<Area>);
  auto const l = v.Norm();
  ENSURE(l >= 0 * si::Unit<Length>); EQ(l * l, n2);
  auto const u = v.Normalize(); auto const w = Normalize(v);
  for (int i = 0; i < n; ++i) { EQ(u[i] * l, x[i]); EQ(w[i] * l, x[i]); }
}
template<int n, bool h, bool k> void vector_equality() {
  auto const x = values<double, n>("x"), y = values<double, n>("y");
  FixedVector<double, n, h> const v(x); FixedVector<double, n, k> const w(y);
  bool e = true;
  for (int i = 0; i < n; ++i) e = e & (x[i] == y[i]);
  ENSURE((v == w) == e);
}
// Matrices.
template<typename S, int r, int c, bool h, bool k> void matrices() {
  using M = FixedMatrix<S, r, c, h>; using N = FixedMatrix<S, r, c, k>;
  auto const x = values<S, r * c>("x"), y = values<S, r * c>("y");
  ANY(double, a); ANY(Time, t); REQUIRE(a != 0.0); REQUIRE(t != 0 * si::Unit<Time>);
  M const A(x); N const B(y); M const zero;
  ENSURE(M::rows() == r && M::columns() == c);
  M const copy(A); N const other(A); M moved(M{x}); M assigned; assigned = B; M moved2; moved2 = M(x);
  S raw[r * c]; for (int i = 0; i < r * c; ++i) raw[i] = y[i];
  M fromraw;
  // The assignment from an array does not compile for matrices on the heap.
  if constexpr (h) fromraw = M(y); else fromraw = raw;
  M p(A), m(A), s(A), q(A); p += B; m -= B; s *= a; q /= a;
  auto const sum = A + B; auto const diff = A - B; auto const neg = -A; auto const same = +A;
  auto const left = t * A; auto const right = A * t; auto const d = A / t;
  TransposedView<M> const v{A};
  FixedMatrix<S, c, r, h> const T(v);
  ENSURE(v.rows() == c && v.columns() == r);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
    int const n = i * c + j;
    EQ(A(i, j), x[n]); EQ(zero(i, j), S{}); EQ(A.row(i)[j], x[n]);
    EQ(copy(i, j), x[n]); EQ(other(i, j), x[n]); EQ(moved(i, j), x[n]); EQ(assigned(i, j), y[n]); EQ(moved2(i, j), x[n]); EQ(fromraw(i, j), y[n]);
    EQ(p(i, j), x[n] + y[n]); EQ(m(i, j), x[n] - y[n]); EQ(s(i, j), x[n] * a); EQ(q(i, j), x[n] / a);
    EQ(sum(i, j), x[n] + y[n]); EQ(diff(i, j), x[n] - y[n]); EQ(neg(i, j), -x[n]); EQ(same(i, j), x[n]);
    EQ(left(i, j), t * x[n]); EQ(right(i, j), x[n] * t); EQ(d(i, j), x[n] / t);
    EQ(v(j, i), x[n]); EQ(T(j, i), x[n]);
  }
}
template<int r, int k, int c, bool h, bool g> void products() {
  auto const x = values<Length, r * k>("x"); auto const y = values<Time, k * c>("y");
  auto const u = values<Mass, k>("u"); auto const w = values<Mass, r>("w");
  FixedMatrix<Length, r, k, h> const A(x); FixedMatrix<Time, k, c, g> const B(y);
  FixedVector<Mass, k, g> const U(u); FixedVector<Mass, r, g> const W(w);
  auto const AB = A * B; auto const AU = A * U; auto const AW = TransposedView{A} * W;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
    auto s = x[i * k] * y[j];
    for (int l = 1; l < k; ++l) s += x[i * k + l] * y[l * c + j];
    EQ(AB(i, j), s);
  }
  for (int i = 0; i < r; ++i) {
    auto s = x[i * k] * u[0];
    for (int l = 1; l < k; ++l) s += x[i * k + l] * u[l];
    EQ(AU[i], s);
    EQ(A.row(i) * U, s);
  }
  for (int j = 0; j < k; ++j) {
    auto s = x[j] * w[0];
    for (int l = 1; l < r; ++l) s += x[l * k + j] * w[l];
    EQ(AW[j], s);
  }
}
template<int n, bool h> void squares() {
  auto const x = values<Length, n * n>("x"); auto const y = values<double, n * n>("y");
  auto const u = values<Mass, n>("u"); auto const w = values<Time, n>("w");
  FixedMatrix<Length, n, n, h> A(x); FixedMatrix<double, n, n, h> const B(y);
  FixedVector<Mass, n, h> const U(u); FixedVector<Time, n, h> const W(w);
  auto s = u[0] * (x[0] * w[0]); s -= s; auto f = x[0] * x[0]; f -= f;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { s += u[i] * (x[i * n + j] * w[j]); f += x[i * n + j] * x[i * n + j]; }
  EQ(A(U, W), s);
  auto const frobenius = A.FrobeniusNorm();
  ENSURE(frobenius >= 0 * si::Unit<Length>); EQ(frobenius * frobenius, f);
  A *= B;
  auto const I = FixedMatrix<double, n, n, h>::Identity();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto e = x[i * n] * y[j];
    for (int l = 1; l < n; ++l) e += x[i * n + l] * y[l * n + j];
    EQ(A(i, j), e); EQ(I(i, j), i == j ? 1.0 : 0.0);
  }
}
template<int r, int c, bool h, bool k> void matrix_equality() {
  auto const x = values<double, r * c>("x"), y = values<double, r * c>("y");
  FixedMatrix<double, r, c, h> const v(x); FixedMatrix<double, r, c, k> const w(y);
  bool e = true;
  for (int i = 0; i < r * c; ++i) e = e & (x[i] == y[i]);
  ENSURE((v == w) == e);
}
// Triangular matrices: the elements, in row-major order, are those for which inside(i, j).
struct Lower { static constexpr bool inside(int i, int j) { return j <= i; } };
struct StrictlyLower { static constexpr bool inside(int i, int j) { return j < i; } };
struct Upper { static constexpr bool inside(int i, int j) { return i <= j; } };
struct StrictlyUpper { static constexpr bool inside(int i, int j) { return i < j; } };
template<template<typename, std::int64_t, bool> typename M, typename Shape, int n, bool h, bool k> void triangular() {
  constexpr int size = [] { int s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s += Shape::inside(i, j); return s; }();
  using T = M<Length, n, h>; using O = M<Length, n, k>;
  auto const x = values<Length, size>("x"), y = values<Length, size>("y");
  T const A(x); O const B(y); T const zero;
  ENSURE(T::rows() == n && T::columns() == n);
  T const copy(A); O const other(A); T moved(T{x}); T assigned; assigned = B; T moved2; moved2 = T(x);
  Length raw[size]; for (int i = 0; i < size; ++i) raw[i] = y[i];
  T fromraw; fromraw = raw;
  T written(A);
  Length const z = pr::any<Length>("z");
  auto const F = static_cast<FixedMatrix<Length, n, n, h>>(A);
  int e = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (Shape::inside(i, j)) {
      EQ(A(i, j), x[e]); EQ(zero(i, j), Length{}); EQ(F(i, j), x[e]);
      EQ(copy(i, j), x[e]); EQ(other(i, j), x[e]); EQ(moved(i, j), x[e]); EQ(assigned(i, j), y[e]); EQ(moved2(i, j), x[e]); EQ(fromraw(i, j), y[e]);
      // Writing an element changes no other.
      T one(A); one(i, j) = z;
      int f = 0;
      for (int i1 = 0; i1 < n; ++i1) for (int j1 = 0; j1 < n; ++j1) if (Shape::inside(i1, j1)) { EQ(one(i1, j1), f == e ? z : x[f]); ++f; }
      ++e;
    } else {
      EQ(F(i, j), Length{});
    }
  }
}
template<template<typename, std::int64_t, bool> typename M, typename Shape, int n, bool h, bool k> void triangular_equality() {
  constexpr int size = [] { int s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s += Shape::inside(i, j); return s; }();
  auto const x = values<double, size>("x"), y = values<double, size>("y");
  M<double, n, h> const v(x); M<double, n, k> const w(y);
  bool e = true;
  for (int i = 0; i < size; ++i) e = e & (x[i] == y[i]);
  ENSURE((v == w) == e);
}
template<template<typename, std::int64_t, bool> typename From, template<typename, std::int64_t, bool> typename To, typename Shape, int n, bool h> void transposed() {
  constexpr int size = [] { int s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s += Shape::inside(i, j); return s; }();
  auto const x = values<Length, size>("x");
  From<Length, n, h> const A(x);
  To<Length, n, h> const T(TransposedView<From<Length, n, h>>{A});
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (Shape::inside(i, j)) EQ(T(j, i), A(i, j));
}
}  // namespace
R_SPEC(fixed_vectors_stack) { vectors<Length, 3, false, false>(); }
R_SPEC(fixed_vectors_heap) { vectors<Length, 3, true, true>(); }
R_SPEC(fixed_vectors_mixed) { vectors<Length, 4, false, true>(); }
R_SPEC(fixed_vectors_mixed_2) { vectors<Length, 2, true, false>(); }
R_SPEC(fixed_vectors_one) { vectors<Length, 1, false, false>(); }
R_SPEC(fixed_vectors_double) { vectors<double, 5, false, false>(); }
R_SPEC(fixed_vector_norm_stack) { norms<3, false>(); }
R_SPEC(fixed_vector_norm_heap) { norms<2, true>(); }
R_SPEC(fixed_vector_equality) { vector_equality<3, false, false>(); }
R_SPEC(fixed_vector_equality_mixed) { vector_equality<2, true, false>(); }
R_SPEC(fixed_matrices_stack) { matrices<Length, 2, 3, false, false>(); }
R_SPEC(fixed_matrices_heap) { matrices<Length, 3, 2, true, true>(); }
R_SPEC(fixed_matrices_mixed) { matrices<Length, 3, 4, false, true>(); }
R_SPEC(fixed_matrices_mixed_2) { matrices<double, 2, 2, true, false>(); }
R_SPEC(fixed_products_stack) { products<2, 3, 4, false, false>(); }
R_SPEC(fixed_products_heap) { products<3, 2, 2, true, true>(); }
R_SPEC(fixed_products_mixed) { products<4, 1, 3, true, false>(); }
R_SPEC(fixed_products_large) {
  auto const x = values<double, 65>("x"); auto const y = values<double, 65>("y");
  FixedMatrix<double, 1, 65> const A(x); FixedVector<double, 65> const u(y);
  double s = 0; for (int i = 0; i < 65; ++i) s += x[i] * y[i];
  EQ((A * u)[0], s);
}
R_SPEC(fixed_squares) { squares<2, false>(); }
R_SPEC(fixed_squares_heap) { squares<3, true>(); }
R_SPEC(fixed_matrix_equality) { matrix_equality<2, 2, false, false>(); }
R_SPEC(fixed_matrix_equality_mixed) { matrix_equality<1, 3, true, false>(); }
R_SPEC(fixed_lower) { triangular<FixedLowerTriangularMatrix, Lower, 3, false, false>(); }
R_SPEC(fixed_lower_heap) { triangular<FixedLowerTriangularMatrix, Lower, 4, true, true>(); }
R_SPEC(fixed_lower_mixed) { triangular<FixedLowerTriangularMatrix, Lower, 2, true, false>(); }
R_SPEC(fixed_strictly_lower) { triangular<FixedStrictlyLowerTriangularMatrix, StrictlyLower, 3, false, false>(); }
R_SPEC(fixed_strictly_lower_heap) { triangular<FixedStrictlyLowerTriangularMatrix, StrictlyLower, 4, true, true>(); }
R_SPEC(fixed_strictly_lower_mixed) { triangular<FixedStrictlyLowerTriangularMatrix, StrictlyLower, 4, false, true>(); }
R_SPEC(fixed_upper) { triangular<FixedUpperTriangularMatrix, Upper, 3, false, false>(); }
R_SPEC(fixed_upper_heap) { triangular<FixedUpperTriangularMatrix, Upper, 4, true, true>(); }
R_SPEC(fixed_upper_mixed) { triangular<FixedUpperTriangularMatrix, Upper, 2, true, false>(); }
R_SPEC(fixed_strictly_upper) { triangular<FixedStrictlyUpperTriangularMatrix, StrictlyUpper, 3, false, false>(); }
R_SPEC(fixed_strictly_upper_heap) { triangular<FixedStrictlyUpperTriangularMatrix, StrictlyUpper, 4, true, true>(); }
R_SPEC(fixed_strictly_upper_mixed) { triangular<FixedStrictlyUpperTriangularMatrix, StrictlyUpper, 4, true, false>(); }
R_SPEC(fixed_triangular_equality) {
  triangular_equality<FixedLowerTriangularMatrix, Lower, 2, false, true>();
}
R_SPEC(fixed_triangular_equality_strictly_lower) { triangular_equality<FixedStrictlyLowerTriangularMatrix, StrictlyLower, 3, false, false>(); }
R_SPEC(fixed_triangular_equality_upper) { triangular_equality<FixedUpperTriangularMatrix, Upper, 2, false, false>(); }
R_SPEC(fixed_triangular_equality_strictly_upper) { triangular_equality<FixedStrictlyUpperTriangularMatrix, StrictlyUpper, 3, true, false>(); }
R_SPEC(fixed_transpose_lower) { transposed<FixedUpperTriangularMatrix, FixedLowerTriangularMatrix, Upper, 3, false>(); }
R_SPEC(fixed_transpose_upper) { transposed<FixedLowerTriangularMatrix, FixedUpperTriangularMatrix, Lower, 3, true>(); }
R_SPEC(fixed_transpose_strictly_upper) { transposed<FixedStrictlyLowerTriangularMatrix, FixedStrictlyUpperTriangularMatrix, StrictlyLower, 4, false>(); }
