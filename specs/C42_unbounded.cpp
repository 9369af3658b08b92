// pv-bounded: unbounded_.* arrays of at most 4 rows and columns
// Arrays and matrices whose size is chosen at run time.
#include "pr.hpp"
#include "numerics/unbounded_arrays.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_unbounded_arrays;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_transposed_view;
using namespace principia::base::_tags;
namespace {
template<typename S, std::int64_t n> std::array<S, n> values(char const* name) {
  std::array<S, n> a;
  for (int i = 0; i < n; ++i) a[i] = pr::any<S>(pr::cat(name, i).s);
  return a;
}
template<typename T, typename S, std::size_t n> T make(std::array<S, n> const& a) {
  return [&]<int... i>(std::integer_sequence<int, i...>) { return T({a[i]...}); }(std::make_integer_sequence<int, n>());
}
template<typename S, int r, int c> UnboundedMatrix<S> matrix(std::array<S, r * c> const& a) {
  return [&]<int... i>(std::integer_sequence<int, i...>) { return UnboundedMatrix<S>(r, c, {a[i]...}); }(std::make_integer_sequence<int, r * c>());
}
template<typename T, typename S, std::size_t n> void assign(T& t, std::array<S, n> const& a) {
  [&]<int... i>(std::integer_sequence<int, i...>) { t = {a[i]...}; }(std::make_integer_sequence<int, n>());
}
template<typename T, typename S, std::size_t n> void extend(T& t, std::array<S, n> const& a) {
  [&]<int... i>(std::integer_sequence<int, i...>) { t.Extend({a[i]...}); }(std::make_integer_sequence<int, n>());
}
template<typename S, int n> void vectors() {
  using V = UnboundedVector<S>;
  auto const x = values<S, n>("x"), y = values<S, n>("y");
  ANY(double, a); ANY(Time, t); REQUIRE(a != 0.0); REQUIRE(t != 0 * si::Unit<Time>);
  V const v = make<V>(x), w = make<V>(y);
  V const zero(n);
  V const fixed(FixedVector<S, n>{x});
  ENSURE(v.size() == n && zero.size() == n && fixed.size() == n);
  ENSURE(V(n, uninitialized).size() == n);
  V const copy(v); V assigned(n); assigned = w; V fromlist(n); assign(fromlist, y);
  V p(v), m(v), s(v), q(v); p += w; m -= w; s *= a; q /= a;
  auto const sum = v + w; auto const diff = v - w; auto const neg = -v; auto const same = +v;
  auto const l = t * v; auto const r = v * t; auto const d = v / t;
  for (int i = 0; i < n; ++i) {
    EQ(v[i], x[i]); EQ(zero[i], S{}); EQ(fixed[i], x[i]);
    EQ(copy[i], x[i]); EQ(assigned[i], y[i]); EQ(fromlist[i], y[i]);
    EQ(p[i], x[i] + y[i]); EQ(m[i], x[i] - y[i]); EQ(s[i], x[i] * a); EQ(q[i], x[i] / a);
    EQ(sum[i], x[i] + y[i]); EQ(diff[i], x[i] - y[i]); EQ(neg[i], -x[i]); EQ(same[i], x[i]);
    EQ(l[i], t * x[i]); EQ(r[i], x[i] * t); EQ(d[i], x[i] / t);
  }
  ENSURE(p.size() == n && sum.size() == n && diff.size() == n && neg.size() == n && l.size() == n && r.size() == n && d.size() == n);
  auto dot = x[0] * y[0]; auto n2 = x[0] * x[0];
  for (int i = 1; i < n; ++i) { dot += x[i] * y[i]; n2 += x[i] * x[i]; }
  EQ(TransposedView{v} * w, dot);
  EQ(InnerProduct(v, w), dot);
  EQ(v.Norm²(), n2);
  auto const outer = v * TransposedView{w};
  auto const sp = SymmetricProduct(v, w); auto const sq = SymmetricSquare(v);
  ENSURE(outer.rows() == n && outer.columns() == n && sp.rows() == n && sp.columns() == n && sq.rows() == n && sq.columns() == n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    EQ(outer(i, j), x[i] * y[j]);
    EQ(sp(i, j), 0.5 * (x[i] * y[j] + x[j] * y[i]));
    EQ(sq(i, j), x[i] * x[j]);
  }
}
template<int n, int e> void vector_sizes() {
  using V = UnboundedVector<Length>;
  auto const x = values<Length, n>("x"); auto const y = values<Length, e>("y");
  V v = make<V>(x), w(v), u(v);
  v.Extend(e); extend(w, y); u.Extend(e, uninitialized);
  ENSURE(v.size() == n + e && w.size() == n + e && u.size() == n + e);
  for (int i = 0; i < n; ++i) { EQ(v[i], x[i]); EQ(w[i], x[i]); EQ(u[i], x[i]); }
  for (int i = 0; i < e; ++i) { EQ(v[n + i], Length{}); EQ(w[n + i], y[i]); }
  w.EraseToEnd(n - 1);
  ENSURE(w.size() == n - 1);
  for (int i = 0; i < n - 1; ++i) EQ(w[i], x[i]);
}
template<int n> void norms() {
  auto const x = values<Length, n>("x");
  auto const v = make<UnboundedVector<Length>>(x);
  auto n2 = x[0] * x[0];
  for (int i = 1; i < n; ++i) n2 += x[i] * x[i];
  REQUIRE(n2 > 0 * si::Unit<Area>);
  auto const l = v.Norm();
  ENSURE(l >= 0 * si::Unit<Length>); EQ(l * l, n2);
  auto const u = v.Normalize(); auto const w = Normalize(v);
  for (int i = 0; i < n; ++i) { EQ(u[i] * l, x[i]); EQ(w[i] * l, x[i]); }
}
template<int n, int o> void vector_equality() {
  auto const x = values<double, n>("x"); auto const y = values<double, o>("y");
  auto const v = make<UnboundedVector<double>>(x), w = make<UnboundedVector<double>>(y);
  bool e = n == o;
  if constexpr (n == o) for (int i = 0; i < n; ++i) e = e & (x[i] == y[i]);
  ENSURE((v == w) == e); ENSURE((v != w) == !e);
}
template<typename S, int r, int c> void matrices() {
  using M = UnboundedMatrix<S>;
  auto const x = values<S, r * c>("x"), y = values<S, r * c>("y");
  ANY(double, a); ANY(Time, t); REQUIRE(a != 0.0); REQUIRE(t != 0 * si::Unit<Time>);
  M const A = matrix<S, r, c>(x), B = matrix<S, r, c>(y); M const zero(r, c);
  ENSURE(A.rows() == r && A.columns() == c && zero.rows() == r && zero.columns() == c);
  M const copy(A); M assigned(r, c); assigned = B;
  M fromlist(r, c, uninitialized); assign(fromlist, y);
  ENSURE(fromlist.rows() == r && fromlist.columns() == c);
  M p(A), m(A), s(A), q(A); p += B; m -= B; s *= a; q /= a;
  auto const sum = A + B; auto const diff = A - B; auto const neg = -A; auto const same = +A;
  auto const left = t * A; auto const right = A * t; auto const d = A / t;
  TransposedView<M> const v{A};
  M const T(v);
  ENSURE(v.rows() == c && v.columns() == r && T.rows() == c && T.columns() == r);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
    int const n = i * c + j;
    EQ(A(i, j), x[n]); EQ(zero(i, j), S{});
    EQ(copy(i, j), x[n]); EQ(assigned(i, j), y[n]); EQ(fromlist(i, j), y[n]);
    EQ(p(i, j), x[n] + y[n]); EQ(m(i, j), x[n] - y[n]); EQ(s(i, j), x[n] * a); EQ(q(i, j), x[n] / a);
    EQ(sum(i, j), x[n] + y[n]); EQ(diff(i, j), x[n] - y[n]); EQ(neg(i, j), -x[n]); EQ(same(i, j), x[n]);
    EQ(left(i, j), t * x[n]); EQ(right(i, j), x[n] * t); EQ(d(i, j), x[n] / t);
    EQ(v(j, i), x[n]); EQ(T(j, i), x[n]);
  }
}
template<int r, int k, int c> void products() {
  auto const x = values<Length, r * k>("x"); auto const y = values<Time, k * c>("y");
  auto const u = values<Mass, k>("u"); auto const w = values<Mass, r>("w");
  auto const A = matrix<Length, r, k>(x); auto const B = matrix<Time, k, c>(y);
  FixedMatrix<Length, r, k> const FA(x); FixedMatrix<Time, k, c> const FB(y);
  auto const U = make<UnboundedVector<Mass>>(u), W = make<UnboundedVector<Mass>>(w);
  auto const AB = A * B; auto const AFB = A * FB; auto const FAB = FA * B;
  auto const AU = A * U; auto const AW = TransposedView{A} * W;
  ENSURE(AB.rows() == r && AB.columns() == c && AFB.rows() == r && AFB.columns() == c && FAB.rows() == r && FAB.columns() == c);
  ENSURE(AU.size() == r && AW.size() == k);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
    auto s = x[i * k] * y[j];
    for (int l = 1; l < k; ++l) s += x[i * k + l] * y[l * c + j];
    EQ(AB(i, j), s); EQ(AFB(i, j), s); EQ(FAB(i, j), s);
  }
  for (int i = 0; i < r; ++i) {
    auto s = x[i * k] * u[0];
    for (int l = 1; l < k; ++l) s += x[i * k + l] * u[l];
    EQ(AU[i], s);
  }
  for (int j = 0; j < k; ++j) {
    auto s = x[j] * w[0];
    for (int l = 1; l < r; ++l) s += x[l * k + j] * w[l];
    EQ(AW[j], s);
  }
}
template<int n> void squares() {
  auto const x = values<Length, n * n>("x"); auto const y = values<double, n * n>("y");
  auto const u = values<Mass, n>("u"); auto const w = values<Time, n>("w");
  auto A = make<UnboundedMatrix<Length>>(x); auto const B = make<UnboundedMatrix<double>>(y);
  auto const U = make<UnboundedVector<Mass>>(u); auto const W = make<UnboundedVector<Time>>(w);
  ENSURE(A.rows() == n && A.columns() == n);
  auto s = u[0] * (x[0] * w[0]); s -= s; auto f = x[0] * x[0]; f -= f;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { s += u[i] * (x[i * n + j] * w[j]); f += x[i * n + j] * x[i * n + j]; }
  EQ(A(U, W), s);
  auto const frobenius = A.FrobeniusNorm();
  ENSURE(frobenius >= 0 * si::Unit<Length>); EQ(frobenius * frobenius, f);
  A *= B;
  auto const I = UnboundedMatrix<double>::Identity(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto e = x[i * n] * y[j];
    for (int l = 1; l < n; ++l) e += x[i * n + l] * y[l * n + j];
    EQ(A(i, j), e); EQ(I(i, j), i == j ? 1.0 : 0.0);
  }
}
struct Lower { static constexpr bool inside(int i, int j) { return j <= i; } };
struct Upper { static constexpr bool inside(int i, int j) { return i <= j; } };
struct StrictlyUpper { static constexpr bool inside(int i, int j) { return i < j; } };
template<typename Shape> constexpr int elements(int n) { int s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s += Shape::inside(i, j); return s; }
template<template<typename> typename M, typename Shape, int n> void triangular() {
  constexpr int size = elements<Shape>(n);
  using T = M<Length>;
  auto const x = values<Length, size>("x"), y = values<Length, size>("y");
  T const A = make<T>(x); T const zero(n);
  ENSURE(A.rows() == n && A.columns() == n && zero.rows() == n && zero.columns() == n);
  T const copy(A); T fromlist(n, uninitialized); assign(fromlist, y);
  ENSURE(fromlist.rows() == n && fromlist.columns() == n);
  Length const z = pr::any<Length>("z");
  auto const F = static_cast<UnboundedMatrix<Length>>(A);
  ENSURE(F.rows() == n && F.columns() == n);
  int e = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (Shape::inside(i, j)) {
      EQ(A(i, j), x[e]); EQ(zero(i, j), Length{}); EQ(F(i, j), x[e]); EQ(copy(i, j), x[e]); EQ(fromlist(i, j), y[e]);
      T one(A); one(i, j) = z;
      int f = 0;
      for (int i1 = 0; i1 < n; ++i1) for (int j1 = 0; j1 < n; ++j1) if (Shape::inside(i1, j1)) { EQ(one(i1, j1), f == e ? z : x[f]); ++f; }
      ++e;
    } else {
      EQ(F(i, j), Length{});
    }
  }
}
// Extending a matrix of n columns to o columns keeps the old elements, and the new elements are in row-major order.
template<template<typename> typename M, typename Shape, int n, int o> void triangular_sizes() {
  constexpr int size = elements<Shape>(n), more = elements<Shape>(o) - size;
  using T = M<Length>;
  auto const x = values<Length, size>("x"); auto const y = values<Length, more>("y");
  T const A = make<T>(x);
  T a(A), b(A), c(A);
  a.Extend(o - n); extend(b, y); c.Extend(o - n, uninitialized);
  ENSURE(a.rows() == o && a.columns() == o && b.rows() == o && b.columns() == o && c.rows() == o && c.columns() == o);
  int e = 0;
  for (int i = 0; i < o; ++i) for (int j = 0; j < o; ++j) if (Shape::inside(i, j)) {
    if (i < n && j < n) { EQ(a(i, j), A(i, j)); EQ(b(i, j), A(i, j)); EQ(c(i, j), A(i, j)); }
    else { EQ(a(i, j), Length{}); EQ(b(i, j), y[e]); ++e; }
  }
  b.EraseToEnd(n - 1);
  ENSURE(b.rows() == n - 1 && b.columns() == n - 1);
  for (int i = 0; i < n - 1; ++i) for (int j = 0; j < n - 1; ++j) if (Shape::inside(i, j)) EQ(b(i, j), A(i, j));
}
template<template<typename> typename M, typename Shape, int n> void triangular_equality() {
  constexpr int size = elements<Shape>(n);
  auto const x = values<double, size>("x"), y = values<double, size>("y");
  M<double> const v = make<M<double>>(x), w = make<M<double>>(y);
  bool e = true;
  for (int i = 0; i < size; ++i) e = e & (x[i] == y[i]);
  ENSURE((v == w) == e); ENSURE((v != w) == !e);
  M<double> longer(w); longer.Extend(1);
  ENSURE(!(longer == w));
}
template<template<typename> typename From, template<typename> typename To, typename Shape, bool diagonal, int n> void transposed() {
  auto const x = values<Length, elements<Shape>(n)>("x");
  auto const A = make<From<Length>>(x);
  To<Length> const T(TransposedView<From<Length>>{A});
  ENSURE(T.rows() == n && T.columns() == n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (Shape::inside(i, j) && (diagonal || i != j)) EQ(T(j, i), A(i, j));
}
}  // namespace
R_SPEC(unbounded_vectors) { vectors<Length, 3>(); }
R_SPEC(unbounded_vectors_one) { vectors<double, 1>(); }
R_SPEC(unbounded_vectors_four) { vectors<Length, 4>(); }
R_SPEC(unbounded_vector_sizes) { vector_sizes<3, 2>(); }
R_SPEC(unbounded_vector_sizes_1) { vector_sizes<1, 3>(); }
R_SPEC(unbounded_norms) { norms<3>(); }
R_SPEC(unbounded_vector_equality) { vector_equality<3, 3>(); }
R_SPEC(unbounded_vector_equality_sizes) { vector_equality<2, 3>(); }
R_SPEC(unbounded_matrices) { matrices<Length, 2, 3>(); }
R_SPEC(unbounded_matrices_2) { matrices<Length, 3, 2>(); }
R_SPEC(unbounded_matrices_4) { matrices<double, 4, 4>(); }
R_SPEC(unbounded_products) { products<2, 3, 4>(); }
R_SPEC(unbounded_products_2) { products<3, 2, 2>(); }
R_SPEC(unbounded_squares) { squares<2>(); }
R_SPEC(unbounded_squares_3) { squares<3>(); }
R_SPEC(unbounded_squares_1) { squares<1>(); }
R_SPEC(unbounded_matrix_equality) {
  auto const x = values<double, 4>("x"), y = values<double, 4>("y");
  auto const v = matrix<double, 2, 2>(x), w = matrix<double, 2, 2>(y), u = matrix<double, 4, 1>(x), t = matrix<double, 1, 4>(x);
  bool const e = (x[0] == y[0]) & (x[1] == y[1]) & (x[2] == y[2]) & (x[3] == y[3]);
  ENSURE((v == w) == e); ENSURE((v != w) == !e);
  ENSURE(!(v == u)); ENSURE(!(u == t)); ENSURE(u != t);
}
R_SPEC(unbounded_lower) { triangular<UnboundedLowerTriangularMatrix, Lower, 3>(); }
R_SPEC(unbounded_lower_1) { triangular<UnboundedLowerTriangularMatrix, Lower, 1>(); }
R_SPEC(unbounded_lower_4) { triangular<UnboundedLowerTriangularMatrix, Lower, 4>(); }
R_SPEC(unbounded_upper) { triangular<UnboundedUpperTriangularMatrix, Upper, 3>(); }
R_SPEC(unbounded_upper_2) { triangular<UnboundedUpperTriangularMatrix, Upper, 2>(); }
R_SPEC(unbounded_upper_4) { triangular<UnboundedUpperTriangularMatrix, Upper, 4>(); }
R_SPEC(unbounded_strictly_upper) { triangular<UnboundedStrictlyUpperTriangularMatrix, StrictlyUpper, 3>(); }
R_SPEC(unbounded_strictly_upper_4) { triangular<UnboundedStrictlyUpperTriangularMatrix, StrictlyUpper, 4>(); }
R_SPEC(unbounded_lower_sizes) { triangular_sizes<UnboundedLowerTriangularMatrix, Lower, 2, 4>(); }
R_SPEC(unbounded_lower_sizes_1) { triangular_sizes<UnboundedLowerTriangularMatrix, Lower, 1, 2>(); }
R_SPEC(unbounded_upper_sizes) { triangular_sizes<UnboundedUpperTriangularMatrix, Upper, 2, 4>(); }
R_SPEC(unbounded_upper_sizes_1) { triangular_sizes<UnboundedUpperTriangularMatrix, Upper, 3, 4>(); }
R_SPEC(unbounded_upper_sizes_2) { triangular_sizes<UnboundedUpperTriangularMatrix, Upper, 1, 4>(); }
R_SPEC(unbounded_strictly_upper_sizes) { triangular_sizes<UnboundedStrictlyUpperTriangularMatrix, StrictlyUpper, 2, 4>(); }
R_SPEC(unbounded_strictly_upper_sizes_1) { triangular_sizes<UnboundedStrictlyUpperTriangularMatrix, StrictlyUpper, 3, 4>(); }
R_SPEC(unbounded_lower_equality) { triangular_equality<UnboundedLowerTriangularMatrix, Lower, 2>(); }
R_SPEC(unbounded_upper_equality) { triangular_equality<UnboundedUpperTriangularMatrix, Upper, 2>(); }
R_SPEC(unbounded_strictly_upper_equality) { triangular_equality<UnboundedStrictlyUpperTriangularMatrix, StrictlyUpper, 3>(); }
R_SPEC(unbounded_transpose_lower) { transposed<UnboundedUpperTriangularMatrix, UnboundedLowerTriangularMatrix, Upper, true, 3>(); }
R_SPEC(unbounded_transpose_upper) { transposed<UnboundedLowerTriangularMatrix, UnboundedUpperTriangularMatrix, Lower, true, 3>(); }
R_SPEC(unbounded_transpose_strictly_upper) { transposed<UnboundedLowerTriangularMatrix, UnboundedStrictlyUpperTriangularMatrix, Lower, false, 3>(); }
