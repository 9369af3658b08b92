// pv-opt: * timeout=20000
// Views of matrices, and the algorithms on matrices, in real arithmetic.
#include "pr.hpp"
#include "numerics/fixed_arrays.hpp"
#include "numerics/unbounded_arrays.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
#include "numerics/matrix_computations.hpp"
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_unbounded_arrays;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_matrix_computations;
using namespace principia::numerics::_transposed_view;
using namespace principia::quantities::_named_quantities;
using namespace principia::numerics::_elementary_functions;
using namespace principia::base::_tags;
namespace mc = principia::numerics::_matrix_computations::internal;
namespace {
template<typename S, std::int64_t n> std::array<S, n> values(char const* name) {
  std::array<S, n> a;
  for (int i = 0; i < n; ++i) a[i] = pr::any<S>(pr::cat(name, i).s);
  return a;
}
template<typename T, typename S, std::size_t n> T make(std::array<S, n> const& a) {
  return [&]<int... i>(std::integer_sequence<int, i...>) { return T({a[i]...}); }(std::make_integer_sequence<int, n>());
}
template<typename S, int n, bool unbounded> auto square(std::array<S, n * n> const& a) {
  if constexpr (unbounded) return make<UnboundedMatrix<S>>(a); else return FixedMatrix<S, n, n>(a);
}
template<typename S, int n, bool unbounded> auto vector(std::array<S, n> const& a) {
  if constexpr (unbounded) return make<UnboundedVector<S>>(a); else return FixedVector<S, n>(a);
}
template<typename S, int n, bool unbounded> auto upper(std::array<S, n * (n + 1) / 2> const& a) {
  if constexpr (unbounded) return make<UnboundedUpperTriangularMatrix<S>>(a); else return FixedUpperTriangularMatrix<S, n>(a);
}
template<typename S, int n, bool unbounded> auto lower(std::array<S, n * (n + 1) / 2> const& a) {
  if constexpr (unbounded) return make<UnboundedLowerTriangularMatrix<S>>(a); else return FixedLowerTriangularMatrix<S, n>(a);
}
// Views.
template<bool unbounded> void views() {
  auto const x = values<Length, 16>("x"); auto const y = values<Length, 9>("y"); auto const u = values<Length, 3>("u");
  auto const w = values<Time, 3>("w"); auto const z = values<Time, 2>("z");
  ANY(double, a); REQUIRE(a != 0.0);
  auto A = square<Length, 4, unbounded>(x); using M = decltype(A);
  auto const Y = square<Length, 3, unbounded>(y);
  BlockView<M> const b{.matrix = A, .first_row = 1, .last_row = 2, .first_column = 0, .last_column = 2};
  ENSURE(b.rows() == 2 && b.columns() == 3);
  ColumnView<M> const c{.matrix = A, .first_row = 1, .last_row = 3, .column = 2};
  ENSURE(c.size() == 3);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) EQ(b(i, j), x[(1 + i) * 4 + j]);
  for (int i = 0; i < 3; ++i) EQ(c[i], x[(1 + i) * 4 + 2]);
  EQ(c.Norm²(), x[6] * x[6] + x[10] * x[10] + x[14] * x[14]);
  auto const C = UnboundedVector<Length>(c); auto const D = FixedVector<Length, 3>(c);
  ENSURE(C.size() == 3);
  for (int i = 0; i < 3; ++i) { EQ(C[i], c[i]); EQ(D[i], c[i]); }
  ColumnView<M> const d{.matrix = A, .first_row = 0, .last_row = 2, .column = 3};
  EQ(TransposedView{c} * d, x[6] * x[3] + x[10] * x[7] + x[14] * x[11]);
  auto const W = make<UnboundedVector<Time>>(w), Z = make<UnboundedVector<Time>>(z);
  auto const bW = b * W; auto const bZ = TransposedView{b} * Z;
  ENSURE(bW.size() == 2 && bZ.size() == 3);
  for (int i = 0; i < 2; ++i) EQ(bW[i], x[(1 + i) * 4] * w[0] + x[(1 + i) * 4 + 1] * w[1] + x[(1 + i) * 4 + 2] * w[2]);
  for (int j = 0; j < 3; ++j) EQ(bZ[j], x[4 + j] * z[0] + x[8 + j] * z[1]);
  // Each operation changes the elements of the view as said, and no other.
  auto const block = [&](auto&& f, auto&& g) {
    auto B = square<Length, 4, unbounded>(x);
    BlockView<M> v{.matrix = B, .first_row = 0, .last_row = 2, .first_column = 1, .last_column = 3};
    f(v);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
      if (i <= 2 && j >= 1) EQ(B(i, j), g(x[i * 4 + j], y[i * 3 + j - 1])); else EQ(B(i, j), x[i * 4 + j]);
    }
  };
  block([&](auto& v) { v = Y; }, [](Length, Length r) { return r; });
  block([&](auto& v) { v += Y; }, [](Length l, Length r) { return l + r; });
  block([&](auto& v) { v -= Y; }, [](Length l, Length r) { return l - r; });
  block([&](auto& v) { v *= a; }, [&](Length l, Length) { return l * a; });
  block([&](auto& v) { v /= a; }, [&](Length l, Length) { return l / a; });
  auto const U = vector<Length, 3, unbounded>(u);
  auto const column = [&](auto&& f, auto&& g) {
    auto B = square<Length, 4, unbounded>(x);
    ColumnView<M> v{.matrix = B, .first_row = 1, .last_row = 3, .column = 1};
    f(v);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
      if (i >= 1 && j == 1) EQ(B(i, j), g(x[i * 4 + j], u[i - 1])); else EQ(B(i, j), x[i * 4 + j]);
    }
  };
  column([&](auto& v) { v = U; }, [](Length, Length r) { return r; });
  column([&](auto& v) { v += U; }, [](Length l, Length r) { return l + r; });
  column([&](auto& v) { v -= U; }, [](Length l, Length r) { return l - r; });
  column([&](auto& v) { v *= a; }, [&](Length l, Length) { return l * a; });
  column([&](auto& v) { v /= a; }, [&](Length l, Length) { return l / a; });
  {
    auto B = square<Length, 4, unbounded>(x);
    ColumnView<M> v{.matrix = B, .first_row = 0, .last_row = 2, .column = 1}, w{.matrix = B, .first_row = 0, .last_row = 2, .column = 3};
    SwapColumns(v, w);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) EQ(B(i, j), x[i * 4 + (i < 3 && j == 1 ? 3 : i < 3 && j == 3 ? 1 : j)]);
    v = w;
    for (int i = 0; i < 4; ++i) EQ(B(i, 1), i < 3 ? x[i * 4 + 1] : x[i * 4 + 1]);
  }
}
template<bool unbounded> void view_norm() {
  auto const x = values<Length, 9>("x");
  auto A = square<Length, 3, unbounded>(x); using M = decltype(A);
  ColumnView<M> const c{.matrix = A, .first_row = 1, .last_row = 2, .column = 1};
  auto const n = c.Norm();
  ENSURE(n >= 0 * si::Unit<Length>); EQ(n * n, x[4] * x[4] + x[7] * x[7]);
}
template<bool unbounded> void view_equality() {
  auto const x = values<double, 9>("x"); auto const y = values<double, 4>("y");
  auto A = square<double, 3, unbounded>(x); using M = decltype(A);
  auto const B = square<double, 2, unbounded>(y); auto const v = vector<double, 2, unbounded>({y[0], y[1]});
  BlockView<M> const b{.matrix = A, .first_row = 1, .last_row = 2, .first_column = 0, .last_column = 1};
  BlockView<M> const c{.matrix = A, .first_row = 1, .last_row = 2, .first_column = 0, .last_column = 2};
  ColumnView<M> const d{.matrix = A, .first_row = 0, .last_row = 1, .column = 2};
  ENSURE((b == B) == ((x[3] == y[0]) & (x[4] == y[1]) & (x[6] == y[2]) & (x[7] == y[3])));
  ENSURE(!(c == B));
  ENSURE((d == v) == ((x[2] == y[0]) & (x[5] == y[1])));
}
// Triangular systems and factorizations.
template<int n, bool unbounded> void cholesky() {
  auto const x = values<Area, n * (n + 1) / 2>("x");
  // Any positive definite matrix is ᵗL L for an upper triangular matrix L with a positive diagonal.
  auto const l = values<Length, n * (n + 1) / 2>("l");
  auto const L = upper<Length, n, unbounded>(l);
  for (int i = 0; i < n; ++i) REQUIRE(L(i, i) > 0 * si::Unit<Length>);
  auto A = upper<Area, n, unbounded>(x);
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
    Area s = L(0, i) * L(0, j);
    for (int k = 1; k <= i; ++k) s += L(k, i) * L(k, j);
    A(i, j) = s;
  }
  auto const R = CholeskyDecomposition(A);
  ENSURE(R.columns() == n);
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) EQ(R(i, j), L(i, j));
}
template<int n, bool unbounded> void rdr() {
  auto const x = values<Area, n * (n + 1) / 2>("x");
  auto const A = upper<Area, n, unbounded>(x);
  using V = std::conditional_t<unbounded, UnboundedVector<Area>, FixedVector<Area, n>>;
  auto const result = ᵗRDRDecomposition<V>(A);
  auto const& R = result.R; auto const& D = result.D;
  for (int i = 0; i < n; ++i) REQUIRE(D[i] != Area{});
  ENSURE(R.columns() == n && D.size() == n);
  for (int i = 0; i < n; ++i) {
    EQ(R(i, i), 1.0);
    for (int j = i; j < n; ++j) {
      Area s{};
      for (int k = 0; k <= i; ++k) s += R(k, i) * D[k] * R(k, j);
      EQ(s, A(i, j));
    }
  }
}
template<int n, bool unbounded> void substitutions() {
  auto const x = values<Length, n * (n + 1) / 2>("x"); auto const b = values<Mass, n>("b");
  auto const U = upper<Length, n, unbounded>(x); auto const L = lower<Length, n, unbounded>(x); auto const B = vector<Mass, n, unbounded>(b);
  for (int i = 0; i < n; ++i) { REQUIRE(U(i, i) != Length{}); REQUIRE(L(i, i) != Length{}); }
  auto const u = BackSubstitution(U, B); auto const l = ForwardSubstitution(L, B);
  ENSURE(u.size() == n && l.size() == n);
  for (int i = 0; i < n; ++i) {
    auto s = U(i, i) * u[i]; for (int j = i + 1; j < n; ++j) s += U(i, j) * u[j];
    EQ(s, b[i]);
    auto t = L(i, i) * l[i]; for (int j = 0; j < i; ++j) t += L(i, j) * l[j];
    EQ(t, b[i]);
  }
}
template<int n, bool unbounded> void gram_schmidt() {
  auto const x = values<Length, n * n>("x");
  auto const A = square<Length, n, unbounded>(x);
  auto const result = ClassicalGramSchmidt(A);
  auto const& Q = result.Q; auto const& R = result.R;
  ENSURE(Q.rows() == n && Q.columns() == n && R.columns() == n);
  // The matrix is regular.
  for (int i = 0; i < n; ++i) REQUIRE(R(i, i) > Length{});
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    Length s{}; for (int k = 0; k <= j; ++k) s += Q(i, k) * R(k, j);
    EQ(s, A(i, j));
    double d = 0; for (int k = 0; k < n; ++k) d += Q(k, i) * Q(k, j);
    EQ(d + 1, i == j ? 2.0 : 1.0);
  }
}
template<int m, int n> void unitriangular_gram_schmidt() {
  auto const x = values<Length, m * n>("x");
  FixedMatrix<Length, m, n> const A(x);
  auto const result = UnitriangularGramSchmidt(A);
  auto const& Q = result.Q; auto const& R = result.R;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    Length s{}; for (int k = 0; k <= j; ++k) s += Q(i, k) * R(k, j);
    EQ(s, A(i, j));
  }
  for (int j = 0; j < n; ++j) {
    EQ(R(j, j), 1.0);
    for (int i = 0; i < j; ++i) { Area d{}; for (int k = 0; k < m; ++k) d += Q(k, i) * Q(k, j); EQ(d + si::Unit<Area>, si::Unit<Area>); }
  }
}
// Householder reflections.
template<int n, bool tail> void householder() {
  auto const x = values<Length, n>("x");
  FixedVector<Length, n> v(x);
  if constexpr (!tail) for (int i = 1; i < n; ++i) v[i] = Length{};
  REQUIRE(v.Norm²() > Area{});
  auto const P = mc::ComputeHouseholderReflection(v);
  ENSURE(P.v.size() == n);
  EQ(P.v[0], 1.0);
  // I - β v ᵗv is orthogonal.
  double v2 = 0; for (int i = 0; i < n; ++i) v2 += P.v[i] * P.v[i];
  EQ(P.β * P.β * v2 + 1, 2 * P.β + 1);
  // It maps x to a positive multiple of the first vector of the basis.
  Length s{}; for (int i = 0; i < n; ++i) s += P.v[i] * v[i];
  for (int i = 1; i < n; ++i) EQ(v[i] - P.β * P.v[i] * s + si::Unit<Length>, si::Unit<Length>);
  ENSURE(v[0] - P.β * P.v[0] * s >= Length{});
}
template<int n, bool unbounded> void reflection_products() {
  auto const x = values<double, n * n>("x"), v0 = values<double, n * n>("v"); ANY(double, β);
  std::array<double, n> v; for (int i = 0; i < n; ++i) v[i] = v0[i];
  mc::HouseholderReflection const P{.v = make<UnboundedVector<double>>(v), .β = β};
  auto A = square<double, n, unbounded>(x), B = A; using M = decltype(A);
  BlockView<M> a{.matrix = A, .first_row = 0, .last_row = n - 1, .first_column = 0, .last_column = n - 1};
  BlockView<M> b{.matrix = B, .first_row = 0, .last_row = n - 1, .first_column = 0, .last_column = n - 1};
  mc::Premultiply(P, a); mc::PostMultiply(b, P);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double s = 0, t = 0;
    for (int k = 0; k < n; ++k) { s += ((i == k) - β * v[i] * v[k]) * x[k * n + j]; t += x[i * n + k] * ((k == j) - β * v[k] * v[j]); }
    EQ(A(i, j), s); EQ(B(i, j), t);
  }
}
// Jacobi rotations.
template<int n, int p, int q, bool unbounded> void jacobi() {
  auto const x = values<double, n * n>("x");
  auto A = square<double, n, unbounded>(x);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
  auto const J = mc::SymmetricSchurDecomposition2By2<double>(A, p, q);
  ENSURE(J.p == p && J.q == q);
  EQ(J.cos * J.cos + J.sin * J.sin, 1.0);
  ENSURE(J.cos > 0);
  // ᵗJ A J is diagonal.
  double const c = J.cos, s = J.sin;
  EQ(c * s * (A(p, p) - A(q, q)) + (c * c - s * s) * A(p, q) + 1, 1.0);
}
template<int n, int p, int q, bool unbounded> void rotation_products() {
  auto const x = values<double, n * n>("x"); ANY(double, c); ANY(double, s);
  auto A = square<double, n, unbounded>(x), B = A;
  mc::JacobiRotation const J{.cos = c, .sin = s, .p = p, .q = q};
  double m[n][n]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = i == j;
  m[p][p] = m[q][q] = c; m[p][q] = s; m[q][p] = -s;
  mc::PremultiplyByTranspose(J, A); mc::PostMultiply(B, J);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double u = 0, v = 0;
    for (int k = 0; k < n; ++k) { u += m[k][i] * x[k * n + j]; v += x[i * n + k] * m[k][j]; }
    EQ(A(i, j), u); EQ(B(i, j), v);
  }
}
template<int n, bool unbounded> void rayleigh() {
  auto const x = values<Length, n * n>("x"); auto const v = values<Time, n>("v");
  auto const A = square<Length, n, unbounded>(x); auto const V = vector<Time, n, unbounded>(v);
  Length const r = RayleighQuotient(A, V);
  Square<Time> n2{}; Product<Length, Square<Time>> f{};
  for (int i = 0; i < n; ++i) { n2 += v[i] * v[i]; for (int j = 0; j < n; ++j) f += v[i] * x[i * n + j] * v[j]; }
  REQUIRE(n2 > Square<Time>{});
  EQ(r * n2, f);
}
// The pivots chosen by Solve: a partial pivoting of the eliminated columns.  They are nonzero if the matrix is regular.
template<int n> void pivots(std::array<Length, n * n> const& x) {
  Length A[n][n]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = x[i * n + j];
  for (int k = 0; k < n; ++k) {
    int r = -1; Length max{};
    for (int i = k; i < n; ++i) if (vc_fork(Abs(A[i][k]) >= max)) { r = i; max = Abs(A[i][k]); }
    REQUIRE(r >= 0);
    for (int j = 0; j < n; ++j) std::swap(A[k][j], A[r][j]);
    REQUIRE(A[k][k] != Length{});
    for (int i = k + 1; i < n; ++i) { double const l = A[i][k] / A[k][k]; for (int j = k + 1; j < n; ++j) A[i][j] -= l * A[k][j]; }
  }
}
template<int n> auto determinant(std::array<Length, n * n> const& x) {
  if constexpr (n == 1) return x[0]; else if constexpr (n == 2) return x[0] * x[3] - x[1] * x[2];
  else return x[0] * (x[4] * x[8] - x[5] * x[7]) - x[1] * (x[3] * x[8] - x[5] * x[6]) + x[2] * (x[3] * x[7] - x[4] * x[6]);
}
template<int n> void regular() {
  auto const x = values<Length, n * n>("x");
  auto const det = determinant<n>(x); REQUIRE(det != decltype(det){});
  Length A[n][n]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = x[i * n + j];
  for (int k = 0; k < n; ++k) {
    int r = k;
    for (int i = k + 1; i < n; ++i) if (vc_fork(Abs(A[i][k]) >= Abs(A[r][k]))) r = i;
    for (int j = 0; j < n; ++j) std::swap(A[k][j], A[r][j]);
    ENSURE(A[k][k] != Length{});
    if (!(A[k][k] != Length{})) return;
    for (int i = k + 1; i < n; ++i) { double const l = A[i][k] / A[k][k]; for (int j = k + 1; j < n; ++j) A[i][j] -= l * A[k][j]; }
  }
}
template<int n, bool unbounded> void solve() {
  auto const x = values<Length, n * n>("x"); auto const b = values<Mass, n>("b");
  auto const A = square<Length, n, unbounded>(x); auto const B = vector<Mass, n, unbounded>(b);
  pivots<n>(x);
  auto const s = Solve(A, B);
  ENSURE(s.size() == n);
  for (int i = 0; i < n; ++i) {
    auto t = x[i * n] * s[0]; for (int j = 1; j < n; ++j) t += x[i * n + j] * s[j];
    EQ(t, b[i]);
  }
}
// A step of the Jacobi algorithm applies the rotation that annihilates (see above) the largest off-diagonal element.
template<int n, bool unbounded> void classical_jacobi() {
  auto const x = values<double, n * n>("x"); ANY(double, ε); REQUIRE(0 <= ε);
  auto A = square<double, n, unbounded>(x);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
  double max = 0; int p = -1, q = -1;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (vc_fork(Abs(A(i, j)) >= max)) { max = Abs(A(i, j)); p = i; q = j; }
  REQUIRE(p >= 0);
  bool const small = vc_fork(max <= ε * A.FrobeniusNorm());
  auto const result = ClassicalJacobi(A, 1, ε);
  auto D = A; auto V = [] { if constexpr (unbounded) return UnboundedMatrix<double>::Identity(n, n); else return FixedMatrix<double, n, n>::Identity(); }();
  if (!small) {
    auto const J = mc::SymmetricSchurDecomposition2By2<double>(D, p, q);
    mc::PostMultiply(D, J); mc::PremultiplyByTranspose(J, D); mc::PostMultiply(V, J);
  }
  for (int i = 0; i < n; ++i) { EQ(result.eigenvalues[i], D(i, i)); for (int j = 0; j < n; ++j) EQ(result.rotation(i, j), V(i, j)); }
}
// The Hessenberg form has zeroes below the subdiagonal, and is similar to the matrix.
template<bool unbounded> void hessenberg() {
  auto const x = values<double, 9>("x");
  auto const A = square<double, 3, unbounded>(x);
  REQUIRE(x[3] != 0.0);
  auto const H = HessenbergDecomposition(A).H;
  EQ(H(2, 0) + 1, 1.0);
  EQ(H(0, 0), x[0]);
  EQ(H(1, 1) + H(2, 2), x[4] + x[8]);
  EQ(H(1, 1) * H(2, 2) - H(1, 2) * H(2, 1), x[4] * x[8] - x[5] * x[7]);
  EQ(H(0, 1) * H(1, 0) + H(0, 2) * H(2, 0), x[1] * x[3] + x[2] * x[6]);
}
}  // namespace
R_SPEC(views) { views<false>(); }
R_SPEC(views_unbounded) { views<true>(); }
R_SPEC(view_norm) { view_norm<false>(); }
R_SPEC(view_equality) { view_equality<false>(); }
R_SPEC(view_equality_unbounded) { view_equality<true>(); }
R_SPEC(cholesky_2) { cholesky<2, false>(); }
R_SPEC(cholesky_3) { cholesky<3, true>(); }
R_SPEC(rdr_2) { rdr<2, true>(); }
R_SPEC(rdr_3) { rdr<3, false>(); }
R_SPEC(substitutions_1) { substitutions<1, false>(); }
R_SPEC(substitutions_2) { substitutions<2, true>(); }
R_SPEC(substitutions_3) { substitutions<3, false>(); }
R_SPEC(substitutions_4) { substitutions<4, true>(); }
R_SPEC(gram_schmidt_2) { gram_schmidt<2, false>(); }
R_SPEC(gram_schmidt_3) { gram_schmidt<3, true>(); }
R_SPEC(unitriangular_gram_schmidt_2) { unitriangular_gram_schmidt<2, 2>(); }
R_SPEC(unitriangular_gram_schmidt_3_2) { unitriangular_gram_schmidt<3, 2>(); }
R_SPEC(unitriangular_gram_schmidt_3) { unitriangular_gram_schmidt<3, 3>(); }
R_SPEC(householder_2) { householder<2, true>(); }
R_SPEC(householder_3) { householder<3, true>(); }
R_SPEC(householder_axis) { householder<3, false>(); }
R_SPEC(reflection_products) { reflection_products<3, false>(); }
R_SPEC(reflection_products_unbounded) { reflection_products<2, true>(); }
R_SPEC(jacobi_2) { jacobi<2, 0, 1, false>(); }
R_SPEC(jacobi_3) { jacobi<3, 0, 2, true>(); }
R_SPEC(rotation_products_3) { rotation_products<3, 0, 2, false>(); }
R_SPEC(rotation_products_4) { rotation_products<4, 1, 2, true>(); }
R_SPEC(rayleigh_quotient) { rayleigh<3, false>(); }
R_SPEC(rayleigh_quotient_unbounded) { rayleigh<2, true>(); }
R_SPEC(pivots_2) { regular<2>(); }
R_SPEC(pivots_3) { regular<3>(); }
R_SPEC(solve_1) { solve<1, false>(); }
R_SPEC(solve_2) { solve<2, false>(); }
R_SPEC(solve_3) { solve<3, true>(); }
R_SPEC(classical_jacobi) { classical_jacobi<3, false>(); }
R_SPEC(classical_jacobi_unbounded) { classical_jacobi<2, true>(); }
R_SPEC(hessenberg) { hessenberg<false>(); }
R_SPEC(hessenberg_unbounded) { hessenberg<true>(); }
