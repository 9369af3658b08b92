// Double-word arithmetic: contracts from numerics/double_precision.hpp.
// The error-free transformations are proved, bit for bit, to be the algorithms 2Sum, Fast2Sum, Veltkamp-Dekker and 2MultFMA, whose
// exactness is lemmas/error_free.v.  The operators, in binary64, are the algorithms of the cited papers.
// pv-lemma: lemmas/error_free.v
#include "pr.hpp"
#include "numerics/double_precision.hpp"
using namespace principia::numerics::_double_precision;
using namespace principia::numerics::_fma;
using principia::numerics::_double_precision::internal::Scale;
using F = Frame<struct TA, Inertial>;
namespace {
struct D2 { double s, e; };
// [MR22], and Flocq's TwoSum_correct, Fast2Sum_correct, Dekker.
D2 two_sum(double a, double b) {
  double const s = a + b, v = s - a;
  return {s, (a - (s - v)) + (b - v)};
}
D2 two_difference(double a, double b) { double const s = a - b, v = s - a; return {s, (a - (s - v)) - (b + v)}; }
D2 quick_two_difference(double a, double b) { double const s = a - b; return {s, (a - s) - b}; }
D2 quick_two_sum(double a, double b) { double const s = a + b; return {s, b - (s - a)}; }
D2 split(double x) {
  double const c = 134217729.0 * x, d = x - c, h = c + d;
  return {h, x - h};
}
D2 dekker(double a, double b) {
  auto const [ah, al] = split(a); auto const [bh, bl] = split(b);
  double const z = a * b;
  return {z, (((ah * bh - z) + ah * bl) + al * bh) + al * bl};
}
D2 fused(double a, double b) { double const z = a * b; return {z, __builtin_fma(a, b, -z)}; }
D2 two_product(double a, double b) { return CanUseHardwareFMA ? fused(a, b) : dekker(a, b); }
D2 add21(D2 x, double y) { auto const s = two_sum(x.s, y); return quick_two_sum(s.s, s.e + x.e); }
D2 add12(double x, D2 y) { auto const s = two_sum(x, y.s); return quick_two_sum(s.s, s.e + y.e); }
D2 add22(D2 x, D2 y) {
  auto const s = two_sum(x.s, y.s), t = two_sum(x.e, y.e), v = quick_two_sum(s.s, s.e + t.s);
  return quick_two_sum(v.s, t.e + v.e);
}
D2 mul21(D2 x, double y) { auto const p = two_product(x.s, y); return quick_two_sum(p.s, p.e + x.e * y); }
D2 mul12(double x, D2 y) { auto const p = two_product(x, y.s); return quick_two_sum(p.s, p.e + x * y.e); }
D2 mul22(D2 x, D2 y) { auto const p = two_product(x.s, y.s); return quick_two_sum(p.s, p.e + ((x.s + x.e) * y.e + x.e * y.s)); }
D2 div12(double x, D2 y) { double const z = x / y.s; auto const p = two_product(y.s, z); return quick_two_sum(z, (((x - p.s) - p.e) - z * y.e) / (y.s + y.e)); }
D2 div21(D2 x, double y) { double const z = x.s / y; auto const p = two_product(y, z); return quick_two_sum(z, (((x.s - p.s) - p.e) + x.e) / y); }
D2 div22(D2 x, D2 y) { double const z = x.s / y.s; auto const p = two_product(y.s, z); return quick_two_sum(z, ((((x.s - p.s) - p.e) + x.e) - z * y.e) / (y.s + y.e)); }
D2 neg(D2 x) { return {-x.s, -x.e}; }
double m(double x) { return x; }
template<typename D> double m(Quantity<D> const& q) { return q.magnitude_; }
void same(double a, double b, const char* l) { vc_same_bits(a, b, l); }
#define SAME(x, ref) do { auto const x_ = (x); D2 const r_ = (ref); same(m(x_.value), r_.s, "value of " #x); same(m(x_.error), r_.e, "error of " #x); } while (0)
}
F_SPEC(transformations) {
  double const a = vc_f64("a"), b = vc_f64("b");
  SAME(TwoSum(a, b), two_sum(a, b)); SAME(TwoDifference(a, b), two_difference(a, b));
  SAME(QuickTwoSum(a, b), quick_two_sum(a, b)); SAME(QuickTwoDifference(a, b), quick_two_difference(a, b));
  SAME(VeltkampDekkerProduct(a, b), dekker(a, b));
  SAME(TwoProduct<FMAPresence::Unknown>(a, b), two_product(a, b));
  SAME(TwoProduct<FMAPresence::Absent>(a, b), dekker(a, b));
  double h, l; VeltkampSplitting<27>(a, h, l); auto const s = split(a); same(h, s.s, "high part"); same(l, s.e, "low part");
  Length const la = a * Metre, lb = b * Metre; Time const tb = b * Second;
  SAME(TwoSum(la, lb), two_sum(a, b)); SAME(TwoDifference(la, lb), two_difference(a, b));
  SAME(QuickTwoSum(la, lb), quick_two_sum(a, b)); SAME(QuickTwoDifference(la, lb), quick_two_difference(a, b));
  SAME(VeltkampDekkerProduct(la, tb), dekker(a, b)); SAME(TwoProduct<FMAPresence::Unknown>(la, tb), two_product(a, b));
}
namespace {
D2 point_difference(double a, double b) { double const s = a - b, w = a - s; return {s, (a - (s + w)) + (w - b)}; }  // v = -w.
using DP = DoublePrecision<double>;
using DL = DoublePrecision<Length>;
using DI = DoublePrecision<Instant>;
DP dp(D2 x) { DP r; r.value = x.s; r.error = x.e; return r; }
DL dl(D2 x) { DL r; r.value = x.s * Metre; r.error = x.e * Metre; return r; }
D2 any(const char* n) { double const s = vc_f64(pr::cat(n, ".value").s), e = vc_f64(pr::cat(n, ".error").s); return {s, e}; }
DP plain(DI const& x) { DP r; r.value = x.value.coordinates_.magnitude_; r.error = x.error.magnitude_; return r; }
}
// Points and vectors.
F_SPEC(transformations_of_instants) {
  double const a = vc_f64("a"), b = vc_f64("b");
  Instant ia, ib; ia.coordinates_ = a * Second; ib.coordinates_ = b * Second;
  SAME(plain(TwoSum(ia, b * Second)), two_sum(a, b)); SAME(plain(TwoSum(b * Second, ia)), two_sum(b, a));
  SAME(plain(TwoDifference(ia, b * Second)), two_difference(a, b)); SAME(TwoDifference(ia, ib), point_difference(a, b));
  SAME(plain(QuickTwoSum(ia, b * Second)), quick_two_sum(a, b));
}
namespace {
R3Element<double> r3(double x, double y, double z) { return R3Element<double>(x, y, z); }
template<typename R> void each(R const& r, const double* a, const double* b, D2 (*f)(double, double)) {
  for (int i = 0; i < 3; ++i) { D2 const x = f(a[i], b[i]); same(m(r.value.coordinates()[i]), x.s, "value of coordinate"); same(m(r.error.coordinates()[i]), x.e, "error of coordinate"); }
}
}
F_SPEC(transformations_of_vectors) {
  double a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = vc_f64(pr::cat("a", i).s); b[i] = vc_f64(pr::cat("b", i).s); }
  Displacement<F> const u({a[0] * Metre, a[1] * Metre, a[2] * Metre}), v({b[0] * Metre, b[1] * Metre, b[2] * Metre});
  each(TwoSum(u, v), a, b, two_sum); each(TwoDifference(u, v), a, b, two_difference); each(QuickTwoSum(u, v), a, b, quick_two_sum);
  Position<F> p, q; p.coordinates_ = u; q.coordinates_ = v;
  each(TwoDifference(p, q), a, b, point_difference);
  auto const s = TwoSum(p, v), d = TwoDifference(p, v);
  for (int i = 0; i < 3; ++i) {
    same(m(s.value.coordinates_.coordinates()[i]), two_sum(a[i], b[i]).s, "value of position"); same(m(s.error.coordinates()[i]), two_sum(a[i], b[i]).e, "error of position");
    same(m(d.value.coordinates_.coordinates()[i]), two_difference(a[i], b[i]).s, "value of position difference"); same(m(d.error.coordinates()[i]), two_difference(a[i], b[i]).e, "error of position difference");
  }
}
namespace {
D2 sub_value_pair(double a, D2 y) { auto const s = two_difference(a, y.s); return quick_two_sum(s.s, s.e - y.e); }
D2 sub_pair_value(D2 x, double b) { auto const s = two_difference(x.s, b); return quick_two_sum(s.s, s.e + x.e); }
D2 sub_pairs(D2 x, D2 y) {
  auto const s = two_difference(x.s, y.s), t = two_difference(x.e, y.e), v = quick_two_sum(s.s, s.e + t.s);
  return quick_two_sum(v.s, t.e + v.e);
}
D2 compensated(D2 x, double y) { double const z = x.e + y, s = x.s + z; return {s, (x.s - s) + z}; }
}
F_SPEC(operators) {
  auto const x = any("x"), y = any("y"); double const a = vc_f64("a");
  SAME(dp(x) + dp(y), add22(x, y)); SAME(a + dp(x), add12(a, x)); SAME(dp(x) + a, add21(x, a));
  SAME(dp(x) - dp(y), sub_pairs(x, y)); SAME(a - dp(x), sub_value_pair(a, x)); SAME(dp(x) - a, sub_pair_value(x, a));
  SAME(dp(x) * dp(y), mul22(x, y)); SAME(a * dp(x), mul12(a, x)); SAME(dp(x) * a, mul21(x, a));
  SAME(dp(x) / dp(y), div22(x, y)); SAME(a / dp(x), div12(a, x)); SAME(dp(x) / a, div21(x, a));
  SAME(+dp(x), x); SAME(-dp(x), neg(x));
  { auto z = dp(x); z += dp(y); SAME(z, add22(x, y)); } { auto z = dp(x); z += a; SAME(z, add21(x, a)); }
  { auto z = dp(x); z -= dp(y); SAME(z, sub_pairs(x, y)); } { auto z = dp(x); z -= a; SAME(z, sub_pair_value(x, a)); }
  { auto z = dp(x); z *= dp(y); SAME(z, mul22(x, y)); } { auto z = dp(x); z *= a; SAME(z, mul21(x, a)); }
  { auto z = dp(x); z /= dp(y); SAME(z, div22(x, y)); } { auto z = dp(x); z /= a; SAME(z, div21(x, a)); }
  { auto z = dp(x); z.Increment(a); SAME(z, compensated(x, a)); } { auto z = dp(x); z.Decrement(a); SAME(z, compensated(x, -a)); }
}
F_SPEC(operators_on_quantities) {
  auto const x = any("x"), y = any("y"); double const a = vc_f64("a");
  SAME(dl(x) + dl(y), add22(x, y)); SAME(a * Metre + dl(x), add12(a, x)); SAME(dl(x) + a * Metre, add21(x, a));
  SAME(dl(x) - dl(y), sub_pairs(x, y)); SAME(a * Metre - dl(x), sub_value_pair(a, x)); SAME(dl(x) - a * Metre, sub_pair_value(x, a));
  SAME(dl(x) * dp(y), mul22(x, y)); SAME(a * Second * dl(x), mul12(a, x)); SAME(dl(x) * a, mul21(x, a)); SAME(dl(x) * dl(y), mul22(x, y));
  SAME(dl(x) / dp(y), div22(x, y)); SAME(dp(x) / dl(y), div22(x, y)); SAME(a / dl(x), div12(a, x)); SAME(dl(x) / (a * Second), div21(x, a)); SAME(dl(x) / dl(y), div22(x, y));
  SAME(Scale(a, dl(x)), (D2{a * x.s, a * x.e})); SAME(Scale(a * Second, dp(x)), (D2{a * x.s, a * x.e}));
  { DL const z(a * Metre); SAME(z, (D2{a, 0})); } { DL const z; SAME(z, (D2{0, 0})); }
}
F_SPEC(operators_on_instants) {
  auto const x = any("x"), y = any("y"); double const a = vc_f64("a");
  DI ix, iy; ix.value.coordinates_ = x.s * Second; ix.error = x.e * Second; iy.value.coordinates_ = y.s * Second; iy.error = y.e * Second;
  Instant ia; ia.coordinates_ = a * Second;
  DoublePrecision<Time> ty; ty.value = y.s * Second; ty.error = y.e * Second;
  SAME(plain(ix + ty), add22(x, y)); SAME(plain(ty + ix), add22(y, x)); SAME(plain(ix - ty), sub_pairs(x, y));
  SAME(plain(ix + a * Second), add21(x, a)); SAME(plain(ix - a * Second), sub_pair_value(x, a));
  { auto const s = point_difference(x.s, y.s), t = two_difference(x.e, y.e), v = quick_two_sum(s.s, s.e + t.s); SAME(ix - iy, quick_two_sum(v.s, t.e + v.e)); }
  { auto const s = point_difference(x.s, a); SAME(ix - ia, quick_two_sum(s.s, s.e + x.e)); } { auto const s = point_difference(a, x.s); SAME(ia - ix, quick_two_sum(s.s, s.e - x.e)); }
  { auto z = ix; z += ty; SAME(plain(z), add22(x, y)); } { auto z = ix; z += a * Second; SAME(plain(z), add21(x, a)); }
  { auto z = ix; z -= ty; SAME(plain(z), sub_pairs(x, y)); } { auto z = ix; z -= a * Second; SAME(plain(z), sub_pair_value(x, a)); }
  { auto z = ix; z.Increment(a * Second); SAME(plain(z), compensated(x, a)); } { auto z = ix; z.Decrement(a * Second); SAME(plain(z), compensated(x, -a)); }
}
F_SPEC(double_word_predicates) {
  auto const x = any("x"), y = any("y");
  REQUIRE(x.s == x.s && x.e == x.e && y.s == y.s && y.e == y.e);
  ENSURE((dp(x) == dp(y)) == (x.s == y.s && x.e == y.e)); ENSURE((dp(x) < dp(y)) == (x.s < y.s || x.s == y.s && x.e < y.e));
  ENSURE((dp(x) >= dp(y)) == !(dp(x) < dp(y))); ENSURE((dp(x) > dp(y)) == (dp(y) < dp(x)));
  double const inf = __builtin_inf();
  ENSURE(IsFinite(dl(x)) == (x.s != inf && x.s != -inf && x.e != inf && x.e != -inf));
}
