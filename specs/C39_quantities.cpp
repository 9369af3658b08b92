// Quantities: dimensional analysis, arithmetic, units, constants, and the elementary functions over quantities.
// pv-flags: -DPRINCIPIA_REQUIRES_AVX=1 -DPRINCIPIA_REQUIRES_FMA=1 -mavx -mfma
// pv-bounded: next one binade of each sign (the wrappers for quantities; the functions themselves are C05)
#include "pr.hpp"
#include <cmath>
#include <type_traits>
#include "numerics/elementary_functions.hpp"
#include "numerics/next.hpp"
#include "quantities/astronomy.hpp"
#include "quantities/bipm.hpp"
#include "quantities/cgs.hpp"
#include "quantities/concepts.hpp"
#include "quantities/constants.hpp"
#include "quantities/numbers.hpp"
#include "quantities/serialization.hpp"
#include "quantities/tuples.hpp"
#include "quantities/uk.hpp"
using namespace principia::numerics::_elementary_functions;
namespace dim = principia::quantities::_dimensions::internal;
namespace ef = principia::numerics::_elementary_functions::internal;
template<std::int64_t l, std::int64_t m, std::int64_t t, std::int64_t c, std::int64_t k, std::int64_t n, std::int64_t i, std::int64_t a>
using Q = Quantity<dim::Dimensions<l, m, t, c, k, n, i, a>>;
#define DIM(T, ...) vc_assert(std::is_same_v<T, Q<__VA_ARGS__>>, #T " has dimensions " #__VA_ARGS__)
#define SAME(what, ...) vc_assert(std::is_same_v<__VA_ARGS__>, what)
// Arithmetic on an arbitrary dimension is arithmetic on the magnitudes.
R_SPEC(arithmetic) {
  ANY(Force, a); ANY(Force, b); ANY(double, k);
  double const x = a.magnitude_, y = b.magnitude_;
  vc_eq((a + b).magnitude_, x + y, "a + b"); vc_eq((a - b).magnitude_, x - y, "a - b");
  vc_eq((+a).magnitude_, x, "+a"); vc_eq((-a).magnitude_, -x, "-a");
  vc_eq((a * k).magnitude_, x * k, "a * k"); vc_eq((k * a).magnitude_, k * x, "k * a");
  Force c = a; Force& r1 = (c += b); vc_eq(c.magnitude_, x + y, "a += b"); ENSURE(&r1 == &c);
  Force d = a; Force& r2 = (d -= b); vc_eq(d.magnitude_, x - y, "a -= b"); ENSURE(&r2 == &d);
  Force e = a; Force& r3 = (e *= k); vc_eq(e.magnitude_, x * k, "a *= k"); ENSURE(&r3 == &e);
  vc_eq(Force().magnitude_, 0, "zero");
  vc_eq(si::Unit<Force>.magnitude_, 1, "unit");
  REQUIRE(k != 0 && y != 0);
  vc_eq((a / k).magnitude_, x / k, "a / k"); vc_eq(a / b, x / y, "a / b");
  vc_eq((k / b).magnitude_, k / y, "k / b");
  Force f = a; Force& r4 = (f /= k); vc_eq(f.magnitude_, x / k, "a /= k"); ENSURE(&r4 == &f);
}
R_SPEC(mixed_arithmetic) {
  ANY(Length, l); ANY(Time, t); ANY(Mass, m); ANY(Angle, u); ANY(Temperature, q); ANY(Current, i);
  double const ll = l.magnitude_, tt = t.magnitude_, mm = m.magnitude_, uu = u.magnitude_, qq = q.magnitude_, ii = i.magnitude_;
  vc_eq((l * t).magnitude_, ll * tt, "l * t"); vc_eq((l * m * u).magnitude_, ll * mm * uu, "l * m * u");
  REQUIRE(tt != 0 && qq != 0 && ii != 0 && ll != 0);
  vc_eq((l / t).magnitude_, ll / tt, "l / t"); vc_eq((l / t / t).magnitude_, ll / tt / tt, "l / t / t");
  vc_eq((m * l / (t * t) / q).magnitude_, mm * ll / (tt * tt) / qq, "force / temperature");
  vc_eq((l / t) * t / l, 1, "dimensionless product");
  vc_eq((1 / t) * t, 1, "inverse");
  vc_eq((u / i).magnitude_, uu / ii, "u / i");
  static_assert(sizeof(Length) == sizeof(double));
}
// Bit for bit, so that signed zeroes and rounding are those of the machine operations.
F_SPEC(arithmetic_bits) {
  double const x = vc_f64("x"), y = vc_f64("y");
  Length const a(x), b(y); Time const t(y);
  vc_same_bits((a + b).magnitude_, x + y, "a + b"); vc_same_bits((a - b).magnitude_, x - y, "a - b"); vc_same_bits((-a).magnitude_, -x, "-a");
  vc_same_bits((a * y).magnitude_, x * y, "a * y"); vc_same_bits((x * b).magnitude_, x * y, "x * b");
  vc_same_bits((a * t).magnitude_, x * y, "a * t"); vc_same_bits((a / t).magnitude_, x / y, "a / t"); vc_same_bits(a / b, x / y, "a / b");
  vc_same_bits((a / y).magnitude_, x / y, "a / y"); vc_same_bits((x / b).magnitude_, x / y, "x / b");
  ENSURE((a == b) == (x == y)); ENSURE((a != b) == (x != y)); ENSURE((a < b) == (x < y)); ENSURE((a <= b) == (x <= y)); ENSURE((a > b) == (x > y)); ENSURE((a >= b) == (x >= y));
  ENSURE(((a <=> b) == std::partial_ordering::unordered) == (std::isnan(x) || std::isnan(y)));
  ENSURE(IsFinite(a) == std::isfinite(x)); ENSURE(IsFinite(x) == std::isfinite(x));
}
F_SPEC(special_values) {
  ENSURE(Infinity<Length>.magnitude_ == __builtin_inf()); ENSURE(Infinity<double> == __builtin_inf());
  ENSURE(std::isnan(NaN<Mass>.magnitude_)); ENSURE(std::isnan(NaN<double>)); ENSURE(!IsFinite(Infinity<Time>)); ENSURE(!IsFinite(NaN<Time>)); ENSURE(IsFinite(Time()));
  double const x = vc_f64("x");
  double l[2], m[4];
  _mm_storeu_pd(l, ToM128D(Length(x))); _mm256_storeu_pd(m, ToM256D(Length(x)));
  vc_same_bits(l[0], x, "lane 0"); vc_same_bits(l[1], x, "lane 1");
  for (int i = 0; i < 4; ++i) vc_same_bits(m[i], x, "lane of 4");
  _mm_storeu_pd(l, ToM128D(x)); _mm256_storeu_pd(m, ToM256D(x));
  vc_same_bits(l[0], x, "lane 0"); vc_same_bits(l[1], x, "lane 1");
  for (int i = 0; i < 4; ++i) vc_same_bits(m[i], x, "lane of 4");
}
// The exponents of products, quotients, powers and roots.
template<std::int64_t... e> void AlgebraOf() {}
F_SPEC(dimension_generators) {
  using A = Q<1, 2, -3, 4, -5, 6, -7, 1>;
  using B = Q<-3, 5, 1, -2, 4, 1, 2, 3>;
  SAME("product", decltype(A() * B()), Q<-2, 7, -2, 2, -1, 7, -5, 4>);
  SAME("quotient", decltype(A() / B()), Q<4, -3, -4, 6, -9, 5, -9, -2>);
  SAME("product with a number", decltype(A() * 2.0), A); SAME("number product", decltype(2.0 * A()), A); SAME("quotient by a number", decltype(A() / 2.0), A);
  SAME("inverse", Inverse<A>, Q<-1, -2, 3, -4, 5, -6, 7, -1>);
  SAME("self quotient", decltype(A() / A()), double); SAME("product with the inverse", decltype(A() * Inverse<A>()), double);
  SAME("square", Square<A>, Q<2, 4, -6, 8, -10, 12, -14, 2>); SAME("cube", Cube<B>, Q<-9, 15, 3, -6, 12, 3, 6, 9>);
  SAME("power 5", Exponentiation<B, 5>, Q<-15, 25, 5, -10, 20, 5, 10, 15>);
  SAME("power 1", Exponentiation<A, 1>, A); SAME("power 0", Exponentiation<A, 0>, double);
  SAME("power -1", Exponentiation<A, -1>, Q<-1, -2, 3, -4, 5, -6, 7, -1>); SAME("power -2", Exponentiation<A, -2>, Q<-2, -4, 6, -8, 10, -12, 14, -2>);
  SAME("power -3", Exponentiation<B, -3>, Q<9, -15, -3, 6, -12, -3, -6, -9>);
  SAME("square root", SquareRoot<Q<2, 4, -6, 8, -10, 12, -14, 2>>, A); SAME("cube root", CubeRoot<Q<-9, 15, 3, -6, 12, 3, 6, 9>>, B);
  SAME("fifth root", NthRoot<Q<-15, 25, 5, -10, 20, 5, 10, 15>, 5>, B);
  SAME("root of a number", SquareRoot<double>, double); SAME("root of an integer", CubeRoot<int>, double);
  SAME("numbers", decltype(2.0 * 3.0), double); SAME("double power", Exponentiation<double, -4>, double);
  using DA = A::Dimensions; using DB = B::Dimensions;
  SAME("DimensionsExponentiationGenerator 3", dim::DimensionsExponentiationGenerator<DA, 3>::Type, dim::Dimensions<3, 6, -9, 12, -15, 18, -21, 3>);
  SAME("DimensionsExponentiationGenerator -2", dim::DimensionsExponentiationGenerator<DB, -2>::Type, dim::Dimensions<6, -10, -2, 4, -8, -2, -4, -6>);
  SAME("DimensionsNthRootGenerator", dim::DimensionsNthRootGenerator<dim::Dimensions<3, 6, -9, 12, -15, 18, -21, 3>, 3>::Type, DA);
  SAME("DimensionsProductGenerator", dim::DimensionsProductGenerator<DA, DB>::Type, dim::Dimensions<-2, 7, -2, 2, -1, 7, -5, 4>);
  SAME("DimensionsQuotientGenerator", dim::DimensionsQuotientGenerator<DA, DB>::Type, dim::Dimensions<4, -3, -4, 6, -9, 5, -9, -2>);
  SAME("no dimensions", dim::NoDimensions, dim::Dimensions<0, 0, 0, 0, 0, 0, 0, 0>);
  SAME("derivative", Derivative<A, B>, Q<4, -3, -4, 6, -9, 5, -9, -2>); SAME("second derivative", Derivative<Length, Time, 2>, Q<1, 0, -2, 0, 0, 0, 0, 0>);
  SAME("zeroth derivative", Derivative<A, B, 0>, A); SAME("derivative of a number", Derivative<double, Time, 3>, Q<0, 0, -3, 0, 0, 0, 0, 0>);
  SAME("derivative wrt an instant", Derivative<Length, Instant, 2>, Q<1, 0, -2, 0, 0, 0, 0, 0>);
  SAME("derivative of an instant", Derivative<Instant, Length>, Q<-1, 0, 1, 0, 0, 0, 0, 0>);
  SAME("primitive", Primitive<Length, Time>, Q<1, 0, 1, 0, 0, 0, 0, 0>); SAME("primitive wrt an instant", Primitive<Length, Instant>, Q<1, 0, 1, 0, 0, 0, 0, 0>);
  SAME("sum", Sum<Length, Length>, Length); SAME("difference", Difference<Length>, Length); SAME("difference of instants", Difference<Instant>, Time);
  SAME("variation", Variation<A>, Q<1, 2, -4, 4, -5, 6, -7, 1>); SAME("variation 3", Variation<A, 3>, Q<1, 2, -6, 4, -5, 6, -7, 1>);
}
F_SPEC(named_quantities) {
  DIM(Length, 1, 0, 0, 0, 0, 0, 0, 0); DIM(Mass, 0, 1, 0, 0, 0, 0, 0, 0); DIM(Time, 0, 0, 1, 0, 0, 0, 0, 0); DIM(Current, 0, 0, 0, 1, 0, 0, 0, 0);
  DIM(Temperature, 0, 0, 0, 0, 1, 0, 0, 0); DIM(Amount, 0, 0, 0, 0, 0, 1, 0, 0); DIM(LuminousIntensity, 0, 0, 0, 0, 0, 0, 1, 0); DIM(Angle, 0, 0, 0, 0, 0, 0, 0, 1);
  DIM(SolidAngle, 0, 0, 0, 0, 0, 0, 0, 2); DIM(Area, 2, 0, 0, 0, 0, 0, 0, 0); DIM(Volume, 3, 0, 0, 0, 0, 0, 0, 0);
  DIM(Speed, 1, 0, -1, 0, 0, 0, 0, 0); DIM(Acceleration, 1, 0, -2, 0, 0, 0, 0, 0); DIM(Jerk, 1, 0, -3, 0, 0, 0, 0, 0); DIM(Snap, 1, 0, -4, 0, 0, 0, 0, 0);
  DIM(Momentum, 1, 1, -1, 0, 0, 0, 0, 0); DIM(Force, 1, 1, -2, 0, 0, 0, 0, 0); DIM(Stiffness, 0, 1, -2, 0, 0, 0, 0, 0); DIM(ArealSpeed, 2, 0, -1, 0, 0, 0, 0, 0);
  DIM(Energy, 2, 1, -2, 0, 0, 0, 0, 0); DIM(Power, 2, 1, -3, 0, 0, 0, 0, 0); DIM(Action, 2, 1, -1, 0, 0, 0, 0, 0);
  DIM(MomentOfInertia, 2, 1, 0, 0, 0, 0, 0, 0); DIM(AngularFrequency, 0, 0, -1, 0, 0, 0, 0, 1); DIM(AngularAcceleration, 0, 0, -2, 0, 0, 0, 0, 1);
  DIM(AngularMomentum, 2, 1, -1, 0, 0, 0, 0, 1); DIM(Torque, 2, 1, -2, 0, 0, 0, 0, 1); DIM(GravitationalParameter, 3, 0, -2, 0, 0, 0, 0, 0);
  DIM(Degree2SphericalHarmonicCoefficient, 5, 0, -2, 0, 0, 0, 0, 0); DIM(Degree3SphericalHarmonicCoefficient, 6, 0, -2, 0, 0, 0, 0, 0);
  DIM(SpecificImpulse, 1, 0, -1, 0, 0, 0, 0, 0); DIM(SpecificEnergy, 2, 0, -2, 0, 0, 0, 0, 0); DIM(SpecificAngularMomentum, 2, 0, -1, 0, 0, 0, 0, 1);
  DIM(Pressure, -1, 1, -2, 0, 0, 0, 0, 0); DIM(Entropy, 2, 1, -2, 0, -1, 0, 0, 0); DIM(Density, -3, 1, 0, 0, 0, 0, 0, 0); DIM(SpecificVolume, 3, -1, 0, 0, 0, 0, 0, 0);
  DIM(MolarVolume, 3, 0, 0, 0, 0, -1, 0, 0); DIM(DynamicViscosity, -1, 1, -1, 0, 0, 0, 0, 0); DIM(KinematicViscosity, 2, 0, -1, 0, 0, 0, 0, 0);
  DIM(Concentration, -3, 0, 0, 0, 0, 1, 0, 0); DIM(MolarMass, 0, 1, 0, 0, 0, -1, 0, 0); DIM(CatalyticActivity, 0, 0, -1, 0, 0, 1, 0, 0);
  DIM(Wavenumber, -1, 0, 0, 0, 0, 0, 0, 1); DIM(Frequency, 0, 0, -1, 0, 0, 0, 0, 0); DIM(SpectroscopicWavenumber, -1, 0, 0, 0, 0, 0, 0, 0);
  DIM(Charge, 0, 0, 1, 1, 0, 0, 0, 0); DIM(Voltage, 2, 1, -3, -1, 0, 0, 0, 0); DIM(Capacitance, -2, -1, 4, 2, 0, 0, 0, 0); DIM(Resistance, 2, 1, -3, -2, 0, 0, 0, 0);
  DIM(Conductance, -2, -1, 3, 2, 0, 0, 0, 0); DIM(MagneticFlux, 2, 1, -2, -1, 0, 0, 0, 0); DIM(MagneticFluxDensity, 0, 1, -2, -1, 0, 0, 0, 0);
  DIM(Inductance, 2, 1, -2, -2, 0, 0, 0, 0); DIM(ElectricField, 1, 1, -3, -1, 0, 0, 0, 0); DIM(Permeability, 1, 1, -2, -2, 0, 0, 0, 2); DIM(Permittivity, -3, -1, 4, 2, 0, 0, 0, -2);
  DIM(ElectricDisplacementField, -2, 0, 1, 1, 0, 0, 0, -2); DIM(MagneticField, -1, 0, 0, 1, 0, 0, 0, -2);
  DIM(RadiantIntensity, 2, 1, -3, 0, 0, 0, 0, -2); DIM(Radiance, 0, 1, -3, 0, 0, 0, 0, -2); DIM(RadiantFlux, 2, 1, -3, 0, 0, 0, 0, 0); DIM(RadiantEnergy, 2, 1, -2, 0, 0, 0, 0, 0);
  DIM(Irradiance, 0, 1, -3, 0, 0, 0, 0, 0); DIM(principia::quantities::_named_quantities::internal::RadiantExposure, 0, 1, -2, 0, 0, 0, 0, 0);
  DIM(Luminance, -2, 0, 0, 0, 0, 0, 1, 0); DIM(LuminousFlux, 0, 0, 0, 0, 0, 0, 1, 2); DIM(LuminousEnergy, 0, 0, 1, 0, 0, 0, 1, 2); DIM(Illuminance, -2, 0, 0, 0, 0, 0, 1, 2);
  DIM(LuminousExposure, -2, 0, 1, 0, 0, 0, 1, 2); DIM(LuminousEfficacy, -2, -1, 3, 0, 0, 0, 1, 2);
}
F_SPEC(concepts) {
  using namespace principia::quantities::_concepts;
  ENSURE(quantity<double>); ENSURE(quantity<Length>); ENSURE(quantity<Force>); ENSURE(!quantity<int>); ENSURE(!quantity<Instant>); ENSURE(!quantity<float>); ENSURE(!quantity<R3Element<double>>); ENSURE(!quantity<void*>);
  ENSURE(convertible_to_quantity<int>); ENSURE(convertible_to_quantity<float>); ENSURE(convertible_to_quantity<double const&>); ENSURE(convertible_to_quantity<Time const&>); ENSURE(!convertible_to_quantity<Instant>);
  ENSURE(!convertible_to_quantity<int*>); ENSURE(!convertible_to_quantity<R3Element<double>>);
  using namespace principia::quantities::_tuples;
  SAME("Derivatives", Derivatives<Length, Time, 3>, DirectSum<Length, Speed, Acceleration>);
  SAME("Derivatives of numbers", Derivatives<double, Time, 2>, DirectSum<double, Frequency>);
  SAME("Apply", Apply<Product, std::tuple<Length, Mass>, std::tuple<Time, Angle>>, std::tuple<decltype(Length() * Time()), decltype(Mass() * Angle())>);
  ENSURE(is_tuple_v<std::tuple<int>>); ENSURE(!is_tuple_v<int>); ENSURE((!is_tuple_v<std::pair<int, int>>));
  ENSURE((principia::base::_algebra::dimension<Length, double>) == 1);
}
// Serialization: the representation of the dimensions.
F_SPEC(exponent_serializer) {
  std::int64_t const e = vc_i64("e");
  ENSURE(dim::ExponentSerializer::IsSerializable(e) == (e >= -24 && e <= 7));
  std::int64_t const f = vc_i64("f"), p = vc_i64("p");
  REQUIRE(dim::ExponentSerializer::IsSerializable(e)); REQUIRE(dim::ExponentSerializer::IsSerializable(f)); REQUIRE(p >= 0 && p < 8);
  std::int64_t const r = dim::ExponentSerializer::Representation(e, p);
  ENSURE(r == (((e + 32) % 32) << (5 * p)));
  ENSURE((r & ~(std::int64_t(31) << (5 * p))) == 0);
  ENSURE((r == dim::ExponentSerializer::Representation(f, p)) == (e == f));
}
F_SPEC(dimensions_representation) {
#define REP(...) vc_assert(dim::Dimensions<__VA_ARGS__>::representation == [] { std::int64_t const e[8] = {__VA_ARGS__}; std::int64_t r = 0; for (int i = 7; i >= 0; --i) r = 32 * r + ((e[i] + 32) % 32); return r; }(), "representation of " #__VA_ARGS__)
  REP(0, 0, 0, 0, 0, 0, 0, 0); REP(1, 0, 0, 0, 0, 0, 0, 0); REP(0, 1, 0, 0, 0, 0, 0, 0); REP(0, 0, 1, 0, 0, 0, 0, 0); REP(0, 0, 0, 1, 0, 0, 0, 0);
  REP(0, 0, 0, 0, 1, 0, 0, 0); REP(0, 0, 0, 0, 0, 1, 0, 0); REP(0, 0, 0, 0, 0, 0, 1, 0); REP(0, 0, 0, 0, 0, 0, 0, 1);
  REP(7, -1, -24, 3, -17, -16, 5, -8); REP(-1, 7, 7, -24, 7, -24, -24, 7); REP(3, 0, -2, 0, 0, 0, 0, 0);
  // The text of the representations which exist in saves.
  ENSURE(Length::Dimensions::representation == 0x1); ENSURE(Mass::Dimensions::representation == 0x20); ENSURE(Time::Dimensions::representation == 0x400);
  ENSURE(GravitationalParameter::Dimensions::representation == 0x7803);
  using D = dim::Dimensions<1, -2, 3, -4, 5, -6, 7, -8>;
  ENSURE(D::Length == 1 && D::Mass == -2 && D::Time == 3 && D::Current == -4 && D::Temperature == 5 && D::Amount == -6 && D::LuminousIntensity == 7 && D::Angle == -8);
}
template<typename M> struct Raw { alignas(M) char bytes[sizeof(M)] = {}; M& get() { return *reinterpret_cast<M*>(bytes); } };
F_SPEC(message_round_trip) {
  double const x = vc_f64("x");
  Raw<serialization::Quantity> m;
  Force(x).WriteToMessage(&m.get());
  ENSURE(m.get().dimensions() == Force::Dimensions::representation);
  vc_same_bits(m.get().magnitude(), x, "magnitude");
  vc_same_bits(Force::ReadFromMessage(m.get()).magnitude_, x, "round trip");
}
F_SPEC(message_dimension_check) {
  std::int64_t const d = vc_fork(vc_bool("good")) ? Speed::Dimensions::representation : vc_i64("d");
  vc_may_abort(1);
  vc_flag("other", d != Speed::Dimensions::representation);
  Raw<serialization::Quantity> m;
  m.get().set_dimensions(d); m.get().set_magnitude(vc_f64("x"));
  Speed const v = Speed::ReadFromMessage(m.get());
  vc_same_bits(v.magnitude_, m.get().magnitude(), "magnitude");
  ENSURE(d == 0x3E1 - 0x3E1 + Speed::Dimensions::representation);
}
// Units and constants: literal values in SI units.
#define VAL(unit, value) do { constexpr double vc_u = pr_mag(unit); vc_assert(vc_u - (value) <= 2e-15 * ((value) < 0 ? -(value) : (value)) && (value) - vc_u <= 2e-15 * ((value) < 0 ? -(value) : (value)), #unit " is " #value); } while (0)
#define UNIT(T, unit, value) do { SAME(#unit " is a " #T, decltype(unit), T const); VAL(unit, value); } while (0)
constexpr double pr_mag(double x) { return x; }
template<typename D> constexpr double pr_mag(Quantity<D> const& q) { return q / si::Unit<Quantity<D>>; }
F_SPEC(si_units) {
  using namespace principia::quantities::_si::internal;
  UNIT(Length, Metre, 1); UNIT(Mass, Kilogram, 1); UNIT(Time, Second, 1); UNIT(Current, Ampere, 1); UNIT(Temperature, Kelvin, 1); UNIT(Amount, Mole, 1); UNIT(LuminousIntensity, Candela, 1); UNIT(Angle, Radian, 1);
  UNIT(Mass, Gram, 0.001); UNIT(SolidAngle, Steradian, 1); UNIT(Frequency, Hertz, 1); UNIT(Force, Newton, 1); UNIT(Pressure, Pascal, 1); UNIT(Energy, Joule, 1); UNIT(Power, Watt, 1);
  UNIT(Charge, Coulomb, 1); UNIT(Voltage, Volt, 1); UNIT(Capacitance, Farad, 1); UNIT(Resistance, Ohm, 1); UNIT(Conductance, Siemens, 1); UNIT(MagneticFlux, Weber, 1); UNIT(MagneticFluxDensity, Tesla, 1);
  UNIT(Inductance, Henry, 1); UNIT(LuminousFlux, Lumen, 1); UNIT(CatalyticActivity, Katal, 1);
  UNIT(Time, Minute, 60); UNIT(Time, Hour, 3600); UNIT(Time, Day, 86400);
  UNIT(Angle, Degree, 0.017453292519943295769); UNIT(Angle, ArcMinute, 0.00029088820866572159615); UNIT(Angle, ArcSecond, 4.8481368110953599359e-6);
  UNIT(Area, Hectare, 10000); UNIT(Volume, Litre, 0.001); UNIT(Mass, Tonne, 1000);
  UNIT(double, π, 3.14159265358979323846);
}
R_SPEC(si_prefixes) {
  ANY(Pressure, p); double const x = p.magnitude_;
#define PREFIX(f, value) vc_eq_tol(f(p).magnitude_, x * value, 1e-15, #f); static_assert(std::is_same_v<decltype(f(p)), Pressure>)
  using namespace principia::quantities::_si::internal;
  PREFIX(Yotta, 1e24); PREFIX(Zetta, 1e21); PREFIX(Exa, 1e18); PREFIX(Peta, 1e15); PREFIX(Tera, 1e12); PREFIX(Giga, 1e9); PREFIX(Mega, 1e6); PREFIX(Kilo, 1e3); PREFIX(Hecto, 1e2); PREFIX(Deca, 1e1);
  PREFIX(Deci, 1e-1); PREFIX(Centi, 1e-2); PREFIX(Milli, 1e-3); PREFIX(Micro, 1e-6); PREFIX(Nano, 1e-9); PREFIX(Pico, 1e-12); PREFIX(Femto, 1e-15); PREFIX(Atto, 1e-18); PREFIX(Zepto, 1e-21); PREFIX(Yocto, 1e-24);
}
F_SPEC(si_prefix_values) {
  using namespace principia::quantities::_si::internal;
  VAL(Yotta(Metre), 1e24); VAL(Zetta(Metre), 1e21); VAL(Exa(Metre), 1e18); VAL(Peta(Metre), 1e15); VAL(Tera(Metre), 1e12); VAL(Giga(Metre), 1e9); VAL(Mega(Metre), 1e6); VAL(Kilo(Metre), 1e3); VAL(Hecto(Metre), 100); VAL(Deca(Metre), 10);
  VAL(Deci(Metre), 0.1); VAL(Centi(Metre), 0.01); VAL(Milli(Metre), 0.001); VAL(Micro(Metre), 1e-6); VAL(Nano(Metre), 1e-9); VAL(Pico(Metre), 1e-12); VAL(Femto(Metre), 1e-15); VAL(Atto(Metre), 1e-18); VAL(Zepto(Metre), 1e-21); VAL(Yocto(Metre), 1e-24);
}
F_SPEC(other_units) {
  { using namespace principia::quantities::_bipm::internal;
    UNIT(Pressure, Bar, 100000); UNIT(Pressure, MillimetreOfMercury, 133.322); UNIT(Length, Ångström, 1e-10); UNIT(Length, NauticalMile, 1852); UNIT(Speed, Knot, 1852.0 / 3600.0); UNIT(Area, Barn, 1e-28); }
  { using namespace principia::quantities::_cgs::internal;
    UNIT(Length, Centimetre, 0.01); UNIT(Energy, Erg, 1e-7); UNIT(Force, Dyne, 1e-5); UNIT(Acceleration, Gal, 0.01); UNIT(Pressure, Barye, 0.1); UNIT(DynamicViscosity, Poise, 0.1); UNIT(KinematicViscosity, Stokes, 1e-4);
    UNIT(Luminance, Stilb, 1e4); UNIT(Illuminance, Phot, 1e4); UNIT(MagneticFluxDensity, Gauss, 1e-4); UNIT(MagneticFlux, Maxwell, 1e-8); UNIT(MagneticField, Œrsted, 79.577471545947667884); UNIT(SpectroscopicWavenumber, Kayser, 100); }
  { using namespace principia::quantities::_uk::internal;
    UNIT(Mass, Pound, 0.45359237); UNIT(Mass, Ounce, 0.028349523125); UNIT(Mass, Drachm, 0.0017718451953125); UNIT(Mass, Grain, 6.479891e-5); UNIT(Mass, Stone, 6.35029318); UNIT(Mass, Quarter, 12.70058636);
    UNIT(Mass, Hundredweight, 50.80234544); UNIT(Mass, Ton, 1016.0469088); UNIT(Length, Yard, 0.9144); UNIT(Length, Foot, 0.3048); UNIT(Length, Inch, 0.0254); UNIT(Length, Thou, 2.54e-5); UNIT(Length, Chain, 20.1168);
    UNIT(Length, Furlong, 201.168); UNIT(Length, Mile, 1609.344); UNIT(Length, League, 4828.032); UNIT(Length, Link, 0.201168); UNIT(Length, Rod, 5.0292); UNIT(Length, admiralty::NauticalMile, 1853.184);
    UNIT(Length, admiralty::Cable, 185.3184); UNIT(Length, admiralty::Fathom, 1.853184); UNIT(Area, Perch, 25.29285264); UNIT(Area, Rood, 1011.7141056); UNIT(Area, Acre, 4046.8564224);
    UNIT(Volume, FluidOunce, 28.4130625e-6); UNIT(Volume, Gill, 142.0653125e-6); UNIT(Volume, Pint, 568.26125e-6); UNIT(Volume, Quart, 1.1365225e-3); UNIT(Volume, Gallon, 4.54609e-3);
    UNIT(Force, PoundForce, 4.4482216152605); UNIT(Power, HorsePower, 745.69987158227022); UNIT(Pressure, PoundPerSquareInch, 6894.7572931683613); }
}
F_SPEC(physical_constants) {
  { using namespace principia::quantities::_constants::internal;
    UNIT(Speed, SpeedOfLight, 299792458); UNIT(Action, PlanckConstant, 6.62607015e-34); UNIT(Charge, ElementaryCharge, 1.602176634e-19); UNIT(Entropy, BoltzmannConstant, 1.380649e-23); VAL(AvogadroConstant, 6.02214076e23);
    SAME("AvogadroConstant", decltype(AvogadroConstant), Inverse<Amount> const);
    UNIT(double, FineStructureConstant, 0.0072973525643); VAL(GravitationalConstant, 6.6743e-11); SAME("GravitationalConstant", decltype(GravitationalConstant), Q<3, -1, -2, 0, 0, 0, 0, 0> const);
    UNIT(Mass, ElectronMass, 9.1093837139e-31); UNIT(Mass, ProtonMass, 1.67262192595e-27); UNIT(Acceleration, StandardGravity, 9.80665); UNIT(Permeability, VacuumPermeability, 1.25663706126281475e-6); UNIT(Permittivity, VacuumPermittivity, 8.85418781884005976e-12);
    VAL(StefanBoltzmannConstant, 5.67037441918442945e-8); SAME("StefanBoltzmannConstant", decltype(StefanBoltzmannConstant), Q<0, 1, -3, 0, -4, 0, 0, 0> const);
    UNIT(Energy, ElectronVolt, 1.602176634e-19); UNIT(Mass, Dalton, 1.66053906717384666e-27); }
  { using namespace principia::quantities::_astronomy::internal;
    UNIT(Length, AstronomicalUnit, 149597870700); UNIT(Length, Parsec, 3.0856775814913672789e16); UNIT(Length, SolarRadius, 6.957e8); UNIT(Irradiance, TotalSolarIrradiance, 1361); UNIT(Power, SolarLuminosity, 3.828e26);
    UNIT(Temperature, SolarEffectiveTemperature, 5772); UNIT(GravitationalParameter, SolarGravitationalParameter, 1.3271244e20); UNIT(Length, TerrestrialEquatorialRadius, 6378100); UNIT(Length, TerrestrialPolarRadius, 6356800);
    UNIT(Length, JovianEquatorialRadius, 71492000); UNIT(Length, JovianPolarRadius, 66854000); UNIT(GravitationalParameter, TerrestrialGravitationalParameter, 3.986004e14); UNIT(GravitationalParameter, JovianGravitationalParameter, 1.2668653e17);
    UNIT(Time, JulianYear, 31557600); UNIT(Length, LightYear, 9460730472580800); }
}
// Elementary functions over quantities.
R_SPEC(fused_operations) {
  ANY(Length, x); ANY(Force, y); ANY(Energy, z); ANY(double, k); ANY(Length, w);
  vc_eq(FusedMultiplyAdd(x, y, z).magnitude_, x.magnitude_ * y.magnitude_ + z.magnitude_, "xy + z");
  vc_eq(FusedMultiplySubtract(x, y, z).magnitude_, x.magnitude_ * y.magnitude_ - z.magnitude_, "xy - z");
  vc_eq(FusedNegatedMultiplyAdd(x, y, z).magnitude_, -(x.magnitude_ * y.magnitude_) + z.magnitude_, "-xy + z");
  vc_eq(FusedNegatedMultiplySubtract(x, y, z).magnitude_, -(x.magnitude_ * y.magnitude_) - z.magnitude_, "-xy - z");
  vc_eq(FusedMultiplyAdd(k, x, w).magnitude_, k * x.magnitude_ + w.magnitude_, "kx + w");
}
F_SPEC(fused_operations_bits) {
  double const x = vc_f64("x"), y = vc_f64("y"), z = vc_f64("z");
  vc_same_bits(FusedMultiplyAdd(Length(x), Force(y), Energy(z)).magnitude_, std::fma(x, y, z), "xy + z");
  vc_same_bits(FusedMultiplySubtract(Length(x), Force(y), Energy(z)).magnitude_, std::fma(x, y, -z), "xy - z");
  vc_same_bits(FusedNegatedMultiplyAdd(Length(x), Force(y), Energy(z)).magnitude_, std::fma(-x, y, z), "-xy + z");
  vc_same_bits(FusedNegatedMultiplySubtract(Length(x), Force(y), Energy(z)).magnitude_, std::fma(-x, y, -z), "-xy - z");
}
F_SPEC(abs_next) {
  double const x = vc_f64("x");
  vc_same_bits(Abs(Length(x)).magnitude_, std::abs(x), "Abs"); vc_same_bits(Abs(x), std::abs(x), "Abs");
}
F_SPEC(next) {
  double const x = __builtin_bit_cast(double, (vc_u64("m") & 0x000FFFFFFFFFFFFF) | (vc_fork(vc_bool("negative")) ? 0xC110000000000000 : 0x3FE0000000000000));
  vc_same_bits(NextUp(Length(x)).magnitude_, principia::numerics::_next::NextUp(x), "NextUp"); vc_same_bits(NextDown(Length(x)).magnitude_, principia::numerics::_next::NextDown(x), "NextDown");
}
R_SPEC(roots) {
  ANY(Area, a); REQUIRE(a.magnitude_ >= 0);
  Length const r = Sqrt(a);
  ENSURE(r.magnitude_ >= 0); vc_eq(r.magnitude_ * r.magnitude_, a.magnitude_, "square of the square root");
  ANY(double, x); REQUIRE(x >= 0); vc_eq(Sqrt(x) * Sqrt(x), x, "square of the square root");
}
F_SPEC(sqrt_bits) {
  double const x = vc_f64("x");
  vc_same_bits(Sqrt(Area(x)).magnitude_, std::sqrt(x), "Sqrt"); vc_same_bits(Sqrt(x), std::sqrt(x), "Sqrt");
}
template<int n> void PowSpec(Length const& q, double x, double y) {
  double p = 1;
  for (int i = 0; i < (n < 0 ? -n : n); ++i) p = p * x;
  double const e = n < 0 ? 1 / p : p;
  vc_eq(Pow<n>(x), e, pr::cat("Pow of a number", n < 0 ? -n : n).s);
  vc_eq(pr::mag(Pow<n>(q)), e, pr::cat("Pow of a quantity", n < 0 ? -n : n).s);
  vc_assert(std::is_same_v<decltype(Pow<n>(q)), Exponentiation<Length, n>>, "type of Pow");
}
R_SPEC(pow_positive) {
  ANY(Length, q); double const x = q.magnitude_;
  PowSpec<0>(q, x, 0); PowSpec<1>(q, x, 0); PowSpec<2>(q, x, 0); PowSpec<3>(q, x, 0); PowSpec<4>(q, x, 0); PowSpec<5>(q, x, 0); PowSpec<6>(q, x, 0); PowSpec<7>(q, x, 0); PowSpec<8>(q, x, 0);
  PowSpec<9>(q, x, 0); PowSpec<10>(q, x, 0); PowSpec<11>(q, x, 0); PowSpec<12>(q, x, 0); PowSpec<13>(q, x, 0); PowSpec<14>(q, x, 0); PowSpec<15>(q, x, 0); PowSpec<16>(q, x, 0); PowSpec<17>(q, x, 0);
  PowSpec<20>(q, x, 0); PowSpec<23>(q, x, 0); PowSpec<24>(q, x, 0); PowSpec<29>(q, x, 0); PowSpec<30>(q, x, 0); PowSpec<31>(q, x, 0);
}
R_SPEC(pow_negative) {
  ANY(Length, q); double const x = q.magnitude_; REQUIRE(x != 0);
  PowSpec<-1>(q, x, 0); PowSpec<-2>(q, x, 0); PowSpec<-3>(q, x, 0); PowSpec<-4>(q, x, 0); PowSpec<-5>(q, x, 0); PowSpec<-6>(q, x, 0); PowSpec<-7>(q, x, 0); PowSpec<-8>(q, x, 0); PowSpec<-11>(q, x, 0); PowSpec<-16>(q, x, 0); PowSpec<-21>(q, x, 0);
}
// The wrappers call the function of the C++ library that they are named after, with its arguments in order.
R_SPEC(wrappers) {
  ANY(double, x); ANY(double, y); ANY(Angle, a); double const u = a.magnitude_; ANY(Length, p); ANY(Length, q);
  EQ(Tan(a), std::tan(u)); EQ(Sinh(a), std::sinh(u)); EQ(Cosh(a), std::cosh(u)); EQ(Tanh(a), std::tanh(u));
  EQ(ArcSin(x).magnitude_, std::asin(x)); EQ(ArcCos(x).magnitude_, std::acos(x)); EQ(ArcTan(x).magnitude_, std::atan(x)); EQ(ArcTan(y, x).magnitude_, std::atan2(y, x)); EQ(ArcTan(p, q).magnitude_, std::atan2(p.magnitude_, q.magnitude_));
  EQ(ArcSinh(x).magnitude_, std::asinh(x)); EQ(ArcCosh(x).magnitude_, std::acosh(x)); EQ(ArcTanh(x).magnitude_, std::atanh(x));
}
R_SPEC(fmod) {
  ANY(double, x); ANY(double, y); ANY(Length, p); ANY(Length, q);
  REQUIRE(y != 0 && q.magnitude_ != 0);
  EQ(FMod(x, y), std::fmod(x, y)); EQ(FMod(p, q).magnitude_, std::fmod(p.magnitude_, q.magnitude_));
}
R_SPEC(nth_root) {
  ANY(double, x); REQUIRE(x > 0);
  EQ(Root(2, x), std::pow(x, 1.0 / 2)); EQ(Root(3, x), std::pow(x, 1.0 / 3)); EQ(Root(7, x), std::pow(x, 1.0 / 7));
  EQ(Root<3>(Volume(x)).magnitude_, std::pow(x, 1.0 / 3)); EQ(Root<2>(Area(x)).magnitude_, std::pow(x, 1.0 / 2)); 
}
R_SPEC(round) {
  ANY(double, x);
  double const r = Round(x);
  ENSURE(r - x <= 0.5); ENSURE(x - r <= 0.5); ENSURE(std::floor(r) == r);
}
// The element of {α + 2nπ} closest to the previous angle.
R_SPEC(unwind_from) {
  ANY(Angle, previous); ANY(Angle, a);
  double const r = UnwindFrom(previous, a).magnitude_;
  double const n = std::nearbyint((previous.magnitude_ - a.magnitude_) / (2 * π));
  vc_eq_tol(r, a.magnitude_ + n * (2 * π), 1e-12, "congruent modulo 2π");
  ENSURE(r - previous.magnitude_ <= π * (1 + 1e-12)); ENSURE(previous.magnitude_ - r <= π * (1 + 1e-12));
}
namespace { ef::SC<double> FakeSinCos(double x) { return {.sin = x + 1, .cos = x + 2}; } double FakeSin(double x) { return x + 3; } double FakeCos(double x) { return x + 4; } }
F_SPEC(configuration) {
  using namespace principia::numerics::_fma;
  vc_may_abort(1);
  ConfigureElementaryFunctions(true);
  ENSURE((ef::cos == &principia::numerics::_sin_cos::Cos<FMAPresence::Present>)); ENSURE((ef::sin == &principia::numerics::_sin_cos::Sin<FMAPresence::Present>)); ENSURE((ef::sin_cos == &principia::numerics::_sin_cos::SinCos<FMAPresence::Present>));
  {
    ElementaryFunctionsConfigurationSaver const saver;
    ConfigureElementaryFunctions(false);
    ENSURE(ef::cos == static_cast<double (*)(double)>(&std::cos)); ENSURE(ef::sin == static_cast<double (*)(double)>(&std::sin)); ENSURE(ef::sin_cos == &ef::StdSinCos);
    if (vc_fork(vc_bool("nested"))) { ElementaryFunctionsConfigurationSaver const nested; vc_unreachable("two configuration savers"); }
  }
  ENSURE((ef::cos == &principia::numerics::_sin_cos::Cos<FMAPresence::Present>)); ENSURE((ef::sin == &principia::numerics::_sin_cos::Sin<FMAPresence::Present>)); ENSURE((ef::sin_cos == &principia::numerics::_sin_cos::SinCos<FMAPresence::Present>));
  { ElementaryFunctionsConfigurationSaver const again; }
}
F_SPEC(configured_functions) {
  double const x = vc_f64("x");
  ef::cos = &FakeCos; ef::sin = &FakeSin; ef::sin_cos = &FakeSinCos;
  Angle const a = x * Radian;
  vc_same_bits(Sin(a), x + 3, "Sin"); vc_same_bits(Cos(a), x + 4, "Cos");
  auto const [s, c] = SinCos(a);
  vc_same_bits(s, x + 1, "sin of SinCos"); vc_same_bits(c, x + 2, "cos of SinCos");
}
R_SPEC(std_sin_cos) { ANY(double, x); auto const sc = ef::StdSinCos(x); EQ(sc.sin, std::sin(x)); EQ(sc.cos, std::cos(x)); }
