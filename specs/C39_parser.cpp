// Parsing of units and quantities from text.
// pv-flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
// pv-bounded: parse_.* the listed texts, over every unit of the table, every position of the blanks, and every combination of operators
#include "pr.hpp"
#include <string>
#include "quantities/parser.hpp"
using namespace principia::quantities::_parser;
namespace pi = principia::quantities::_parser::internal;
namespace {
pi::Unit any_unit(const char* n) {
  pi::RuntimeDimensions d;
  for (int i = 0; i < 8; ++i) { d[i] = vc_i64(pr::cat(n, i).s); REQUIRE(d[i] >= -1000 && d[i] <= 1000); }
  return pi::Unit(std::move(d), vc_real(n));
}
}
R_SPEC(unit_operators) {
  auto const a = any_unit("a"), b = any_unit("b");
  auto const p = a * b;
  EQ(p.scale, a.scale * b.scale);
  for (int i = 0; i < 8; ++i) ENSURE(p.dimensions[i] == a.dimensions[i] + b.dimensions[i]);
  REQUIRE(b.scale != 0);
  auto const q = a / b;
  EQ(q.scale, a.scale / b.scale);
  for (int i = 0; i < 8; ++i) ENSURE(q.dimensions[i] == a.dimensions[i] - b.dimensions[i]);
  std::int32_t const n = vc_i32("n"); REQUIRE(n >= -20 && n <= 20);
  auto const r = b ^ n;
  EQ(r.scale, std::pow(b.scale, n));
  for (int i = 0; i < 8; ++i) ENSURE(r.dimensions[i] == b.dimensions[i] * n);
}
R_SPEC(unit_of_quantity) {
  ANY(Permittivity, e); pi::Unit const u(e);
  EQ(u.scale, e.magnitude_);
  std::int64_t const d[8] = {-3, -1, 4, 2, 0, 0, 0, -2};
  for (int i = 0; i < 8; ++i) ENSURE(u.dimensions[i] == d[i]);
  ANY(double, x); pi::Unit const v(x);
  EQ(v.scale, x); for (int i = 0; i < 8; ++i) ENSURE(v.dimensions[i] == 0);
}
namespace {
void unit(const char* s, double scale, std::int64_t const (&d)[8]) {
  pi::Unit const u = pi::ParseUnit(s);
  vc_assert(u.scale - scale <= 2e-15 * scale && scale - u.scale <= 2e-15 * scale, pr::cat("scale of ", s).s);
  bool ok = true;
  for (int i = 0; i < 8; ++i) ok &= u.dimensions[i] == d[i];
  vc_assert(ok, pr::cat("dimensions of ", s).s);
}
}
F_SPEC(parse_unit) {
  unit("", 1, {0, 0, 0, 0, 0, 0, 0, 0}); unit("Å", 1e-10, {1}); unit("μm", 1e-6, {1}); unit("mm", 1e-3, {1}); unit("cm", 1e-2, {1}); unit("m", 1, {1}); unit("km", 1e3, {1});
  unit("R🜨", 6378100, {1}); unit("R☉", 6.957e8, {1}); unit("au", 149597870700, {1}); unit("kg", 1, {0, 1}); unit("ms", 1e-3, {0, 0, 1}); unit("s", 1, {0, 0, 1}); unit("min", 60, {0, 0, 1}); unit("h", 3600, {0, 0, 1}); unit("d", 86400, {0, 0, 1});
  unit("GM🜨", 3.986004e14, {3, 0, -2}); unit("GM☉", 1.3271244e20, {3, 0, -2}); unit("W", 1, {2, 1, -3}); unit("deg", 0.017453292519943295769, {0, 0, 0, 0, 0, 0, 0, 1}); unit("°", 0.017453292519943295769, {0, 0, 0, 0, 0, 0, 0, 1});
  unit("rad", 1, {0, 0, 0, 0, 0, 0, 0, 1}); unit("sr", 1, {0, 0, 0, 0, 0, 0, 0, 2});
}
namespace {
bool same(pi::Unit const& u, double scale, std::int64_t const (&d)[8]) {
  bool ok = u.scale - scale <= 1e-14 * scale && scale - u.scale <= 1e-14 * scale;
  for (int i = 0; i < 8; ++i) ok &= u.dimensions[i] == d[i];
  return ok;
}
std::string blanks(int n) { return std::string(n, ' '); }
}
F_SPEC(parse_exponent) {
  ENSURE(pi::ParseExponent("3") == 3); ENSURE(pi::ParseExponent("-2") == -2); ENSURE(pi::ParseExponent("+4") == 4); ENSURE(pi::ParseExponent("12") == 12); ENSURE(pi::ParseExponent("0") == 0); ENSURE(pi::ParseExponent(" 5") == 5);
}
// The blanks around the caret are not significant.
F_SPEC(parse_power) {
  char const* const exponents[] = {"0", "1", "2", "3", "-1", "-2", "-3", "10"}; int const n[] = {0, 1, 2, 3, -1, -2, -3, 10};
  for (int e = 0; e < 8; ++e) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    std::string const s = "km" + blanks(i) + "^" + blanks(j) + exponents[e];
    double scale = 1; for (int k = 0; k < n[e]; ++k) scale *= 1000; for (int k = 0; k > n[e]; --k) scale /= 1000;
    ENSURE(same(pi::ParseExponentiationUnit(s), scale, {n[e]})); ENSURE(same(pi::ParseProductUnit(s), scale, {n[e]})); ENSURE(same(pi::ParseQuotientUnit(s), scale, {n[e]}));
  }
}
// Blanks denote the product, with powers on either side or both.
F_SPEC(parse_product) {
  for (int i = 0; i < 2; ++i) for (int j = 1; j < 4; ++j) {
    std::string const c = blanks(i) + "^" + blanks(i), b = blanks(j);
    ENSURE(same(pi::ParseProductUnit("km" + b + "h"), 3600e3, {1, 0, 1}));
    ENSURE(same(pi::ParseProductUnit("km" + c + "2" + b + "h"), 3600e6, {2, 0, 1}));
    ENSURE(same(pi::ParseProductUnit("km" + b + "h" + c + "2"), 12960000e3, {1, 0, 2}));
    ENSURE(same(pi::ParseProductUnit("km" + c + "-1" + b + "h" + c + "-2"), 1 / 12960000e3, {-1, 0, -2}));
    ENSURE(same(pi::ParseProductUnit("W" + b + "sr" + c + "-1" + b + "km" + c + "-2"), 1e-6, {0, 1, -3, 0, 0, 0, 0, -2}));
    ENSURE(same(pi::ParseProductUnit("kg" + b + "min" + b + "mm" + b + "d"), 60 * 86400e-3, {1, 1, 2}));
  }
}
// Quotients associate on the left; products bind tighter on the left of a slash; what follows a slash is a single power.
F_SPEC(parse_quotient) {
  for (int i = 0; i < 3; ++i) {
    std::string const q = blanks(i) + "/" + blanks(i);
    ENSURE(same(pi::ParseQuotientUnit("km" + q + "h"), 1000.0 / 3600, {1, 0, -1}));
    ENSURE(same(pi::ParseQuotientUnit("km" + q + "h" + q + "min"), 1000.0 / 3600 / 60, {1, 0, -2}));
    ENSURE(same(pi::ParseQuotientUnit("km" + q + "h^2" + q + "d^-1"), 1000.0 / 3600 / 3600 * 86400, {1, 0, -1}));
    ENSURE(same(pi::ParseQuotientUnit("km^3" + q + "h^2"), 1e9 / 3600 / 3600, {3, 0, -2}));
    ENSURE(same(pi::ParseQuotientUnit("kg km ^ 2" + q + "min ^ 2" + q + "deg"), 1e6 / 3600 / 0.017453292519943295769, {2, 1, -2, 0, 0, 0, 0, -1}));
    ENSURE(same(pi::ParseQuotientUnit(q + "h"), 1.0 / 3600, {0, 0, -1})); ENSURE(same(pi::ParseQuotientUnit("/" + q.substr(i + 1) + "h"), 1.0 / 3600, {0, 0, -1}));
  }
}
F_SPEC(parse_quantity) {
  char const* const numbers[] = {"1.5", "-3.25", "2", "+7", "1e3", "-2.5E-1", ".5"}; double const values[] = {1.5, -3.25, 2, 7, 1e3, -0.25, 0.5};
  for (int k = 0; k < 7; ++k) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
    std::string const n = blanks(2 * i) + numbers[k], b = blanks(2 * j);
    double const x = values[k], a = x < 0 ? -x : x;
    ENSURE(ParseQuantity<double>(n + b) == x); ENSURE(ParseQuantity<Mass>(n + b + "kg" + blanks(i)).magnitude_ == x);
    double const s = ParseQuantity<Speed>(n + b + "km / s" + blanks(j)).magnitude_; ENSURE(s - 1000 * x <= 1e-12 * a); ENSURE(1000 * x - s <= 1e-12 * a);
    ENSURE(ParseQuantity<Frequency>(n + b + "/ s").magnitude_ == x); ENSURE(ParseQuantity<GravitationalParameter>(n + b + "m^3/s^2").magnitude_ == x);
    ENSURE(ParseQuantity<Torque>(n + b + "kg m ^ 2 rad / s ^ 2").magnitude_ == x);
  }
}
// Errors are detected: other units, wrong dimensions, malformed texts.
F_SPEC(parse_unit_errors) {
  vc_may_abort(1);
  char const* const good[] = {"Å", "°", "mm", "cm", "km", "au", "kg", "ms", "sr", "m", "s", "h", "d", "W", ""};
  std::uint8_t const a = vc_u8("a"), b = vc_u8("b");
  std::string s; s.resize(2); s[0] = a; s[1] = b;
  vc_flag("other", 1);
  pi::Unit const u = pi::ParseUnit(s);
  bool found = false;
  for (auto g : good) found |= s == g;
  vc_assert(found, "the unit is known");
}
namespace {
template<typename T> void fails(char const* s) {
  if (!vc_fork(vc_bool(pr::cat("try ", s).s))) return;
  ParseQuantity<T>(s);
  vc_unreachable(pr::cat("accepted: ", s).s);
}
}
F_SPEC(parse_errors) {
  vc_may_abort(1);
  if (vc_fork(vc_bool("good"))) { ENSURE(ParseQuantity<Length>("1 m").magnitude_ == 1); return; }
  fails<double>(""); fails<double>("x"); fails<double>("1. 23"); fails<double>("1 .23"); fails<double>("1 m"); fails<Length>("1"); fails<Length>("1 s"); fails<Length>("1 m^2"); fails<Length>("1 m/s"); fails<Speed>("1 m s"); fails<Length>("m");
  fails<Length>("1 nm"); fails<Time>("1 hr"); fails<Angle>("1 grd"); fails<Angle>("1 sr"); fails<Length>("1 M"); fails<Length>("1 m^"); fails<Length>("1 m^x"); fails<Length>("1 ^2"); fails<Speed>("1 m/"); fails<Speed>("1 m//s"); fails<Speed>("1 m^- 2/s");
  fails<Radiance>("1 W/sr m^2"); fails<Area>("1 m ^ 2 ^ 1 x"); fails<Mass>("1 kg kg"); fails<Current>("1 m"); fails<Temperature>("1 kg"); fails<SolidAngle>("1 rad"); fails<Amount>("1 "); fails<LuminousIntensity>("1 W");
}
