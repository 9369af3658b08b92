// The time scales: TT, TAI, UTC (modern and stretchy), UT1, GPS and 北斗 time, and the Earth rotation angle.
// pv-flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
// pv-bounded: lookup_.* sorted tables of 1 to 6 entries (3 for C04), all contents
// pv-bounded: ut1_.*|earth_rotation.* every UT1 in selected intervals of the published tables (first, last, middle, the switch between the series)
// pv-bounded: tt_second selected days and seconds
#include "pr.hpp"
#include <array>
#include <cmath>
#include <string>
#include "astronomy/epoch.hpp"
#include "astronomy/time_scales.hpp"
#include "quantities/astronomy.hpp"
#include "quantities/si.hpp"
using namespace principia::astronomy::_date_time;
using namespace principia::astronomy::_epoch;
using namespace principia::astronomy::_time_scales;
using namespace principia::geometry::_instant;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace ts = principia::astronomy::_time_scales::internal;
namespace {
double seconds(Time const& t) { return t / Second; }
double seconds(Instant const& t) { return (t - J2000) / Second; }
// Any time of day but a leap second or the end of the day; `s` are the seconds of the day.
TimeOfDay any_time(double& s) {
  int const h = vc_i32("h"), m = vc_i32("mn"), sec = vc_i32("s"), ms = vc_i32("ms");
  REQUIRE(h >= 0 && h <= 23 && m >= 0 && m <= 59 && sec >= 0 && sec <= 59 && ms >= 0 && ms <= 999);
  s = 3600.0 * h + 60.0 * m + sec + ms / 1000.0;
  return TimeOfDay(h, m, sec, ms);
}
struct Step { int y, m, d; };
}
R_SPEC(since_noon) {
  int const y = vc_i32("y"), m = vc_i32("m"), d = vc_i32("d");
  REQUIRE(y >= -4712 && y <= 9999); REQUIRE(m >= 1 && m <= 12); REQUIRE(d >= 1 && d <= 28);
  Date const day = Date::Calendar(y, m, d, vc_fork(vc_bool("Julian")) ? Calendar::Julian : Calendar::Gregorian);
  double s; TimeOfDay const t = any_time(s);
  DateTime const x(day, t);
  double const mjd = day.mjd();
  double const e = (mjd - 51544) * 86400 - 43200 + s;
  EQ(seconds(ts::TimeSince20000101T120000Z(x)), e);
  EQ(seconds(ts::DateTimeAsTT(x)), e);
  EQ(seconds(ts::DateTimeAsTAI(x)), e + 32.184);
  EQ(seconds(ts::DateTimeAsGPSTime(x)), e + 51.184);
  EQ(seconds(ts::DateTimeAs北斗Time(x)), e + 65.184);
}
R_SPEC(offsets) {
  ANY(Time, t);
  EQ(seconds(ts::FromTT(t)), seconds(t)); EQ(seconds(ts::FromTAI(t)), seconds(t) + 32.184);
  EQ(seconds(ts::FromGPSTime(t)), seconds(t) + 19 + 32.184); EQ(seconds(ts::From北斗Time(t)), seconds(t) + 33 + 32.184);
  EQ(ts::mjd(t), seconds(t) / 86400 + 51544.5);
}
R_SPEC(julian_dates) {
  std::int64_t const day = vc_i64("day"), f = vc_i64("f");
  REQUIRE(day >= 0 && day <= 9999999); REQUIRE(f >= 0 && f <= 999);
  JulianDate const j = JulianDate::JD(day * 1000 + f, 10, 3);
  EQ(seconds(ts::TimeSinceJ2000(j)), (day - 2451545 + f / 1000.0) * 86400.0);
}
// Leap seconds occur at the end of the reference clock's 60-second minutes only; see time_of_day in C30.
namespace {
template<typename F> void rejects_leap_seconds(F f) {
  if (vc_fork(vc_bool("good"))) { f(DateTime("2016-12-31"_Date, TimeOfDay(23, 59, 59, 999))); ENSURE(true); return; }
  int const ms = vc_i32("ms"); REQUIRE(ms >= 0 && ms <= 999);
  vc_may_abort(1);
  f(DateTime("2016-12-31"_Date, TimeOfDay(23, 59, 60, ms)));
  vc_unreachable("a leap second was accepted on a uniform time scale");
}
}
R_SPEC(no_leap_seconds_tt) { rejects_leap_seconds([](DateTime const& t) { ts::DateTimeAsTT(t); }); }
R_SPEC(no_leap_seconds_tai) { rejects_leap_seconds([](DateTime const& t) { ts::DateTimeAsTAI(t); }); }
R_SPEC(no_leap_seconds_gps) { rejects_leap_seconds([](DateTime const& t) { ts::DateTimeAsGPSTime(t); }); }
R_SPEC(no_leap_seconds_北斗) { rejects_leap_seconds([](DateTime const& t) { ts::DateTimeAs北斗Time(t); }); }
namespace {
// Bulletin C: TAI - UTC is 10 s from 1972-01-01, and one more second from each of these months on.
constexpr int bulletin_c[][2] = {{1972, 7}, {1973, 1}, {1974, 1}, {1975, 1}, {1976, 1}, {1977, 1}, {1978, 1}, {1979, 1}, {1980, 1}, {1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1},
                                 {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
int tai_minus_utc(int y, int m) { int n = 10; for (auto const& s : bulletin_c) if (y > s[0] || y == s[0] && m >= s[1]) ++n; return n; }
bool leap_after(int y, int m) { for (auto const& s : bulletin_c) if (m == 6 ? s[0] == y && s[1] == 7 : s[0] == y + 1 && s[1] == 1) return true; return false; }
int last(int m, int y) { constexpr int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return l[m - 1] + (m == 2 && y % 4 == 0 ? 1 : 0); }
}
R_SPEC(modern_utc_offset) {
  for (int y = 1972; y <= 2022; ++y) for (int m = 1; m <= 12; ++m) {
    EQ(seconds(ts::ModernUTCMinusTAI(Date::Calendar(y, m, 1))), (double)-tai_minus_utc(y, m));
    EQ(seconds(ts::ModernUTCMinusTAI(Date::Calendar(y, m, last(m, y)))), (double)-tai_minus_utc(y, m));
  }
  EQ(seconds(ts::ModernUTCMinusTAI("2023-01-01"_Date)), -37.0);
}
R_SPEC(modern_utc_leap_seconds) {
  for (int y = 1972; y <= 2022; ++y) for (int m : {6, 12}) {
    ENSURE(ts::IsValidModernUTC(DateTime(Date::Calendar(y, m, last(m, y)), TimeOfDay(23, 59, 60, 0))) == leap_after(y, m));
    ENSURE(ts::IsValidModernUTC(DateTime(Date::Calendar(y, m, last(m, y)), TimeOfDay(23, 59, 60, 999))) == leap_after(y, m));
    ENSURE(ts::IsValidModernUTC(DateTime(Date::Calendar(y, m, last(m, y)), TimeOfDay(23, 59, 59, 999))));
  }
}
// UTC instants, on either side of and during the leap seconds.
R_SPEC(modern_utc) {
  double s; TimeOfDay const t = any_time(s);
  int const ms = vc_i32("ms'"); REQUIRE(ms >= 0 && ms <= 999);
  for (int y = 1972; y <= 2022; ++y) for (int m : {6, 12}) {
    Date const day = Date::Calendar(y, m, last(m, y)), next = day.next_day();
    double const e = (day.mjd() - 51544) * 86400.0 - 43200;
    EQ(seconds(ts::DateTimeAsUTC(DateTime(day, t))), e + s + tai_minus_utc(y, m) + 32.184);
    if (y == 2022 && m == 12) continue;
    EQ(seconds(ts::DateTimeAsUTC(DateTime(next, t))), e + 86400 + s + tai_minus_utc(m == 12 ? y + 1 : y, m == 12 ? 1 : 7) + 32.184);
    EQ(seconds(ts::DateTimeAsUTC(DateTime(day, TimeOfDay(24, 0, 0, 0)))), e + 86400 + tai_minus_utc(m == 12 ? y + 1 : y, m == 12 ? 1 : 7) + 32.184);
    if (leap_after(y, m)) EQ(seconds(ts::DateTimeAsUTC(DateTime(day, TimeOfDay(23, 59, 60, ms)))), e + 86400 + ms / 1000.0 + tai_minus_utc(y, m) + 32.184);
  }
}
namespace {
// https://hpiers.obspm.fr/iers/bul/bulc/UTC-TAI.history: TAI - UTC = offset + (MJD - origin) rate, from the given date
// up to the next one.
struct Rate { int y, m; double offset, origin, rate; };
constexpr Rate history[] = {{1961, 1, 1.422818, 37300, 0.001296}, {1961, 8, 1.372818, 37300, 0.001296}, {1962, 1, 1.845858, 37665, 0.0011232}, {1963, 11, 1.945858, 37665, 0.0011232},
                            {1964, 1, 3.240130, 38761, 0.001296}, {1964, 4, 3.340130, 38761, 0.001296}, {1964, 9, 3.440130, 38761, 0.001296}, {1965, 1, 3.540130, 38761, 0.001296},
                            {1965, 3, 3.640130, 38761, 0.001296}, {1965, 7, 3.740130, 38761, 0.001296}, {1965, 9, 3.840130, 38761, 0.001296}, {1966, 1, 4.313170, 39126, 0.002592},
                            {1968, 2, 4.213170, 39126, 0.002592}, {1972, 1, 0, 0, 0}};
}
R_SPEC(stretchy_utc) {
  double s; TimeOfDay const t = any_time(s);
  for (int y = 1961; y < 1972; ++y) for (int m = 1; m <= 12; ++m) {
    int k = 0; while (y > history[k + 1].y || y == history[k + 1].y && m >= history[k + 1].m) ++k;
    Rate const& r = history[k];
    for (int d : {1, last(m, y)}) {
      Date const day = Date::Calendar(y, m, d);
      double const mjd = day.mjd() + s / 86400;
      EQ(seconds(ts::TAIMinusStretchyUTC(DateTime(day, t))), r.offset + (mjd - r.origin) * r.rate);
      if (d == 1) EQ(seconds(ts::DateTimeAsUTC(DateTime(day, t))), (mjd - 51544.5) * 86400 + r.offset + (mjd - r.origin) * r.rate + 32.184);
    }
  }
}
// https://hpiers.obspm.fr/iers/bul/bulc/TimeSteps.history: milliseconds inserted (or removed) at the end of a month.
namespace { int time_step(int y, int m) { switch (100 * y + m) { case 196107: return -50; case 196310: case 196403: case 196408: case 196412: case 196502: case 196506: case 196508: return 100; case 196801: return -100; case 197112: return 108; default: return 0; } } }
R_SPEC(stretchy_utc_leaps) {
  int const ms = vc_i32("ms'"); REQUIRE(ms >= 0 && ms <= 999);
  int const h = vc_i32("h"), mn = vc_i32("mn"), sec = vc_i32("s"); REQUIRE(h >= 0 && h <= 23 && mn >= 0 && mn <= 59 && sec >= 0 && sec <= 59);
  for (int y = 1961; y < 1972; ++y) for (int m = 1; m <= 12; ++m) {
    Date const day = Date::Calendar(y, m, last(m, y)), next = day.next_day();
    int const step = time_step(y, m);
    ENSURE(ts::IsValidStretchyUTC(DateTime(day, TimeOfDay(23, 59, 60, ms))) == (step > 0 && ms < step));
    ENSURE(ts::IsValidStretchyUTC(DateTime(day, TimeOfDay(h, mn, sec, ms))) == !(step < 0 && h == 23 && mn == 59 && sec == 59 && ms >= 1000 + step));
    if (y < 1971 || m < 12) ENSURE(ts::IsValidStretchyUTC(DateTime(next, TimeOfDay(h, mn, sec, ms))));
  }
  ENSURE(!ts::IsValidStretchyUTC(DateTime("1960-12-31"_Date, TimeOfDay(h, mn, sec, ms)))); ENSURE(!ts::IsValidStretchyUTC(DateTime("1972-01-01"_Date, TimeOfDay(h, mn, sec, ms))));
}
// The steps are consistent with the formulæ: the instants at the end of a stretch follow one another.
R_SPEC(utc_continuity) {
  for (auto const& [y, m] : {std::pair(1961, 7), {1963, 10}, {1964, 3}, {1964, 8}, {1964, 12}, {1965, 2}, {1965, 6}, {1965, 8}, {1968, 1}, {1971, 12}, {1961, 12}, {1963, 12}, {1965, 12}}) {
    Date const day = Date::Calendar(y, m, last(m, y));
    double const end = seconds(ts::DateTimeAsUTC(DateTime(day, TimeOfDay(23, 59, 0, 0)))), next = seconds(ts::DateTimeAsUTC(DateTime(day, TimeOfDay(24, 0, 0, 0))));
    double const length = 60 + time_step(y, m) / 1000.0;
    ENSURE(next - end > length - 0.0003); ENSURE(next - end < length + 0.0003);
  }
}
// The tables are searched for the last entry not after the argument.
namespace {
using C02 = ts::ExperimentalEOPC02Entry;
using C04 = ts::EOPC04Entry;
template<int n> void lookup_c02() {
  double x[n]; Time v[n];
  for (int i = 0; i < n; ++i) { x[i] = vc_real(pr::cat("x", i).s); v[i] = vc_real(pr::cat("v", i).s) * Second; if (i > 0) REQUIRE(x[i - 1] < x[i]); }
  alignas(C02) char raw[n * sizeof(C02)]; C02* const table = (C02*)raw;
  for (int i = 0; i < n; ++i) new (table + i) C02(x[i], v[i]);
  ANY(Time, t);
  double const m = ts::mjd(t);
  REQUIRE(x[0] <= m);
  auto const* const e = ts::LookupUT1(t, table, n);
  int const i = e - table;
  ENSURE(i >= 0 && i < n);
  ENSURE(x[i] <= m); if (i + 1 < n) ENSURE(m < x[i + 1]);
  EQ(e->ut1_minus_tai, v[i]);
}
}
R_SPEC(lookup_c02) { lookup_c02<1>(); lookup_c02<2>(); lookup_c02<3>(); lookup_c02<4>(); }
R_SPEC(lookup_c02_5) { lookup_c02<5>(); }
R_SPEC(lookup_c02_6) { lookup_c02<6>(); }
namespace {
constexpr int days[] = {1962'01'01, 1972'01'01, 2016'12'31, 1971'12'31, 2000'02'29, 2017'01'01};
template<int n> void lookup_c04() {
  alignas(C04) char raw[n * sizeof(C04)]; C04* const table = (C04*)raw;
  for (int i = 0; i < n; ++i) { double const v = vc_real(pr::cat("v", i).s); REQUIRE(v > -1 && v < 1); new (table + i) C04(days[i], v * Second); }
  ANY(Time, t); Instant const tt = J2000 + t;
  if (vc_fork(vc_bool("tt"))) {
    REQUIRE(table[0].tt() <= tt);
    int const i = ts::LookupTT(tt, table, n) - table;
    ENSURE(i >= 0 && i < n); ENSURE(table[i].tt() <= tt); if (i + 1 < n) ENSURE(tt < table[i + 1].tt());
  } else {
    REQUIRE(table[0].ut1() <= t);
    int const i = ts::LookupUT1(t, table, n) - table;
    ENSURE(i >= 0 && i < n); ENSURE(table[i].ut1() <= t); if (i + 1 < n) ENSURE(t < table[i + 1].ut1());
  }
}
}
R_SPEC(lookup_c04) { lookup_c04<1>(); lookup_c04<2>(); lookup_c04<3>(); }
// UT1 is interpolated linearly.
R_SPEC(c04_entry) {
  double const v = vc_real("v");
  for (int d : days) {
    C04 const e(d, v * Second); Date const day = Date::YYYYMMDD(d);
    double const midnight = (day.mjd() - 51544.5) * 86400;
    double const tai_utc = d >= 1972'01'01 ? tai_minus_utc(day.year(), day.month()) : seconds(ts::TAIMinusStretchyUTC(DateTime::BeginningOfDay(day)));
    EQ(seconds(e.ut1()), midnight + v); EQ(seconds(e.ut1_minus_tai()), v - tai_utc); EQ(seconds(e.tt()), midnight + tai_utc + 32.184);
    ENSURE(e.utc().date() == day); ENSURE(e.utc().time().hour() == 0); ENSURE(e.utc().time().second() == 0);
  }
}
R_SPEC(interpolation_c02) {
  double const x = vc_real("x"), dx = vc_real("dx"), v = vc_real("v"), w = vc_real("w"), f = vc_real("f"); REQUIRE(dx > 0);
  C02 const table[] = {C02(x, v * Second), C02(x + dx, w * Second)};
  Time const ut1 = (x + f * dx - 51544.5) * 86400 * Second;
  EQ(seconds(ts::InterpolatedExperimentalEOPC02(table, ut1)), seconds(ut1) - ((1 - f) * v + f * w) + 32.184);
}
R_SPEC(interpolation_c04) {
  double const v = vc_real("v"), w = vc_real("w"), f = vc_real("f"); REQUIRE(v > -1 && v < 1 && w > -1 && w < 1);
  for (int i : {0, 1, 2}) {
    int const d0 = days[i], d1 = i == 0 ? 1962'01'02 : i == 1 ? 1972'01'02 : 2017'01'01;
    C04 const table[] = {C04(d0, v * Second), C04(d1, w * Second)};
    double const u0 = seconds(table[0].ut1()), u1 = seconds(table[1].ut1()), a = seconds(table[0].ut1_minus_tai()), b = seconds(table[1].ut1_minus_tai());
    Time const ut1 = (u0 + f * (u1 - u0)) * Second;
    EQ(seconds(ts::InterpolatedEOPC04(table, ut1)), u0 + f * (u1 - u0) - ((1 - f) * a + f * b) + 32.184);
    int jd = 0;
    double const t0 = seconds(table[0].tt()), t1 = seconds(table[1].tt());
    double const fraction = ts::InterpolatedEOPC04JulianDayFraction(table, J2000 + (t0 + f * (t1 - t0)) * Second, jd);
    EQ(fraction, f - 0.5 + ((1 - f) * v + f * w) / 86400);
    ENSURE(jd == Date::YYYYMMDD(d0).mjd() - 51544);
  }
}
R_SPEC(interpolation_between_series) {
  double const x = vc_real("x"), v = vc_real("v"), w = vc_real("w"), f = vc_real("f");
  C02 const low(x, v * Second); C04 const high(1962'01'01, w * Second);
  double const x1 = seconds(high.ut1()) / 86400 + 51544.5; REQUIRE(x < x1);
  Time const ut1 = (x + f * (x1 - x) - 51544.5) * 86400 * Second;
  EQ(seconds(ts::ExperimentalEOPC02ToEOPC04(low, high, ut1)), seconds(ut1) - ((1 - f) * v + f * seconds(high.ut1_minus_tai())) + 32.184);
}
// On the published tables.
namespace {
void ut1_c04(int k) {
  auto const* const e = ts::eop_c04.data() + k;
  double const f = vc_real("f"); REQUIRE(f >= 0 && f < 1);
  Time const ut1 = e[0].ut1() + f * (e[1].ut1() - e[0].ut1());
  EQ(seconds(ts::FromUT1(ut1)), seconds(ut1) - ((1 - f) * seconds(e[0].ut1_minus_tai()) + f * seconds(e[1].ut1_minus_tai())) + 32.184);
}
void ut1_c02(int k) {
  auto const* const e = ts::experimental_eop_c02.data() + k;
  double const f = vc_real("f"); REQUIRE(f >= 0 && f < 1);
  Time const ut1 = (e[0].ut1_mjd + f * (e[1].ut1_mjd - e[0].ut1_mjd) - 51544.5) * 86400 * Second;
  EQ(seconds(ts::FromUT1(ut1)), seconds(ut1) - ((1 - f) * seconds(e[0].ut1_minus_tai) + f * seconds(e[1].ut1_minus_tai)) + 32.184);
}
int switch_index() { double const m = ts::mjd(ts::eop_c04.front().ut1()); int k = 0; while (ts::experimental_eop_c02[k + 1].ut1_mjd <= m) ++k; return k; }
}
R_SPEC(ut1_first_c04) { ut1_c04(0); }
R_SPEC(ut1_mid_c04) { ut1_c04(3651); }  // 1971-12-31.
R_SPEC(ut1_last_c04) { ut1_c04(ts::eop_c04.size() - 2); }
R_SPEC(ut1_c02) { if (vc_fork(vc_bool("first"))) ut1_c02(0); else ut1_c02(350); }
R_SPEC(ut1_switch) {
  int const k = switch_index();
  if (vc_fork(vc_bool("before"))) return ut1_c02(k - 1);
  auto const& low = ts::experimental_eop_c02[k]; auto const& high = ts::eop_c04.front();
  double const x = low.ut1_mjd, x1 = ts::mjd(high.ut1()), f = vc_real("f"); REQUIRE(f >= 0 && f < 0.999999);
  Time const ut1 = (x + f * (x1 - x) - 51544.5) * 86400 * Second;
  EQ(seconds(ts::FromUT1(ut1)), seconds(ut1) - ((1 - f) * seconds(low.ut1_minus_tai) + f * seconds(high.ut1_minus_tai())) + 32.184);
}
R_SPEC(ut1_tables) {
  auto const& c02 = ts::experimental_eop_c02;
  for (int i = 0; i + 1 < c02.size(); ++i) ENSURE(c02[i].ut1_mjd < c02[i + 1].ut1_mjd);
  ENSURE(c02.back().ut1_mjd > ts::mjd(ts::eop_c04.front().ut1()));
}
namespace {
void earth_rotation(int k) {
  auto const* const e = ts::eop_c04.data() + k;
  double const f = vc_real("f"); REQUIRE(f >= 0 && f < 1);
  Instant const tt = e[0].tt() + f * (e[1].tt() - e[0].tt());
  // UT1 Julian date, less 2451545; see (5.15) in the IERS conventions.
  double const u = (1 - f) * seconds(e[0].ut1_minus_utc) + f * seconds(e[1].ut1_minus_utc), Tu = e[0].utc().date().mjd() - 51544.5 + f + u / 86400;
  double const fraction = Tu - (e[0].utc().date().mjd() - 51544);
  EQ(EarthRotationAngle(tt) / Radian, 2 * 3.14159265358979323846 * (fraction + 0.7790572732640 + 0.00273781191135448 * Tu));
}
}
R_SPEC(earth_rotation_first) { earth_rotation(0); }
R_SPEC(earth_rotation_mid) { earth_rotation(13879); }
R_SPEC(earth_rotation_last) { earth_rotation(ts::eop_c04.size() - 2); }
// The TT day and second containing an instant.
F_SPEC(tt_second) {
  for (int n : {0, 1, 100, 1721423, 2299159, 2299160, 2299161, 2400000, 2451543, 2451544, 2451545, 2460000, 5000000})
    for (int s : {0, 1, 59, 60, 61, 3599, 3600, 43199, 43200, 43201, 86340, 86399}) for (double f : {0.0, 0.5, 0.999}) {
      Instant const t = J2000 + ((n - 2451545) * 86400.0 + s + 43200 + f) * Second;
      Date const d = TTDay(t), e = Date::JD(n + 0.5);
      ENSURE(d.year() == e.year()); ENSURE(d.month() == e.month()); ENSURE(d.day() == e.day()); ENSURE(d.calendar() == e.calendar());
      DateTime const x = TTSecond(t);
      ENSURE(x.date() == e);
      ENSURE(x.time().hour() == s / 3600); ENSURE(x.time().minute() == s / 60 % 60); ENSURE(x.time().second() == s % 60); ENSURE(x.time().millisecond() == 0);
    }
  // The last instant of 1999 or of the morning of 2000-01-01, as near as makes no difference.
  Instant const noon = J2000, before = J2000 + -5e-324 * Second;
  ENSURE(TTSecond(noon).time().hour() == 12); ENSURE(TTSecond(before).time().hour() == 11); ENSURE(TTSecond(before).time().second() == 59);
  Instant const midnight = J2000 - 43200 * Second, eve = J2000 + (-43200.00000000001) * Second;
  ENSURE(TTDay(midnight) == "2000-01-01"_Date); ENSURE(TTDay(eve) == "1999-12-31"_Date); ENSURE(TTSecond(eve).time().second() == 59);
}
// Textual dates, and Julian dates where supported.
R_SPEC(literals) {
  EQ(seconds("2000-01-01T12:00:00"_TT) + 100, 100.0); EQ(seconds("JD2451545.0"_TT) + 100, 100.0); EQ(seconds("MJD51544.5"_TT) + 100, 100.0); EQ(seconds(ParseTT("2000-01-01T12:00:01")), 1.0);
  EQ(seconds("2000-01-01T11:59:27,816"_TAI) + 100, 100.0); EQ(seconds("JD2451545.0"_TAI), 32.184); EQ(seconds(ParseTAI("2000-01-01T11:59:27,816")) + 100, 100.0); EQ(seconds(ParseTAI("MJD51544.5")), 32.184);
  EQ(seconds("2000-01-01T11:58:55,816"_UTC) + 100, 100.0); EQ(seconds(ParseUTC("2000-01-01T11:58:55,816")) + 100, 100.0);
  EQ(seconds("2000-01-01T12:00:00"_GPS), 51.184); EQ(seconds(ParseGPSTime("2000-01-01T12:00:00")), 51.184);
  EQ(seconds("2000-01-01T12:00:00"_北斗), 65.184); EQ(seconds(Parse北斗Time("2000-01-01T12:00:00")), 65.184);
  double const utc = seconds("2000-01-01T12:00:00"_UTC), ut1 = seconds("2000-01-01T12:00:00"_UT1);
  ENSURE(utc - ut1 < 0.9); ENSURE(ut1 - utc < 0.9);
  EQ(seconds(ParseUT1("JD2451545.0")), ut1); EQ(seconds("MJD51544.5"_UT1), ut1); EQ(seconds(ParseUT1("2000-01-01T12:00:00")), ut1);
}
