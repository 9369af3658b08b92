// pv-opt: date_of_julian_day.* timeout=40000
// pv-opt: yyyymmdd timeout=40000
// pv-opt: (week|julian_day|text_date).* timeout=30000
// pv-bounded: yyyyddd|yyyywwd composition of digit extraction (proved for all digits) and ordinal or week dates (proved for all days) for selected years and days
// pv-bounded: text_.* texts of the given shapes and lengths
// Calendar dates, times of day, and their textual representations.
#include "pr.hpp"
#include <optional>
#include "astronomy/date_time.hpp"
#include "astronomy/time_scales.hpp"
#include "base/mod.hpp"
using namespace principia::astronomy::_date_time;
using namespace principia::astronomy::_time_scales;
namespace dt = principia::astronomy::_date_time::internal;
using Cal = principia::astronomy::_date_time::Calendar;
namespace {
constexpr int lengths[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
bool leap(int y, Cal c) { return c == Cal::Julian ? (y + 8000) % 4 == 0 : (y + 8000) % 4 == 0 && ((y + 8000) % 100 != 0 || (y + 8000) % 400 == 0); }
int days_before_month(int m) { int n = 0; for (int i = 1; i < m; ++i) n += lengths[i - 1]; return n; }
// The Julian day number at noon, counted from the rules of the calendars.
int jdn(int y, int m, int d, Cal c) {
  int const p = y - 1 + 8000;  // Complete years before y, from a leap cycle.
  int const leaps = c == Cal::Julian ? p / 4 : p / 4 - p / 100 + p / 400;
  // J-4712-01-01 is 0, G2000-01-01 is 2451545.
  int const origin = c == Cal::Julian ? 365 * (-4712 - 1 + 8000) + (-4712 - 1 + 8000) / 4 : 365 * 9999 + 9999 / 4 - 9999 / 100 + 9999 / 400 - 2451545;
  return 365 * p + leaps - origin + days_before_month(m) + (m > 2 && leap(y, c) ? 1 : 0) + d - 1;
}
template<typename F> void months(F f, int first = 1, int last = 12) { for (int m = first; m <= last; ++m) if (vc_fork(vc_bool(pr::cat("month", m).s))) { f(m); return; } }
Cal calendar() { return vc_fork(vc_bool("Julian")) ? Cal::Julian : Cal::Gregorian; }
int month_days(int y, int m, Cal c) { return lengths[m - 1] + (m == 2 && leap(y, c) ? 1 : 0); }
// Any year in [-4712, 9999], as 400 q + 100 c + 4 o + r.
int year(Cal calendar = Cal::Gregorian) {
  if (calendar == Cal::Julian) {
    int const o = vc_i32("olympiad"); REQUIRE(o >= -1178 && o <= 2499);
    int const r = vc_fork(vc_bool("r2")) ? (vc_fork(vc_bool("r1")) ? 3 : 2) : vc_fork(vc_bool("r1")) ? 1 : 0;
    return 4 * o + r;
  }
  int const q = vc_i32("quadricentury"), o = vc_i32("olympiad");
  REQUIRE(q >= -12 && q <= 24); REQUIRE(o >= 0 && o <= 24);
  int const c = vc_fork(vc_bool("c2")) ? (vc_fork(vc_bool("c1")) ? 3 : 2) : vc_fork(vc_bool("c1")) ? 1 : 0;
  int const r = vc_fork(vc_bool("r2")) ? (vc_fork(vc_bool("r1")) ? 3 : 2) : vc_fork(vc_bool("r1")) ? 1 : 0;
  int const y = 400 * q + 100 * c + 4 * o + r;
  REQUIRE(y >= -4712 && y <= 9999);
  return y;
}
int any_year() { int const y = vc_i32("y"); REQUIRE(y >= -4712 && y <= 9999); return y; }
}
R_SPEC(leap_years) {
  int const y = vc_i32("y"); REQUIRE(y >= -7999 && y <= 9999);
  Cal const c = calendar();
  ENSURE(dt::is_leap_year(y, c) == leap(y, c));
  ENSURE(dt::year_length(y, c) == (leap(y, c) ? 366 : 365));
  months([&](int m) { ENSURE(dt::month_length(y, m, c) == month_days(y, m, c)); });
}
// The Julian day of every date, in either calendar.
void julian_day(int first, int last) {
  Cal const c = calendar();
  months([&](int m) {
    int const y = year(c), d = vc_i32("d");
    REQUIRE(d >= 1 && d <= 31);
    if (m == 2) { if (vc_fork(leap(y, c))) REQUIRE(d <= 29); else REQUIRE(d <= 28); } else { REQUIRE(d <= lengths[m - 1]); }
    Date const t = Date::Calendar(y, m, d, c);
    ENSURE(t.year() == y); ENSURE(t.month() == m); ENSURE(t.day() == d); ENSURE(t.calendar() == c);
    ENSURE(t.jd() == jdn(y, m, d, c) - 0.5);
    ENSURE(t.mjd() == jdn(y, m, d, c) - 2400001);
    ENSURE(t.ordinal() == days_before_month(m) + (m > 2 && leap(y, c) ? 1 : 0) + d);
  }, first, last);
}
R_SPEC(julian_day_q1) { julian_day(1, 3); }
R_SPEC(julian_day_q2) { julian_day(4, 6); }
R_SPEC(julian_day_q3) { julian_day(7, 9); }
R_SPEC(julian_day_q4) { julian_day(10, 12); }
namespace {
struct YMD { int y, m, d; Cal c; int n; };
// Any valid date; `n` is its Julian day number.
YMD any_date(Cal c, int first = 1, int last = 12) {
  YMD r{}; r.c = c;
  months([&](int m) {
    int const y = year(c), d = vc_i32("d");
    REQUIRE(d >= 1 && d <= 31);
    if (m == 2) { if (vc_fork(leap(y, c))) REQUIRE(d <= 29); else REQUIRE(d <= 28); } else { REQUIRE(d <= lengths[m - 1]); }
    r.y = y; r.m = m; r.d = d; r.n = jdn(y, m, d, c);
  }, first, last);
  return r;
}
int monday1(int y) { int const j4 = jdn(y, 1, 4, Cal::Gregorian); return j4 - j4 % 7; }
}
// Julian dates before 1582-10-15, Gregorian dates from then on, are recovered from their Julian day.
void date_of_julian_day(Cal c, int first, int last) {
  YMD const e = any_date(c, first, last);
  if (e.m == 0) return;
  REQUIRE(e.c == Cal::Julian ? e.n < 2299161 : e.n >= 2299161);
  Date const t = Date::JD(e.n - 0.5);
  ENSURE(t.calendar() == e.c); ENSURE(t.year() == e.y); ENSURE(t.month() == e.m); ENSURE(t.day() == e.d);
}
R_SPEC(date_of_julian_day_j1) { date_of_julian_day(Cal::Julian, 1, 3); }
R_SPEC(date_of_julian_day_j2) { date_of_julian_day(Cal::Julian, 4, 6); }
R_SPEC(date_of_julian_day_j3) { date_of_julian_day(Cal::Julian, 7, 9); }
R_SPEC(date_of_julian_day_j4) { date_of_julian_day(Cal::Julian, 10, 12); }
R_SPEC(date_of_julian_day_g01) { date_of_julian_day(Cal::Gregorian, 1, 1); }
R_SPEC(date_of_julian_day_g02) { date_of_julian_day(Cal::Gregorian, 2, 2); }
R_SPEC(date_of_julian_day_g03) { date_of_julian_day(Cal::Gregorian, 3, 3); }
R_SPEC(date_of_julian_day_g04) { date_of_julian_day(Cal::Gregorian, 4, 4); }
R_SPEC(date_of_julian_day_g05) { date_of_julian_day(Cal::Gregorian, 5, 5); }
R_SPEC(date_of_julian_day_g06) { date_of_julian_day(Cal::Gregorian, 6, 6); }
R_SPEC(date_of_julian_day_g07) { date_of_julian_day(Cal::Gregorian, 7, 7); }
R_SPEC(date_of_julian_day_g08) { date_of_julian_day(Cal::Gregorian, 8, 8); }
R_SPEC(date_of_julian_day_g09) { date_of_julian_day(Cal::Gregorian, 9, 9); }
R_SPEC(date_of_julian_day_g10) { date_of_julian_day(Cal::Gregorian, 10, 10); }
R_SPEC(date_of_julian_day_g11) { date_of_julian_day(Cal::Gregorian, 11, 11); }
R_SPEC(date_of_julian_day_g12) { date_of_julian_day(Cal::Gregorian, 12, 12); }
R_SPEC(not_midnight) {
  if (vc_fork(vc_bool("good"))) { ENSURE(Date::JD(2451544.5).year() == 2000); return; }
  int const n = vc_i32("n"); double const f = vc_real("f"); REQUIRE(n >= 0 && n <= 5373484); REQUIRE(f > 0 && f < 1);
  vc_may_abort(1);
  Date::JD(n + f - 0.5);
  vc_unreachable("a fractional day was accepted as a date");
}
R_SPEC(next_day) {
  YMD const e = any_date(calendar());
  if (e.m == 0) return;
  Date const t = Date::Calendar(e.y, e.m, e.d, e.c);
  Date const n = t.next_day(), u = Date::JD(t.jd() + 1);
  ENSURE(n.year() == u.year()); ENSURE(n.month() == u.month()); ENSURE(n.day() == u.day()); ENSURE(n.calendar() == u.calendar());
}
R_SPEC(order) {
  Date const a(vc_i32("y"), vc_i32("m"), vc_i32("d"), calendar());
  Date const b(vc_i32("y'"), vc_i32("m'"), vc_i32("d'"), vc_fork(vc_bool("Julian'")) ? Cal::Julian : Cal::Gregorian);
  for (Date const* p : {&a, &b}) { REQUIRE(p->year() >= -4712 && p->year() <= 9999); REQUIRE(p->month() >= 1 && p->month() <= 12); REQUIRE(p->day() >= 1 && p->day() <= 31); }
  ENSURE((a == b) == (a.jd() == b.jd())); ENSURE((a != b) == !(a.jd() == b.jd()));
  ENSURE((a < b) == (a.jd() < b.jd())); ENSURE((a <= b) == (a.jd() <= b.jd()));
  ENSURE((a > b) == (a.jd() > b.jd())); ENSURE((a >= b) == (a.jd() >= b.jd()));
}
// Only actual dates can be constructed, and the calendar is mandatory before 1583.
R_SPEC(calendar_validity) {
  int const y = vc_i32("y"), m = vc_i32("m"), d = vc_i32("d");
  REQUIRE(y >= -4712 && y <= 19999); REQUIRE(m >= -99 && m <= 99); REQUIRE(d >= -99 && d <= 99);
  bool const given = vc_fork(vc_bool("given"));
  std::optional<Cal> c = calendar(); if (!given) c.reset();
  vc_may_abort(1);
  Date const t = Date::Calendar(y, m, d, c);
  ENSURE(m >= 1 && m <= 12 && y <= 9999 && d >= 1);
  if (given) ENSURE(t.calendar() == *c); else { ENSURE(t.calendar() == Cal::Gregorian); ENSURE(y >= 1583); }
  for (int k = 1; k <= 12; ++k) if (vc_fork(m == k)) ENSURE(d <= month_days(y, k, t.calendar()));
}
R_SPEC(default_calendar) {
  YMD const e = any_date(Cal::Gregorian);
  if (e.m == 0) return;
  REQUIRE(e.y >= 1583);
  Date const t = Date::Calendar(e.y, e.m, e.d);
  ENSURE(t.calendar() == Cal::Gregorian); ENSURE(t.year() == e.y); ENSURE(t.month() == e.m); ENSURE(t.day() == e.d);
}
// The k-th day of the year is k - 1 days after the first (`JD` is under contract above).
R_SPEC(ordinal) {
  Cal const c = calendar();
  int const y = any_year(), k = vc_i32("k");
  REQUIRE(k >= 1); if (vc_fork(leap(y, c))) REQUIRE(k <= 366); else REQUIRE(k <= 365);
  Date const t = Date::Ordinal(y, k, c), u = Date::JD(Date::Calendar(y, 1, 1, c).jd() + (k - 1));
  ENSURE(t.year() == u.year()); ENSURE(t.month() == u.month()); ENSURE(t.day() == u.day()); ENSURE(t.calendar() == u.calendar());
  if (c == Cal::Gregorian && vc_fork(y >= 1583)) {
    Date const t = Date::Ordinal(y, k);
    ENSURE(t.year() == u.year()); ENSURE(t.month() == u.month()); ENSURE(t.day() == u.day()); ENSURE(t.calendar() == u.calendar());
  }
}
R_SPEC(ordinal_validity) {
  int const y = vc_i32("y"), k = vc_i32("k");
  REQUIRE(y >= -4712 && y <= 9999); REQUIRE(k >= -999 && k <= 999);
  if (vc_fork(vc_bool("given"))) {
    Cal const c = calendar();
    vc_may_abort(1);
    Date::Ordinal(y, k, c);
    ENSURE(k >= 1); ENSURE(k <= 366); if (!vc_fork(leap(y, c))) ENSURE(k <= 365);
  } else {
    vc_may_abort(1);
    Date::Ordinal(y, k);
    ENSURE(y >= 1583); ENSURE(k >= 1); ENSURE(k <= 366);
  }
}
// The years of a quadricentury, whose length is a multiple of seven days.
void week(int c) {
  int const q = vc_i32("quadricentury"), o = (int)vc_concretize(vc_i32("olympiad") & 31), w = vc_i32("w"), d = vc_i32("d");
  REQUIRE(q >= 3 && q <= 24); REQUIRE(o <= 24);
  int const r = vc_fork(vc_bool("r2")) ? (vc_fork(vc_bool("r1")) ? 3 : 2) : vc_fork(vc_bool("r1")) ? 1 : 0;
  int const y = 400 * q + 100 * c + 4 * o + r;
  REQUIRE(y >= 1583); REQUIRE(d >= 1 && d <= 7);
  int const weeks = (monday1(y + 1) - monday1(y)) / 7;
  ENSURE(dt::number_of_iso_weeks_in_year(y) == weeks);
  ENSURE(jdn(y, 1, 1, Cal::Gregorian) + dt::ordinal_of_w_01_1(y) - 1 == monday1(y));
  REQUIRE(w >= 1 && w <= 53); if (w == 53) REQUIRE(weeks == 53);
  Date const t = Date::Week(y, w, d), u = Date::JD(Date::Calendar(y, 1, 1).jd() + (dt::ordinal_of_w_01_1(y) - 1) + (w - 1) * 7 + (d - 1));
  ENSURE(t.year() == u.year()); ENSURE(t.month() == u.month()); ENSURE(t.day() == u.day()); ENSURE(t.calendar() == u.calendar());
}
R_SPEC(week_0) { week(0); }
R_SPEC(week_1) { week(1); }
R_SPEC(week_2) { week(2); }
R_SPEC(week_3) { week(3); }
R_SPEC(week_validity) {
  int const y = any_year(), w = vc_i32("w"), d = vc_i32("d");
  REQUIRE(w >= -99 && w <= 99); REQUIRE(d >= -9 && d <= 9);
  vc_may_abort(1);
  Date::Week(y, w, d);
  ENSURE(y >= 1583); ENSURE(d >= 1 && d <= 7); ENSURE(w >= 1 && w <= 53); ENSURE(w <= 52 || dt::number_of_iso_weeks_in_year(y) == 53);
}

// Texts of the forms yyyymmdd, etc. all digit strings of a given length.
R_SPEC(digit_range) {
  std::int64_t const n = vc_i64("n"); REQUIRE(n >= 0 && n <= 99999999);
  ENSURE(dt::digit_range(n, 0, 2) == n % 100);
  ENSURE(dt::digit_range(n, 2, 4) == n / 100 % 100);
  ENSURE(dt::digit_range(n, 4, 8) == n / 10000);
  ENSURE(dt::digit_range(n, 3, 3) == 0);
  ENSURE(dt::shift_left(n, 3) == n * 1000); ENSURE(dt::shift_left(n, 0) == n);
  ENSURE(dt::shift_right(n, 3) == n / 1000); ENSURE(dt::shift_right(n, 0) == n);
}
R_SPEC(yyyymmdd) {
  bool const negative = vc_fork(vc_bool("negative"));
  int const y = vc_i32("|y|"), m = vc_i32("m"), d = vc_i32("d");
  REQUIRE(y >= (negative ? 1 : 0) && y <= (negative ? 4712 : 9999)); REQUIRE(m >= 1 && m <= 12); REQUIRE(d >= 1 && d <= 28);
  std::optional<Cal> c = calendar();
  std::int64_t const n = y * 10000ll + m * 100 + d;
  Date const t = Date::YYYYMMDD(negative ? -n : n, c);
  ENSURE(t.year() == (negative ? -y : y)); ENSURE(t.month() == m); ENSURE(t.day() == d); ENSURE(t.calendar() == *c);
  if (!negative && vc_fork(y >= 1583)) { Date const t = Date::YYYYMMDD(n); ENSURE(t.year() == y); ENSURE(t.month() == m); ENSURE(t.day() == d); ENSURE(t.calendar() == Cal::Gregorian); }
}
namespace {
void same_date(Date const& t, Date const& u) { ENSURE(t.year() == u.year()); ENSURE(t.month() == u.month()); ENSURE(t.day() == u.day()); ENSURE(t.calendar() == u.calendar()); }
void yyyyddd(int y, int k, Cal c) {
  std::int64_t const n = (y < 0 ? -y : y) * 1000ll + k;
  int const d = dt::digit_range(n, 0, 3);  // k, see digits_of_dates.
  same_date(Date::YYYYDDD(y < 0 ? -n : n, c), Date::Ordinal(y, d, c));
  if (y >= 1583) same_date(Date::YYYYDDD(n), Date::Ordinal(y, d));
}
void yyyywwd(int y, int w, int d) { std::int64_t const n = y * 1000ll + w * 10 + d; same_date(Date::YYYYwwD(n), Date::Week(y, dt::digit_range(n, 1, 3), dt::digit_range(n, 0, 1))); }
}
R_SPEC(yyyyddd) {
  Cal const c = calendar();
  for (int y : {-4698, -1, 1, 1500, 1582, 1600, 1700, 1957, 2000, 9999}) for (int k : {1, 9, 32, 59, 60, 61, 196, 277, 278, 287, 288, 300, 365}) yyyyddd(y, k, c);
}
R_SPEC(yyyywwd) { for (int y : {1583, 1999, 2000, 2001, 2004, 2020, 9999}) for (int w : {1, 9, 10, 30, 52}) for (int d = 1; d <= 7; ++d) yyyywwd(y, w, d); }
R_SPEC(digits_of_dates) {
  int const y = vc_i32("y"), k = vc_i32("k"); REQUIRE(y >= 0 && y <= 9999); REQUIRE(k >= 0 && k <= 999);
  ENSURE(dt::digit_range(y * 1000ll + k, 3, 7) == y); ENSURE(dt::digit_range(y * 1000ll + k, 0, 3) == k);
  ENSURE(dt::digit_range(y * 1000ll + k, 1, 3) == k / 10); ENSURE(dt::digit_range(y * 1000ll + k, 0, 1) == k % 10);
}
// Times of day: ordinary ones, positive leap seconds, and the end of the day; nothing else.
R_SPEC(time_of_day) {
  int const h = vc_i32("h"), m = vc_i32("m"), s = vc_i32("s"), ms = vc_i32("ms");
  bool const ordinary = h >= 0 && h <= 23 && m >= 0 && m <= 59 && s >= 0 && s <= 59, milli = ms >= 0 && ms <= 999;
  REQUIRE((ordinary || (h == 23 && m == 59 && s == 60)) && milli || h == 24 && m == 0 && s == 0 && ms == 0);
  TimeOfDay const t(h, m, s, ms);
  ENSURE(t.hour() == h); ENSURE(t.minute() == m); ENSURE(t.second() == s); ENSURE(t.millisecond() == ms);
  ENSURE(t.is_leap_second() == (s == 60)); ENSURE(t.is_end_of_day() == (h == 24));
  TimeOfDay const u = TimeOfDay::hhmmss_ms(h * 10000 + m * 100 + s, ms);
  ENSURE(u.hour() == h); ENSURE(u.minute() == m); ENSURE(u.second() == s); ENSURE(u.millisecond() == ms);
  ENSURE(t == u); ENSURE(!(t != u));
}
R_SPEC(time_of_day_validity) {
  int const h = vc_i32("h"), m = vc_i32("m"), s = vc_i32("s"), ms = vc_i32("ms");
  vc_may_abort(1);
  TimeOfDay const t(h, m, s, ms);
  bool const ordinary = h >= 0 && h <= 23 && m >= 0 && m <= 59 && s >= 0 && s <= 59, milli = ms >= 0 && ms <= 999;
  ENSURE((ordinary || (h == 23 && m == 59 && s == 60)) && milli || h == 24 && m == 0 && s == 0 && ms == 0);
}
namespace {
TimeOfDay any_time(char const* h_, char const* m_, char const* s_, char const* ms_) {
  int const h = vc_i32(h_), m = vc_i32(m_), s = vc_i32(s_), ms = vc_i32(ms_);
  bool const ordinary = h >= 0 && h <= 23 && m >= 0 && m <= 59 && s >= 0 && s <= 59, milli = ms >= 0 && ms <= 999;
  REQUIRE((ordinary || (h == 23 && m == 59 && s == 60)) && milli || h == 24 && m == 0 && s == 0 && ms == 0);
  return TimeOfDay(h, m, s, ms);
}
}
R_SPEC(time_order) {
  TimeOfDay const t = any_time("h", "m", "s", "ms"), u = any_time("h'", "m'", "s'", "ms'");
  bool const same = t.hour() == u.hour() && t.minute() == u.minute() && t.second() == u.second() && t.millisecond() == u.millisecond();
  ENSURE((t == u) == same); ENSURE((t != u) == !same);
}
// Leap seconds only occur at the end of a month.
R_SPEC(date_time) {
  YMD const e = any_date(Cal::Gregorian);
  if (e.m == 0) return;
  Date const day = Date::Calendar(e.y, e.m, e.d, e.c);
  TimeOfDay const t = any_time("h", "mn", "s", "ms");
  bool const last = e.d == month_days(e.y, e.m, e.c);
  if (vc_fork(t.second() != 60 || last)) {
    DateTime const x(day, t);
    ENSURE(x.date().year() == e.y); ENSURE(x.date().month() == e.m); ENSURE(x.date().day() == e.d);
    ENSURE(x.time().hour() == t.hour()); ENSURE(x.time().minute() == t.minute()); ENSURE(x.time().second() == t.second()); ENSURE(x.time().millisecond() == t.millisecond());
    DateTime const b = DateTime::BeginningOfDay(day);
    ENSURE(b.date().year() == e.y); ENSURE(b.date().month() == e.m); ENSURE(b.date().day() == e.d);
    ENSURE(b.time().hour() == 0); ENSURE(b.time().minute() == 0); ENSURE(b.time().second() == 0); ENSURE(b.time().millisecond() == 0);
  } else { vc_may_abort(1); DateTime const x(day, t); vc_unreachable("a leap second was accepted within a month"); }
}
R_SPEC(end_of_day) {
  int const y = vc_i32("y"), m = vc_i32("m"), d = vc_i32("d");
  REQUIRE(y >= -4712 && y <= 9998); REQUIRE(m >= 1 && m <= 12); REQUIRE(d >= 1 && d <= 28);
  Date const day = Date::Calendar(y, m, d, calendar()), next = day.next_day();
  DateTime const x(day, TimeOfDay(24, 0, 0, 0)), n = x.normalized_end_of_day();
  ENSURE(n.date().year() == next.year()); ENSURE(n.date().month() == next.month()); ENSURE(n.date().day() == next.day());
  ENSURE(n.time().hour() == 0); ENSURE(n.time().minute() == 0); ENSURE(n.time().second() == 0); ENSURE(n.time().millisecond() == 0);
  int const h = vc_i32("h"), mn = vc_i32("mn"), s = vc_i32("s"), ms = vc_i32("ms");
  REQUIRE(h >= 0 && h <= 23 && mn >= 0 && mn <= 59 && s >= 0 && s <= 59 && ms >= 0 && ms <= 999);
  DateTime const z(day, TimeOfDay(h, mn, s, ms)), w = z.normalized_end_of_day();
  ENSURE(w.date().year() == y); ENSURE(w.date().month() == m); ENSURE(w.date().day() == d);
  ENSURE(w.time().hour() == h); ENSURE(w.time().minute() == mn); ENSURE(w.time().second() == s); ENSURE(w.time().millisecond() == ms);
}
// Two instants of the same civil time scale are equal if they have the same day and time, where 24:00 is 00:00 of
// the next day.
R_SPEC(date_time_equality) {
  TimeOfDay const t = any_time("h", "mn", "s", "ms"), u = any_time("h'", "mn'", "s'", "ms'");
  int const i = vc_fork(vc_bool("next")) ? 1 : 0;
  Date const a = Date::Calendar(2001, 6, 30), b = i == 0 ? a : Date::Calendar(2001, 7, 1);
  REQUIRE(i == 0 || u.second() != 60);
  DateTime const x(a, t), y(b, u);
  int const p = t.hour() == 24 ? 1 : 0, q = (u.hour() == 24 ? 1 : 0) + i;
  bool const same = p == q && t.hour() % 24 == u.hour() % 24 && t.minute() == u.minute() && t.second() == u.second() && t.millisecond() == u.millisecond();
  ENSURE((x == y) == same); ENSURE((x != y) == !same);
}
// Julian dates with f fractional digits: the integer n stands for n / 10^f days.
R_SPEC(julian_date) {
  int const f = (int)vc_concretize(vc_i64("f") & 7);
  std::int64_t p = 1; for (int i = 0; i < f; ++i) p *= 10;
  std::int64_t const day = vc_i64("day"), fraction = vc_i64("fraction");
  REQUIRE(day >= 0 && day <= 9999999); REQUIRE(fraction >= 0 && fraction < p);
  JulianDate const j = JulianDate::JD(day * p + fraction, 7 + f, f);
  ENSURE(j.fraction_numerator() >= 0); ENSURE(j.fraction_numerator() < j.fraction_denominator()); ENSURE(j.fraction_denominator() == p);
  ENSURE(j.day() * p + j.fraction_numerator() == (day - 2451545) * p + fraction);
  JulianDate const k = JulianDate::MJD(day * p + fraction, 7 + f, f);
  ENSURE(k.fraction_numerator() >= 0); ENSURE(k.fraction_numerator() < k.fraction_denominator());
  if (f == 0) { ENSURE(k.fraction_denominator() == 10); ENSURE(k.fraction_numerator() == 5); ENSURE(k.day() == day - 51545); }
  else { ENSURE(k.fraction_denominator() == p); ENSURE(2 * (k.day() * p + k.fraction_numerator()) == (2 * day - 2 * 51545 + 1) * p + 2 * fraction); }
}

// Literals, with arbitrary digits in every recognized shape.
namespace {
template<std::size_t n> struct Text { char c[n + 1]; int digit(int i) const { return c[i] - '0'; } int number(int i, int k) const { int r = 0; for (; k > 0; --k, ++i) r = 10 * r + digit(i); return r; } };
// # is an arbitrary digit.
template<std::size_t n1> Text<n1 - 1> text(char const (&shape)[n1]) {
  Text<n1 - 1> t;
  for (int i = 0; i < n1; ++i) { t.c[i] = shape[i]; if (shape[i] == '#') { t.c[i] = (char)vc_u8(pr::cat("digit", i).s); REQUIRE(t.c[i] >= '0' && t.c[i] <= '9'); } }
  return t;
}
template<std::size_t n> Date parse_date(Text<n> const& t) { return operator""_Date(t.c, n); }
template<std::size_t n> TimeOfDay parse_time(Text<n> const& t) { return operator""_Time(t.c, n); }
template<std::size_t n1> void calendar_text(char const (&shape)[n1], int iy, int im, int id, std::optional<Cal> c, int sign) {
  auto const t = text(shape);
  int const y = t.number(iy, 4), m = t.number(im, 2), d = t.number(id, 2);
  REQUIRE(m >= 1 && m <= 12 && d >= 1 && d <= 28); if (!c.has_value()) REQUIRE(y >= 1583);
  Date const x = parse_date(t);
  ENSURE(x.year() == sign * y); ENSURE(x.month() == m); ENSURE(x.day() == d); ENSURE(x.calendar() == c.value_or(Cal::Gregorian));
}
template<std::size_t n1> void time_text(char const (&shape)[n1], int im, int is, int f, int nf) {
  auto const t = text(shape);
  int const h = t.number(0, 2), m = t.number(im, 2), s = t.number(is, 2);
  int ms = 0; for (int i = 0; i < 3; ++i) ms = 10 * ms + (i < nf ? t.digit(f + i) : 0);
  REQUIRE(h <= 23 && m <= 59 && s <= 59);
  TimeOfDay const x = parse_time(t);
  ENSURE(x.hour() == h); ENSURE(x.minute() == m); ENSURE(x.second() == s); ENSURE(x.millisecond() == ms);
}
}
R_SPEC(text_date) {
  if (vc_fork(vc_bool("basic"))) { calendar_text("####1009", 0, 4, 6, std::nullopt, 1); calendar_text("1976####", 0, 4, 6, std::nullopt, 1); }
  else { calendar_text("####-12-28", 0, 5, 8, std::nullopt, 1); calendar_text("2000-##-##", 0, 5, 8, std::nullopt, 1); }
}
R_SPEC(text_date_calendar) {
  if (vc_fork(vc_bool("basic"))) { calendar_text("G####0228", 1, 5, 7, Cal::Gregorian, 1); calendar_text("G1492####", 1, 5, 7, Cal::Gregorian, 1); }
  else { calendar_text("J####-01-01", 1, 6, 9, Cal::Julian, 1); calendar_text("J1515-##-##", 1, 6, 9, Cal::Julian, 1); }
}
R_SPEC(text_date_sign) {
  if (vc_fork(vc_bool("negative"))) { calendar_text("J-####-01-02", 2, 7, 10, Cal::Julian, -1); calendar_text("G-0044-##-##", 2, 7, 10, Cal::Gregorian, -1); }
  else { calendar_text("+####-03-04", 1, 6, 9, std::nullopt, 1); calendar_text("+2000-##-##", 1, 6, 9, std::nullopt, 1); }
}
R_SPEC(text_time) { time_text("##:##:09", 3, 6, 0, 0); time_text("07####", 2, 4, 0, 0); }
R_SPEC(text_time_fraction) {
  time_text("12:34:56.#", 3, 6, 9, 1); time_text("12:34:56,##", 3, 6, 9, 2); time_text("00:00:00,###", 3, 6, 9, 3); time_text("235959.###", 2, 4, 7, 3);
  time_text("##:43:21,987", 3, 6, 9, 3); time_text("05####.123", 2, 4, 7, 3);
}
R_SPEC(text_special_times) {
  auto is = [](TimeOfDay const& t, int h, int m, int s, int ms) { ENSURE(t.hour() == h); ENSURE(t.minute() == m); ENSURE(t.second() == s); ENSURE(t.millisecond() == ms); };
  is("23:59:60"_Time, 23, 59, 60, 0); is("24:00:00"_Time, 24, 0, 0, 0); is("235960,250"_Time, 23, 59, 60, 250); is("240000.000"_Time, 24, 0, 0, 0);
  auto date = [](Date const& t, int y, int m, int d, Cal c) { ENSURE(t.year() == y); ENSURE(t.month() == m); ENSURE(t.day() == d); ENSURE(t.calendar() == c); };
  date("2000-W01-1"_Date, 2000, 1, 3, Cal::Gregorian); date("2000W011"_Date, 2000, 1, 3, Cal::Gregorian); date("2009-W53-7"_Date, 2010, 1, 3, Cal::Gregorian);
  date("2000-060"_Date, 2000, 2, 29, Cal::Gregorian); date("2001365"_Date, 2001, 12, 31, Cal::Gregorian); date("J1582-277"_Date, 1582, 10, 4, Cal::Julian);
  date("G1582-10-15"_Date, 1582, 10, 15, Cal::Gregorian);
  ENSURE("G1582-10-15"_Date == "J1582-10-04"_Date.next_day()); ENSURE("G1582-10-14"_Date == "J1582-10-04"_Date); ENSURE("J1582-10-04"_Date < "G1582-10-15"_Date);
}
R_SPEC(text_date_time) {
  auto const t = text("2016-12-3#T##:54:##,000");
  REQUIRE(t.c[9] <= '1');
  int const h = t.number(11, 2), m = t.number(14, 2), s = t.number(17, 2);
  REQUIRE(h <= 23 && m <= 59 && s <= 59);
  DateTime const x = operator""_DateTime(t.c, 23);
  ENSURE(x.date().year() == 2016); ENSURE(x.date().month() == 12); ENSURE(x.date().day() == 30 + t.digit(9));
  ENSURE(x.time().hour() == h); ENSURE(x.time().minute() == m); ENSURE(x.time().second() == s); ENSURE(x.time().millisecond() == t.number(20, 3));
}
R_SPEC(text_julian) {
  auto const t = text("JD#######.###");
  JulianDate const j = operator""_Julian(t.c, 13);
  ENSURE(j.fraction_denominator() == 1000); ENSURE(j.fraction_numerator() == t.number(10, 3)); ENSURE(j.day() == t.number(2, 7) - 2451545);
  ENSURE(IsJulian(t.c, 13)); ENSURE(!IsJulian("2000-01-01", 10)); ENSURE(IsJulian("MJD0", 4)); ENSURE(!IsJulian("M", 1)); ENSURE(!IsJulian("J-0001-01-01", 12));
  auto const u = text("MJD#####.##");
  JulianDate const k = operator""_Julian(u.c, 11);
  ENSURE(k.fraction_denominator() == 100); ENSURE(k.fraction_numerator() == (u.number(9, 2) + 50) % 100); ENSURE(k.day() == u.number(3, 5) - 51545 + (u.number(9, 2) >= 50 ? 1 : 0));
}
// Texts of other shapes are rejected.
namespace {
template<std::size_t n1> void bad_date(char const (&s)[n1]) { vc_may_abort(1); operator""_Date(s, n1 - 1); vc_unreachable(s); }
template<std::size_t n1> void bad_time(char const (&s)[n1]) { vc_may_abort(1); operator""_Time(s, n1 - 1); vc_unreachable(s); }
template<std::size_t n1> void bad_date_time(char const (&s)[n1]) { vc_may_abort(1); operator""_DateTime(s, n1 - 1); vc_unreachable(s); }
template<std::size_t n1> void bad_julian(char const (&s)[n1]) { vc_may_abort(1); operator""_Julian(s, n1 - 1); vc_unreachable(s); }
int which = 0;
bool pick() { return vc_fork(vc_bool(pr::cat("case", ++which).s)); }
}
R_SPEC(text_rejected) {
  which = 0;
  if (pick()) return bad_date("2000-0101"); if (pick()) return bad_date("200-001-01"); if (pick()) return bad_date("20000-1-01"); if (pick()) return bad_date("2000-13-01"); if (pick()) return bad_date("2000-00-01");
  if (pick()) return bad_date("2001-02-29"); if (pick()) return bad_date("1900-02-29"); if (pick()) return bad_date("2000-04-31"); if (pick()) return bad_date("2000-01-00"); if (pick()) return bad_date("1582-01-01"); if (pick()) return bad_date("2000-01-01-");
  if (pick()) return bad_date("2000W01-1"); if (pick()) return bad_date("2000-W011"); if (pick()) return bad_date("2000-W54-1"); if (pick()) return bad_date("2001-W53-1"); if (pick()) return bad_date("2000-W01-0"); if (pick()) return bad_date("2000-W01-8"); if (pick()) return bad_date("J2000-W01-1"); if (pick()) return bad_date("2000-W00-1"); if (pick()) return bad_date("2000WW011");
  if (pick()) return bad_date("2001-366"); if (pick()) return bad_date("2001-000"); if (pick()) return bad_date("20-01001"); if (pick()) return bad_date("200001"); if (pick()) return bad_date("2000/01/01"); if (pick()) return bad_date("X2000-01-01"); if (pick()) return bad_date("J--100-01-01");
  if (pick()) return bad_time("12:3456"); if (pick()) return bad_time("1234:56"); if (pick()) return bad_time("12:34"); if (pick()) return bad_time("25:00:00"); if (pick()) return bad_time("24:00:01"); if (pick()) return bad_time("24:00:00,001"); if (pick()) return bad_time("12:60:00"); if (pick()) return bad_time("12:34:60"); if (pick()) return bad_time("22:59:60"); if (pick()) return bad_time("23:59:61");
  if (pick()) return bad_time("12:34:56,1234"); if (pick()) return bad_time("12:34.56"); if (pick()) return bad_time("12:34:56,1,2"); if (pick()) return bad_time("12:34:567"); if (pick()) return bad_time("123.456"); if (pick()) return bad_time("1:23:456"); if (pick()) return bad_time("12-34-56");
  if (pick()) return bad_date_time("2000-01-01T123456"); if (pick()) return bad_date_time("20000101T12:34:56"); if (pick()) return bad_date_time("2000-01-01T23:59:60"); if (pick()) return bad_date_time("2000-01-01T12:34:56T");
  if (pick()) return bad_julian("2451545"); if (pick()) return bad_julian("JD245-1545"); if (pick()) return bad_julian("JD2451545.5.5"); if (pick()) return bad_julian("MD51544"); if (pick()) return bad_julian("JD99999999999999999999");
  ENSURE("2000-01-01"_Date.year() == 2000);
}
