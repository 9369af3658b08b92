// IEEE 754 helpers.
// pv-bounded: next_.* the binades of exponent -1022 to -1018, -200, -53 to -51, -2 to 2, 51 to 53, 1000, 1022 and 1023 (all significands), all subnormal numbers and all special values
// pv-bounded: log_b_binades the same binades
// pv-bounded: scale_b_.* the same binades; powers -2200 to 2200 at steps and around the thresholds
#include "pr.hpp"
#include <cstring>
#include <limits>
#include "numerics/next.hpp"
#include "numerics/log_b.hpp"
#include "numerics/scale_b.hpp"
#include "numerics/ulp_distance.hpp"
using namespace principia::numerics::_next;
using namespace principia::numerics::_log_b;
using namespace principia::numerics::_scale_b;
using namespace principia::numerics::_ulp_distance;
namespace {
double from(std::uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
std::uint64_t bits(double d) { std::uint64_t b; std::memcpy(&b, &d, 8); return b; }
constexpr int exponents[] = {-1022, -1021, -1020, -1019, -1018, -200, -53, -52, -51, -2, -1, 0, 1, 2, 51, 52, 53, 1000, 1022, 1023};
// An arbitrary number of the binade, with the given sign.
double in_binade(int e, int sign) {
  std::uint64_t const m = vc_u64("m");
  return from(std::uint64_t(sign) << 63 | std::uint64_t(e + 1023) << 52 | (m & 0x000FFFFFFFFFFFFF));
}
template<typename F> void binades(F f) {
  for (int i = 0; i < 20; ++i) if (vc_fork(vc_bool(pr::cat("binade", i).s))) { f(exponents[i]); return; }
}
}
F_SPEC(next_normal) {
  binades([](int e) {
    for (int s = 0; s < 2; ++s) {
      double const x = in_binade(e, s);
      ENSURE(bits(NextUp(x)) == (s ? bits(x) - 1 : bits(x) + 1));
      ENSURE(bits(NextDown(x)) == (s ? bits(x) + 1 : bits(x) - 1));
    }
  });
}
F_SPEC(next_subnormal) {
  std::uint64_t const m = vc_u64("m");
  REQUIRE(m > 0); REQUIRE(m < 0x0010000000000000);
  double const x = from(m);
  ENSURE(bits(NextUp(x)) == m + 1);
  ENSURE(bits(NextDown(-x)) == (m + 1 | 0x8000000000000000));
  ENSURE(bits(NextDown(x)) == bits(-NextUp(-x)));  // Thus m - 1, by the next line: +0 below the least positive number.
  ENSURE(bits(NextUp(-x)) == (m - 1 | 0x8000000000000000));  // -0 above the greatest negative number.
}
F_SPEC(next_special) {
  using L = std::numeric_limits<double>;
  ENSURE(bits(NextUp(0.0)) == 1); ENSURE(bits(NextUp(-0.0)) == 1);
  ENSURE(bits(NextDown(0.0)) == 0x8000000000000001); ENSURE(bits(NextDown(-0.0)) == 0x8000000000000001);
  ENSURE(NextUp(L::infinity()) == L::infinity()); ENSURE(NextUp(-L::infinity()) == L::lowest());
  ENSURE(NextDown(-L::infinity()) == -L::infinity()); ENSURE(NextDown(L::infinity()) == L::max());
  ENSURE(NextUp(L::max()) == L::infinity()); ENSURE(NextDown(L::lowest()) == -L::infinity());
  double const n = from(vc_u64("n"));
  REQUIRE(n != n);
  ENSURE(NextUp(n) != NextUp(n)); ENSURE(NextDown(n) != NextDown(n));
}
F_SPEC(next_float) {
  using L = std::numeric_limits<float>;
  float const xs[] = {0x1p0f, 0x1.8p0f, -0x1p0f, 0x1p-126f, -0x1p-126f, 0x1.fffffcp127f, -0x1p127f, 0x1.fffffep0f, 0x1p-149f, 0x1p-148f, -0x1p-148f, 0.0f, -0.0f};
  std::uint32_t const up[] = {0x3F800001, 0x3FC00001, 0xBF7FFFFF, 0x00800001, 0x807FFFFF, 0x7F7FFFFF, 0xFEFFFFFF, 0x40000000, 2, 3, 0x80000001, 1, 1};
  std::uint32_t const down[] = {0x3F7FFFFF, 0x3FBFFFFF, 0xBF800001, 0x007FFFFF, 0x80800001, 0x7F7FFFFD, 0xFF000001, 0x3FFFFFFE, 0, 1, 0x80000003, 0x80000001, 0x80000001};
  for (int i = 0; i < 13; ++i) {
    ENSURE(__builtin_bit_cast(std::uint32_t, NextUp(xs[i])) == up[i]);
    ENSURE(__builtin_bit_cast(std::uint32_t, NextDown(xs[i])) == down[i]);
  }
}
F_SPEC(log_b_binades) {
  binades([](int e) { for (int s = 0; s < 2; ++s) ENSURE(LogB(in_binade(e, s)) == e); });
}
// The multiplications and divisions by 2 are exact, so that real arithmetic applies.
R_SPEC(log_b_real) {
  ANY(double, x);
  REQUIRE(x > 0x1p-60); REQUIRE(x < 0x1p60);
  double const e = LogB(x);
  double low = 0x1p-61, e_low = -61;
  bool ok = false;
  for (int k = -61; k <= 60; ++k, low *= 2) if (e == k) { ENSURE(low <= x); ENSURE(x < 2 * low); ok = true; }
  ENSURE(ok);
}
F_SPEC(log_b_special) {
  using L = std::numeric_limits<double>;
  ENSURE(LogB(0.0) == -L::infinity()); ENSURE(LogB(-0.0) == -L::infinity());
  ENSURE(LogB(L::infinity()) == L::infinity()); ENSURE(LogB(-L::infinity()) == L::infinity());
  for (int k = 0; k < 52; k += 3) { ENSURE(LogB(from(std::uint64_t{1} << k)) == k - 1074); ENSURE(LogB(-from((std::uint64_t{2} << k) - 1)) == k - 1074); }
  double const n = from(vc_u64("n"));
  REQUIRE(n != n);
  ENSURE(LogB(n) != LogB(n));
}
// x * 2^n rounded once: exact for normal results, infinite on overflow.
F_SPEC(scale_b_normal) {
  binades([](int e) {
    for (int s = 0; s < 2; ++s) {
      double const x = in_binade(e, s);
      for (int n : {-2046, -2045, -1100, -1074, -1023, -1022, -300, -53, -2, -1, 0, 1, 2, 52, 300, 1023, 1024, 1100, 2045}) {
        if (e + n >= -1022 && e + n <= 1023) ENSURE(bits(ScaleB(x, n)) == bits(x) + (static_cast<std::int64_t>(n) << 52));
        if (e + n > 1023) ENSURE(ScaleB(x, n) == (s ? -1 : 1) * std::numeric_limits<double>::infinity());
        if (e + n < -1076) ENSURE(bits(ScaleB(x, n)) == (s ? 0x8000000000000000 : 0));
      }
    }
  });
}
F_SPEC(scale_b_subnormal_result) {
  for (int s = 0; s < 2; ++s) for (int e : {-1022, -1021, -1, 0, 1, 53, 1023}) for (int r = -1075; r < -1022; r += 4) {
    // A significand with r + 1074 significant bits after the first, so that the result is exact; and a tie.
    double const x = from(std::uint64_t(s) << 63 | std::uint64_t(e + 1023) << 52);
    std::uint64_t const expected = r == -1075 ? 0 : std::uint64_t{1} << (r + 1074);
    ENSURE(bits(ScaleB(x, r - e)) == (std::uint64_t(s) << 63 | expected));
  }
}
F_SPEC(scale_b_special) {
  using L = std::numeric_limits<double>;
  int const n = vc_i32("n");
  REQUIRE(n > -12); REQUIRE(n < 12);
  ENSURE(bits(ScaleB(0.0, n)) == 0); ENSURE(bits(ScaleB(-0.0, n)) == 0x8000000000000000);
  ENSURE(ScaleB(L::infinity(), n) == L::infinity()); ENSURE(ScaleB(-L::infinity(), n) == -L::infinity());
  double const x = from(vc_u64("x"));
  REQUIRE(x != x);
  ENSURE(ScaleB(x, 3) != ScaleB(x, 3)); ENSURE(ScaleB(x, -3) != ScaleB(x, -3));
  // Subnormal arguments.
  for (int k = 0; k < 52; ++k) ENSURE(bits(ScaleB(from(std::uint64_t{1} << k), 1074)) == std::uint64_t(1023 + k) << 52);
}
F_SPEC(ulp_distance) {
  double const x = from(vc_u64("x")), y = from(vc_u64("y"));
  REQUIRE(x == x); REQUIRE(y == y);
  // The positions of |x| and |y| among the nonnegative numbers.
  std::uint64_t const mx = bits(x) & 0x7FFFFFFFFFFFFFFF, my = bits(y) & 0x7FFFFFFFFFFFFFFF;
  std::uint64_t const expected = bits(x) >> 63 != bits(y) >> 63 ? mx + my : mx < my ? my - mx : mx - my;
  std::int64_t const u = ULPDistance(x, y);
  ENSURE(static_cast<std::uint64_t>(u) == (expected >> 63 ? 0x7FFFFFFFFFFFFFFF : expected));
  ENSURE(ULPDistance(y, x) == u);
}
