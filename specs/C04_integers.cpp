// Integer helpers.
// pv-bounded: mod_.* divisors -16 to 16 and the calendar divisors, for all dividends within 2^30
#include "pr.hpp"
#include "base/bits.hpp"
#include "base/mod.hpp"
#include "numerics/combinatorics.hpp"
using namespace principia::base::_bits;
using namespace principia::base::_mod;
using namespace principia::numerics::_combinatorics;
// The laundering keeps the compiler from evaluating everything.
F_SPEC(floor_log2) {
  std::int64_t const n = vc_i64("n");
  REQUIRE(n >= 1);
  std::int64_t const l = FloorLog2(n);
  ENSURE(0 <= l && l <= 62);
  ENSURE((std::int64_t{1} << l) <= n);
  ENSURE((n >> l) == 1);
  ENSURE(FloorLog2(0) == 0);
}
F_SPEC(power_of_2_le) {
  std::int64_t const n = vc_i64("n");
  REQUIRE(n >= 1);
  std::int64_t const p = PowerOf2Le(n);
  ENSURE(p > 0); ENSURE((p & (p - 1)) == 0);
  ENSURE(p <= n); ENSURE(n - p < p);
  ENSURE(PowerOf2Le(0) == 0);
}
namespace {
template<int bits> std::int64_t reverse(std::int64_t n) {
  std::int64_t r = 0;
  for (int i = 0; i < bits; ++i) r |= ((n >> i) & 1) << (bits - 1 - i);
  return r;
}
template<int bits> void bri(std::int64_t n) {
  ENSURE(reverse<bits>(BitReversedIncrement(n, bits)) == ((reverse<bits>(n) + 1) & ((std::int64_t{1} << bits) - 1)));
}
template<int bits> void bri_all() {
  std::int64_t const n = vc_i64(pr::cat("n", bits / 10, bits % 10).s);
  REQUIRE(n >= 0); REQUIRE(n < (std::int64_t{1} << bits));
  bri<bits>(n);
}
// One path per width.
template<int... b> void bri_seq(std::integer_sequence<int, b...>) { ((vc_fork(vc_bool(pr::cat("width", b).s)) && (bri_all<b + 1>(), true)) || ...); }
template<int d> void mod_d() {
  std::int32_t const n = vc_i32("n");
  REQUIRE(n >= -(1 << 30)); REQUIRE(n <= (1 << 30));
  int const m = mod(n, d);
  ENSURE(d > 0 ? 0 <= m && m < d : d < m && m <= 0);
  std::int64_t const q = (static_cast<std::int64_t>(n) - m) / d;
  ENSURE(q * d + m == n);
  for (int o : {-7, 1, 3, 100}) {
    int const k = mod(n, d, o);
    ENSURE(d > 0 ? o <= k && k < d + o : d + o < k && k <= o);
    std::int64_t const p = (static_cast<std::int64_t>(n) - k) / d;
    ENSURE(p * d + k == n);
  }
}
}
F_SPEC(bit_reversed_increment) { ENSURE(BitReversedIncrement(0, 0) == 0); bri_seq(std::make_integer_sequence<int, 31>{}); }
#define MOD(d) F_SPEC(mod_p##d) { mod_d<d>(); } F_SPEC(mod_m##d) { mod_d<-d>(); }
MOD(1) MOD(2) MOD(3) MOD(4) MOD(5) MOD(7) MOD(8) MOD(10) MOD(12) MOD(16) MOD(52) MOD(60) MOD(100) MOD(365) MOD(400) MOD(1461) MOD(36524) MOD(86400)
namespace {
// Every argument for which the result and the intermediate products are representable.
template<int n> void fact() {
  unsigned __int128 f = 1, d = 1;
  for (int i = 1; i <= n; ++i) f *= i;
  for (int i = n; i > 0; i -= 2) d *= i;
  ENSURE(static_cast<unsigned __int128>(Factorial(n)) == f);
  ENSURE(static_cast<unsigned __int128>(DoubleFactorial(n)) == d);
}
}
F_SPEC(factorials) {
  for (int n = 0; n <= 20; ++n) {
    std::uint64_t f = 1, d = 1;
    for (int i = 1; i <= n; ++i) f *= i;
    for (int i = n; i > 0; i -= 2) d *= i;
    ENSURE(static_cast<std::uint64_t>(Factorial(n)) == f);
    ENSURE(static_cast<std::uint64_t>(DoubleFactorial(n)) == d);
  }
  for (int n = 21; n <= 33; ++n) {
    std::uint64_t d = 1;
    for (int i = n; i > 0; i -= 2) d *= i;
    ENSURE(static_cast<std::uint64_t>(DoubleFactorial(n)) == d);
  }
  ENSURE(DoubleFactorial(-1) == 1);
}
F_SPEC(binomials) {
  // Pascal's triangle.
  std::int64_t row[62] = {1};
  for (int n = 0; n <= 60; ++n) {
    for (int k = 0; k <= n + 1 && k <= 20; ++k) {
      // The falling factorial must be representable.
      __int128 ff = 1; bool ok = true;
      for (int i = 0; i < k; ++i) { ff *= n - i; ok = ok && ff <= 0x7FFFFFFFFFFFFFFFll; }
      if (!ok) continue;
      ENSURE(FallingFactorial(n, k) == static_cast<std::int64_t>(ff));
      ENSURE(Binomial(n, k) == row[k]);
    }
    for (int k = n + 1; k > 0; --k) row[k] += row[k - 1];
  }
}
F_SPEC(falling) {
  std::int64_t const n = vc_i64("n");
  REQUIRE(n > -1000000); REQUIRE(n < 1000000);
  ENSURE(FallingFactorial(n, 0) == 1);
  ENSURE(FallingFactorial(n, 1) == n);
  ENSURE(FallingFactorial(n, 2) == n * (n - 1));
  ENSURE(FallingFactorial(n, 3) == n * (n - 1) * (n - 2));
  ENSURE(Binomial(n, 0) == 1); ENSURE(Binomial(n, 1) == n);
  std::int64_t const h = vc_i64("h");
  REQUIRE(h > -1000000); REQUIRE(h < 1000000);
  ENSURE(Binomial(2 * h, 2) == h * (2 * h - 1));
  std::int64_t const i = vc_i64("i"), j = vc_i64("j");
  ENSURE(KroneckerDelta(i, j) == (i == j ? 1 : 0));
}
