// Discrete Fourier transform: Uₛ = ∑ᵣ uᵣ exp(-2πirs/n) for arbitrary samples.
#include "pr.hpp"
#include "stl.hpp"
#include <array>
#include <vector>
#include "numerics/fast_fourier_transform.hpp"
using namespace principia::numerics::_fast_fourier_transform;
using principia::geometry::_interval::Interval;
using F = Frame<struct TA, Inertial>;
namespace {
double cosine(int k, int n) { return std::cos(2 * π * k / n); }
double sine(int k, int n) { return std::sin(2 * π * k / n); }
template<typename V, int n> std::array<V, n> samples() { std::array<V, n> u; for (int i = 0; i < n; ++i) u[i] = pr::any<V>(pr::cat("u", i).s); return u; }
template<typename V, int n> void transform() {
  vc_flag("fold", 1);
  auto const u = samples<V, n>(); ANY(Time, dt); REQUIRE(dt.magnitude_ > 0);
  FastFourierTransform<V, Instant, n> const t(u, dt);
  V offset{}; for (auto const& x : u) offset += 3 * x;
  for (int s = 0; s < n; ++s) {
    V re{}, im{};
    for (int r = 0; r < n; ++r) { re += u[r] * cosine(r * s % n, n); im += -u[r] * sine(r * s % n, n); }
    EQ(t[s].real_part() + offset, re + offset); EQ(t[s].imaginary_part() + offset, im + offset);  // The offset absorbs the rounding of the roots of unity.
    EQ(t.frequency(s), 2 * π * Radian * s / (n * dt));
  }
}
}
R_SPEC(fft_2) { transform<double, 2>(); }
R_SPEC(fft_4) { transform<Length, 4>(); }
R_SPEC(fft_8) { transform<Length, 8>(); }
R_SPEC(fft_16) { transform<double, 16>(); }
R_SPEC(fft_32) { transform<double, 32>(); }
R_SPEC(fft_64) { transform<double, 64>(); }
R_SPEC(fft_vectors) { transform<Displacement<F>, 8>(); }
R_SPEC(fft_containers) {
  auto const u = samples<Length, 4>(); ANY(Time, dt); REQUIRE(dt.magnitude_ > 0);
  std::vector<Length> const v(u.begin(), u.end());
  FastFourierTransform<Length, Instant, 4> const a(u, dt), b(v, dt), c(v.begin(), v.end(), dt);
  for (int s = 0; s < 4; ++s) { EQ(a[s].real_part(), b[s].real_part()); EQ(a[s].imaginary_part(), b[s].imaginary_part()); EQ(a[s].real_part(), c[s].real_part()); EQ(a[s].imaginary_part(), c[s].imaginary_part()); }
}
// The power spectrum, and the interval around its greatest peak in a range.
R_SPEC(power_spectrum) {
  auto const u = samples<double, 4>();
  FastFourierTransform<double, Instant, 4> const t(u, 2 * π * Second);  // Frequencies are quarters of radians per second.
  auto const p = t.PowerSpectrum();
  ENSURE(p.size() == 4);
  int s = 0;
  for (auto const& [w, power] : p) {
    EQ(w, t.frequency(s));
    EQ(power, t[s].real_part() * t[s].real_part() + t[s].imaginary_part() * t[s].imaginary_part());
    ++s;
  }
  double q[3]; for (int i = 0; i < 3; ++i) q[i] = t[i].Norm²();
  auto const unit = Radian / Second;
  auto const is = [&](auto const& interval, int lo, int hi) { EQ(interval.min, t.frequency(lo)); EQ(interval.max, t.frequency(hi)); };
  is(t.Mode(0.2 * unit, 0.3 * unit), 0, 2); is(t.Mode(0.45 * unit, 1 * unit), 1, 3); is(t.Mode(-1 * unit, 0.1 * unit), 0, 1);
  if (vc_fork(q[1] > q[0])) {
    is(t.Mode(0 * unit, 0.3 * unit), 0, 2);
    if (vc_fork(q[2] > q[1])) is(t.Mode(0 * unit, 1 * unit), 1, 3); else is(t.Mode(0 * unit, 1 * unit), 0, 2);
  } else {
    is(t.Mode(0 * unit, 0.3 * unit), 0, 1);
    if (vc_fork(q[2] > q[0])) is(t.Mode(0 * unit, 1 * unit), 1, 3); else is(t.Mode(0 * unit, 1 * unit), 0, 1);
  }
}
