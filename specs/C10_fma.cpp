// pv-flags: -DPRINCIPIA_REQUIRES_AVX=1 -DPRINCIPIA_REQUIRES_FMA=1 -mavx -mfma
#include "pr.hpp"
using RA = Frame<struct TA, Inertial>;
R_SPEC(point_fma) {
  ANY(double, k); ANYT(v, Displacement<RA>); ANYT(p, Position<RA>); ANY(Speed, s); ANY(Time, t); 
  EQ(FusedMultiplyAdd(k, v, p), p + k * v); EQ(FusedNegatedMultiplyAdd(k, v, p), p - k * v);
  ANYT(q, Velocity<RA>); EQ(FusedMultiplyAdd(q, t, p), p + q * t); EQ(FusedNegatedMultiplyAdd(q, t, p), p - q * t);
  auto const x = pr::any<Point<Length>>("x"); EQ(FusedMultiplyAdd(s, t, x), x + s * t); EQ(FusedNegatedMultiplyAdd(s, t, x), x - s * t);
}
