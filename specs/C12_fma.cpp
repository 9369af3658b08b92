// pv-flags: -DPRINCIPIA_REQUIRES_AVX=1 -DPRINCIPIA_REQUIRES_FMA=1 -mavx -mfma
#define VC_VARIANT fma
#include "C12_polynomials.cpp"
