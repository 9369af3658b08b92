// The same contracts on the AVX/FMA code paths.
// pv-flags: -DPRINCIPIA_REQUIRES_AVX=1 -DPRINCIPIA_REQUIRES_FMA=1 -mavx -mfma -DVC_VARIANT=avx
#include "C07_grassmann.cpp"
