// Specification intrinsics.  In verification builds these are interpreted by the prover; in native
// builds (replay, falsification) they are implemented by rt/vc_native.cpp.
#pragma once
#include <cstdint>
extern "C" {
double vc_real(const char* name);
double vc_f64(const char* name);
std::int64_t vc_i64(const char* name);
std::uint64_t vc_u64(const char* name);
std::int32_t vc_i32(const char* name);
std::uint32_t vc_u32(const char* name);
std::uint16_t vc_u16(const char* name);
std::uint8_t vc_u8(const char* name);
bool vc_bool(const char* name);
void vc_assume(bool c);
void vc_assert(bool c, const char* label);
void vc_eq(double a, double b, const char* label);
void vc_eq_tol(double a, double b, double tol, const char* label);
void vc_same_bits(double a, double b, const char* label);
void vc_may_abort(int on);
void vc_flag(const char* name, int value);
void vc_cover(const char* label);
void vc_unreachable(const char* label);
double vc_uf(const char* name, int n, const double* args);
void* vc_array(const char* name, std::int64_t size);
bool vc_fork(bool c);
std::int64_t vc_concretize(std::int64_t v);
[[noreturn]] void vc_check_failed(const char* what);
}
#define VC_STR2(x) #x
#define VC_STR(x) VC_STR2(x)
#define REQUIRE(...) vc_assume(__VA_ARGS__)
#define ENSURE(...) vc_assert((__VA_ARGS__), #__VA_ARGS__)
#define ENSURE_EQ(...) vc_eq(__VA_ARGS__, #__VA_ARGS__)
#ifdef VC_VARIANT
#define VC_CAT2(a, b, c) a##b##_##c
#define VC_CAT(a, b, c) VC_CAT2(a, b, c)
#define R_SPEC(name) extern "C" void VC_CAT(vcR_, VC_VARIANT, name)()
#define F_SPEC(name) extern "C" void VC_CAT(vcF_, VC_VARIANT, name)()
#else
#define R_SPEC(name) extern "C" void vcR_##name()
#define F_SPEC(name) extern "C" void vcF_##name()
#endif
