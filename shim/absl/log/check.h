#pragma once
#include <cstdlib>
#include <ostream>
extern "C" [[noreturn]] void vc_check_failed(char const* what);
namespace vc_shim {
struct Null { template<typename T> Null const& operator<<(T const&) const { return *this; }
 Null const& operator<<(std::ostream& (*)(std::ostream&)) const {return *this;} };
// The message of a fatal error is not evaluated: the constructor does not return.
struct Fatal { [[noreturn]] Fatal(char const* what) { vc_check_failed(what); } template<typename T> Fatal const& operator<<(T const&) const { return *this; }
 Fatal const& operator<<(std::ostream& (*)(std::ostream&)) const {return *this;} };
struct Voidify { template<typename T> void operator&&(T&&) const {} };
}
#define VC_FATAL_UNLESS(c) (c) ? (void)0 : ::vc_shim::Voidify() && ::vc_shim::Fatal(#c)
#define CHECK(c) VC_FATAL_UNLESS(c)
#define CHECK_EQ(a,b) VC_FATAL_UNLESS((a) == (b))
#define CHECK_NE(a,b) VC_FATAL_UNLESS((a) != (b))
#define CHECK_LE(a,b) VC_FATAL_UNLESS((a) <= (b))
#define CHECK_LT(a,b) VC_FATAL_UNLESS((a) < (b))
#define CHECK_GE(a,b) VC_FATAL_UNLESS((a) >= (b))
#define CHECK_GT(a,b) VC_FATAL_UNLESS((a) > (b))
#define CHECK_OK(s) VC_FATAL_UNLESS((s).ok())
#define CHECK_NOTNULL(p) (p)
#define VC_NOOP(c) true ? (void)0 : ::vc_shim::Voidify() && (::vc_shim::Null() << (c))
#define DCHECK(c) VC_NOOP((bool)(c))
#define DCHECK_EQ(a,b) VC_NOOP((a) == (b))
#define DCHECK_NE(a,b) VC_NOOP((a) != (b))
#define DCHECK_LE(a,b) VC_NOOP((a) <= (b))
#define DCHECK_LT(a,b) VC_NOOP((a) < (b))
#define DCHECK_GE(a,b) VC_NOOP((a) >= (b))
#define DCHECK_GT(a,b) VC_NOOP((a) > (b))
#define DCHECK_OK(s) VC_NOOP((s).ok())
