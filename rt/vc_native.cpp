// Native implementation of the specification intrinsics: replays recorded inputs, or draws random
// ones, against the real code compiled for the machine.
//   prog <entry> replay <file>          file: lines "name kind value"
//   prog <entry> random <seed> <count>
#include <csetjmp>
#include <csignal>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <random>
#include <string>
#include <vector>

static std::map<std::string, std::string> fixed;
static bool replaying;
static std::mt19937_64 rng;
static std::map<std::string, int> uses;
struct In { std::string name, kind, value; };
static std::vector<In> inputs;
static jmp_buf env;
static int may_abort;
static int profile;

static std::string Unique(const char* n) {
  int k = uses[n]++;
  return k == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(k);
}
static double U(double a, double b) { return a + (b - a) * ((rng() >> 11) * 0x1p-53); }
static double D(std::string const& n, char const* kind, bool bits) {
  double v;
  auto it = fixed.find(n);
  if (it != fixed.end()) {
    v = std::strtod(it->second.c_str(), nullptr);
  } else if (bits && profile % 3 == 0) {
    std::uint64_t b = rng(); std::memcpy(&v, &b, 8);
  } else {
    switch ((profile + (rng() % 8 == 0 ? rng() % 6 : 0)) % 6) {
      case 0: v = U(0.1, 2); break;
      case 1: v = U(-2, 2); break;
      case 2: v = (double)(int)(rng() % 9) - 4; break;
      case 3: v = U(-10, 10); break;
      case 4: v = U(-1, 1) * std::pow(10, U(-2, 2)); break;
      default: v = U(0, 1);
    }
  }
  char b[64];
  std::snprintf(b, sizeof b, "%a", v);
  inputs.push_back({n, kind, b});
  return v;
}
static std::uint64_t I(const char* name, int w, char const* kind) {
  std::string n = Unique(name);
  std::uint64_t v;
  auto it = fixed.find(n);
  if (it != fixed.end()) {
    v = it->second[0] == '-' ? (std::uint64_t)std::strtoll(it->second.c_str(), nullptr, 0)
                             : std::strtoull(it->second.c_str(), nullptr, 0);
  } else {
    switch ((profile + rng() % 2 * (rng() % 5)) % 5) {
      case 0: v = rng(); break;
      case 1: v = rng() % 11; break;
      case 2: v = -(rng() % 11); break;
      case 3: v = rng() >> (rng() % 64); if (w < 64) v &= (~0ull >> (64 - 1 - rng() % w)); break;
      default: v = (rng() >> (rng() % 64)); if (rng() & 1) v = -v;
    }
  }
  if (w < 64) v &= (1ull << w) - 1;
  char b[64];
  std::snprintf(b, sizeof b, "%" PRIu64, v);
  inputs.push_back({n, kind, b});
  return v;
}

static void Fail(std::string const& label, std::string const& detail) {
  std::printf("FAILED %s\nDETAIL %s\n", label.c_str(), detail.c_str());
  for (auto const& i : inputs) {
    std::printf("INPUT %s %s %s\n", i.name.c_str(), i.kind.c_str(), i.value.c_str());
  }
  std::fflush(stdout);
  _exit(1);
}

extern "C" {
double vc_real(const char* n) { return D(Unique(n), "real", false); }
double vc_f64(const char* n) { return D(Unique(n), "f64", true); }
std::int64_t vc_i64(const char* n) { return (std::int64_t)I(n, 64, "i64"); }
std::uint64_t vc_u64(const char* n) { return I(n, 64, "u64"); }
std::int32_t vc_i32(const char* n) { return (std::int32_t)I(n, 32, "i32"); }
std::uint32_t vc_u32(const char* n) { return (std::uint32_t)I(n, 32, "u32"); }
std::uint16_t vc_u16(const char* n) { return (std::uint16_t)I(n, 16, "u16"); }
std::uint8_t vc_u8(const char* n) { return (std::uint8_t)I(n, 8, "u8"); }
bool vc_bool(const char* n) { return I(n, 1, "bool") & 1; }
void vc_assume(bool c) { if (!c) longjmp(env, 1); }
void vc_assert(bool c, const char* label) { if (!c) Fail(label, "assertion is false"); }
void vc_eq_tol(double a, double b, double tol, const char* label) {
  double t = tol > 1e-6 ? 10 * tol : 1e-6;
  double m = std::fmax(std::fmax(std::fabs(a), std::fabs(b)), 1e-6);
  if (std::isnan(a) && std::isnan(b)) return;
  // Values too large or too small for the comparison to be meaningful are not failures.
  if (!(m < 1e100)) longjmp(env, 1);
  if (!(std::fabs(a - b) <= t * m)) {
    char buf[128];
    std::snprintf(buf, sizeof buf, "%.17g != %.17g", a, b);
    Fail(label, buf);
  }
}
void vc_eq(double a, double b, const char* label) { vc_eq_tol(a, b, 0, label); }
void vc_same_bits(double a, double b, const char* label) {
  if (std::memcmp(&a, &b, 8) != 0) Fail(label, "different bits");
}
void vc_may_abort(int on) { may_abort = on; }
void vc_flag(const char*, int) {}
void vc_cover(const char*) {}
void vc_unreachable(const char* label) { Fail(label, "reached"); }
double vc_uf(const char* name, int n, const double* x) {
  unsigned h = 0;
  for (const char* c = name; *c; ++c) h = (h * 131 + (unsigned char)*c) & 0xffff;
  double k = (h % 97) / 97.0, r = k;
  for (int i = 0; i < n; ++i) r += std::sin((i + 1 + k) * x[i] + i) * (1 + 0.25 * i);
  return r;
}
void* vc_array(const char* name, std::int64_t size) {
  auto* p = (unsigned char*)std::malloc(size ? size : 1);
  auto it = fixed.find(std::string("mem:") + name);
  std::string hex;
  for (std::int64_t i = 0; i < size; ++i) {
    if (it != fixed.end() && 2 * i + 1 < (std::int64_t)it->second.size() - 1 + 1) {
      p[i] = (unsigned char)std::strtoul(it->second.substr(2 * i, 2).c_str(), nullptr, 16);
    } else {
      p[i] = it != fixed.end() ? 0 : (unsigned char)rng();
    }
    char b[4]; std::snprintf(b, sizeof b, "%02x", p[i]); if (i < 4096) hex += b;
  }
  inputs.push_back({std::string("mem:") + name, "array", hex.empty() ? "-" : hex});
  return p;
}
bool vc_fork(bool c) { return c; }
std::int64_t vc_concretize(std::int64_t v) { return v; }
[[noreturn]] void vc_check_failed(const char* what) {
  if (may_abort) longjmp(env, 2);
  Fail("check: no CHECK failure or fatal error", what ? what : "");
  _exit(1);
}
}
// Fallbacks for functions which live in .cpp files that the specification does not include.
namespace principia { namespace numerics {
namespace _fma { namespace internal { enum class FMAPresence { Absent = 0, Present = 1, Unknown = 2 }; } }
namespace _sin_cos { namespace internal {
using _fma::internal::FMAPresence;
template<typename T> struct SC { T sin; T cos; };
template<FMAPresence p> __attribute__((weak)) double Sin(double x) { return std::sin(x); }
template<FMAPresence p> __attribute__((weak)) double Cos(double x) { return std::cos(x); }
template<FMAPresence p> __attribute__((weak)) SC<double> SinCos(double x) { return {std::sin(x), std::cos(x)}; }
template double Sin<FMAPresence::Absent>(double);
template double Sin<FMAPresence::Present>(double);
template double Cos<FMAPresence::Absent>(double);
template double Cos<FMAPresence::Present>(double);
template SC<double> SinCos<FMAPresence::Absent>(double);
template SC<double> SinCos<FMAPresence::Present>(double);
} }
namespace _cbrt { namespace internal {
__attribute__((weak)) double Cbrt(double y) { return std::cbrt(y); }
} }
} }
extern "C" __attribute__((weak)) double cr_sin(double x) { return std::sin(x); }
extern "C" __attribute__((weak)) double cr_cos(double x) { return std::cos(x); }

static void Crash(int s) { Fail("memory: no crash", "signal " + std::to_string(s)); }

int main(int argc, char** argv) {
  if (argc < 4) return 3;
  void* f = dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { std::printf("no entry %s\n", argv[1]); return 3; }
  auto entry = (void (*)())f;
  std::signal(SIGSEGV, Crash); std::signal(SIGABRT, Crash); std::signal(SIGFPE, Crash);
  std::signal(SIGILL, Crash); std::signal(SIGBUS, Crash);
  if (!std::strcmp(argv[2], "replay")) {
    FILE* in = std::fopen(argv[3], "r");
    char line[1 << 16];
    while (in && std::fgets(line, sizeof line, in)) {
      std::string l(line);
      while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
      if (l.rfind("INPUT ", 0) != 0) continue;
      l = l.substr(6);
      auto q = l.rfind(' ');
      auto p = l.rfind(' ', q - 1);
      fixed[l.substr(0, p)] = l.substr(q + 1);
    }
    replaying = true;
    int r = setjmp(env);
    if (r == 0) { entry(); std::printf("PASSED\n"); return 0; }
    std::printf("ASSUMPTION-FALSE\n");
    return 2;
  }
  std::uint64_t seed = std::strtoull(argv[3], nullptr, 0);
  static int count, i, ok;
  count = argc > 4 ? std::atoi(argv[4]) : 1000;
  for (i = 0; i < count; ++i) {
    rng.seed(seed * 1000003 + i);
    profile = i;
    uses.clear(); inputs.clear(); may_abort = 0;
    if (setjmp(env) == 0) { entry(); ++ok; }
  }
  std::printf("RANDOM %d of %d runs satisfied the preconditions\n", ok, count);
  return 0;
}
