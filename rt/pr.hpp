// Helpers for specifications over Principia types: symbolic values and componentwise equality.
#pragma once
#include "vc.hpp"
#include <string>
#include <utility>
#include <tuple>
#include "quantities/quantities.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/si.hpp"
#include "geometry/frame.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/point.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "geometry/direct_sum.hpp"
using namespace principia;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_point;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::geometry::_direct_sum;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_si;
using namespace principia::base::_algebra;

namespace pr {
struct Nm { char s[64]; };
inline Nm cat(const char* a, const char* b) {
  Nm r; int i = 0;
  for (; *a; ++a) r.s[i++] = *a;
  for (; *b; ++b) r.s[i++] = *b;
  r.s[i] = 0;
  return r;
}
inline Nm cat(const char* a, int i, int j = -1) {
  char b[16]; int n = 0;
  b[n++] = '_';
  if (i >= 10) b[n++] = '0' + i / 10;
  b[n++] = '0' + i % 10;
  if (j >= 0) { b[n++] = '_'; if (j >= 10) b[n++] = '0' + j / 10; b[n++] = '0' + j % 10; }
  b[n] = 0;
  return cat(a, b);
}
template<typename T> struct S;  // S<T>::get(name) : an arbitrary value of type T
template<> struct S<double> { static double get(const char* n) { return vc_real(n); } };
template<typename D> struct S<Quantity<D>> { static Quantity<D> get(const char* n) { return Quantity<D>(vc_real(n)); } };
template<typename T> struct S<R3Element<T>> {
  static R3Element<T> get(const char* n) {
    T const x = S<T>::get(cat(n, ".x").s), y = S<T>::get(cat(n, ".y").s), z = S<T>::get(cat(n, ".z").s);
    return R3Element<T>(x, y, z);
  }
};
template<typename T> struct S<R3x3Matrix<T>> {
  static R3x3Matrix<T> get(const char* n) {
    auto const x = S<R3Element<T>>::get(cat(n, ".r0").s), y = S<R3Element<T>>::get(cat(n, ".r1").s), z = S<R3Element<T>>::get(cat(n, ".r2").s);
    return R3x3Matrix<T>(x, y, z);
  }
};
template<typename T, typename F> struct S<Multivector<T, F, 1>> { static auto get(const char* n) { return Multivector<T, F, 1>(S<R3Element<T>>::get(n)); } };
template<typename T, typename F> struct S<Multivector<T, F, 2>> { static auto get(const char* n) { return Multivector<T, F, 2>(S<R3Element<T>>::get(n)); } };
template<typename T, typename F> struct S<Multivector<T, F, 3>> { static auto get(const char* n) { return Multivector<T, F, 3>(S<T>::get(n)); } };
template<typename V> struct S<Point<V>> { static auto get(const char* n) { return Point<V>() + S<V>::get(n); } };
template<> struct S<Quaternion> { static auto get(const char* n) {
  double const w = vc_real(cat(n, ".w").s);
  return Quaternion(w, S<R3Element<double>>::get(n)); } };
template<typename T, typename F, template<typename, typename> typename M> struct S<SymmetricBilinearForm<T, F, M>> {
  static auto get(const char* n) {
    T const a = S<T>::get(cat(n, ".xx").s), b = S<T>::get(cat(n, ".xy").s), c = S<T>::get(cat(n, ".xz").s);
    T const d = S<T>::get(cat(n, ".yy").s), e = S<T>::get(cat(n, ".yz").s), f = S<T>::get(cat(n, ".zz").s);
    return SymmetricBilinearForm<T, F, M>(R3x3Matrix<T>({a, b, c}, {b, d, e}, {c, e, f}));
  }
};
template<typename T> T any(const char* n) { return S<T>::get(n); }

// The number in SI units.
inline double mag(double x) { return x; }
template<typename D> double mag(Quantity<D> const& q) { return q.magnitude_; }

// Componentwise equality of two values, as separate obligations.
inline void eq(double a, double b, const char* l) { vc_eq(a, b, l); }
inline void eq(int a, int b, const char* l) { vc_assert(a == b, l); }
inline void eq(std::int64_t a, std::int64_t b, const char* l) { vc_assert(a == b, l); }
inline void eq(bool a, bool b, const char* l) { vc_assert(a == b, l); }
template<typename D> void eq(Quantity<D> const& a, Quantity<D> const& b, const char* l) { vc_eq(a.magnitude_, b.magnitude_, l); }
template<typename T> void eq(R3Element<T> const& a, R3Element<T> const& b, const char* l) { eq(a.x, b.x, l); eq(a.y, b.y, l); eq(a.z, b.z, l); }
template<typename T> void eq(R3x3Matrix<T> const& a, R3x3Matrix<T> const& b, const char* l) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) eq(a(i, j), b(i, j), l); }
template<typename T, typename F, int r> void eq(Multivector<T, F, r> const& a, Multivector<T, F, r> const& b, const char* l) { eq(a.coordinates(), b.coordinates(), l); }
template<typename V> void eq(Point<V> const& a, Point<V> const& b, const char* l) { eq(a.coordinates_, b.coordinates_, l); }
inline void eq(Quaternion const& a, Quaternion const& b, const char* l) { eq(a.real_part(), b.real_part(), l); eq(a.imaginary_part(), b.imaginary_part(), l); }
template<typename T, typename F, template<typename, typename> typename M>
void eq(SymmetricBilinearForm<T, F, M> const& a, SymmetricBilinearForm<T, F, M> const& b, const char* l) { eq(a.coordinates(), b.coordinates(), l); }
template<typename A, typename B> void eq(std::pair<A, B> const& a, std::pair<A, B> const& b, const char* l) { eq(a.first, b.first, l); eq(a.second, b.second, l); }
}  // namespace pr
// The arguments are the two values; label = source text.
#define EQ(...) pr::eq(__VA_ARGS__, #__VA_ARGS__)
#define ANY(T, name) auto const name = pr::any<T>(#name)
#define ANYT(name, ...) auto const name = pr::any<__VA_ARGS__>(#name)
