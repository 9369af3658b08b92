From 78f0e5fdff4082cf21639dc56439f57cb8f71e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 01/17] fix: sign of the imaginary part of real - complex

---
 geometry/complexification_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/complexification_body.hpp b/geometry/complexification_body.hpp
index 3305f69..3642cc7 100644
--- a/geometry/complexification_body.hpp
+++ b/geometry/complexification_body.hpp
@@ -110,7 +110,7 @@ Complexification<Difference<L, Vector>> operator-(
     L const& left,
     Complexification<Vector> const& right) {
   return Complexification<Difference<L, Vector>>{left - right.real_part(),
-                                                 right.imaginary_part()};
+                                                 -right.imaginary_part()};
 }
 
 template<typename Vector, typename R>
-- 
2.43.0


From d10f19b19092b108df5762a2dd50ae014b4ae96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 02/17] fix: hexadecimal decoding of characters outside ASCII

---
 base/hexadecimal_body.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index 47bd0cc..cd1baaf 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -107,8 +107,12 @@ void HexadecimalEncoder<null_terminated>::Decode(Array<char const> input,
   for (char const* const input_end = input.data + input.size;
        input.data != input_end;
        input.data += 2, ++output.data) {
-    *output.data = (hexadecimal_digits_to_nibble[*input.data] << 4) |
-                   hexadecimal_digits_to_nibble[*(input.data + 1)];
+    // The characters may be negative, they must not be used as indices directly.
+    *output.data =
+        (hexadecimal_digits_to_nibble[static_cast<std::uint8_t>(*input.data)]
+         << 4) |
+        hexadecimal_digits_to_nibble[static_cast<std::uint8_t>(
+            *(input.data + 1))];
   }
 }
 
-- 
2.43.0


From 0b1136f837bbe23dbaf16e9f2aa055e019491bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 03/17] fix: hexadecimal null terminator clobbers an adjacent
 input

---
 base/hexadecimal_body.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index cd1baaf..04d8055 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -58,15 +58,17 @@ void HexadecimalEncoder<null_terminated>::Encode(
   CHECK_GE(output.size, EncodedLength(input)) << "output too small";
   // We want the result to start at `output.data[0]`.
   output.data += ((input.size - 1) << 1);
-  if constexpr (null_terminated) {
-    output.data[2] = 0;
-  }
+  [[maybe_unused]] char* const terminator = output.data + 2;
   input.data += input.size - 1;
   for (std::uint8_t const* const input_rend = input.data - input.size;
        input.data != input_rend;
        --input.data, output.data -= 2) {
     std::memcpy(output.data, &byte_to_hexadecimal_digits[*input.data << 1], 2);
   }
+  // The null terminator may overlap the input, so it must be written last.
+  if constexpr (null_terminated) {
+    *terminator = 0;
+  }
 }
 
 template<bool null_terminated>
-- 
2.43.0


From f736b24aa3c46161efab70a7d225a3cbf938e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 04/17] fix: base 32768 decoding of U+FFFF reads outside of the
 cache

---
 base/base32768_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base32768_body.hpp b/base/base32768_body.hpp
index e6ccd36..1b43994 100644
--- a/base/base32768_body.hpp
+++ b/base/base32768_body.hpp
@@ -61,7 +61,7 @@ class CachingRepertoire : public Repertoire {
   std::conditional_t<(FloorLog2(block_size * block_count) > 8),
                      std::uint16_t,
                      std::uint8_t>
-      decoding_cache_[std::numeric_limits<char16_t>::max()];
+      decoding_cache_[std::numeric_limits<char16_t>::max() + 1];
 
   template<std::int64_t s, std::int64_t c>
   friend constexpr CachingRepertoire<s, c - 1> MakeRepertoire(
-- 
2.43.0


From 377033fde2e4bc97b3ce2186442ec1eed904e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 05/17] fix: base 32768 decoding of malformed input writes
 outside of the output

---
 base/base32768_body.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/base32768_body.hpp b/base/base32768_body.hpp
index 1b43994..b4f74af 100644
--- a/base/base32768_body.hpp
+++ b/base/base32768_body.hpp
@@ -291,7 +291,9 @@ void Base32768Encoder<null_terminated>::Decode(Array<char16_t const> input,
   char16_t const* const input_end = input.data + input.size;
   std::uint8_t const* const output_end = output.data + output.size;
   std::int64_t output_bit_index = 0;
-  while (input.data < input_end) {
+  // On malformed input the last code point may have no bit that belongs to the
+  // output.
+  while (input.data < input_end && output.data < output_end) {
     bool const at_end = input_end - input.data == 1;
     std::int32_t data;
     std::int32_t shift = bytes_per_code_point * bits_per_byte -
-- 
2.43.0


From 34cf82deba48c456cc26ae57a4a5dbda055a797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 06/17] =?UTF-8?q?fix:=20derivative=20of=20a=20=D0=A7=D0=B5?=
 =?UTF-8?q?=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20series=20of=20degree=200=20rea?=
 =?UTF-8?q?ds=20outside=20of=20the=20coefficients?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ...13\321\210\321\221\320\262_basis_body.hpp" | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index ab1efe9..5b76fc0 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -190,16 +190,21 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::EvaluateDerivative(
   DCHECK_LE(scaled_argument, 1.1);
   DCHECK_GE(scaled_argument, -1.1);
 
-  Value bₖ₊₂{};
-  Value bₖ₊₁{};
-  for (int k = degree_ - 1; k >= 1; --k) {
-    Value const bₖ =
-        coefficients_[k + 1] * (k + 1) + two_scaled_argument * bₖ₊₁ - bₖ₊₂;
-    bₖ₊₂ = bₖ₊₁;
-    bₖ₊₁ = bₖ;
+  // There is no coefficient of degree 1 in this case.
+  if constexpr (degree_ == 0) {
+    return Derivative<Value, Argument>{};
+  } else {
+    Value bₖ₊₂{};
+    Value bₖ₊₁{};
+    for (int k = degree_ - 1; k >= 1; --k) {
+      Value const bₖ =
+          coefficients_[k + 1] * (k + 1) + two_scaled_argument * bₖ₊₁ - bₖ₊₂;
+      bₖ₊₂ = bₖ₊₁;
+      bₖ₊₁ = bₖ;
+    }
+    return (coefficients_[1] + two_scaled_argument * bₖ₊₁ - bₖ₊₂) *
+           (one_over_width_ + one_over_width_);
   }
-  return (coefficients_[1] + two_scaled_argument * bₖ₊₁ - bₖ₊₂) *
-         (one_over_width_ + one_over_width_);
 }
 
 template<additive_group Value_, affine Argument_, int degree_>
-- 
2.43.0


From ff599126624227783e9ecd75912f42df484f44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 07/17] =?UTF-8?q?fix:=20companion=20matrix=20of=20a=20?=
 =?UTF-8?q?=D0=A7=D0=B5=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20series=20of=20degr?=
 =?UTF-8?q?ee=201?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ...320\261\321\213\321\210\321\221\320\262_basis_body.hpp" | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index 5b76fc0..716533f 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -254,6 +254,13 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::FrobeniusCompanionM
   int const N = degree();
   FixedMatrix<double, degree_, degree_> A(uninitialized);
 
+  // If N = 1 the recurrence for the last row is x T₀ = T₁, without the factor 2
+  // of the other rows.
+  if (N == 1) {
+    A(0, 0) = -coefficients_[0] / coefficients_[N];
+    return A;
+  }
+
   // j = 1.
   for (int k = 1; k <= N; ++k) {
     auto& Aⱼₖ = A(0, k - 1);
-- 
2.43.0


From 4cc81d7aa8a615f419e018f63d93f8f4bdc268da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 08/17] fix: dangling reference in Hermite3::FindExtrema

---
 numerics/hermite3_body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerics/hermite3_body.hpp b/numerics/hermite3_body.hpp
index 2448cba..9fd7126 100644
--- a/numerics/hermite3_body.hpp
+++ b/numerics/hermite3_body.hpp
@@ -93,7 +93,8 @@ void Hermite3<Value_, Argument_>::EvaluateWithDerivative(
 
 template<affine Value_, affine Argument_>
 BoundedArray<Argument_, 2> Hermite3<Value_, Argument_>::FindExtrema() const {
-  auto const& [a₀, a₁, a₂] = p_.Derivative().coefficients();
+  auto const derivative = p_.Derivative();
+  auto const& [a₀, a₁, a₂] = derivative.coefficients();
   auto const roots =
       SolveQuadraticEquation<Argument, Derivative1>(p_.origin(), a₀, a₁, a₂);
   BoundedArray<Argument, 2> valid_roots;
-- 
2.43.0


From a9d74990dabdb42456f0b1a9f58219d13c2265eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 09/17] fix: ScaleB of negative numbers with large negative
 powers

---
 numerics/scale_b_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numerics/scale_b_body.hpp b/numerics/scale_b_body.hpp
index 634ea64..038349c 100644
--- a/numerics/scale_b_body.hpp
+++ b/numerics/scale_b_body.hpp
@@ -15,8 +15,9 @@ constexpr SourceFormat ScaleB(SourceFormat const x, LogBFormat const N) {
   SourceFormat result = x;
   if (N < 0) {
     for (LogBFormat k = 0; k > N; --k) {
-      if (result < std::numeric_limits<SourceFormat>::radix *
-                       std::numeric_limits<SourceFormat>::min()) {
+      SourceFormat const abs_result = result < 0 ? -result : result;
+      if (abs_result < std::numeric_limits<SourceFormat>::radix *
+                           std::numeric_limits<SourceFormat>::min()) {
         SourceFormat radix_power = 1;
         for (; k > N; --k) {
           radix_power *= std::numeric_limits<SourceFormat>::radix;
-- 
2.43.0


From dca552611467c603edc1e89750497722529cc03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 10/17] fix: comparison of arrays of multibyte elements

---
 base/array_body.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/array_body.hpp b/base/array_body.hpp
index 16f4ff9..d1b3a24 100644
--- a/base/array_body.hpp
+++ b/base/array_body.hpp
@@ -185,9 +185,11 @@ bool operator==(Array<LeftElement> left, Array<RightElement> right) {
   if (left.size != right.size) {
     return false;
   }
+  static_assert(sizeof(LeftElement) == sizeof(RightElement));
   return std::memcmp(left.data,
                      right.data,
-                     static_cast<std::size_t>(right.size)) == 0;
+                     static_cast<std::size_t>(right.size) *
+                         sizeof(RightElement)) == 0;
 }
 
 template<std::integral LeftElement, std::integral RightElement>
-- 
2.43.0


From 77ad3b1b6acbb25a0b74aadfeea507beb3fc7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 11/17] fix: Julian day of Gregorian dates in negative
 centuries

---
 astronomy/date_time_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 0bbb525..47a2b8b 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -227,8 +227,9 @@ constexpr double Date::jd() const {
   if (calendar_ == Calendar::Julian) {
      B = 0;
   } else {
-    double const A = static_cast<std::int64_t>(Y / 100);
-    B = 2 - A + static_cast<std::int64_t>(A / 4);
+    // The quotients must be rounded towards -∞ for negative years.
+    double const A = (Y - mod(Y, 100)) / 100;
+    B = 2 - A + (A - mod(A, 4)) / 4;
   }
   return static_cast<std::int64_t>(365.25 * (Y + 4716)) +
          static_cast<std::int64_t>(30.6001 * (M + 1)) + D + B - 1524.5;
-- 
2.43.0


From 4b7077e142df358740fac7289c5618f5867ede5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 12/17] fix: ordinal dates with a negative year

---
 astronomy/date_time_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 47a2b8b..14fcded 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -112,10 +112,11 @@ constexpr Date Date::YYYYMMDD(
 constexpr Date Date::YYYYDDD(
     std::int64_t const digits,
     std::optional<_date_time::Calendar> const calendar) {
+  auto const abs_digits = digits < 0 ? -digits : digits;
   auto const sign = digits < 0 ? -1 : 1;
-  CONSTEXPR_CHECK(digits <= 9999'999);
-  return Date::Ordinal(sign * digit_range(digits, 3, 7),
-                       digit_range(digits, 0, 3),
+  CONSTEXPR_CHECK(abs_digits <= 9999'999);
+  return Date::Ordinal(sign * digit_range(abs_digits, 3, 7),
+                       digit_range(abs_digits, 0, 3),
                        calendar);
 }
 
-- 
2.43.0


From 262b3cc676e918fd922a6e81f5e208bf26802625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 13/17] fix: only the last second of the day is shortened by a
 negative leap of stretchy UTC

---
 astronomy/time_scales_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index f07ac4c..727f332 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -218,6 +218,7 @@ constexpr bool IsValidStretchyUTCIfOnDayOfNegativeLeap(DateTime const& utc,
   return utc.date().next_day() != next_day ||
          utc.time().hour() < 23 ||
          utc.time().minute() < 59 ||
+         utc.time().second() < 59 ||
          utc.time().millisecond() < 1000 - milliseconds;
 }
 
-- 
2.43.0


From 289cb6280a0891ba41d79c52b86a6cbf0565dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:46 +0000
Subject: [PATCH 14/17] fix: construction of a strictly upper triangular matrix
 from a transposed view touches the diagonal

---
 numerics/fixed_arrays_body.hpp     | 2 +-
 numerics/unbounded_arrays_body.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerics/fixed_arrays_body.hpp b/numerics/fixed_arrays_body.hpp
index 4646c39..7511733 100644
--- a/numerics/fixed_arrays_body.hpp
+++ b/numerics/fixed_arrays_body.hpp
@@ -820,7 +820,7 @@ FixedStrictlyUpperTriangularMatrix(
         FixedStrictlyLowerTriangularMatrix<Scalar, columns_, uh>> const& view)
     : FixedStrictlyUpperTriangularMatrix(uninitialized) {
   for (std::int64_t i = 0; i < rows(); ++i) {
-    for (std::int64_t j = i; j < columns(); ++j) {
+    for (std::int64_t j = i + 1; j < columns(); ++j) {
       (*this)(i, j) = view(i, j);
     }
   }
diff --git a/numerics/unbounded_arrays_body.hpp b/numerics/unbounded_arrays_body.hpp
index e5c0ed2..410e43d 100644
--- a/numerics/unbounded_arrays_body.hpp
+++ b/numerics/unbounded_arrays_body.hpp
@@ -479,7 +479,7 @@ UnboundedStrictlyUpperTriangularMatrix(
     : UnboundedStrictlyUpperTriangularMatrix<Scalar>(view.columns(),
                                                      uninitialized) {
   for (std::int64_t i = 0; i < rows(); ++i) {
-    for (std::int64_t j = i; j < columns(); ++j) {
+    for (std::int64_t j = i + 1; j < columns(); ++j) {
       (*this)(i, j) = view(i, j);
     }
   }
-- 
2.43.0


From d46935f0d04650dad4be9e14a12360839a4c1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:43 +0000
Subject: [PATCH 15/17] fix: the Householder reflection of a negative multiple
 of the first basis vector is not orthogonal

---
 numerics/matrix_computations_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 26ffc7a..45997ce 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -59,7 +59,7 @@ HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
   v₁ = 1;
   if (σ == 0) {
     if (x₁ < 0) {
-      result.β = -2;
+      result.β = 2;
     }
   } else {
     static constexpr double μ = 1;
-- 
2.43.0


From 0bc64739f39e0b969c501796f2ca0aab644d8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:43 +0000
Subject: [PATCH 16/17] fix: choose the pivots of LU decompositions after
 eliminating the previous unknowns

---
 geometry/r3x3_matrix_body.hpp         | 17 +++++++++++------
 numerics/matrix_computations_body.hpp | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/geometry/r3x3_matrix_body.hpp b/geometry/r3x3_matrix_body.hpp
index 227101b..cdd9325 100644
--- a/geometry/r3x3_matrix_body.hpp
+++ b/geometry/r3x3_matrix_body.hpp
@@ -181,6 +181,14 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (int k = 0; k < 3; ++k) {
+    // Eliminate the previous unknowns from column k, so that the pivot is the
+    // actual diagonal element of U.
+    for (int i = k; i < 3; ++i) {
+      for (int j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     int r = -1;
     Scalar max{};
@@ -197,7 +205,8 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
     std::swap(b[k], b[r]);
     CHECK_NE(Scalar{}, A(k, k)) << *this << " is singular";
 
-    for (int j = k; j < 3; ++j) {
+    U(k, k) = A(k, k);
+    for (int j = k + 1; j < 3; ++j) {
       Scalar U_kj = A(k, j);
       for (int i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -205,11 +214,7 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
       U(k, j) = U_kj;
     }
     for (int i = k + 1; i < 3; ++i) {
-      Scalar L_ik = A(i, k);
-      for (int j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 45997ce..5af103a 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -1069,6 +1069,14 @@ Solve(Matrix A, Vector b) {
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (std::int64_t k = 0; k < A.columns(); ++k) {
+    // Eliminate the previous unknowns from column k, so that the pivot is the
+    // actual diagonal element of U.
+    for (std::int64_t i = k; i < A.rows(); ++i) {
+      for (std::int64_t j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     std::int64_t r = -1;
     Scalar max{};
@@ -1095,7 +1103,8 @@ Solve(Matrix A, Vector b) {
     LOG_IF(WARNING, A(k, k) == Scalar{})
         << A << " does not have a unique LU decomposition";
 
-    for (std::int64_t j = k; j < A.columns(); ++j) {
+    U(k, k) = A(k, k);
+    for (std::int64_t j = k + 1; j < A.columns(); ++j) {
       auto U_kj = A(k, j);
       for (std::int64_t i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -1103,11 +1112,7 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      auto L_ik = A(i, k);
-      for (std::int64_t j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From cf6139286f634b1416d3e4a3556c057412c5ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:25 +0000
Subject: [PATCH 17/17] fix: Trunc of a DoublePrecision whose value is not an
 integer, when its error is negative

---
 numerics/double_precision_body.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/numerics/double_precision_body.hpp b/numerics/double_precision_body.hpp
index 8337ca6..c0696d4 100644
--- a/numerics/double_precision_body.hpp
+++ b/numerics/double_precision_body.hpp
@@ -280,13 +280,17 @@ DoublePrecision<Product<T, U>> Scale(T const & scale,
 
 template<std::floating_point T>
 DoublePrecision<T> Trunc(DoublePrecision<T> const& a) {
-  // The fractional point cannot be in both `value` and `error`.  It is
-  // important to round both elements consistently based on the sign of `value`,
-  // so we cannot use `trunc`.
-  DoublePrecision<T> result(uninitialized);
-  result.value = a.value > 0.0 ? std::floor(a.value) : std::ceil(a.value);
-  result.error = a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error);
-  return result;
+  // The fractional point cannot be in both `value` and `error`.  If it is in
+  // `value`, `error` is too small to matter.
+  T const truncated_value = std::trunc(a.value);
+  if (truncated_value != a.value) {
+    return DoublePrecision<T>(truncated_value);
+  }
+  // It is important to round `error` consistently with the sign of `value`, so
+  // we cannot use `trunc`.  The result may have to be normalized, e.g., if
+  // `value` is 1 and `error` is negative.
+  return QuickTwoSum(
+      a.value, a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error));
 }
 
 template<std::floating_point T>
-- 
2.43.0

