From 831a635b41b1362f4f80ea8182ef130976bcb6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 01/54] fix: swapcol iterates over the rows of the matrix

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 053607f6540d99ea3c20f9395725daa48881c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 02/54] fix: submat bound check does not wrap around for huge
 offsets

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index b0f42b1..e502eaa 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -215,7 +215,7 @@ namespace nil {
              */
             template<std::size_t P, std::size_t Q, std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, P, Q> submat(const matrix<T, M, N> &m, std::size_t a, std::size_t b) {
-                if ((a + P > M) || (b + Q > N))
+                if ((P > M) || (a > M - P) || (Q > N) || (b > N - Q))
                     throw "index out of range";
                 return generate<P, Q>([&m, &a, &b](std::size_t i, std::size_t j) { return m[a + i][b + j]; });
             }
-- 
2.43.0


From 5cd553b84aa5febd480069603f584fade4951cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 03/54] fix: elementwise rejects operands of different
 dimensions

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 5 +++--
 include/nil/crypto3/algebra/vector/utility.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index e502eaa..282cc61 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -50,8 +50,9 @@ namespace nil {
              */
             template<typename F, typename T, typename... Matrices,
                      typename U = std::invoke_result_t<F, T, typename Matrices::value_type...>,
-                     std::size_t N = detail::all_same_value<std::size_t, Matrices::column_size...>::value,
-                     std::size_t M = detail::all_same_value<std::size_t, Matrices::row_size...>::value>
+                     std::size_t N, std::size_t M,
+                     std::size_t = detail::all_same_value<std::size_t, N, Matrices::column_size...>::value,
+                     std::size_t = detail::all_same_value<std::size_t, M, Matrices::row_size...>::value>
             constexpr matrix<U, N, M> elementwise(F f, const matrix<T, N, M> &m, const Matrices &...matrices) {
                 matrix<U, N, M> op_applied = {};
                 for (std::size_t i = 0; i < N; ++i) {
diff --git a/include/nil/crypto3/algebra/vector/utility.hpp b/include/nil/crypto3/algebra/vector/utility.hpp
index 6c1e5e9..188cc02 100644
--- a/include/nil/crypto3/algebra/vector/utility.hpp
+++ b/include/nil/crypto3/algebra/vector/utility.hpp
@@ -49,7 +49,7 @@ namespace nil {
              */
             template<typename F, typename T, typename... Vectors,
                      typename U = std::invoke_result_t<F, T, typename Vectors::value_type...>,
-                     std::size_t N = detail::all_same_value<std::size_t, Vectors::size...>::value>
+                     std::size_t N, std::size_t = detail::all_same_value<std::size_t, N, Vectors::size...>::value>
             constexpr vector<U, N> elementwise(F f, const vector<T, N> &v, const Vectors &...vectors) {
                 vector<U, N> op_applied = {};
                 for (std::size_t i = 0; i < N; ++i)
-- 
2.43.0


From 367cca33e50bd73b99a6ed71cf197ce10563ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 04/54] fix: det multiplies by the pivots instead of dividing
 by them

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From 90dc36c62e2c3217904b02b87f4e9e74fe611eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 05/54] fix: rref with explicit tolerance passes it to the
 elimination

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..5c97b54 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -275,7 +275,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From 6c2f5678caa1325c636adc80a55de50f479e1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 06/54] fix: exact zeros are negligible even for a zero
 tolerance (zero matrix)

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 5c97b54..ec81690 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From aace3a2cff5a3abe4b43221860f4fea873c810fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:11 +0000
Subject: [PATCH 07/54] fix: elimination keeps searching while the selected
 pivot is negligible

---
 include/nil/crypto3/algebra/matrix/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index ec81690..055c272 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -204,7 +204,8 @@ namespace nil {
                                 m[i][jp] = tmp;
                             }
                             det = -det;
-                            break;
+                            if (!negligible(m[i][j]))
+                                break;
                         }
                     }
 
-- 
2.43.0


From b9eeeb1ad65376453bd943462564d034a65e028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 08/54] fix: sqrt and nthroot of zero return zero instead of
 iterating forever

---
 include/nil/crypto3/algebra/scalar/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..3bd18c1 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -47,6 +47,8 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                if (x == 0)
+                    return x;
                 double prev = 0;
                 double est = (1 + x) / 2;
                 while (prev != est) {
@@ -118,6 +120,8 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
+                if (x == 0)
+                    return x;
                 double prev = -1;
                 double est = 1;
                 while (prev != est) {
-- 
2.43.0


From 55860e00340044c3589a30e056c894cfd53346ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 09/54] fix: mixed_add of equal points doubles instead of
 returning a degenerate point

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp   | 5 +++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp      | 5 +++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                  | 5 +++++
 .../twisted_edwards/extended_with_a_minus_1/element_g1.hpp   | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..ed7d1ab 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..47d30ea 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..68197c0 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..10b1080 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,6 +302,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From 0c93c9cb574e746c3ca66e7e86de53d200ad78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 10/54] fix: jacobian_with_a4_minus_3 to_affine divides Y by
 the cube of Z

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 68197c0..e238536 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From 15178e872657225cc87d8aeebc1b12cf088e6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 11/54] fix: projective_with_a4_minus_3 is_well_formed checks
 the curve with a = -3

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..9f8945a 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - (Z2.doubled() + Z2)));
                             }
                         }
 
-- 
2.43.0


From 14de9c6e2e6440010f891601f62af7d23efd668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 12/54] fix: the negated short Weierstrass affine point at
 infinity is the point at infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..4051373 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,9 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
                             return curve_element(this->X, -this->Y);
                         }
 
-- 
2.43.0


From 23831f136d976d2976030a04165ba524d4a50e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 13/54] fix: the negated Montgomery point at infinity is the
 point at infinity

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..02d7115 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,9 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From e8799b198ad53c1aff88d5e1db80b4fa4b37cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 14/54] fix: doubling a short Weierstrass affine point of order
 two gives the point at infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 4051373..168911b 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -241,6 +241,13 @@ namespace nil {
                         constexpr void double_inplace() {
 
                             if (!this->is_zero()) {
+                                if (Y.is_zero()) {
+                                    // point of order two
+                                    X = params_type::zero_fill[0];
+                                    Y = params_type::zero_fill[1];
+                                    return;
+                                }
+
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From 194d1aca9c3740765f41f6f7ed19574f7b70d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 15/54] fix: twisted Edwards affine point at infinity converts
 to the point at infinity

---
 .../detail/forms/twisted_edwards/element_g1_affine.hpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 2bbbbde..32ff340 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -194,6 +194,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::inverted>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(
                                 X.inversed(), Y.inversed(),
                                 result_type::field_type::value_type::one());    // X = x^(-1), Y = y^(-1), Z = 1
@@ -211,6 +215,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::extended_with_a_minus_1>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(X, Y, X * Y,
                                                result_type::field_type::value_type::one());    // x=X/Z, y=Y/Z, x*y=T/Z
                         }
-- 
2.43.0


From 1dad76e82ffd77dd4e23c0dc5766630e1f6f3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 16/54] fix: square root of zero in quadratic and cubic
 extension fields terminates

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 ++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..0e22610 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -196,6 +196,8 @@ namespace nil {
                         }
 
                         constexpr element_fp2 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
 
                             element_fp2 one = this->one();
 
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..a3e84ea 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,9 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From b75a022dbf1a60518de7c5e1840a30d681a06a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 17/54] fix: goldilocks64 defines group_order_minus_one_half,
 is_square compiles

---
 include/nil/crypto3/algebra/fields/goldilocks64/base_field.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/goldilocks64/base_field.hpp b/include/nil/crypto3/algebra/fields/goldilocks64/base_field.hpp
index c1997cb..6dee2b6 100644
--- a/include/nil/crypto3/algebra/fields/goldilocks64/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/goldilocks64/base_field.hpp
@@ -56,6 +56,9 @@ namespace nil {
                     constexpr static const integral_type modulus =
                         0xFFFFFFFF00000001_cppui_modular64;
 
+                    constexpr static const integral_type group_order_minus_one_half =
+                        0x7FFFFFFF80000000_cppui_modular63;
+
                     typedef typename policy_type::modular_backend modular_backend;
                     constexpr static const modular_params_type modulus_params = modulus.backend();
                     typedef boost::multiprecision::number<
-- 
2.43.0


From 69b04fb6c4acdf28e8541e71cf317c8b1ccb9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:54 +0000
Subject: [PATCH 18/54] fix: std::hash of quadratic extension elements hashes
 the underlying field elements

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0e22610..0534d03 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -348,7 +348,7 @@ namespace nil {
 template<typename FieldParams>
 struct std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>>
 {
-    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::modular_type> hasher;
+    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::underlying_type> hasher;
     size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>& elem) const
     {
         std::size_t result = hasher(elem.data[0]);
-- 
2.43.0


From 59760d3617ade40c289e963e6b5010e2ee18e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 19/54] fix: brainpool_r1 field headers redeclared their alias
 templates with different default arguments and did not compile

---
 .../fields/brainpool_r1/base_field.hpp        | 24 -------------------
 .../fields/brainpool_r1/scalar_field.hpp      | 12 ----------
 2 files changed, 36 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
index 2a83a08..bc50fe8 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
@@ -260,33 +260,9 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
 
                 template<std::size_t Version = 160>
                 using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
index cd93801..35760a6 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
@@ -246,18 +246,6 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From ce9349036a85109e2fb92f44db5e9e9ba8ef6492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 20/54] fix: x962_p field headers redeclared or misspelt their
 alias templates and did not compile

---
 .../nil/crypto3/algebra/fields/x962_p/base_field.hpp   |  8 --------
 .../nil/crypto3/algebra/fields/x962_p/scalar_field.hpp | 10 +++-------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
index 88e623e..bab7ec2 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
@@ -206,10 +206,6 @@ namespace nil {
                 using x962_p_v3_fq = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1_fq = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fq = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fq = x962_p_v3_base_field<Version>;
 
                 template<std::size_t Version = 192>
                 using x962_p_v2 = x962_p_v2_base_field<Version>;
@@ -217,10 +213,6 @@ namespace nil {
                 using x962_p_v3 = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1 = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2 = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3 = x962_p_v3_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
index 34aa9df..88641c7 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
@@ -206,15 +206,11 @@ namespace nil {
                     x962_p_v3_scalar_field<239>::modulus_params;
 
                 template<std::size_t Version = 192>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
+                using x962_p_v2_fr = x962_p_v2_scalar_field<Version>;
                 template<std::size_t Version = 192>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v3_fr = x962_p_v3_scalar_field<Version>;
                 template<std::size_t Version = 239>
-                using x962_p_v1_fr = x962_p_v1_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v1_fr = x962_p_v1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From bef4fd487adaed4e991a1e9387d38aedd613ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 21/54] fix: frp_v1 base field aliases named a template that
 does not exist

---
 include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
index b4360e9..019cd1b 100644
--- a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
@@ -79,10 +79,10 @@ namespace nil {
                     typename frp_v1_base_fields<256>::modular_params_type const frp_v1_base_fields<256>::modulus_params;
 
                 template<std::size_t Version = 256>
-                using frp_v1_fq = frp_v1_base_field<Version>;
+                using frp_v1_fq = frp_v1_base_fields<Version>;
 
                 template<std::size_t Version = 256>
-                using frp_v1 = frp_v1_base_field<Version>;
+                using frp_v1 = frp_v1_base_fields<Version>;
             }    // namespace fields
         }        // namespace algebra
     }            // namespace crypto3
-- 
2.43.0


From 46977ad192637f02fd4104479f38e7731cfcf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 22/54] fix: modp_ietf.hpp defined members its primary template
 does not have and did not compile

---
 include/nil/crypto3/algebra/fields/modp_ietf.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/modp_ietf.hpp b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
index b8465bf..364530c 100644
--- a/include/nil/crypto3/algebra/fields/modp_ietf.hpp
+++ b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
@@ -230,12 +230,6 @@ namespace nil {
                     constexpr static const std::size_t arity = 1;
                 };
 
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::modulus;
-
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::mul_generator;
-
                 constexpr typename modp_ietf<1024>::integral_type const modp_ietf<1024>::modulus;
                 constexpr typename modp_ietf<1536>::integral_type const modp_ietf<1536>::modulus;
                 constexpr typename modp_ietf<2048>::integral_type const modp_ietf<2048>::modulus;
-- 
2.43.0


From f40cf7cbe08f3f3d411e6104392598b22360d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 23/54] fix: bn128 arithmetic params defined the members of a
 partial specialisation without a template header and did not compile

---
 .../fields/arithmetic_params/bn128.hpp        | 183 +++++++++++-------
 1 file changed, 108 insertions(+), 75 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
index 17a1939..36d3fa4 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
@@ -131,81 +131,114 @@ namespace nil {
                         0x183227397098D014DC2822DB40C0AC2E9419F4243CDCB848A1F0FAC9F8000000_cppui_modular254;
                 };
 
-                constexpr std::size_t const arithmetic_params<bn128_base_field<254>>::s;
-                constexpr std::size_t const arithmetic_params<fp2<bn128_base_field<254>>>::s;
-                constexpr std::size_t const arithmetic_params<bn128_scalar_field<254>>::s;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::t;
-                constexpr typename arithmetic_params<fp2<bn128_base_field<254>>>::extended_integral_type const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::t;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::t;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::t_minus_1_over_2;
-                constexpr typename arithmetic_params<fp2<bn128_base_field<254>>>::extended_integral_type const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::t_minus_1_over_2;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::t_minus_1_over_2;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::arithmetic_generator;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::arithmetic_generator;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::geometric_generator;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::geometric_generator;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::multiplicative_generator;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::multiplicative_generator;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::root_of_unity;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::root_of_unity;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::nqr;
-                constexpr std::array<typename arithmetic_params<fp2<bn128_base_field<254>>>::integral_type, 2> const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::nqr;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::nqr;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::nqr_to_t;
-                constexpr std::array<typename arithmetic_params<fp2<bn128_base_field<254>>>::integral_type, 2> const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::nqr_to_t;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::nqr_to_t;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::Rsquared;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::Rsquared;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::Rcubed;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::Rcubed;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::modulus;
-                constexpr typename arithmetic_params<fp2<bn128_base_field<254>>>::integral_type const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::modulus;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::modulus;
-
-                constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::group_order;
-                constexpr typename arithmetic_params<fp2<bn128_base_field<254>>>::extended_integral_type const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::group_order;
-                constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::group_order;
+                template<std::size_t Version>
+                constexpr std::size_t const arithmetic_params<bn128_base_field<Version>>::s;
+                template<std::size_t Version>
+                constexpr std::size_t const arithmetic_params<fp2<bn128_base_field<Version>>>::s;
+                template<std::size_t Version>
+                constexpr std::size_t const arithmetic_params<bn128_scalar_field<Version>>::s;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::t;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp2<bn128_base_field<Version>>>::extended_integral_type const
+                    arithmetic_params<fp2<bn128_base_field<Version>>>::t;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::t;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::t_minus_1_over_2;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp2<bn128_base_field<Version>>>::extended_integral_type const
+                    arithmetic_params<fp2<bn128_base_field<Version>>>::t_minus_1_over_2;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::t_minus_1_over_2;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::arithmetic_generator;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::arithmetic_generator;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::geometric_generator;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::geometric_generator;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::multiplicative_generator;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::multiplicative_generator;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::root_of_unity;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::root_of_unity;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::nqr;
+                template<std::size_t Version>
+                constexpr std::array<typename arithmetic_params<fp2<bn128_base_field<Version>>>::integral_type, 2> const
+                    arithmetic_params<fp2<bn128_base_field<Version>>>::nqr;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::nqr;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::nqr_to_t;
+                template<std::size_t Version>
+                constexpr std::array<typename arithmetic_params<fp2<bn128_base_field<Version>>>::integral_type, 2> const
+                    arithmetic_params<fp2<bn128_base_field<Version>>>::nqr_to_t;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::nqr_to_t;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::Rsquared;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::Rsquared;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::Rcubed;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::Rcubed;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::modulus;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp2<bn128_base_field<Version>>>::integral_type const
+                    arithmetic_params<fp2<bn128_base_field<Version>>>::modulus;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::modulus;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_base_field<Version>>::integral_type const
+                    arithmetic_params<bn128_base_field<Version>>::group_order;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp2<bn128_base_field<Version>>>::extended_integral_type const
+                    arithmetic_params<fp2<bn128_base_field<Version>>>::group_order;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<bn128_scalar_field<Version>>::integral_type const
+                    arithmetic_params<bn128_scalar_field<Version>>::group_order;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From 9e16cd3834b596eba130017fd7374a140dad0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 24/54] fix: edwards arithmetic params defined the members of a
 partial specialisation without a template header and did not compile

---
 .../fields/arithmetic_params/edwards.hpp      | 183 +++++++++++-------
 1 file changed, 108 insertions(+), 75 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
index 9144052..f14598b 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
@@ -129,81 +129,114 @@ namespace nil {
                         0x81ABF93A5472B62717249DC9709660EF2A993C0000000_cppui_modular181;
                 };
 
-                constexpr std::size_t const arithmetic_params<edwards_base_field<183>>::s;
-                constexpr std::size_t const arithmetic_params<fp3<edwards_base_field<183>>>::s;
-                constexpr std::size_t const arithmetic_params<edwards_scalar_field<183>>::s;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::t;
-                constexpr typename arithmetic_params<fp3<edwards_base_field<183>>>::extended_integral_type const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::t;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::t;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::t_minus_1_over_2;
-                constexpr typename arithmetic_params<fp3<edwards_base_field<183>>>::extended_integral_type const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::t_minus_1_over_2;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::t_minus_1_over_2;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::arithmetic_generator;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::arithmetic_generator;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::geometric_generator;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::geometric_generator;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::multiplicative_generator;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::multiplicative_generator;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::root_of_unity;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::root_of_unity;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::nqr;
-                constexpr std::array<typename arithmetic_params<fp3<edwards_base_field<183>>>::integral_type, 3> const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::nqr;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::nqr;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::nqr_to_t;
-                constexpr std::array<typename arithmetic_params<fp3<edwards_base_field<183>>>::integral_type, 3> const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::nqr_to_t;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::nqr_to_t;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::Rsquared;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::Rsquared;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::Rcubed;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::Rcubed;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::modulus;
-                constexpr typename arithmetic_params<fp3<edwards_base_field<183>>>::integral_type const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::modulus;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::modulus;
-
-                constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::group_order;
-                constexpr typename arithmetic_params<fp3<edwards_base_field<183>>>::extended_integral_type const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::group_order;
-                constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::group_order;
+                template<std::size_t Version>
+                constexpr std::size_t const arithmetic_params<edwards_base_field<Version>>::s;
+                template<std::size_t Version>
+                constexpr std::size_t const arithmetic_params<fp3<edwards_base_field<Version>>>::s;
+                template<std::size_t Version>
+                constexpr std::size_t const arithmetic_params<edwards_scalar_field<Version>>::s;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::t;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp3<edwards_base_field<Version>>>::extended_integral_type const
+                    arithmetic_params<fp3<edwards_base_field<Version>>>::t;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::t;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::t_minus_1_over_2;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp3<edwards_base_field<Version>>>::extended_integral_type const
+                    arithmetic_params<fp3<edwards_base_field<Version>>>::t_minus_1_over_2;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::t_minus_1_over_2;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::arithmetic_generator;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::arithmetic_generator;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::geometric_generator;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::geometric_generator;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::multiplicative_generator;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::multiplicative_generator;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::root_of_unity;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::root_of_unity;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::nqr;
+                template<std::size_t Version>
+                constexpr std::array<typename arithmetic_params<fp3<edwards_base_field<Version>>>::integral_type, 3> const
+                    arithmetic_params<fp3<edwards_base_field<Version>>>::nqr;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::nqr;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::nqr_to_t;
+                template<std::size_t Version>
+                constexpr std::array<typename arithmetic_params<fp3<edwards_base_field<Version>>>::integral_type, 3> const
+                    arithmetic_params<fp3<edwards_base_field<Version>>>::nqr_to_t;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::nqr_to_t;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::Rsquared;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::Rsquared;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::Rcubed;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::Rcubed;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::modulus;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp3<edwards_base_field<Version>>>::integral_type const
+                    arithmetic_params<fp3<edwards_base_field<Version>>>::modulus;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::modulus;
+
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_base_field<Version>>::integral_type const
+                    arithmetic_params<edwards_base_field<Version>>::group_order;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<fp3<edwards_base_field<Version>>>::extended_integral_type const
+                    arithmetic_params<fp3<edwards_base_field<Version>>>::group_order;
+                template<std::size_t Version>
+                constexpr typename arithmetic_params<edwards_scalar_field<Version>>::integral_type const
+                    arithmetic_params<edwards_scalar_field<Version>>::group_order;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From 418a7650d02e4cc895f9fd8190d18445b076ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:49 +0000
Subject: [PATCH 25/54] fix: dsa arithmetic params named headers and fields
 that do not exist and did not compile

---
 .../fields/arithmetic_params/dsa_botan.hpp    | 27 +++++++++----------
 .../fields/arithmetic_params/dsa_jce.hpp      | 15 +++++------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_botan.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_botan.hpp
index 22e2916..671b08a 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_botan.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_botan.hpp
@@ -28,8 +28,7 @@
 
 #include <nil/crypto3/algebra/fields/params.hpp>
 
-#include <nil/crypto3/algebra/fields/dsa_jce/base_field.hpp>
-#include <nil/crypto3/algebra/fields/dsa_jce/scalar_field.hpp>
+#include <nil/crypto3/algebra/fields/dsa_botan.hpp>
 
 
 
@@ -39,9 +38,9 @@ namespace nil {
             namespace fields {
 
                 template<>
-                struct arithmetic_params<dsa_botan_base_field<2048>> : public params<dsa_botan_base_field<2048>> {
+                struct arithmetic_params<dsa_botan<2048>> : public params<dsa_botan<2048>> {
                 private:
-                    typedef params<dsa_botan_base_field<2048>> policy_type;
+                    typedef params<dsa_botan<2048>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -57,9 +56,9 @@ namespace nil {
                 };
 
                 template<>
-                struct arithmetic_params<dsa_botan_base_field<3072>> : public params<dsa_botan_base_field<3072>> {
+                struct arithmetic_params<dsa_botan<3072>> : public params<dsa_botan<3072>> {
                 private:
-                    typedef params<dsa_botan_base_field<3072>> policy_type;
+                    typedef params<dsa_botan<3072>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -74,17 +73,17 @@ namespace nil {
                         0xB3EBD364EC69EF8CF3BAF643B75734B16339B2E49E5CDE1B59C1E9FB40EE0C5B_cppui_modular256;
                 };
 
-                constexpr typename arithmetic_params<dsa_botan_base_field<2048>>::integral_type const
-                    arithmetic_params<dsa_botan_base_field<2048>>::group_order;
+                constexpr typename arithmetic_params<dsa_botan<2048>>::integral_type const
+                    arithmetic_params<dsa_botan<2048>>::group_order;
 
-                constexpr typename arithmetic_params<dsa_botan_base_field<3072>>::integral_type const
-                    arithmetic_params<dsa_botan_base_field<3072>>::group_order;
+                constexpr typename arithmetic_params<dsa_botan<3072>>::integral_type const
+                    arithmetic_params<dsa_botan<3072>>::group_order;
 
                 // TODO: mul_generator should be renamed
-                constexpr typename arithmetic_params<dsa_botan_base_field<2048>>::integral_type const
-                    arithmetic_params<dsa_botan_base_field<2048>>::mul_generator;
-                constexpr typename arithmetic_params<dsa_botan_base_field<3072>>::integral_type const
-                    arithmetic_params<dsa_botan_base_field<3072>>::mul_generator;
+                constexpr typename arithmetic_params<dsa_botan<2048>>::integral_type const
+                    arithmetic_params<dsa_botan<2048>>::mul_generator;
+                constexpr typename arithmetic_params<dsa_botan<3072>>::integral_type const
+                    arithmetic_params<dsa_botan<3072>>::mul_generator;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_jce.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_jce.hpp
index 8e35406..24e3a02 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_jce.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/dsa_jce.hpp
@@ -28,8 +28,7 @@
 
 #include <nil/crypto3/algebra/fields/params.hpp>
 
-#include <nil/crypto3/algebra/fields/dsa_jce/base_field.hpp>
-#include <nil/crypto3/algebra/fields/dsa_jce/scalar_field.hpp>
+#include <nil/crypto3/algebra/fields/dsa_jce.hpp>
 
 
 
@@ -39,9 +38,9 @@ namespace nil {
             namespace fields {
 
                 template<std::size_t Version>
-                struct arithmetic_params<dsa_jce_base_field<Version>> : public params<dsa_jce_base_field<Version>> {
+                struct arithmetic_params<dsa_jce<Version>> : public params<dsa_jce<Version>> {
                 private:
-                    typedef params<dsa_jce_base_field<Version>> policy_type;
+                    typedef params<dsa_jce<Version>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -57,12 +56,12 @@ namespace nil {
                 };
 
                 template<std::size_t Version>
-                constexpr typename arithmetic_params<dsa_jce_base_field<Version>>::integral_type const
-                    arithmetic_params<dsa_jce_base_field<Version>>::group_order;
+                constexpr typename arithmetic_params<dsa_jce<Version>>::integral_type const
+                    arithmetic_params<dsa_jce<Version>>::group_order;
 
                 template<std::size_t Version>
-                constexpr typename arithmetic_params<dsa_jce_base_field<Version>>::integral_type const
-                    arithmetic_params<dsa_jce_base_field<Version>>::mul_generator;
+                constexpr typename arithmetic_params<dsa_jce<Version>>::integral_type const
+                    arithmetic_params<dsa_jce<Version>>::mul_generator;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From cd5981dae62ef37e15a4976c56fb7fd989f22844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 26/54] fix: the edwards fp3 parameters named half the group
 order group_order, is_square used that of the base field

---
 .../algebra/fields/detail/extension_params/edwards/fp3.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
index b36d267..dfeff10 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
@@ -72,7 +72,7 @@ namespace nil {
                         constexpr static const std::array<integral_type, 3> nqr_to_t = {
                             0x118228ECB464A2F6EB8DACC18FA757E45B3989330150C_cppui_modular177, 0x00, 0x00};
 
-                        constexpr static const extended_integral_type group_order =
+                        constexpr static const extended_integral_type group_order_minus_one_half =
                             0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
 
                         /*constexpr static const std::array<non_residue_type, 3> Frobenius_coeffs_c1 =
@@ -121,7 +121,7 @@ namespace nil {
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::extended_integral_type const
-                        fp3_extension_params<edwards_base_field<Version>>::group_order;
+                        fp3_extension_params<edwards_base_field<Version>>::group_order_minus_one_half;
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::integral_type const
-- 
2.43.0


From 466ed0c345e3e632bbf68d2f54d4ec279ef645d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 27/54] fix: last Frobenius coefficient of the mnt6 sextic
 extension was one too small

---
 .../fields/detail/extension_params/mnt6/fp6_2over3.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..148aef5 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -66,7 +66,7 @@ namespace nil {
                             non_residue_type(0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298),
                             non_residue_type(0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298),
                             non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292),
-                            non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293)};*/
+                            non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular292)};*/
 
                         constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = {
                             0x01,
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular292};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From cd23ee4ed6a1c4b3013dcdc6b6fdade430c054e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:46 +0000
Subject: [PATCH 28/54] fix: the Frobenius coefficients of the bn128 extensions
 were all zero

---
 .../bn128/fp12_2over3over2.hpp                | 37 ++++++++++++-------
 .../detail/extension_params/bn128/fp2.hpp     |  5 +--
 .../extension_params/bn128/fp6_3over2.hpp     | 37 ++++++++++++-------
 3 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
index 8f82ecc..af60bfa 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
@@ -66,21 +66,32 @@ namespace nil {
                         typedef fields::fp6_3over2<base_field_type> underlying_field_type;
                         typedef typename underlying_field_type::value_type underlying_type;
 
-                        /*constexpr static const std::array<non_residue_type, 12> Frobenius_coeffs_c1 =
-                           {non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 12 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x1284B71C2865A7DFE8B99FDD76E68B605C521E08292F2176D60B35DADCC9E470_cppui_modular253,
+                            0x246996F3B4FAE7E6A6327CFE12150B8E747992778EEEC7E5CA5CF05F80F362AC_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD49_cppui_modular254,
+                            0x00,
+                            0x19DC81CFCC82E4BBEFE9608CD0ACAA90894CB38DBE55D24AE86F7D391ED4A67F_cppui_modular253,
+                            0xABF8B60BE77D7306CBEEE33576139D7F03A5E397D439EC7694AA2BF4C0C101_cppui_modular248,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x757CAB3A41D3CDC072FC0AF59C61F302CFA95859526B0D41264475E420AC20F_cppui_modular251,
+                            0xCA6B035381E35B618E9B79BA4E2606CA20B7DFD71573C93E85845E34C4A5B9C_cppui_modular252,
+                            0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254,
+                            0x00,
+                            0x1DDF9756B8CBF849CF96A5D90A9ACCFD3B2F4C893F42A9166615563BFBB318D7_cppui_modular253,
+                            0xBFAB77F2C36B843121DC8B86F6C4CCF2307D819D98302A771C39BB757899A9B_cppui_modular252,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x1687CCA314AEBB6DC866E529B0D4ADCD0E34B703AA1BF84253B10EDDB9A856C8_cppui_modular253,
+                            0x2FB855BCD54A22B6B18456D34C0B44C0187DC4ADD09D90A0C58BE1EAE3BC3C46_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFF_cppui_modular191,
+                            0x00,
+                            0x290C83BF3D14634DB120850727BB392D6A86D50BD34B19B929BC44B896723B38_cppui_modular254,
+                            0x23BD9E3DA9136A739F668E1ADC9EF7F0F575EC93F71A8DF953C846338C32A1AB_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
index 61cc058..c6d61ad 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
@@ -78,10 +78,9 @@ namespace nil {
                         constexpr static const extended_integral_type group_order_minus_one_half =
                             0x492E25C3B1E5FCE2CCD37BE01A4690E5805C2A88B1BAB031376FD2E1A6359C682344F4ABD09216425280C4E36CB656E5301039684F560809DAA2C5113AEB4D8_cppui_modular507;
 
-                        /*constexpr static const std::array<non_residue_type, 2> Frobenius_coeffs_c1 =
-                           {non_residue_type(0x00), non_residue_type(0x00)};*/
 
-                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {0x00, 0x00};
+                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {
+                            0x01, 0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(
                             0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254);
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
index c634fea..cfc2e38 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
@@ -64,23 +64,34 @@ namespace nil {
                         typedef fields::fp2<base_field_type> underlying_field_type;
                         typedef typename underlying_field_type::value_type underlying_type;
 
-                        /*constexpr static const std::array<non_residue_type, 6> Frobenius_coeffs_c1 =
-                        {non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00)};
-
-                        constexpr static const std::array<non_residue_type, 6> Frobenius_coeffs_c2 =
-                        {non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x2FB347984F7911F74C0BEC3CF559B143B78CC310C2C3330C99E39557176F553D_cppui_modular254,
+                            0x16C9E55061EBAE204BA4CC8BD75A079432AE2A1D0B7C9DCE1665D51C640FCBA2_cppui_modular253,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x856E078B755EF0ABAFF1C77959F25AC805FFD3D5D6942D37B746EE87BDCFB6D_cppui_modular252,
+                            0x4F1DE41B3D1766FA9F30E6DEC26094F0FDF31BF98FF2631380CAB2BAAA586DE_cppui_modular251,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x28BE74D4BB943F51699582B87809D9CAF71614D4B0B71F3A62E913EE1DADA9E4_cppui_modular254,
+                            0x14A88AE0CB747B99C2B86ABCBE01477A54F40EB4C3F6068DEDAE0BCEC9C7AAC7_cppui_modular253};
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c2 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x5B54F5E64EEA80180F3C0B75A181E84D33365F7BE94EC72848A1F55921EA762_cppui_modular251,
+                            0x2C145EDBE7FD8AEE9F3A80B03B0B1C923685D2EA1BDEC763C13B4711CD2B8126_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0xBC58C6611C08DAB19BEE0F7B5B2444EE633094575B06BCB0E1A92BC3CCBF066_cppui_modular252,
+                            0x23D5E999E1910A12FEB0F6EF0CD21D04A44A9E08737F96E55FE3ED9D730C239F_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x1EE972AE6A826A7D1D9DA40771B6F589DE1AFB54342C724FA97BDA050992657F_cppui_modular253,
+                            0x10DE546FF8D4AB51D2B513CDBB25772454326430418536D15721E37E70C255C9_cppui_modular253};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
-- 
2.43.0


From 3059c06109fbc4f92de23dac4182d73b25c2697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 29/54] fix: the twisted Edwards G2 parameters of edwards-183
 described a curve that does not contain their generator

---
 .../curves/detail/edwards/183/twisted_edwards_params.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/183/twisted_edwards_params.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/183/twisted_edwards_params.hpp
index b49efc7..e82952e 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/183/twisted_edwards_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/183/twisted_edwards_params.hpp
@@ -72,6 +72,12 @@ namespace nil {
                         template<typename Coordinates>
                         using group_type = edwards_types<183>::g2_type<forms::twisted_edwards, Coordinates>;
 
+                        /// coefficients of the twist $a*x^2+y^2=1+d*x^2*y^2$ that contains G2
+                        constexpr static const typename field_type::value_type a =
+                            edwards_g2_params<183, forms::edwards>::twist;
+                        constexpr static const typename field_type::value_type d =
+                            edwards_g2_params<183, forms::edwards>::d;
+
                         constexpr static const std::array<typename field_type::value_type, 2> zero_fill =
                             edwards_g2_params<183, forms::edwards>::zero_fill;
 
-- 
2.43.0


From 430eb09637c4f696555de3dd337db2dbeb3cdaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:44 +0000
Subject: [PATCH 30/54] fix: x962_p192v3 used the scalar field of x962_p192v2

---
 include/nil/crypto3/algebra/curves/x962_p.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/x962_p.hpp b/include/nil/crypto3/algebra/curves/x962_p.hpp
index 1de3e9e..ceed7bb 100644
--- a/include/nil/crypto3/algebra/curves/x962_p.hpp
+++ b/include/nil/crypto3/algebra/curves/x962_p.hpp
@@ -75,12 +75,12 @@ namespace nil {
                 template<>
                 struct x962_p_v3<192> {
                     constexpr static const std::size_t base_field_bits = 192;
-                    typedef fields::x962_p_v2_fq<base_field_bits> base_field_type;
+                    typedef fields::x962_p_v3_fq<base_field_bits> base_field_type;
                     typedef typename base_field_type::integral_type integral_type;
                     constexpr static const integral_type base_field_modulus = base_field_type::modulus;
 
                     constexpr static const std::size_t scalar_field_bits = 192;
-                    typedef fields::x962_p_v2_fr<scalar_field_bits> scalar_field_type;
+                    typedef fields::x962_p_v3_fr<scalar_field_bits> scalar_field_type;
                     constexpr static const integral_type scalar_field_modulus = scalar_field_type::modulus;
 
                     constexpr static const integral_type p = base_field_modulus;
-- 
2.43.0


From e1156987356b0316f72207a0ce832fe107f51f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:17 +0000
Subject: [PATCH 31/54] fix: get_exp_window_size read before the window table
 for sizes below its first entry

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..de4d094 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,11 +126,11 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
+                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size(); i > 0;
                      --i) {
-                    if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
-                        num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
-                        window = i + 1;
+                    if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i - 1] != 0 &&
+                        num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i - 1]) {
+                        window = i;
                         break;
                     }
                 }
-- 
2.43.0


From 4e26c662a2fc82b73b2ec6b82d3a2957b2393742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:17 +0000
Subject: [PATCH 32/54] fix: BDLO12 multiexp of an empty range converted the
 logarithm of zero to an integer

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..e1b1504 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -110,6 +110,10 @@ namespace nil {
                         std::size_t length = std::distance(bases, bases_end);
                         assert(length == std::distance(exponents, exponents_end));
 
+                        if (length == 0) {
+                            return base_value_type::zero();
+                        }
+
                         // empirically, this seems to be a decent estimate of the optimal value of c
                         std::size_t log2_length = std::log2(length);
                         std::size_t c = log2_length - (log2_length / 3 - 2);
-- 
2.43.0


From 3a2fb97cdd83910d0c4c66e868c78ce19d9de4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:17 +0000
Subject: [PATCH 33/54] fix: bos_coster multiexp took the most significant bit
 of zero when all scalars are zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index e1b1504..9b2a871 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -273,6 +273,11 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            // msb does not work for zero value, which is the maximum only if all scalars are zero
+                            if (a.r.is_zero()) {
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From 926b2ac808f3e9a80fce77c90555d50d0ca351aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:55 +0000
Subject: [PATCH 34/54] fix: is_curve rejected every curve whose groups are
 member templates

---
 include/nil/crypto3/algebra/type_traits.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index 303fcca..764f1c7 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -53,6 +53,8 @@ namespace nil {
             BOOST_TTI_HAS_TYPE(g1_type)
             BOOST_TTI_HAS_TYPE(g2_type)
             BOOST_TTI_HAS_TYPE(gt_type)
+            BOOST_TTI_HAS_TEMPLATE(g1_type)
+            BOOST_TTI_HAS_TEMPLATE(g2_type)
 
             BOOST_TTI_HAS_TYPE(group_type)
 
@@ -78,7 +80,8 @@ namespace nil {
             template<typename T>
             struct is_curve {
                 static const bool value = has_type_base_field_type<T>::value && has_type_scalar_field_type<T>::value &&
-                                          has_type_g1_type<T>::value && has_type_g2_type<T>::value &&
+                                          (has_type_g1_type<T>::value || has_template_g1_type<T>::value) &&
+                                          (has_type_g2_type<T>::value || has_template_g2_type<T>::value) &&
                                           has_type_gt_type<T>::value;
                 typedef T type;
             };
-- 
2.43.0


From 277ad2d236521bf2646ad1c68955c35783e6710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 35/54] fix: the complex assertion macros named traits that do
 not exist

---
 include/nil/crypto3/detail/assert.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/detail/assert.hpp b/include/nil/crypto3/detail/assert.hpp
index 2fa803d..3541e0d 100644
--- a/include/nil/crypto3/detail/assert.hpp
+++ b/include/nil/crypto3/detail/assert.hpp
@@ -25,24 +25,27 @@
 #ifndef CRYPTO3_DETAIL_ASSERT_HPP
 #define CRYPTO3_DETAIL_ASSERT_HPP
 
+#include <type_traits>
+
+#include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/type_traits.hpp>
 
 #define CRYPTO3_DETAIL_ASSERT_FLOATING_POINT(T)                                                     \
-    static_assert(std::is_floating_point<typename algebra::detail::remove_complex<T>::type>::value, \
+    static_assert(std::is_floating_point<typename ::nil::crypto3::algebra::remove_complex<T>::type>::value, \
                   "argument must be a (real or complex) floating point type");
 
 #define CRYPTO3_DETAIL_ASSERT_INTEGRAL(T) \
     static_assert(std::is_integral<T>::value, "argument must be a real integral type");
 
 #define CRYPTO3_DETAIL_ASSERT_VALID_COMPLEX(T)                                                          \
-    static_assert(!algebra::detail::is_complex<T>::value ||                                             \
-                      std::is_floating_point<typename algebra::detail::remove_complex<T>::type>::value, \
+    static_assert(!::nil::crypto3::algebra::is_complex<T>::value ||                                             \
+                      std::is_floating_point<typename ::nil::crypto3::algebra::remove_complex<T>::type>::value, \
                   "invalid complex type argument (valid types are "                                     \
                   "complex<float>, complex<double>, and complex<long double>)");
 
 #define CRYPTO3_DETAIL_ASSERT_ARITHMETIC(T)                                                     \
     CRYPTO3_DETAIL_ASSERT_VALID_COMPLEX(T)                                                      \
-    static_assert(std::is_arithmetic<typename algebra::detail::remove_complex<T>::type>::value, \
+    static_assert(std::is_arithmetic<typename ::nil::crypto3::algebra::remove_complex<T>::type>::value, \
                   "argument must be a (real or complex) arithmetic type");
 
 #define CRYPTO3_DETAIL_ASSERT_REAL(T) \
@@ -50,6 +53,6 @@
 
 #define CRYPTO3_DETAIL_ASSERT_COMPLEX(T)   \
     CRYPTO3_DETAIL_ASSERT_VALID_COMPLEX(T) \
-    static_assert(algebra::detail::is_complex<T>::value, "argument must be a complex type");
+    static_assert(::nil::crypto3::algebra::is_complex<T>::value, "argument must be a complex type");
 
 #endif    // CRYPTO3_DETAIL_ASSERT_H_
\ No newline at end of file
-- 
2.43.0


From f3049a16fb417dd6a76c6a53a71a3fbc757f4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 36/54] fix: detail/type_traits.hpp used iterator and type
 traits without including their headers

---
 include/nil/crypto3/detail/type_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/detail/type_traits.hpp b/include/nil/crypto3/detail/type_traits.hpp
index a6662e7..02e9d2f 100644
--- a/include/nil/crypto3/detail/type_traits.hpp
+++ b/include/nil/crypto3/detail/type_traits.hpp
@@ -31,6 +31,10 @@
 #include <complex>
 #endif
 
+#include <iterator>
+#include <type_traits>
+#include <utility>
+
 #define GENERATE_HAS_MEMBER_TYPE(Type)                                                                                 \
     template<class T, typename Enable = void>                                                                          \
     class HasMemberType_##Type {                                                                                       \
-- 
2.43.0


From 6a8987ceba1f892a8f4043c99ba37174073a5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 37/54] fix: has_generate and has_check never looked at the
 type, so is_passhash was always false

---
 include/nil/crypto3/detail/type_traits.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/detail/type_traits.hpp b/include/nil/crypto3/detail/type_traits.hpp
index 02e9d2f..a6ba475 100644
--- a/include/nil/crypto3/detail/type_traits.hpp
+++ b/include/nil/crypto3/detail/type_traits.hpp
@@ -103,7 +103,9 @@
             void Function(##__VA_ARGS__);                                            \
         };                                                                           \
                                                                                      \
-        struct Derived : Fallback { };                                               \
+        struct Dummy { };                                                            \
+                                                                                     \
+        struct Derived : std::conditional<std::is_class<T>::value, T, Dummy>::type, Fallback { }; \
                                                                                      \
         template<typename C, C>                                                      \
         struct ChT;                                                                  \
@@ -125,7 +127,9 @@
             void Function(##__VA_ARGS__) const;                                            \
         };                                                                                 \
                                                                                            \
-        struct Derived : Fallback { };                                                     \
+        struct Dummy { };                                                                  \
+                                                                                           \
+        struct Derived : std::conditional<std::is_class<T>::value, T, Dummy>::type, Fallback { }; \
                                                                                            \
         template<typename C, C>                                                            \
         struct ChT;                                                                        \
-- 
2.43.0


From d041786280f3a08df18ea61e79905842998057a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 38/54] fix: make_array used assert without including cassert

---
 include/nil/crypto3/detail/make_array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/detail/make_array.hpp b/include/nil/crypto3/detail/make_array.hpp
index e0065eb..a4c7e98 100644
--- a/include/nil/crypto3/detail/make_array.hpp
+++ b/include/nil/crypto3/detail/make_array.hpp
@@ -26,6 +26,8 @@
 #define CRYPTO3_MAKE_ARRAY_HPP
 
 #include <array>
+#include <cassert>
+#include <cstddef>
 #include <iterator>
 
 namespace nil {
-- 
2.43.0


From 7adf92b9f317cd34327e498432b88e547dc89948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 39/54] fix: state_adder declared a typedef with a qualified
 name and never compiled

---
 include/nil/crypto3/detail/state_adder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/detail/state_adder.hpp b/include/nil/crypto3/detail/state_adder.hpp
index d8f9c86..3d47b36 100644
--- a/include/nil/crypto3/detail/state_adder.hpp
+++ b/include/nil/crypto3/detail/state_adder.hpp
@@ -31,9 +31,9 @@ namespace nil {
             struct state_adder {
                 template<typename T>
                 void operator()(T &s1, T const &s2) {
-                    typedef typename T::size_type std::size_type;
-                    std::size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
-                    for (typename T::size_type i = 0; i < n; ++i) {
+                    typedef typename T::size_type size_type;
+                    size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
+                    for (size_type i = 0; i < n; ++i) {
                         s1[i] += s2[i];
                     }
                 }
-- 
2.43.0


From 2edbb29509c460d4bc3318adc978acf610b97af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 40/54] fix: unbounded_shift.hpp used CHAR_BIT without
 including climits

---
 include/nil/crypto3/detail/unbounded_shift.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/detail/unbounded_shift.hpp b/include/nil/crypto3/detail/unbounded_shift.hpp
index 1faa0a6..eb63022 100644
--- a/include/nil/crypto3/detail/unbounded_shift.hpp
+++ b/include/nil/crypto3/detail/unbounded_shift.hpp
@@ -29,6 +29,9 @@
 
 #include <boost/assert.hpp>
 
+#include <climits>
+#include <cstddef>
+
 namespace nil {
     namespace crypto3 {
         namespace detail {
-- 
2.43.0


From df05c1351f3bd716f4d29e96617efa4d9eac29e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:20 +0000
Subject: [PATCH 41/54] fix: make_uint_t.hpp used numeric_limits without
 including limits

---
 include/nil/crypto3/detail/make_uint_t.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/detail/make_uint_t.hpp b/include/nil/crypto3/detail/make_uint_t.hpp
index d0d29a9..17c9a5a 100644
--- a/include/nil/crypto3/detail/make_uint_t.hpp
+++ b/include/nil/crypto3/detail/make_uint_t.hpp
@@ -25,6 +25,9 @@
 #ifndef CRYPTO3_MAKE_UINT_T_HPP
 #define CRYPTO3_MAKE_UINT_T_HPP
 
+#include <cstddef>
+#include <initializer_list>
+#include <limits>
 #include <tuple>
 
 #include <boost/integer.hpp>
-- 
2.43.0


From a2027772764a5bdb5e71851ae4d76c5c1184fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:20 +0000
Subject: [PATCH 42/54] fix: strxor over iterators did not return the output
 iterator

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index ebd3180..e188ce8 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -46,6 +46,8 @@ namespace nil {
                 while (first1 != last1 && first2 != last2) {
                     *out++ = *first1++ ^ *first2++;
                 }
+
+                return out;
             }
 
             template<typename InputType, typename OutputType>
-- 
2.43.0


From bb51b59379c482a080045b3fbd66fdb31d50bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:20 +0000
Subject: [PATCH 43/54] fix: strxor used the range concepts without including
 them

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index e188ce8..bb265be 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -28,8 +28,10 @@
 
 #include <boost/concept/assert.hpp>
 #include <boost/assert.hpp>
+#include <boost/range/concepts.hpp>
 
 #include <iterator>
+#include <type_traits>
 
 namespace nil {
     namespace crypto3 {
-- 
2.43.0


From 1d7e5339358d744fdc982cd6491392080f74967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:20 +0000
Subject: [PATCH 44/54] fix: totient_list left 1 out of the coprimes of 1

---
 include/nil/crypto3/algebra/totient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/totient.hpp b/include/nil/crypto3/algebra/totient.hpp
index 663b848..60bc1ed 100644
--- a/include/nil/crypto3/algebra/totient.hpp
+++ b/include/nil/crypto3/algebra/totient.hpp
@@ -65,7 +65,7 @@ namespace nil {
                 std::vector<IntegerType> result;
                 IntegerType one = 1;
 
-                for (IntegerType i = 1; i < n; i++) {
+                for (IntegerType i = 1; i <= n; i++) {
                     if (boost::multiprecision::gcd(i, n) == one)
                         result.push_back(i);
                 }
-- 
2.43.0


From 5a0ad073d93c880f7d6d3315c5e88b3d3b75e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:20 +0000
Subject: [PATCH 45/54] fix: random_element drew from the closed range up to
 the modulus, so zero was twice as likely

---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0


From 4895ee7391e80ef6f93475a24f3d8d8b65f267d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:48 +0000
Subject: [PATCH 46/54] fix: pairing with the point at infinity was computed
 from affine coordinates it does not have

---
 include/nil/crypto3/algebra/algorithms/pair.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/pair.hpp b/include/nil/crypto3/algebra/algorithms/pair.hpp
index 2e11ff8..ab15309 100644
--- a/include/nil/crypto3/algebra/algorithms/pair.hpp
+++ b/include/nil/crypto3/algebra/algorithms/pair.hpp
@@ -81,6 +81,10 @@ namespace nil {
             typename PairingCurveType::gt_type::value_type
                 pair(const typename PairingCurveType::template g1_type<>::value_type &v1,
                      const typename PairingCurveType::template g2_type<>::value_type &v2) {
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
@@ -93,6 +97,10 @@ namespace nil {
                 pair_reduced(const typename PairingCurveType::template g1_type<>::value_type &v1,
                              const typename PairingCurveType::template g2_type<>::value_type &v2) {
 
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
-- 
2.43.0


From a751dbe13cbcd44921feeb4d099d7199e40f46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:09 +0000
Subject: [PATCH 47/54] fix: isogeny maps sent the kernel of the isogeny to the
 generator instead of the point at infinity

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From f7ecbe31ff2fcbc2ee7e562e8bcf14ffd4da66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:14 +0000
Subject: [PATCH 48/54] fix: encodings of the point at infinity with a non-zero
 payload were accepted

---
 .../crypto3/algebra/curves/detail/marshalling.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..d86b9d6 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -32,6 +32,9 @@
 
 #include <boost/concept/assert.hpp>
 
+#include <algorithm>
+#include <array>
+#include <cstdint>
 #include <iterator>
 
 namespace nil {
@@ -197,7 +200,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -225,7 +229,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -246,7 +251,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -277,7 +283,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
-- 
2.43.0


From 6167e73b283314955d446be196f77fa1b838c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:14 +0000
Subject: [PATCH 49/54] fix: octets_to_g2_point wrote past the end of an empty
 dynamic range

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index d86b9d6..a06fdb1 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -176,8 +176,7 @@ namespace nil {
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From 619a3276179eaad47a09b2e49f668fa2014fb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:14 +0000
Subject: [PATCH 50/54] fix: encodings with coordinates not reduced modulo the
 field characteristic were accepted

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index a06fdb1..87a7620 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -206,6 +206,7 @@ namespace nil {
 
                 integral_type x;
                 boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus);
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -238,6 +239,7 @@ namespace nil {
                     y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus && y < g1_field_value_type::modulus);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
                 BOOST_ASSERT(result.is_well_formed());
                 return result;
@@ -260,6 +262,7 @@ namespace nil {
                     x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -302,6 +305,8 @@ namespace nil {
                                             false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
+                BOOST_ASSERT(y_0 < g1_field_value_type::modulus && y_1 < g1_field_value_type::modulus);
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
-- 
2.43.0


From 87860cf4210a68d9a2dc8381d491b5281687b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:40 +0000
Subject: [PATCH 51/54] fix: field_element_to_bytes left stale octets above the
 most significant one

---
 include/nil/crypto3/algebra/marshalling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..21921e5 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -27,6 +27,7 @@
 #ifndef CRYPTO3_ALGEBRA_MARSHALLING_HPP
 #define CRYPTO3_ALGEBRA_MARSHALLING_HPP
 
+#include <algorithm>
 #include <vector>
 #include <tuple>
 
@@ -105,6 +106,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // export_bits writes only the significant octets
+                    std::fill(out_first, out_last, 0);
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From 1fdb37da46e8967cfb1849a7d25e0efb5f1ff7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:27 +0000
Subject: [PATCH 52/54] fix: the Edwards G2 well-formedness test uses the
 coefficients of the twist

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 27b8893..b3c27bc 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -119,7 +119,7 @@ namespace nil {
                         /** @brief
                          *
                          * @return true if element from group G2 lies on the elliptic curve
-                         * a*x^2 + y^2 = 1 + d*x^2*y^2
+                         * a*x^2 + y^2 = 1 + d*x^2*y^2, with the twisted coefficients a and d
                          * x = Z/X, y = Z/Y
                          * a * Z^2/X^2 + Z^2/Y^2 == 1 + d * Z^4 / X^2 / Y^2
                          * a * Z^2 * Y^2 + Z^2 * X^2 == X^2 * Y^2 + d * Z^4
@@ -133,7 +133,7 @@ namespace nil {
                                 const auto Y2 = this->Y.squared();
                                 const auto Z2 = this->Z.squared();
 
-                                return (policy_type::a * Z2*Y2 + Z2*X2 == X2*Y2 + policy_type::d * Z2*Z2);
+                                return (mul_by_a(Z2*Y2) + Z2*X2 == X2*Y2 + mul_by_d(Z2*Z2));
                             }
                         }
 
-- 
2.43.0


From d66296586b67e79758f808e3e48c2abfb0140133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:10 +0000
Subject: [PATCH 53/54] fix: quote the names Y and Z when printing Jacobian
 points

---
 .../forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp   | 2 +-
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 47d30ea..cae3ad9 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -335,7 +335,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index e238536..db464a0 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -339,7 +339,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
-- 
2.43.0


From eaf18ea1587b4d48dccaa8506011c172bf41c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:10 +0000
Subject: [PATCH 54/54] fix: no comma after the last coefficient when printing
 precomputed pairing values

---
 .../forms/short_weierstrass/jacobian_with_a4_0/types.hpp      | 2 +-
 .../detail/forms/short_weierstrass/projective/types.hpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
index fdf3d17..2846f14 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
@@ -99,7 +99,7 @@ namespace nil {
                                 << "\"coeffs\":[" << std::endl;
                             for(auto d = p.coeffs.begin(); d != p.coeffs.end(); ++d) {
                                 os << "[" << d->ell_0 << "," << d->ell_VW << "," << d->ell_VV << "]";
-                                if (d != p.coeffs.end()) {
+                                if (d + 1 != p.coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
index d798a13..8bb13ae 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
@@ -150,14 +150,14 @@ namespace nil {
                                 << "\"dbl_coeffs\":[" << std::endl;
                             for(auto d = p.dbl_coeffs.begin(); d != p.dbl_coeffs.end(); ++d) {
                                 os << "[" << d->c_H << "," << d->c_4C << "," << d->c_J << "," << d->c_L << "]";
-                                if (d != p.dbl_coeffs.end()) {
+                                if (d + 1 != p.dbl_coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
                             os << "]," << std::endl << "\"add_coeffs\":[" << std::endl;
                             for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {
                                 os << "[" << a->c_L1 << "," << a->c_RZ << "]";
-                                if (a != p.add_coeffs.end()) {
+                                if (a + 1 != p.add_coeffs.end()) {
                                     os << "," << std::endl;;
                                 }
                             }
-- 
2.43.0

