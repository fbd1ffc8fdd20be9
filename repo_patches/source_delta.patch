From 3960a9e17d8113f2181c642ab13ad84c5a017aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 01/20] fix: line * line placed the e23 and e12 coefficients in
 each other's lane

---
 public/klein/detail/x86/x86_geometric_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/detail/x86/x86_geometric_product.hpp b/public/klein/detail/x86/x86_geometric_product.hpp
index e7de92e..67f235e 100644
--- a/public/klein/detail/x86/x86_geometric_product.hpp
+++ b/public/klein/detail/x86/x86_geometric_product.hpp
@@ -280,11 +280,11 @@ namespace detail
         __m128& p1 = *out;
         __m128& p2 = *(out + 1);
 
-        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 3, 1, 2, 1), KLN_SWIZZLE(b, 2, 3, 1, 1));
+        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 2, 1, 3, 1), KLN_SWIZZLE(b, 1, 3, 2, 1));
         p1 = _mm_xor_ps(p1, flip);
         p1 = _mm_sub_ps(
             p1,
-            _mm_mul_ps(KLN_SWIZZLE(a, 2, 3, 1, 3), KLN_SWIZZLE(b, 3, 1, 2, 3)));
+            _mm_mul_ps(KLN_SWIZZLE(a, 1, 3, 2, 3), KLN_SWIZZLE(b, 2, 1, 3, 3)));
         __m128 a2 = _mm_unpackhi_ps(a, a);
         __m128 b2 = _mm_unpackhi_ps(b, b);
         p1        = _mm_sub_ss(p1, _mm_mul_ss(a2, b2));
-- 
2.43.0


From 5e8871f5a2b046eeb15c0b5f0733d8a7b4137bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 02/20] fix: applying a rotor or motor to an array in place
 overwrote its own input

---
 public/klein/detail/x86/x86_sandwich.hpp      | 28 +++---
 .../klein/detail/x86/x86_sandwich_cxx11.inl   | 94 ++++++++++---------
 2 files changed, 64 insertions(+), 58 deletions(-)

diff --git a/public/klein/detail/x86/x86_sandwich.hpp b/public/klein/detail/x86/x86_sandwich.hpp
index 0475525..89a86db 100644
--- a/public/klein/detail/x86/x86_sandwich.hpp
+++ b/public/klein/detail/x86/x86_sandwich.hpp
@@ -252,7 +252,7 @@ namespace detail
     //
     // Note: in and out are permitted to alias iff a == out.
     template <bool Variadic, bool Translate, bool InputP2>
-    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                       __m128 const& KLN_RESTRICT b,
                                       [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                       __m128* out,
@@ -364,7 +364,7 @@ namespace detail
         constexpr size_t stride = InputP2 ? 2 : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128 const& p1_in = in[stride * i]; // a
+            __m128 p1_in      = in[stride * i]; // a
             __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
             __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -376,7 +376,7 @@ namespace detail
 
             if constexpr (InputP2)
             {
-                __m128 const& p2_in = in[2 * i + 1]; // d
+                __m128 p2_in  = in[2 * i + 1]; // d
                 __m128& p2_out      = out[2 * i + 1];
                 p2_out              = _mm_mul_ps(tmp, p2_in);
                 p2_out              = _mm_add_ps(
@@ -405,7 +405,7 @@ namespace detail
     // If Variadic is true, a and out must point to a contiguous block of memory
     // equivalent to __m128[count]
     template <bool Variadic = false, bool Translate = true>
-    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -497,14 +497,15 @@ namespace detail
         for (size_t i = 0; i != limit; ++i)
         {
             // Compute the lower block for components e1, e2, and e3
+            __m128 a_i = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 1, 3, 2, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 2, 1, 3, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
             if constexpr (Translate)
             {
-                __m128 tmp5 = hi_dp(tmp4, a[i]);
+                __m128 tmp5 = hi_dp(tmp4, a_i);
                 p           = _mm_add_ps(p, tmp5);
             }
         }
@@ -512,7 +513,7 @@ namespace detail
 
     // Apply a motor to a point
     template <bool Variadic, bool Translate>
-    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -584,15 +585,16 @@ namespace detail
         size_t limit = Variadic ? count : 1;
         for (size_t i = 0; i != limit; ++i)
         {
+            __m128 a_i = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 2, 1, 3, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 1, 3, 2, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
             if constexpr (Translate)
             {
                 p = _mm_add_ps(
-                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_i, 0, 0, 0, 0)));
             }
         }
     }
diff --git a/public/klein/detail/x86/x86_sandwich_cxx11.inl b/public/klein/detail/x86/x86_sandwich_cxx11.inl
index 48231e9..d358649 100644
--- a/public/klein/detail/x86/x86_sandwich_cxx11.inl
+++ b/public/klein/detail/x86/x86_sandwich_cxx11.inl
@@ -1,14 +1,14 @@
 // Implementation file for C++11 compatibility
 
 template <bool Variadic, bool Translate, bool InputP2>
-KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                   __m128 const& KLN_RESTRICT b,
                                   __m128 const* KLN_RESTRICT c,
                                   __m128* out,
                                   size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* in,
                                                     __m128 const& KLN_RESTRICT b,
                                                     __m128 const* KLN_RESTRICT c,
                                                     __m128* out,
@@ -65,7 +65,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -75,7 +75,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in  = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -90,7 +90,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -147,7 +147,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -165,7 +165,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -196,7 +196,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -206,7 +206,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in  = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -218,7 +218,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<true, false, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -249,7 +249,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -262,7 +262,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -317,7 +317,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
     tmp6        = _mm_sub_ps(tmp6, _mm_mul_ps(b_xwyz, czero));
     tmp6        = _mm_mul_ps(tmp6, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -327,7 +327,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-    __m128 const& p2_in = in[1]; // d
+    __m128 p2_in  = in[1]; // d
     __m128& p2_out      = out[1];
     p2_out              = _mm_mul_ps(tmp, p2_in);
     p2_out = _mm_add_ps(p2_out, _mm_mul_ps(tmp2, KLN_SWIZZLE(p2_in, 1, 3, 2, 0)));
@@ -340,7 +340,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, true, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -395,7 +395,7 @@ swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
     tmp6        = _mm_sub_ps(tmp6, _mm_mul_ps(b_xwyz, czero));
     tmp6        = _mm_mul_ps(tmp6, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -413,7 +413,7 @@ swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, true>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -442,7 +442,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
     tmp3        = _mm_sub_ps(tmp3, _mm_mul_ps(b_xxxx, b_xzwy));
     tmp3        = _mm_mul_ps(tmp3, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -452,7 +452,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-    __m128 const& p2_in = in[1]; // d
+    __m128 p2_in  = in[1]; // d
     __m128& p2_out      = out[1];
     p2_out              = _mm_mul_ps(tmp, p2_in);
     p2_out = _mm_add_ps(p2_out, _mm_mul_ps(tmp2, KLN_SWIZZLE(p2_in, 1, 3, 2, 0)));
@@ -461,7 +461,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, false>(__m128 const* in,
                           __m128 const& KLN_RESTRICT b,
                           __m128 const* KLN_RESTRICT c,
                           __m128* out,
@@ -490,7 +490,7 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
     tmp3        = _mm_sub_ps(tmp3, _mm_mul_ps(b_xxxx, b_xzwy));
     tmp3        = _mm_mul_ps(tmp3, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -502,14 +502,14 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -548,18 +548,19 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        __m128 a_i = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
-        __m128 tmp5 = hi_dp(tmp4, a[i]);
+        __m128 tmp5 = hi_dp(tmp4, a_i);
         p           = _mm_add_ps(p, tmp5);
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -592,15 +593,16 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        __m128 a_i = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -647,7 +649,7 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
@@ -685,14 +687,14 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -728,17 +730,18 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        __m128 a_i = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
-        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_i, 0, 0, 0, 0)));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -768,15 +771,16 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        __m128 a_i = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -820,7 +824,7 @@ KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
-- 
2.43.0


From 2382d5c89ac9a6b2567039ab8dd2441e284d9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 03/20] fix: rotor to matrix conversion left the last column
 partly uninitialized

---
 public/klein/detail/x86/x86_matrix.hpp       | 4 ++++
 public/klein/detail/x86/x86_matrix_cxx11.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/public/klein/detail/x86/x86_matrix.hpp b/public/klein/detail/x86/x86_matrix.hpp
index d68fdd5..9c0c4e5 100644
--- a/public/klein/detail/x86/x86_matrix.hpp
+++ b/public/klein/detail/x86/x86_matrix.hpp
@@ -118,6 +118,10 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12(__m128 b,
         tmp = _mm_mul_ps(KLN_SWIZZLE(b, 0, 1, 3, 2), KLN_SWIZZLE(*c, 0, 2, 1, 3));
         c3 = _mm_mul_ps(_mm_set_ps(0.f, 2.f, 2.f, 2.f), _mm_sub_ps(tmp, c3));
     }
+    else
+    {
+        c3 = _mm_setzero_ps();
+    }
     if constexpr (Normalized)
     {
 #    ifdef KLEIN_SSE_4_1
diff --git a/public/klein/detail/x86/x86_matrix_cxx11.inl b/public/klein/detail/x86/x86_matrix_cxx11.inl
index 0f1e1f8..173e259 100644
--- a/public/klein/detail/x86/x86_matrix_cxx11.inl
+++ b/public/klein/detail/x86/x86_matrix_cxx11.inl
@@ -144,6 +144,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, true>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(c3, _mm_set_ps(1.f, 0.f, 0.f, 0.f), 0b1000);
 #else
@@ -187,6 +188,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, false>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(
         c3, _mm_set_ps(b0_2 + b1_2 + b2_2 + b3_2, 0.f, 0.f, 0.f), 0b1000);
-- 
2.43.0


From 3837b20f001f2b620e058c73f2bec2998ece1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/20] fix: normalizing a plane moved it by not scaling its e0
 component

---
 public/klein/plane.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 83271e2..2576875 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -65,12 +65,7 @@ public:
     void normalize() noexcept
     {
         __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p0_, p0_));
-#ifdef KLEIN_SSE_4_1
-        inv_norm = _mm_blend_ps(inv_norm, _mm_set_ss(1.f), 1);
-#else
-        inv_norm = _mm_add_ps(inv_norm, _mm_set_ss(1.f));
-#endif
-        p0_ = _mm_mul_ps(inv_norm, p0_);
+        p0_             = _mm_mul_ps(inv_norm, p0_);
     }
 
     /// Return a normalized copy of this plane.
-- 
2.43.0


From 54ee7886183b5b55d08ed98098d31bcda84d6829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 05/20] fix: the refined square root of zero was NaN

---
 public/klein/detail/x86/x86_sse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_sse.hpp b/public/klein/detail/x86/x86_sse.hpp
index ea29a13..97be776 100644
--- a/public/klein/detail/x86/x86_sse.hpp
+++ b/public/klein/detail/x86/x86_sse.hpp
@@ -113,7 +113,9 @@ namespace detail
     // Sqrt Newton-Raphson is evaluated in terms of rsqrt_nr1
     KLN_INLINE __m128 KLN_VEC_CALL sqrt_nr1(__m128 a) noexcept
     {
-        return _mm_mul_ps(a, rsqrt_nr1(a));
+        // rsqrt(0) is infinite, so the root of 0 is selected explicitly
+        return _mm_and_ps(_mm_mul_ps(a, rsqrt_nr1(a)),
+                          _mm_cmpneq_ps(a, _mm_setzero_ps()));
     }
 
 #ifdef KLEIN_SSE_4_1
-- 
2.43.0


From da92f4ee0404756258024e1bfa92d47751f60926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 06/20] fix: inverting a rotor left its scalar component out of
 the norm

---
 public/klein/rotor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 1ec3559..c8abf84 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -139,7 +139,7 @@ public:
 
     void invert() noexcept
     {
-        __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p1_, p1_));
+        __m128 inv_norm = detail::rsqrt_nr1(detail::dp_bc(p1_, p1_));
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_xor_ps(_mm_set_ps(-0.f, -0.f, -0.f, 0.f), p1_);
-- 
2.43.0


From 4ebf881205ce608eb10b533ae103aca23e963980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/20] fix: assigning a translator to a motor dropped the
 scalar 1

---
 public/klein/motor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/motor.hpp b/public/klein/motor.hpp
index e4a60f4..4d9c4fb 100644
--- a/public/klein/motor.hpp
+++ b/public/klein/motor.hpp
@@ -127,7 +127,7 @@ public:
 
     motor& KLN_VEC_CALL operator=(translator t) noexcept
     {
-        p1_ = _mm_setzero_ps();
+        p1_ = _mm_set_ss(1.f);
         p2_ = t.p2_;
         return *this;
     }
-- 
2.43.0


From 9ba4b0ba490a268df69b764d41ffaf80dae13735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 08/20] fix: the logarithm of a half-turn motor, or of a
 translation with scalar -1, had the wrong sign

---
 public/klein/detail/x86/x86_exp_log.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 4775933..275ee16 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -161,8 +161,10 @@ namespace detail
 
         if (mask == 0xf)
         {
+            // The scalar component is either 1 or -1 here, and both signs denote
+            // the same motion.
             p1_out = _mm_setzero_ps();
-            p2_out = p2;
+            p2_out = _mm_mul_ps(p2, KLN_SWIZZLE(p1, 0, 0, 0, 0));
             return;
         }
 
@@ -195,7 +197,7 @@ namespace detail
         // t_scalar = v cosu
 
         bool p_zero = std::abs(p) < 1e-6;
-        float u = p_zero ? std::atan2(-q, t_scalar) : std::atan2(s_scalar, p);
+        float u = std::atan2(s_scalar, p);
         float v = p_zero ? -q / s_scalar : t_scalar / p;
 
         // Now, (u + v e0123) * n when exponentiated will give us the motor, so
-- 
2.43.0


From 4080a10b757f6996fe2228313899f7917dbb85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 09/20] fix: the logarithm of the identity rotor and the
 exponential of the zero branch were NaN

---
 public/klein/exp_log.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 44e6a1d..0616416 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -90,10 +90,19 @@ namespace kln
 {
     float cos_ang;
     _mm_store_ss(&cos_ang, r.p1_);
-    float ang     = std::acos(cos_ang);
-    float sin_ang = std::sin(ang);
+    float sin_ang;
+    _mm_store_ss(&sin_ang, detail::sqrt_nr1(detail::hi_dp(r.p1_, r.p1_)));
 
     branch out;
+    if (sin_ang == 0.f)
+    {
+        // No rotation, so there is no axis to extract
+        out.p1_ = _mm_setzero_ps();
+        return out;
+    }
+
+    float ang = std::atan2(sin_ang, cos_ang);
+
     out.p1_ = _mm_mul_ps(r.p1_, detail::rcp_nr1(_mm_set1_ps(sin_ang)));
     out.p1_ = _mm_mul_ps(out.p1_, _mm_set1_ps(ang));
 #ifdef KLEIN_SSE_4_1
@@ -110,10 +119,16 @@ namespace kln
     // Compute the rotor angle
     float ang;
     _mm_store_ss(&ang, detail::sqrt_nr1(detail::hi_dp(b.p1_, b.p1_)));
+    rotor out;
+    if (ang == 0.f)
+    {
+        out.p1_ = _mm_set_ss(1.f);
+        return out;
+    }
+
     float cos_ang = std::cos(ang);
     float sin_ang = std::sin(ang) / ang;
 
-    rotor out;
     out.p1_ = _mm_mul_ps(_mm_set1_ps(sin_ang), b.p1_);
     out.p1_ = _mm_add_ps(out.p1_, _mm_set_ps(0.f, 0.f, 0.f, cos_ang));
     return out;
-- 
2.43.0


From 8acfdf29e1cb1c86a7f6b94497c548f6f3aa460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 10/20] fix: converting a rotor to Euler angles tested the
 wrong quantity for gimbal lock

---
 public/klein/rotor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c8abf84..59ebb80 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -203,7 +203,7 @@ public:
         euler_angles ea;
         float buf[4];
         store(buf);
-        float test = buf[1] * buf[2] + buf[3] * buf[0];
+        float test = buf[0] * buf[2] - buf[1] * buf[3];
 
         if (test > 0.4999f)
         {
@@ -214,7 +214,7 @@ public:
         }
         else if (test < -0.4999f)
         {
-            ea.roll  = -2.f * std::atan2(buf[1], buf[0]);
+            ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = -pi_2;
             ea.yaw   = 0.f;
             return ea;
-- 
2.43.0


From 3821cddb34038f0edaea42f5740d8f26ac5d9b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 11/20] fix: storing to a float array required 16-byte
 alignment that a float* does not promise

---
 public/klein/line.hpp  | 2 +-
 public/klein/point.hpp | 2 +-
 public/klein/rotor.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/line.hpp b/public/klein/line.hpp
index 55f24f1..6dc9ee9 100644
--- a/public/klein/line.hpp
+++ b/public/klein/line.hpp
@@ -342,7 +342,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float e12() const noexcept
diff --git a/public/klein/point.hpp b/public/klein/point.hpp
index 4542a98..5b93630 100644
--- a/public/klein/point.hpp
+++ b/public/klein/point.hpp
@@ -51,7 +51,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* data) const noexcept
     {
-        _mm_store_ps(data, p3_);
+        _mm_storeu_ps(data, p3_);
     }
 
     /// Normalize this point (division is done via rcpps with an additional
diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 59ebb80..c610d4c 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -393,7 +393,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float scalar() const noexcept
-- 
2.43.0


From aee08fc67e1076bf3f49f9156b372c36111acabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 12/20] fix: blade products of algebras with more than eight
 dimensions

---
 sym/ga.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4700893..9265548 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -42,10 +42,10 @@ int32_t algebra::mul(uint32_t lhs, uint32_t rhs) const noexcept
 
     for (uint32_t i = 0; i != dim_; ++i)
     {
-        uint8_t index = dim_ - i - 1;
-        uint8_t bit   = 1 << index;
-        bool lhs_e    = (lhs & bit) > 0;
-        bool rhs_e    = (rhs & bit) > 0;
+        uint32_t index = dim_ - i - 1;
+        uint32_t bit   = 1u << index;
+        bool lhs_e     = (lhs & bit) > 0;
+        bool rhs_e     = (rhs & bit) > 0;
 
         if (lhs_e)
         {
-- 
2.43.0


From c93e420069c1a4e78b53f9a44767f5dce9be2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 13/20] fix: tokenizing a one-letter identifier at the end of
 the input, or an unsupported character, never returned

---
 sym/parser.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 56b2b64..680beb9 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -199,18 +199,19 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
             t.type = token_type::number;
             t.num  = tokenize_number(it, input.end());
         }
-        else if (it != input.end() - 1)
+        else if (c == 'e' && it != input.end() - 1 && std::isdigit(*(it + 1)))
         {
-            if (c == 'e' && std::isdigit(*(it + 1)))
-            {
-                t.type = token_type::element;
-                t.e    = tokenize_element(it, input.end(), algebra_);
-            }
-            else
-            {
-                t.type = token_type::identifier;
-                t.id   = tokenize_identifier(it, input.end());
-            }
+            t.type = token_type::element;
+            t.e    = tokenize_element(it, input.end(), algebra_);
+        }
+        else if (std::isalnum(c))
+        {
+            t.type = token_type::identifier;
+            t.id   = tokenize_identifier(it, input.end());
+        }
+        else
+        {
+            throw std::runtime_error("Unexpected character encountered");
         }
         out.emplace_back(t);
     }
-- 
2.43.0


From f490bc38a077625716e02ece7c37fb53cd3440c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 14/20] fix: numbers of 32 and 33 digits were written past the
 end of the tokenizer's buffer

---
 sym/parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 680beb9..e916650 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -62,19 +62,19 @@ std::ostream& operator<<(std::ostream& os, std::vector<token> const& tokens)
 static float tokenize_number(std::string::const_iterator& it,
                              std::string::const_iterator const& end)
 {
-    char buf[32];
+    char buf[33];
     size_t buf_size = 0;
 
     for (auto tmp = it; tmp != end; ++tmp)
     {
-        if (buf_size > 32)
-        {
-            throw std::runtime_error(
-                "Number with greater than 32 digits encountered");
-        }
-
         if (std::isdigit(*tmp) || *tmp == '.')
         {
+            if (buf_size == 32)
+            {
+                throw std::runtime_error(
+                    "Number with greater than 32 digits encountered");
+            }
+
             buf[buf_size++] = *tmp;
         }
         else
-- 
2.43.0


From 1f22968863c13b15e1df7185b31c652a58259f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 15/20] fix: basis indices outside of the algebra were
 accepted, and 8 and 9 read as a scalar

---
 sym/parser.cpp | 5 +++++
 sym/parser.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index e916650..6a400f9 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -110,6 +110,11 @@ static element tokenize_element(std::string::const_iterator& it,
         {
             uint8_t bit = *it - '0';
 
+            if (((algebra_.pss() >> bit) & 1) == 0)
+            {
+                throw std::runtime_error("Basis index outside of the algebra");
+            }
+
             if ((out.value & (1 << bit)) > 0)
             {
                 throw std::runtime_error("Duplicate basis index");
diff --git a/sym/parser.hpp b/sym/parser.hpp
index e437112..2009fc5 100644
--- a/sym/parser.hpp
+++ b/sym/parser.hpp
@@ -23,7 +23,7 @@ struct identifier
 
 struct element
 {
-    uint8_t value;
+    uint32_t value;
     bool negative;
 };
 
-- 
2.43.0


From cf7a819a81ee7cfd2ac5c63eced7ee6128dc667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 16/20] fix: the parser silently dropped everything after the
 first complete expression

---
 sym/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 6a400f9..ac46bdd 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -445,5 +445,12 @@ mv parse(std::string const& input, algebra const& algebra_)
     std::vector<token> tokens = tokenize(input, algebra_);
 
     auto it = tokens.cbegin();
-    return parse_expr(it, tokens.cend(), algebra_);
+    mv out  = parse_expr(it, tokens.cend(), algebra_);
+
+    if (it->type != token_type::eof)
+    {
+        throw std::runtime_error("Unexpected token after parsing expression");
+    }
+
+    return out;
 }
\ No newline at end of file
-- 
2.43.0


From f522f19692f34ade40894d591edcb3a30bfe82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 17/20] fix: the constants 1 and -1 were printed without their
 digit

---
 sym/poly.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 9a1a606..fe7c5de 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -271,6 +271,12 @@ operator<<(std::ostream& os,
 std::ostream& operator<<(std::ostream& os,
                          std::map<mon, float>::const_iterator const& it) noexcept
 {
+    if (it->first.factors.empty())
+    {
+        os << it->second;
+        return os;
+    }
+
     if (it->second == -1.f)
     {
         os << '-';
@@ -280,11 +286,6 @@ std::ostream& operator<<(std::ostream& os,
         os << it->second;
     }
 
-    if (it->first.factors.empty())
-    {
-        return os;
-    }
-
     auto factor = it->first.factors.cbegin();
     os << factor;
     ++factor;
-- 
2.43.0


From 440283ea847a2bb2e308ba2076e0a8bda6dffa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 18/20] fix: basis index 9 was not printed

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 9265548..b016ad7 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -504,7 +504,7 @@ std::ostream& operator<<(std::ostream& os,
 
     os << " e";
 
-    for (size_t i = 0; i != 9; ++i)
+    for (size_t i = 0; i != 10; ++i)
     {
         if ((it->first & (1 << i)) > 0)
         {
-- 
2.43.0


From 83be95e6a1501a988717176a6fd19c00d5708173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 19/20] fix: the shell ignored lines with a decimal point, and
 echoed lines with a # in them before rejecting them

---
 sym/repl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sym/repl.cpp b/sym/repl.cpp
index 8415174..72691df 100644
--- a/sym/repl.cpp
+++ b/sym/repl.cpp
@@ -32,6 +32,11 @@ void repl::run()
             {
                 continue;
             }
+            else if (should_parse)
+            {
+                // Comments and commands are recognized at the start of a line
+                break;
+            }
             else if (c == '#')
             {
                 // Lines that begin with a # are comments
-- 
2.43.0


From 1231f51eb82a3fbfe0a371b54857dbd0f8adf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:28 +0000
Subject: [PATCH 20/20] fix: subtracting a multivector from itself iterated
 over terms it erased

---
 sym/ga.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index b016ad7..d185746 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -288,12 +288,8 @@ mv& mv::operator+=(mv const& other) noexcept
 
 mv& mv::operator-=(mv const& other) noexcept
 {
-    for (auto&& [e, p] : other.terms)
-    {
-        push(e, -p);
-    }
-
-    return *this;
+    // Negate a copy, as terms that cancel are erased and other may be *this
+    return *this += -other;
 }
 
 mv operator+(mv const& lhs, mv const& rhs) noexcept
-- 
2.43.0

