From 84e353bd74a3637dcb73e0e5868f82bdf1273ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 01/51] hook: make the tape chunk size configurable for
 verification builds (XAD_VERIF_CHUNK_SIZE)

---
 src/XAD/TapeContainer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/XAD/TapeContainer.hpp b/src/XAD/TapeContainer.hpp
index 982652e..77585c1 100644
--- a/src/XAD/TapeContainer.hpp
+++ b/src/XAD/TapeContainer.hpp
@@ -32,7 +32,12 @@ namespace xad
 template <class T>
 struct TapeContainerTraits
 {
+#ifdef XAD_VERIF_CHUNK_SIZE
+    // verification builds only: small chunks, so that short recordings span several of them
+    typedef ChunkContainer<T, XAD_VERIF_CHUNK_SIZE> type;
+#else
     typedef ChunkContainer<T> type;
+#endif
 };
 
 }  // namespace xad
-- 
2.43.0


From 4f9f95e2d51a7c472aad910a37fd8dc37f1b8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 02/51] fix: provide hypot for a plain number as second
 argument (was misspelt hypto)

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..12b2798 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -86,7 +86,7 @@ XAD_UNARY_BINSCAL2(atan2, scalar_atan22_op)
 XAD_UNARY_BINSCAL1(nextafter, scalar_nextafter1_op)
 XAD_UNARY_BINSCAL2(nextafter, scalar_nextafter2_op)
 XAD_UNARY_BINSCAL1(hypot, scalar_hypot1_op)
-XAD_UNARY_BINSCAL2(hypto, scalar_hypot2_op)
+XAD_UNARY_BINSCAL2(hypot, scalar_hypot2_op)
 
 // pown (integral exponents)
 template <class Scalar, class Expr>
-- 
2.43.0


From 9e352ff4dd6e90f7e17d9a33b416c690f2056794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 03/51] fix: copysign of negative zero and NaN arguments

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 12b2798..903ea15 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -461,7 +461,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
 {
     using T = typename ExprTraits<Derived>::value_type;
     bool sign = signbit(y);
-    if (x < 0)
+    if (signbit(x))
     {
         if (sign)
             return T(x);
-- 
2.43.0


From 4a47ebd27f41e270c879af0d43ebf9a585343946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 04/51] fix: derivative of ldexp for negative and large
 exponents

---
 src/XAD/UnaryMathFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..6af5527 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -203,7 +203,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(ldexp(Scalar(1), exp_)); }
     int exp_;
 };
 
-- 
2.43.0


From 2a183eb64cc3ac29045754bbcdd53766458236e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 05/51] fix: derivative of frexp for negative and large
 exponents and overwritten exponent variables

---
 src/XAD/UnaryMathFunctors.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 6af5527..3c03d98 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -210,16 +210,17 @@ struct ldexp_op
 template <class Scalar>
 struct frexp_op
 {
-    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
-    XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const
+    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp), e_() {}
+    XAD_INLINE Scalar operator()(const Scalar& a) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        Scalar v = frexp(a, &e_);
+        *exp_ = e_;
+        return v;
     }
+    // operator() is always called before derivative
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(ldexp(Scalar(1), -e_)); }
     int* exp_;
+    mutable int e_;
 };
 
 namespace detail
-- 
2.43.0


From 5d1fd7885c5f678faec59f840bd813f3d8054061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 06/51] fix: scalbn overflow and underflow of the scaling
 factor

---
 src/XAD/UnaryOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 903ea15..1585673 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -450,9 +450,9 @@ template <class Scalar, class Derived>
 XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scalar, Derived>& x,
                                                            int exp)
 {
-    using std::scalbn;
+    // FLT_RADIX is 2
     using T = typename ExprTraits<Derived>::value_type;
-    return T(x * scalbn(1.0, exp));
+    return T(ldexp(x, exp));
 }
 
 template <class Scalar, class Derived, class T2>
-- 
2.43.0


From 2e842e2a7ae61a663bde902959585fd4fc1de05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 07/51] fix: derivative of fmod with respect to the divisor for
 quotients of negative sign

---
 src/XAD/BinaryMathFunctors.hpp | 5 ++++-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..24eec7d 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,10 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const 
+    {
+        return -round((a - fmod(a, b)) / b);
+    }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 3c03d98..7017046 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From 3f2a1c8f341229fd4af503aa8ad50eb9862d0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 08/51] fix: integer overflow in the derivative of atan2 with
 an integer argument

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 7017046..60c6bfd 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,8 +193,8 @@ struct fabs_op : abs_op<Scalar>
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
-XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
-                          -Scalar(b) / (a * a + Scalar(b * b)))
+XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
+                          -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
 XAD_MAKE_UNARY_BINFUNCTOR(hypot, Scalar(a) / v, Scalar(a) / v)
 
-- 
2.43.0


From 53fcde5b26ceb1099e1c4759e7c7840c7ab84baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 09/51] fix: NaN derivatives of pow for zero base or zero
 exponent

---
 src/XAD/BinaryMathFunctors.hpp | 6 +++++-
 src/XAD/UnaryMathFunctors.hpp  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 24eec7d..8eca105 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -37,10 +37,14 @@ struct pow_op
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return pow(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b, const Scalar&) const
     {
+        if (a == Scalar(0) && b == Scalar(0))
+            return Scalar(0);
         return b * pow(a, b - Scalar(1));
     }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar&, const Scalar& v) const
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b, const Scalar& v) const
     {
+        if (a == Scalar(0) && b > Scalar(0))
+            return Scalar(0);
         return log(a) * v;
     }
 };
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 60c6bfd..78615d6 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,7 +191,9 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+XAD_MAKE_UNARY_BINFUNCTOR(pow,
+                          b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
+                          b == T2(0) && a > Scalar(0) ? Scalar(0) : Scalar(log(b) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
-- 
2.43.0


From 6a4e30e1c65b5e2064cd34a12644515c6970c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 10/51] fix: derivatives of remainder and remquo with respect
 to the divisor for large quotients

---
 src/XAD/BinaryMathFunctors.hpp | 18 ++++++++----------
 src/XAD/UnaryMathFunctors.hpp  | 20 ++++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 8eca105..f917e0e 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -272,28 +272,26 @@ struct remainder_op
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // the quotient from remquo only has the lowest bits
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 78615d6..3bc06fb 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -378,10 +378,8 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        Scalar v = remainder(b_, a);
+        return -round((Scalar(b_) - v) / a);
     }
     T2 b_;
 };
@@ -398,18 +396,20 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(b_, a, quo_);
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // the quotient from remquo only has the lowest bits
+        Scalar v = remainder(b_, a);
+        return -round((Scalar(b_) - v) / a);
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From 2a2d9eed837571952a3b07f9f626c1f19f5d54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 11/51] fix: precision of the derivative of pow for a base of
 lower precision

---
 src/XAD/UnaryMathFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 3bc06fb..32955f2 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,7 +193,7 @@ struct fabs_op : abs_op<Scalar>
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow,
                           b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
-                          b == T2(0) && a > Scalar(0) ? Scalar(0) : Scalar(log(b) * v))
+                          b == T2(0) && a > Scalar(0) ? Scalar(0) : Scalar(log(Scalar(b)) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
-- 
2.43.0


From 106fbde00900e4fec6c73499749cdb362fe16336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 12/51] fix: derivatives of max and min of two expressions of
 the same type when they are equal

---
 src/XAD/BinaryOperators.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/XAD/BinaryOperators.hpp b/src/XAD/BinaryOperators.hpp
index 725eb8d..e6017b0 100644
--- a/src/XAD/BinaryOperators.hpp
+++ b/src/XAD/BinaryOperators.hpp
@@ -30,6 +30,7 @@
 
 #include <XAD/BinaryOperatorMacros.hpp>
 #include <XAD/Macros.hpp>
+#include <XAD/UnaryExpr.hpp>
 
 namespace xad
 {
@@ -49,6 +50,32 @@ XAD_BINARY_OPERATOR(hypot, hypot_op)
 XAD_BINARY_OPERATOR(smooth_abs, smooth_abs_op)
 XAD_BINARY_OPERATOR(nextafter, nextafter_op)
 
+// two expressions of the same type would match std::max / std::min exactly, which select one operand
+// with all of its derivative, also if both are equal
+#define XAD_BINARY_MINMAX_SAME(_op, func)                                                          \
+    template <class Scalar, class Op, class Expr>                                                  \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(_op)(                                       \
+        const UnaryExpr<Scalar, Op, Expr>& a, const UnaryExpr<Scalar, Op, Expr>& b)                \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(a, b);                                      \
+    }                                                                                              \
+    template <class Scalar, class Op, class Expr1, class Expr2>                                    \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(_op)(                              \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& a,                                             \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& b)                                             \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(a, b);                             \
+    }
+
+XAD_BINARY_MINMAX_SAME(max, max_op)
+XAD_BINARY_MINMAX_SAME(min, min_op)
+
+#undef XAD_BINARY_MINMAX_SAME
+
 // note - this is C++11 only
 template <class T1, class T2, class T3>
 XAD_INLINE auto smooth_max(const T1& x, const T2& y, const T3& c)
-- 
2.43.0


From 07a2f2825f584b7087e8db22f0e3fac31ed611f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 13/51] fix: precision of the derivative of pow for an exponent
 of lower precision

---
 src/XAD/UnaryMathFunctors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 32955f2..4fc390d 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,10 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow,
-                          b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
+                          b == T2(0)
+                              ? Scalar(0)
+                              : Scalar(Scalar(b) *
+                                       Scalar(pow(a, b - typename ExprTraits<Scalar>::nested_type(1)))),
                           b == T2(0) && a > Scalar(0) ? Scalar(0) : Scalar(log(Scalar(b)) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
-- 
2.43.0


From 953a829b503f181d476aa8564123399e5425df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 14/51] fix: zero adjoints carrying higher-order derivatives
 were dropped in the reverse sweep

---
 src/Tape.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..bed7a27 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -547,6 +547,30 @@ XAD_FORCE_INLINE double fused_multiply_add(double a, double b, double c)
 
 XAD_FORCE_INLINE float fused_multiply_add(float a, float b, float c) { return std::fma(a, b, c); }
 
+// a zero adjoint can be skipped, unless it carries derivatives itself (higher order modes)
+template <class T>
+bool is_zero(const FReal<T>& a);
+template <class T>
+bool is_zero(const AReal<T>& a);
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero(const T& a)
+{
+    return a == T();
+}
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero(const FReal<T>& a)
+{
+    return is_zero(a.value()) && is_zero(a.derivative());
+}
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero(const AReal<T>& a)
+{
+    return !a.shouldRecord() && is_zero(a.value());
+}
+
 }  // namespace detail
 
 template <class T>
@@ -581,7 +605,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -599,7 +623,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From feb2522852c7a384bcd0f4429658cbaf87aa8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 15/51] fix: ChunkContainer::resize growing to an exact
 multiple of the chunk size

---
 src/XAD/ChunkContainer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..c67564f 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -272,10 +272,17 @@ class ChunkContainer
         }
 
         size_type lc = getLowPart(s);  // maybe 0
-        std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix, lc - ix,
-                                  v);
+        if (lc > ix)
+            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix,
+                                      lc - ix, v);
         idx_ = lc;
         chunk_ = nc_new;
+        if (lc == 0)
+        {
+            // the last chunk is exactly full - the next one may not be allocated yet
+            --chunk_;
+            idx_ = chunk_size;
+        }
     }
 
     template <class It>
-- 
2.43.0


From 627b01524844e945dbc81ac25d7e2a77c4f16b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 16/51] fix: ChunkContainer::assign when the size changes
 across chunks

---
 src/XAD/ChunkContainer.hpp | 49 +++++++-------------------------------
 1 file changed, 9 insertions(+), 40 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index c67564f..6445539 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -378,44 +378,15 @@ class ChunkContainer
             return;
         }
 
-        check_space(s);
-        size_type nc = getHighPart(s);
-        size_type lc = getLowPart(s);
-
-        if (s <= size())
-        {
-            if (s < size())
-                destructAllImpl<std::is_trivially_destructible<value_type>::value>::make(this, s,
-                                                                                         size());
-            // all assignments
-            for (size_type i = 0; i < nc; ++i)
-                std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                          reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
-            chunk_ = nc;
-            idx_ = lc;
-
-            return;
-        }
-
-        // here we have something bigger than it was - assign existing and fill rest
-        for (int i = 0; i < chunk_; ++i)
-            std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                      reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-        std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                  reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_, v);
-
-        size_type fillsize = nc > chunk_ ? chunk_size : lc;
-        std::uninitialized_fill(reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_,
-                                reinterpret_cast<value_type*>(chunkList_[chunk_]) + fillsize, v);
-        for (size_type i = chunk_ + 1; i < nc; ++i)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
-        if (nc > chunk_)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
-        chunk_ = nc;
-        idx_ = lc;
-        return;
+        // assign the elements that stay, then cut or fill the rest
+        size_type n = (std::min)(s, size());
+        size_type nc = getHighPart(n);
+        size_type lc = getLowPart(n);
+        for (size_type i = 0; i < nc; ++i)
+            std::fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
+        if (lc > 0)
+            std::fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
+        resize(s, v);
     }
 
     reference operator[](size_type i)
@@ -454,8 +425,6 @@ class ChunkContainer
         }
     }
 
-    void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
-
     void _free_memory()
     {
         clear();
-- 
2.43.0


From 22776f4efa2889e4bdd4336f7affb7a111989ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 17/51] fix: ChunkContainer::uninitialized_extend over more
 than one chunk

---
 src/XAD/ChunkContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 6445539..76440d0 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -220,7 +220,7 @@ class ChunkContainer
     {
         reserve(size() + i);
         idx_ += i;
-        if (idx_ > chunk_size)
+        while (idx_ > chunk_size)
         {
             ++chunk_;
             idx_ = idx_ - chunk_size;
-- 
2.43.0


From 97f482dae0c78005189c37aaca27a302fde23e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 18/51] fix: ChunkContainer iterator over more than two chunks
 and at the end of the last chunk

---
 src/XAD/ChunkContainer.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 76440d0..bd21c90 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -333,10 +333,12 @@ class ChunkContainer
     struct iterator
     {
         pointer point_;
-        pointer next_chunk_;
+        char* const* next_chunk_;
+        char* const* chunks_end_;
         int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        explicit iterator(pointer point = nullptr, int space_left = 0,
+                          char* const* next = nullptr, char* const* chunks_end = nullptr)
+            : point_(point), next_chunk_(next), chunks_end_(chunks_end), space_left_(space_left)
         {
         }
 
@@ -345,7 +347,8 @@ class ChunkContainer
             ++point_;
             if (--space_left_ == 0)
             {
-                point_ = next_chunk_;
+                point_ = next_chunk_ != chunks_end_ ? reinterpret_cast<pointer>(*next_chunk_++)
+                                                    : nullptr;
                 space_left_ = chunk_size;
             }
             return *this;
@@ -366,8 +369,12 @@ class ChunkContainer
     {
         auto nc = getHighPart(i);
         auto lc = getLowPart(i);
+        auto chunks = chunkList_.data();
+        auto chunks_end = chunks + chunkList_.size();
+        if (nc >= chunkList_.size())  // at the end, with all chunks exactly full
+            return iterator(nullptr, int(chunk_size), chunks_end, chunks_end);
         return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
+                        chunks + nc + 1, chunks_end);
     }
 
     void assign(size_type s, const_reference v = value_type())
-- 
2.43.0


From 1847444ed19066d43ccb1e43b5b4f8fa5c0cab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 19/51] fix: ChunkContainer::capacity reported memory that is
 not allocated

---
 src/XAD/ChunkContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index bd21c90..1bdce8a 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -210,7 +210,7 @@ class ChunkContainer
         chunk_ = idx_ = 0;
     }
 
-    size_type capacity() const { return getNumElements(chunkList_.capacity()); }
+    size_type capacity() const { return getNumElements(chunkList_.size()); }
 
     size_type size() const { return chunk_ * chunk_size + idx_; }
 
-- 
2.43.0


From 4801410b43fe999fd5e34e7a44a235fb4eed24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 20/51] fix: moved-from ChunkContainer with elements that need
 destruction

---
 src/XAD/ChunkContainer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 1bdce8a..ece750d 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,14 +135,20 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
     {
+        if (this == &o)
+            return *this;
         _free_memory();
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
         return *this;
     }
 
-- 
2.43.0


From 652240d46ea8be6e99d34366975f5d5322c90cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 21/51] fix: moving an active tape terminated the program, lost
 callbacks and slot ranges

---
 src/Tape.cpp     | 27 +++++++++++++++++++++++----
 src/XAD/Tape.hpp |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index bed7a27..27d3f11 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -67,15 +67,20 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
+#ifdef XAD_TAPE_REUSE_SLOTS
+    updateRangeEnds(o);
+#endif
     if (o.isActive())
-        activate();
-    else
-        deactivate();
+        active_tape_ = this;
+    o.callbacks_.clear();
 }
 
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
@@ -87,10 +92,14 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+    updateRangeEnds(o);
+#endif
     if (o.isActive())
-        activate();
+        active_tape_ = this;
     else
         deactivate();
+    o.callbacks_.clear();
     return *this;
 }
 
@@ -125,6 +134,16 @@ typename Tape<T>::size_type Tape<T>::getNumVariables() const
 }
 
 #ifdef XAD_TAPE_REUSE_SLOTS
+template <class T>
+void Tape<T>::updateRangeEnds(Tape& o)
+{
+    // iterators to elements stay valid when a list is moved, but the end iterator does not
+    if (currentRec_->startRange_ == o.reusable_ranges_.end())
+        currentRec_->startRange_ = reusable_ranges_.end();
+    if (currentRec_->latestRange_ == o.reusable_ranges_.end())
+        currentRec_->latestRange_ = reusable_ranges_.end();
+}
+
 template <class T>
 typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
 {
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..9cbe13c 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -269,6 +269,7 @@ class Tape
     typedef ReusableRange<slot_type> slot_range_type;
     typedef std::list<slot_range_type> range_list;
     range_list reusable_ranges_;
+    void updateRangeEnds(Tape& o);
 #endif
 
     void foldSubrecordings();
-- 
2.43.0


From 7252a113bc3823c39a4adf65b5073280372888d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 22/51] fix: out of bounds access when variables were
 registered after seeding, or nothing was seeded before computeAdjointsTo

---
 src/Tape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 27d3f11..0047d9e 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -513,6 +513,7 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    initDerivatives();  // variables may have been registered since the derivatives were set
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From e5d1bba535c19a0a901a052eb139a701db21c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 23/51] fix: resetTo with reusable slots beyond the derivatives
 (endless loop, dangling iterators)

---
 src/Tape.cpp | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 0047d9e..7e233e4 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -154,6 +154,7 @@ typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
     // insert in a reusable slot
     auto& first_range = *currentRec_->startRange_;
     auto ret = first_range.insert();
+    currentRec_->maxDerivative_ = (std::max)(ret + 1, currentRec_->maxDerivative_);
     if (first_range.isClosed())
     {
         if (currentRec_->latestRange_ == currentRec_->startRange_)
@@ -719,28 +720,6 @@ void Tape<T>::resetTo(position_type pos)
         LOG_DEBUG("removing " << std::distance(newend, checkpoints_.end()) << " checkpoints");
         checkpoints_.erase(newend, checkpoints_.end());
     }
-#ifdef XAD_TAPE_REUSE_SLOTS
-    if (!reusable_ranges_.empty())
-    {
-        auto it = reusable_ranges_.end();
-        --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
-        {
-            if (it->first() >= currentRec_->maxDerivative_)
-            {
-                auto it2 = it;
-                --it2;
-                reusable_ranges_.erase(it);
-                it = it2;
-            }
-            else
-            {
-                it->second(currentRec_->maxDerivative_);
-            }
-        }
-    }
-#endif
-
     // clearDerivatives(getPosition());
     // std::cout << "reset to " << pos << "\n";
 }
-- 
2.43.0


From be33e47dfa71763e7d6ffff981b90dd9ff93e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 24/51] fix: reusable slots of nested recordings leaked into
 the enclosing recording

---
 src/Tape.cpp     | 16 +++++++++++++---
 src/XAD/Tape.hpp |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 7e233e4..7dd7eb9 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -63,6 +63,7 @@ Tape<T>::Tape(Tape&& o) noexcept
       callbacks_(std::move(o.callbacks_)),
 #ifdef XAD_TAPE_REUSE_SLOTS
       reusable_ranges_(std::move(o.reusable_ranges_)),
+      outer_ranges_(std::move(o.outer_ranges_)),
 #endif
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
@@ -89,6 +90,7 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
     callbacks_ = std::move(o.callbacks_);
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_ = std::move(o.reusable_ranges_);
+    outer_ranges_ = std::move(o.outer_ranges_);
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
@@ -120,6 +122,7 @@ void Tape<T>::clearAll()
     checkpoints_.clear();
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_.clear();
+    outer_ranges_.clear();
 #endif
     while (!nestedRecordings_.empty()) nestedRecordings_.pop();
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
@@ -319,6 +322,11 @@ template <class T>
 void Tape<T>::foldSubrecording()
 {
     // std::cout << "folding down from " << nestedRecordings_.size() << "\n";
+#ifdef XAD_TAPE_REUSE_SLOTS
+    reusable_ranges_.clear();
+    reusable_ranges_.splice(reusable_ranges_.end(), outer_ranges_.back());
+    outer_ranges_.pop_back();
+#endif
     auto prev = nestedRecordings_.top();
     nestedRecordings_.pop();
     auto cur = &nestedRecordings_.top();
@@ -339,9 +347,6 @@ void Tape<T>::foldSubrecording()
         std::lower_bound(checkpoints_.begin(), checkpoints_.end(), prev.statementStartPos_,
                          [=](const chkpt_type& ckpt, slot_type pos) { return ckpt.first < pos; });
     checkpoints_.erase(it, checkpoints_.end());
-#ifdef XAD_TAPE_REUSE_SLOTS
-    reusable_ranges_.erase(prev.startRange_, reusable_ranges_.end());
-#endif
 }
 
 template <class T>
@@ -372,6 +377,11 @@ void Tape<T>::newNestedRecording()
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
+#ifdef XAD_TAPE_REUSE_SLOTS
+    // the nested recording starts without reusable slots, the outer ones are put back at its end
+    outer_ranges_.emplace_back();
+    outer_ranges_.back().splice(outer_ranges_.back().end(), reusable_ranges_);
+#endif
     // std::cout << "new nested recording at stmt " << newr.statementStartPos_
     //    << ", startDer: " << currentRec_->maxDerivative_ << "\n";
 }
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 9cbe13c..0a83e69 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -269,6 +269,7 @@ class Tape
     typedef ReusableRange<slot_type> slot_range_type;
     typedef std::list<slot_range_type> range_list;
     range_list reusable_ranges_;
+    std::vector<range_list> outer_ranges_;  // reusable ranges of the enclosing recordings
     void updateRangeEnds(Tape& o);
 #endif
 
-- 
2.43.0


From ff4067edb16b2a1be0de92fb113231e7a2a3ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 25/51] fix: clearDerivativesAfter at the start of a recording,
 at checkpoints and for slots that are not increasing

---
 src/Tape.cpp     | 29 +++++++++++++++++++++++++----
 src/XAD/Tape.hpp |  2 ++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 7dd7eb9..2b158d6 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -66,7 +66,9 @@ Tape<T>::Tape(Tape&& o) noexcept
       outer_ranges_(std::move(o.outer_ranges_)),
 #endif
       nestedRecordings_(std::move(o.nestedRecordings_)),
-      currentRec_(o.currentRec_)
+      currentRec_(o.currentRec_),
+      recordingStart_(o.recordingStart_),
+      clearedMax_(o.clearedMax_)
 {
 #ifdef XAD_TAPE_REUSE_SLOTS
     updateRangeEnds(o);
@@ -94,6 +96,8 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    recordingStart_ = o.recordingStart_;
+    clearedMax_ = o.clearedMax_;
 #ifdef XAD_TAPE_REUSE_SLOTS
     updateRangeEnds(o);
 #endif
@@ -128,6 +132,7 @@ void Tape<T>::clearAll()
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     nestedRecordings_.push(SubRecording(this));
     currentRec_ = &nestedRecordings_.top();
+    recordingStart_ = clearedMax_ = 0;
 }
 
 template <class T>
@@ -404,6 +409,8 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    recordingStart_ = currentRec_->iDerivative_;
+    clearedMax_ = 0;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -525,6 +532,8 @@ template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
     initDerivatives();  // variables may have been registered since the derivatives were set
+    if (derivatives_.size() < clearedMax_)
+        derivatives_.resize(clearedMax_);
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
@@ -771,9 +780,21 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // keep the variables that existed when the recording started and all recorded up to pos
+    // (slots are not necessarily increasing, and checkpoint statements have none)
+    slot_type keep = (std::max)(currentRec_->startDerivative_, recordingStart_);
+    for (position_type i = 1; i <= pos; ++i)
+    {
+        slot_type slot = statement_[i].second;
+        if (slot != INVALID_SLOT)
+            keep = (std::max)(keep, slot + 1);
+    }
+    if (keep >= currentRec_->maxDerivative_)
+        return;
+    // statements recorded after pos still refer to the slots that are cut off
+    clearedMax_ = (std::max)(clearedMax_, currentRec_->maxDerivative_);
+    derivatives_.resize(keep);
+    currentRec_->maxDerivative_ = keep;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 0a83e69..e54cc08 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -309,6 +309,8 @@ class Tape
     };
     std::stack<SubRecording> nestedRecordings_;
     SubRecording* currentRec_;
+    slot_type recordingStart_ = 0;  // number of slots in use when the recording was started
+    slot_type clearedMax_ = 0;  // number of slots in use before clearDerivativesAfter
 };
 
 template <class T>
-- 
2.43.0


From b9f124e7c24b5f7ed3b3656efbceac23c1192d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 26/51] fix: incrementAdjoint and getAndResetOutputAdjoint used
 stale adjoints after clearing derivatives

---
 src/Tape.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 2b158d6..e6e98e4 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -709,9 +709,10 @@ void Tape<T>::insertCallback(CheckpointCallback<Tape<T> >* cb)
 template <class T>
 void Tape<T>::incrementAdjoint(slot_type slot, const T& x)
 {
-    if (slot >= derivatives_.size())
+    if (slot >= currentRec_->maxDerivative_)
         throw OutOfRange("adjoint to be incremented is out of range");
 
+    initDerivatives();
     derivatives_[slot] += x;
 }
 
@@ -800,9 +801,10 @@ void Tape<T>::clearDerivativesAfter(position_type pos)
 template <class T>
 T Tape<T>::getAndResetOutputAdjoint(slot_type slot)
 {
-    if (slot >= slot_type(derivatives_.size()))
+    if (slot >= currentRec_->maxDerivative_)
         throw OutOfRange("Requested output slot does not exist");
 
+    initDerivatives();
     T ret = derivatives_[slot];
     derivatives_[slot] = 0.0;
     return ret;
-- 
2.43.0


From dc6275673825083f1664560cadd39a7f249c81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 27/51] fix: variables of a checkpoint callback overwrote
 pending adjoints of variables that are gone

---
 src/Tape.cpp     | 53 +++++++++++++++++++++++++++++++++++++++++++++++-
 src/XAD/Tape.hpp |  1 +
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index e6e98e4..4a8d645 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -528,6 +528,54 @@ void Tape<T>::computeAdjoints()
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
 }
 
+// Slots of variables that do not exist any more may still hold adjoints that the statements before
+// a checkpoint need. Therefore the variables a callback registers get slots after all used ones.
+template <class T>
+struct Tape<T>::CallbackScope
+{
+    explicit CallbackScope(Tape& t)
+        : t_(t),
+          numDerivatives_(t.currentRec_->numDerivatives_),
+          iDerivative_(t.currentRec_->iDerivative_),
+          maxDerivative_(t.currentRec_->maxDerivative_)
+    {
+        t_.currentRec_->iDerivative_ = maxDerivative_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        t_.outer_ranges_.emplace_back();
+        t_.outer_ranges_.back().splice(t_.outer_ranges_.back().end(), t_.reusable_ranges_);
+        t_.currentRec_->startRange_ = t_.currentRec_->latestRange_ = t_.reusable_ranges_.end();
+#endif
+    }
+
+    ~CallbackScope()
+    {
+        // normally all variables of the callback are gone now
+        bool restore = t_.currentRec_->numDerivatives_ <= numDerivatives_;
+        if (restore)
+        {
+            t_.currentRec_->iDerivative_ = iDerivative_;
+            t_.currentRec_->maxDerivative_ = maxDerivative_;
+            if (t_.derivatives_.size() > maxDerivative_)
+                t_.derivatives_.resize(maxDerivative_);
+        }
+#ifdef XAD_TAPE_REUSE_SLOTS
+        if (restore)
+            t_.reusable_ranges_.clear();
+        t_.reusable_ranges_.splice(t_.reusable_ranges_.begin(), t_.outer_ranges_.back());
+        t_.outer_ranges_.pop_back();
+        t_.currentRec_->startRange_ = t_.reusable_ranges_.begin();
+        t_.currentRec_->latestRange_ = t_.reusable_ranges_.end();
+#endif
+    }
+
+    CallbackScope(const CallbackScope&) = delete;
+    CallbackScope& operator=(const CallbackScope&) = delete;
+
+  private:
+    Tape& t_;
+    slot_type numDerivatives_, iDerivative_, maxDerivative_;
+};
+
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
@@ -555,7 +603,10 @@ void Tape<T>::computeAdjointsTo(position_type pos)
         // subrecording
         currentRec_->prevMax_ = currentRec_->maxDerivative_;
 
-        cb->computeAdjoint(this);
+        {
+            CallbackScope scope(*this);
+            cb->computeAdjoint(this);
+        }
         currentRec_->prevMax_ = INVALID_SLOT;
         // std::cout << "********Reset to " << end-1 << std::endl;
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index e54cc08..9eabf6a 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -275,6 +275,7 @@ class Tape
 
     void foldSubrecordings();
     void foldSubrecording();
+    struct CallbackScope;
 
     struct SubRecording
     {
-- 
2.43.0


From 3da46e3c78a4581bc1556ffe93b288bcc5448e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 28/51] fix: reading the derivative of a variable registered
 after seeding through a const tape read past the end

---
 src/Tape.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 4a8d645..802d989 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -461,6 +461,11 @@ const T& Tape<T>::derivative(slot_type s) const
             "attempt to get derivative value from const object without setting "
             "derivatives first");
 #endif
+    if (s >= derivatives_.size())  // registered since the derivatives were set
+    {
+        static const T zero = T();
+        return zero;
+    }
     return derivatives_[s];
 }
 
-- 
2.43.0


From 5be6db0e68361e30b2a57e57e6b233596911acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 29/51] fix: segments whose size is not a multiple of the
 alignment were requested from aligned_alloc

---
 src/XAD/ChunkContainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index ece750d..efa4da2 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -100,8 +100,8 @@ namespace detail
 {
 inline void* aligned_alloc(size_t alignment, size_t size)
 {
-    if (size < alignment)
-        size = alignment;
+    // the size has to be a multiple of the alignment
+    size = (size + alignment - 1) / alignment * alignment;
     return ::aligned_alloc(alignment, size);
 }
 inline void aligned_free(void* p) { free(p); }
-- 
2.43.0


From 3e8f8f9816ea28bdc6ff69b94e35520779777159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 30/51] fix: Jacobian and Hessian of functions without inputs
 or outputs read past the matrix, and wrong sizes of rows after the first one
 were not rejected

---
 src/XAD/Hessian.hpp  | 12 ++++++++----
 src/XAD/Jacobian.hpp | 10 ++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..f62cce2 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -56,9 +56,11 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+    if (std::distance(first, last) != domain)
         throw OutOfRange("Iterator not allocated enough space");
+    for (auto it = first; it != last; ++it)
+        if (std::distance(it->cbegin(), it->cend()) != domain)
+            throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
     std::unique_ptr<Tape<FReal<T>>> t;
@@ -109,9 +111,11 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+    if (std::distance(first, last) != domain)
         throw OutOfRange("Iterator not allocated enough space");
+    for (auto it = first; it != last; ++it)
+        if (std::distance(it->cbegin(), it->cend()) != domain)
+            throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..1952878 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,8 +53,9 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
-        throw OutOfRange("Iterator not allocated enough space (domain)");
+    for (auto it = first; it != last; ++it)
+        if (std::distance(it->cbegin(), it->cend()) != vec.size())
+            throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
     std::unique_ptr<Tape<T>> t;
@@ -104,8 +105,9 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
-        throw OutOfRange("Iterator not allocated enough space (domain)");
+    for (auto it = first; it != last; ++it)
+        if (std::distance(it->cbegin(), it->cend()) != vec.size())
+            throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
-- 
2.43.0


From 49459007f151e2a7cc42b00305c1ef7c5b2166f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 31/51] fix: Jacobian and Hessian drivers mixed derivatives
 carried by the given inputs into the result

---
 src/XAD/Hessian.hpp  | 8 ++++++++
 src/XAD/Jacobian.hpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index f62cce2..5244980 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -71,6 +71,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     }
 
     auto v(vec);
+    // the derivatives that the given inputs may carry do not belong to the Hessian
+    for (auto &x : v) derivative(value(x)) = T();
     tape->registerInputs(v);
 
     auto row = first;
@@ -120,6 +122,12 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    // the derivatives that the given inputs may carry do not belong to the Hessian
+    for (auto &x : v)
+    {
+        derivative(value(x)) = T();
+        derivative(x) = FReal<T>();
+    }
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1952878..452039c 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -112,6 +112,8 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    // the derivatives that the given inputs may carry do not belong to the Jacobian
+    for (auto &x : v) derivative(x) = T();
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(foo(v).size());
 
-- 
2.43.0


From abd776adda64a8ab69091d325595a710297b83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 32/51] fix: multiplying or dividing a complex number by its
 own real part changed the divisor half way

---
 src/XAD/Complex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..547c47b 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
-        base::real() *= other;
+        T real_t = base::real() * other;  // other may refer to the real or imaginary part
         base::imag() *= other;
+        base::real(real_t);
         return derived();
     }
 
@@ -176,8 +177,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
-        base::real() /= other;
+        T real_t = base::real() / other;  // other may refer to the real or imaginary part
         base::imag() /= other;
+        base::real(real_t);
         return derived();
     }
 
-- 
2.43.0


From 91485d13ecb6618bc28e377cc3dc0c701d0b8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 33/51] fix: pow of a negative real number and a complex
 exponent was NaN

---
 src/XAD/Complex.hpp | 54 +++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 547c47b..b978f68 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -332,6 +332,9 @@ template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta);
 
+template <class T>
+XAD_INLINE std::complex<T> pow_real_impl(const T& x, const std::complex<T>& y);
+
 template <class T>
 XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z);
 
@@ -1831,68 +1834,68 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(xad::AReal<T>(x), y);
 }
 
 template <class T>
@@ -1984,68 +1987,68 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(xad::FReal<T>(x), y);
 }
 
 template <class T>
@@ -2266,6 +2269,13 @@ XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
     return std::complex<T>(e * cos(z.imag()), e * sin(z.imag()));
 }
 
+template <class T>
+XAD_INLINE std::complex<T> pow_real_impl(const T& x, const std::complex<T>& y)
+{
+    // the real logarithm is only defined for positive numbers
+    return x > 0.0 ? exp_impl(log(x) * y) : pow(std::complex<T>(x), y);
+}
+
 template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta)
-- 
2.43.0


From a8c5eb420f4bfdd7323c49926c2f845e43f327ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 34/51] fix: pow of complex zero lost or corrupted value and
 derivatives

---
 src/XAD/Complex.hpp | 72 ++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index b978f68..ec7571c 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -332,6 +332,12 @@ template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta);
 
+template <class T, class Y>
+XAD_INLINE std::complex<T> pow_impl(const std::complex<T>& x, const Y& y);
+
+template <class T>
+XAD_INLINE std::complex<T> pow_impl(const std::complex<T>& x, const std::complex<T>& y);
+
 template <class T>
 XAD_INLINE std::complex<T> pow_real_impl(const T& x, const std::complex<T>& y);
 
@@ -1749,13 +1755,13 @@ template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x,
                                       const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, const xad::AReal<T>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
@@ -1773,62 +1779,62 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<T>& x, const complex<xad::AR
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, const T& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const complex<xad::AReal<T>>& x, const T2& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, int y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
@@ -1902,7 +1908,7 @@ template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x,
                                       const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
@@ -1920,68 +1926,68 @@ XAD_INLINE complex<xad::FReal<T>> pow(const complex<T>& x, const complex<xad::FR
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, const xad::FReal<T>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, const T& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, int y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::pow_impl(x, T(y));
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const complex<xad::FReal<T>>& x, const T2& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
@@ -2269,6 +2275,24 @@ XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
     return std::complex<T>(e * cos(z.imag()), e * sin(z.imag()));
 }
 
+// pow(0, y) is zero for exponents with positive real part, and only pow(0, 1) varies with the base;
+// the logarithm is not defined here
+template <class T, class Y>
+XAD_INLINE std::complex<T> pow_impl(const std::complex<T>& x, const Y& y)
+{
+    if (x.real() == 0.0 && x.imag() == 0.0 && y > 0.0)
+        return x * T(y == 1.0 ? 1.0 : 0.0);
+    return exp_impl(log(x) * y);
+}
+
+template <class T>
+XAD_INLINE std::complex<T> pow_impl(const std::complex<T>& x, const std::complex<T>& y)
+{
+    if (x.real() == 0.0 && x.imag() == 0.0 && y.real() > 0.0)
+        return x * T(y.real() == 1.0 && y.imag() == 0.0 ? 1.0 : 0.0);
+    return exp_impl(log(x) * y);
+}
+
 template <class T>
 XAD_INLINE std::complex<T> pow_real_impl(const T& x, const std::complex<T>& y)
 {
-- 
2.43.0


From 38b89cac98efdbe35ee197fa1e7eb8a5967726d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 35/51] fix: derivatives of complex acos, atan and atanh at
 zero were dropped

---
 src/XAD/Complex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index ec7571c..d341c5e 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2502,7 +2502,7 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
+            return z;
         if (xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
@@ -2551,7 +2551,8 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
+            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5 - z.real(),
+                                   -z.imag());
         if (xad::isnan(z.imag()))
             return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                    -std::numeric_limits<nested>::quiet_NaN());
-- 
2.43.0


From 7e33924d7f7b3084cb11bd1e79aa4d7acfcdec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 36/51] fix: complex tan and tanh overflowed to NaN for large
 arguments

---
 src/XAD/Complex.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index d341c5e..9ecba10 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2403,6 +2403,17 @@ XAD_INLINE std::complex<T> tanh_impl(const std::complex<T>& z)
         return std::complex<T>(1.0, 0.0);
     if (xad::isnan(z.real()) && z.imag() == 0.0)
         return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
+    // avoid overflow of sinh and cosh
+    if (z.real() > 9.0)
+    {
+        std::complex<T> e = exp(-(z + z));
+        return (T(1.0) - e) / (T(1.0) + e);
+    }
+    if (z.real() < -9.0)
+    {
+        std::complex<T> e = exp(z + z);
+        return (e - T(1.0)) / (e + T(1.0));
+    }
     return sinh(z) / cosh(z);
 }
 
-- 
2.43.0


From c74a7d8869e9a3b689ca81e8423a78404ec5cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 37/51] fix: cancellation in complex sinh and sin of small
 arguments

---
 src/XAD/Complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 9ecba10..c835422 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2353,6 +2353,9 @@ XAD_INLINE std::complex<T> sinh_impl(const std::complex<T>& z)
         if ((xad::isinf(z.imag()) && z.imag() > 0.0) || xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
+    if (xad::isfinite(z.real()) && xad::isfinite(z.imag()))
+        return std::complex<T>(::xad::sinh(z.real()) * ::xad::cos(z.imag()),
+                               ::xad::cosh(z.real()) * ::xad::sin(z.imag()));
     return (exp(z) - exp(-z)) / T(2.0);
 }
 
-- 
2.43.0


From bbc1706c64457c5a4b7e7881fcc4a828694e8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 38/51] fix: cancellation in complex cosh and cos of small
 arguments

---
 src/XAD/Complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index c835422..5e5b9d3 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2374,6 +2374,9 @@ XAD_INLINE std::complex<T> cosh_impl(const std::complex<T>& z)
         if ((xad::isinf(z.imag()) && z.imag() > 0.0) || xad::isnan(z.imag()))
             return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
     }
+    if (xad::isfinite(z.real()) && xad::isfinite(z.imag()))
+        return std::complex<T>(::xad::cosh(z.real()) * ::xad::cos(z.imag()),
+                               ::xad::sinh(z.real()) * ::xad::sin(z.imag()));
     return (exp(z) + exp(-z)) / T(2.0);
 }
 
-- 
2.43.0


From a76631ca1c82e074605ede92363838438eda4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 39/51] fix: cancellation in complex asinh and asin, wrong for
 large arguments with negative real or imaginary part

---
 src/XAD/Complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 5e5b9d3..153494d 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2449,6 +2449,9 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
     if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
+    // asinh is odd, and the logarithm suffers from cancellation for negative real parts
+    if (z.real() < 0.0)
+        return -asinh_impl(std::complex<T>(-z));
     return log(z + sqrt(T(1.0) + (z * z)));
 }
 
-- 
2.43.0


From 141f50036e7949a2a1f36ea81ba23e4fd0ebc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 40/51] fix: cancellation in complex acos for positive
 imaginary parts

---
 src/XAD/Complex.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 153494d..71ba1ef 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2614,10 +2614,7 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
                                    -std::numeric_limits<nested>::infinity());
     }
 
-    std::complex<T> iz(-z.imag(), z.real());
-    std::complex<T> lnizsqrt = log(iz + sqrt(T(1.0) - (z * z)));
-    std::complex<T> ilnizsqrt(-lnizsqrt.imag(), lnizsqrt.real());
-    return T(3.141592653589793238462643383279502884197169399 * 0.5) + ilnizsqrt;
+    return T(3.141592653589793238462643383279502884197169399 * 0.5) - asin(z);
 }
 
 template <class T>
-- 
2.43.0


From 57e801a31b208e7727994dc957095c0b2de6f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 41/51] fix: stream input into an active variable kept the
 derivatives of the overwritten value

---
 src/XAD/Literals.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Literals.hpp b/src/XAD/Literals.hpp
index eae156a..8175f1b 100644
--- a/src/XAD/Literals.hpp
+++ b/src/XAD/Literals.hpp
@@ -578,13 +578,29 @@ XAD_INLINE std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os,
 template <class C, class T, class Scalar>
 XAD_INLINE std::basic_istream<C, T>& operator>>(std::basic_istream<C, T>& is, AReal<Scalar>& x)
 {
-    return is >> value(x);
+    // assign the number, so that x doesn't keep the derivatives of its previous value
+    typename std::basic_istream<C, T>::sentry ready(is);
+    if (ready)
+    {
+        typename AReal<Scalar>::nested_type v = 0;
+        is >> v;
+        x = v;
+    }
+    return is;
 }
 
 template <class C, class T, class Scalar>
 XAD_INLINE std::basic_istream<C, T>& operator>>(std::basic_istream<C, T>& is, FReal<Scalar>& x)
 {
-    return is >> value(x);
+    // assign the number, so that x doesn't keep the derivatives of its previous value
+    typename std::basic_istream<C, T>::sentry ready(is);
+    if (ready)
+    {
+        typename FReal<Scalar>::nested_type v = 0;
+        is >> v;
+        x = v;
+    }
+    return is;
 }
 
 typedef AReal<double> AD;
-- 
2.43.0


From a8e9fe1309babb0f9507f3a1127e803ebe54d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 42/51] fix: complex asinh did not compile with
 XAD_USE_STRONG_INLINE in GCC

---
 src/XAD/Complex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 71ba1ef..2e73373 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2451,7 +2451,10 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
                                3.141592653589793238462643383279502884197169399 * 0.5);
     // asinh is odd, and the logarithm suffers from cancellation for negative real parts
     if (z.real() < 0.0)
-        return -asinh_impl(std::complex<T>(-z));
+    {
+        const std::complex<T> w(-z);
+        return -log(w + sqrt(T(1.0) + (w * w)));
+    }
     return log(z + sqrt(T(1.0) + (z * z)));
 }
 
-- 
2.43.0


From a104812dd7765eef414904a7718dce94e1305716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 43/51] fix: std::real and std::imag returned copies for
 non-const active complex numbers

---
 src/XAD/Complex.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2e73373..bfa981f 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -422,6 +422,18 @@ XAD_INLINE T& real(std::complex<xad::ADTypeBase<Scalar, T>>& z)
     return z.derived().real();
 }
 
+template <class T>
+XAD_INLINE xad::AReal<T>& real(std::complex<xad::AReal<T>>& z)
+{
+    return z.real();
+}
+
+template <class T>
+XAD_INLINE xad::FReal<T>& real(std::complex<xad::FReal<T>>& z)
+{
+    return z.real();
+}
+
 template <class Scalar, class Expr>
 XAD_INLINE typename xad::ExprTraits<Expr>::value_type real(
     const xad::Expression<Scalar, Expr>& other)
@@ -441,6 +453,18 @@ XAD_INLINE T& imag(std::complex<xad::ADTypeBase<Scalar, T>>& z)
     return z.derived().imag();
 }
 
+template <class T>
+XAD_INLINE xad::AReal<T>& imag(std::complex<xad::AReal<T>>& z)
+{
+    return z.imag();
+}
+
+template <class T>
+XAD_INLINE xad::FReal<T>& imag(std::complex<xad::FReal<T>>& z)
+{
+    return z.imag();
+}
+
 template <class Scalar, class Expr>
 XAD_INLINE typename xad::ExprTraits<Expr>::value_type imag(const xad::Expression<Scalar, Expr>&)
 {
-- 
2.43.0


From 0af21a8f7c8e373ec0fbd52c669463625831174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 44/51] fix: checkpoint callbacks after clearDerivativesAfter
 lost adjoints or failed

---
 src/Tape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 802d989..8c97b53 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -584,9 +584,9 @@ struct Tape<T>::CallbackScope
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    // statements may refer to slots that clearDerivativesAfter has cut off
+    currentRec_->maxDerivative_ = (std::max)(clearedMax_, currentRec_->maxDerivative_);
     initDerivatives();  // variables may have been registered since the derivatives were set
-    if (derivatives_.size() < clearedMax_)
-        derivatives_.resize(clearedMax_);
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From f38992f704bcc8bcc3ca41a941e49d5d8fb34f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 45/51] fix: nested recordings outside of checkpoint callbacks
 failed or dropped derivatives

---
 src/Tape.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 8c97b53..629b809 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -372,8 +372,19 @@ void Tape<T>::newNestedRecording()
     newr.latestRange_ = newr.startRange_;
 #endif
     // clearDerivativesAfter(position_type(statement_.size())-1);
-    derivatives_.resize(currentRec_->prevMax_);
-    currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    if (currentRec_->prevMax_ != INVALID_SLOT)
+    {
+        // within a callback: the variables it has registered belong to the nested recording
+        derivatives_.resize(currentRec_->prevMax_);
+        currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    }
+    else
+    {
+        // keep all derivatives of this recording, the nested one uses slots after them
+        initDerivatives();
+        newr.iDerivative_ = (std::max)(currentRec_->iDerivative_, currentRec_->maxDerivative_);
+    }
+    newr.prevMax_ = INVALID_SLOT;
 
     newr.statementStartPos_ = slot_type(statement_.size());
     newr.opStartPos_ = slot_type(multiplier_.size());
-- 
2.43.0


From 155df4b8feaf9a2df338c61795d11893a65737cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 46/51] fix: values of max and min of higher-order types for
 huge, tiny and infinite operands

---
 src/XAD/BinaryMathFunctors.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index f917e0e..0c0f212 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -108,7 +108,20 @@ struct smooth_abs_op
 
 //////// max
 
-// need this complicated expression to have a kind-of smooth 2nd derivative
+namespace detail
+{
+// max and min of operands of which none is less than the other: their common value, with the average
+// of their derivatives, for a kind-of smooth 2nd derivative
+template <class Scalar>
+XAD_INLINE Scalar tied_value(const Scalar& a, const Scalar& b)
+{
+    Scalar diff = b - a;
+    if (diff == Scalar())
+        return a + diff / Scalar(2);
+    return a + b;  // infinities or NaN
+}
+}  // namespace detail
+
 template <class Scalar>
 struct max_op
 {
@@ -116,8 +129,12 @@ struct max_op
     {
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? b : a;
+        else if (a < b)
+            return b;
+        else if (b < a)
+            return a;
         else
-            return (a + b + abs(a - b)) / Scalar(2);
+            return detail::tied_value(a, b);
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
@@ -164,8 +181,12 @@ struct min_op
     {
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? a : b;
+        else if (a < b)
+            return a;
+        else if (b < a)
+            return b;
         else
-            return (a + b - abs(a - b)) / Scalar(2);
+            return detail::tied_value(a, b);
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
-- 
2.43.0


From 3fd9553fde5ee7149cf0ec400c7238da75c28310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 47/51] fix: complex sqrt of numbers near the negative real
 axis, and asinh/asin/acosh on branch cuts

---
 src/XAD/Complex.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index bfa981f..653e37b 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2359,7 +2359,11 @@ XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                std::numeric_limits<nested>::infinity());
 
-    return ::xad::detail::polar_impl(sqrt(abs(z)), arg(z) * T(0.5));
+    std::complex<T> ret = ::xad::detail::polar_impl(sqrt(abs(z)), arg(z) * T(0.5));
+    // the cosine of an angle close to pi/2 has no correct digits, and possibly the wrong sign
+    if (z.real() < 0.0 && xad::isfinite(z.real()) && xad::isfinite(z.imag()))
+        ret.real(T(z.imag() / (T(2.0) * ret.imag())));
+    return ret;
 }
 
 template <class T>
@@ -2474,7 +2478,7 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
     // asinh is odd, and the logarithm suffers from cancellation for negative real parts
-    if (z.real() < 0.0)
+    if (xad::signbit(z.real()))
     {
         const std::complex<T> w(-z);
         return -log(w + sqrt(T(1.0) + (w * w)));
-- 
2.43.0


From bb8d5bb89e7581f0ed6e151e4039d4bb73d68589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 48/51] fix: a callback that throws no longer leaves the tape
 in callback mode

---
 src/Tape.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 629b809..2adc49c 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -556,6 +556,9 @@ struct Tape<T>::CallbackScope
           maxDerivative_(t.currentRec_->maxDerivative_)
     {
         t_.currentRec_->iDerivative_ = maxDerivative_;
+        // keep the prevMax stored, so we can resize the der. vector on a
+        // subrecording
+        t_.currentRec_->prevMax_ = maxDerivative_;
 #ifdef XAD_TAPE_REUSE_SLOTS
         t_.outer_ranges_.emplace_back();
         t_.outer_ranges_.back().splice(t_.outer_ranges_.back().end(), t_.reusable_ranges_);
@@ -565,6 +568,7 @@ struct Tape<T>::CallbackScope
 
     ~CallbackScope()
     {
+        t_.currentRec_->prevMax_ = INVALID_SLOT;  // also when the callback throws
         // normally all variables of the callback are gone now
         bool restore = t_.currentRec_->numDerivatives_ <= numDerivatives_;
         if (restore)
@@ -615,15 +619,10 @@ void Tape<T>::computeAdjointsTo(position_type pos)
 
         resetTo(end - 1);  // removes up to and incl. the checkpoint from statements
 
-        // keep the prevMax stored, so we can resize the der. vector on a
-        // subrecording
-        currentRec_->prevMax_ = currentRec_->maxDerivative_;
-
         {
             CallbackScope scope(*this);
             cb->computeAdjoint(this);
         }
-        currentRec_->prevMax_ = INVALID_SLOT;
         // std::cout << "********Reset to " << end-1 << std::endl;
 
         resetTo(end - 1);  // another reset, in case the checkpoint added to the tape again
-- 
2.43.0


From bdd96b6c2d420b2387409a6e8e8b83d9e8b863e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 49/51] fix: Jacobian and Hessian drivers hand a copy of the
 inputs to functions which modify their argument

---
 src/XAD/Hessian.hpp  |  6 ++++--
 src/XAD/Jacobian.hpp | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 5244980..52e20ca 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -80,7 +80,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        auto w(v);  // the function may modify its argument
+        AReal<FReal<T>> y = foo(w);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -137,7 +138,8 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
         for (unsigned int j = 0; j < domain; j++, col++)
         {
             derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            auto w(v);  // the function may modify its argument
+            FReal<FReal<T>> y = foo(w);
             *col = derivative(derivative(y));
             derivative(value(v[j])) = 0.0;
         }
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 452039c..4d82374 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -42,7 +42,7 @@ std::vector<std::vector<T>> computeJacobian(
     Tape<T> *tape = Tape<T>::getActive())
 {
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
     return matrix;
 }
@@ -69,7 +69,8 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
 
     tape->registerInputs(v);
     tape->newRecording();
-    auto y = foo(v);
+    auto w(v);  // the function may modify its argument
+    auto y = foo(w);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(y.size());
     if (std::distance(first, last) != codomain)
@@ -94,7 +95,7 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo)
 {
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix));
     return matrix;
 }
@@ -115,7 +116,11 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     // the derivatives that the given inputs may carry do not belong to the Jacobian
     for (auto &x : v) derivative(x) = T();
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain = 0;
+    {
+        auto w(v);  // the function may modify its argument
+        codomain = static_cast<unsigned int>(foo(w).size());
+    }
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
@@ -124,7 +129,8 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     for (unsigned int i = 0; i < domain; i++)
     {
         derivative(v[i]) = 1.0;
-        auto y = foo(v);
+        auto w(v);
+        auto y = foo(w);
         derivative(v[i]) = 0.0;
         for (unsigned int j = 0; j < codomain; j++)
         {
-- 
2.43.0


From 29b7162cfc1756ff0bbfc5dc0f6180569046cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 50/51] fix: registerOutputs of vectors of complex values
 compiles

---
 src/XAD/Tape.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 9eabf6a..8212dd1 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -157,9 +157,10 @@ class Tape
         while (first != last) registerInput(*first++);
     }
 
-    XAD_INLINE void registerOutputs(std::vector<active_type>& v)
+    template <class Inner>
+    XAD_INLINE void registerOutputs(std::vector<Inner>& v)
     {
-        for (auto& x : v) registerOutput(x);
+        registerOutputs(v.begin(), v.end());
     }
 
     template <class It>
-- 
2.43.0


From 6d502571fd8145ab21bcc6b2aa140c267b584eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 51/51] fix: complex functions of infinite and NaN operands
 return the values of std::complex

---
 src/XAD/Complex.hpp | 268 ++++++++++----------------------------------
 1 file changed, 58 insertions(+), 210 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 653e37b..58d1074 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2259,6 +2259,33 @@ XAD_INLINE T abs_impl(const std::complex<T>& x)
     return xad::hypot(x.real(), x.imag());
 }
 
+template <class T>
+XAD_INLINE bool is_finite_impl(const std::complex<T>& z)
+{
+    return xad::isfinite(z.real()) && xad::isfinite(z.imag());
+}
+
+XAD_INLINE float plain_value(float x) { return x; }
+XAD_INLINE double plain_value(double x) { return x; }
+XAD_INLINE long double plain_value(long double x) { return x; }
+
+template <class T>
+XAD_INLINE typename xad::ExprTraits<T>::nested_type plain_value(const T& x)
+{
+    return plain_value(value(x));
+}
+
+// the result for infinite and NaN operands is the one of the underlying type, there are no
+// derivatives
+template <class T, class F>
+XAD_INLINE std::complex<T> plain_impl(const std::complex<T>& z, F f)
+{
+    typedef typename xad::ExprTraits<T>::nested_type nested;
+    const std::complex<nested> ret =
+        f(std::complex<nested>(plain_value(z.real()), plain_value(z.imag())));
+    return std::complex<T>(T(ret.real()), T(ret.imag()));
+}
+
 template <class T>
 XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
 {
@@ -2271,26 +2298,21 @@ XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
         if (z.real() > 0.0)
         {
             if (z.imag() == 0.0)
-                return std::complex<T>(std::numeric_limits<nested>::infinity(), 0.0);
-            if (xad::isinf(z.imag()) && z.imag() > 0.0)
-                return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                       std::numeric_limits<nested>::quiet_NaN());
-            if (xad::isnan(z.imag()))
+                return std::complex<T>(T(std::numeric_limits<nested>::infinity()), z.imag());
+            if (!xad::isfinite(z.imag()))
                 return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                        std::numeric_limits<nested>::quiet_NaN());
         }
         else
         {
-            if (xad::isinf(z.imag()) && z.imag() > 0.0)
-                return std::complex<T>(0.0, 0.0);
-            if (xad::isnan(z.imag()))
+            if (!xad::isfinite(z.imag()))
                 return std::complex<T>(0.0, 0.0);
         }
     }
     else if (xad::isnan(z.real()))
     {
-        if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
+        if (z.imag() == 0.0)
+            return std::complex<T>(T(std::numeric_limits<nested>::quiet_NaN()), z.imag());
         else
             return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
                                    std::numeric_limits<nested>::quiet_NaN());
@@ -2338,30 +2360,12 @@ template <class T>
 XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (xad::isinf(z.real()) && z.real() < 0.0)
-    {
-        if (xad::isfinite(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(0.0, std::numeric_limits<nested>::infinity());
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::infinity());
-    }
-    if (xad::isinf(z.real()) && z.real() > 0.0)
-    {
-        if (xad::isfinite(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::infinity(), 0.0);
-
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-    }
-    if (xad::isinf(z.imag()) && z.imag() > 0.0)
-        return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                               std::numeric_limits<nested>::infinity());
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return sqrt(w); });
 
     std::complex<T> ret = ::xad::detail::polar_impl(sqrt(abs(z)), arg(z) * T(0.5));
     // the cosine of an angle close to pi/2 has no correct digits, and possibly the wrong sign
-    if (z.real() < 0.0 && xad::isfinite(z.real()) && xad::isfinite(z.imag()))
+    if (z.real() < 0.0)
         ret.real(T(z.imag() / (T(2.0) * ret.imag())));
     return ret;
 }
@@ -2370,73 +2374,28 @@ template <class T>
 XAD_INLINE std::complex<T> sinh_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    auto cls = xad::fpclassify(z.real());
-    if (cls == FP_INFINITE && xad::isinf(z.imag()) && z.real() > 0.0 && z.imag() > 0.0)
-        return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                               std::numeric_limits<nested>::quiet_NaN());
-    if (cls == FP_NAN && z.imag() == 0.0 && !xad::signbit(z.imag()))
-        return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
-    if (cls == FP_ZERO && !xad::signbit(z.real()))
-    {
-        if ((xad::isinf(z.imag()) && z.imag() > 0.0) || xad::isnan(z.imag()))
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-    }
-    if (xad::isfinite(z.real()) && xad::isfinite(z.imag()))
-        return std::complex<T>(::xad::sinh(z.real()) * ::xad::cos(z.imag()),
-                               ::xad::cosh(z.real()) * ::xad::sin(z.imag()));
-    return (exp(z) - exp(-z)) / T(2.0);
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return sinh(w); });
+    return std::complex<T>(::xad::sinh(z.real()) * ::xad::cos(z.imag()),
+                           ::xad::cosh(z.real()) * ::xad::sin(z.imag()));
 }
 
 template <class T>
 XAD_INLINE std::complex<T> cosh_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    auto cls = xad::fpclassify(z.real());
-    if (cls == FP_INFINITE && xad::isinf(z.imag()) && z.real() > 0.0 && z.imag() > 0.0)
-        return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                               std::numeric_limits<nested>::quiet_NaN());
-    if (cls == FP_NAN && z.imag() == 0.0 && !xad::signbit(z.imag()))
-        return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
-    if (cls == FP_ZERO && !xad::signbit(z.real()))
-    {
-        if ((xad::isinf(z.imag()) && z.imag() > 0.0) || xad::isnan(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
-    }
-    if (xad::isfinite(z.real()) && xad::isfinite(z.imag()))
-        return std::complex<T>(::xad::cosh(z.real()) * ::xad::cos(z.imag()),
-                               ::xad::sinh(z.real()) * ::xad::sin(z.imag()));
-    return (exp(z) + exp(-z)) / T(2.0);
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return cosh(w); });
+    return std::complex<T>(::xad::cosh(z.real()) * ::xad::cos(z.imag()),
+                           ::xad::sinh(z.real()) * ::xad::sin(z.imag()));
 }
 
 template <class T>
 XAD_INLINE std::complex<T> tanh_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (z.real() == 0.0)
-    {
-        if (xad::isinf(z.imag()) && z.imag() > 0.0)
-        {
-#if defined(__APPLE__) || (defined(__GLIBC__) && __GLIBC__ == 2 && __GLIBC_MINOR__ < 27)
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-#else
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-#endif
-        }
-        if (xad::isnan(z.imag()))
-        {
-#if defined(__APPLE__) | (defined(__GLIBC__) && __GLIBC__ == 2 && __GLIBC_MINOR__ < 27)
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-#else
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-#endif
-        }
-    }
-    if (xad::isinf(z.real()) && z.real() > 0.0 && (z.imag() > 0.0 || xad ::isnan(z.imag())))
-        return std::complex<T>(1.0, 0.0);
-    if (xad::isnan(z.real()) && z.imag() == 0.0)
-        return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return tanh(w); });
     // avoid overflow of sinh and cosh
     if (z.real() > 9.0)
     {
@@ -2455,28 +2414,8 @@ template <class T>
 XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (xad::isinf(z.real()) && z.real() > 0.0)
-    {
-        if (xad::isinf(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   3.141592653589793238462643383279502884197169399 * 0.25);
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-        if (z.imag() > 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::infinity(), 0.0);
-    }
-    if (xad::isnan(z.real()))
-    {
-        if (xad::isinf(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-        if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
-    }
-    if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
-        return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                               3.141592653589793238462643383279502884197169399 * 0.5);
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return asinh(w); });
     // asinh is odd, and the logarithm suffers from cancellation for negative real parts
     if (xad::signbit(z.real()))
     {
@@ -2490,43 +2429,8 @@ template <class T>
 XAD_INLINE std::complex<T> acosh_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (xad::isinf(z.imag()) && z.imag() > 0.0)
-    {
-        if (xad::isfinite(z.real()))
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   3.141592653589793238462643383279502884197169399 * 0.5);
-        if (xad::isinf(z.real()) && z.real() < 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   3.141592653589793238462643383279502884197169399 * 0.75);
-    }
-    if (xad::isnan(z.imag()))
-    {
-        if (z.real() == 0.0)
-#if defined(__APPLE__) | (defined(__GLIBC__) && __GLIBC__ == 2 && __GLIBC_MINOR__ < 27)
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-#else
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   3.141592653589793238462643383279502884197169399 * 0.5);
-#endif
-        else if (xad::isinf(z.real()))
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-        else
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-    }
-    if (xad::isinf(z.real()) && xad::isfinite(z.imag()) && z.imag() > 0.0)
-    {
-        if (z.real() < 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                                   3.141592653589793238462643383279502884197169399);
-        else
-            return std::complex<T>(std::numeric_limits<nested>::infinity(), +0.0);
-    }
-    if (xad::isnan(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
-        return std::complex<T>(std::numeric_limits<nested>::infinity(),
-                               std::numeric_limits<nested>::quiet_NaN());
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return acosh(w); });
 
     return log(z + sqrt(z + T(1.0)) * sqrt(z - T(1.0)));
 }
@@ -2535,28 +2439,12 @@ template <class T>
 XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (xad::isinf(z.real()) && z.real() > 0.0)
-    {
-        if (xad::isinf(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-        if (xad::isfinite(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
-    }
-    if (xad::isnan(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
-        return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return atanh(w); });
     if (z.real() == 1.0 && z.imag() == 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(), 0.0);
-    if (z.real() > 0.0 && xad::isfinite(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
-        return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
-    if (z.real() == 0.0)
-    {
-        if (z.imag() == 0.0)
-            return z;
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-    }
+    if (z.real() == 0.0 && z.imag() == 0.0)
+        return z;
     return (log(T(1.0) + z) - log(T(1.0) - z)) / T(2.0);
 }
 
@@ -2599,51 +2487,11 @@ template <class T>
 XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (z.real() == 0.0)
-    {
-        if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5 - z.real(),
-                                   -z.imag());
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
-                                   -std::numeric_limits<nested>::quiet_NaN());
-    }
-    if (xad::isfinite(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
-        return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
-                               -std::numeric_limits<nested>::infinity());
-    if (xad::isinf(z.real()))
-    {
-        if (z.real() < 0.0)
-        {
-
-            if (xad::isfinite(z.imag()) && z.imag() >= 0.0)
-                return std::complex<T>(3.141592653589793238462643383279502884197169399,
-                                       -std::numeric_limits<nested>::infinity());
-            if (xad::isinf(z.imag()) && z.imag() > 0.0)
-                return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.75,
-                                       -std::numeric_limits<nested>::infinity());
-        }
-        else
-        {
-            if (xad::isfinite(z.imag()) && z.imag() >= 0.0)
-                return std::complex<T>(+0.0, -std::numeric_limits<nested>::infinity());
-            if (xad::isinf(z.imag()) && z.imag() > 0.0)
-                return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.25,
-                                       -std::numeric_limits<nested>::infinity());
-        }
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::infinity());
-    }
-    if (xad::isnan(z.real()))
-    {
-        if (xad::isfinite(z.imag()))
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   std::numeric_limits<nested>::quiet_NaN());
-        else if (xad::isinf(z.imag()) && z.imag() > 0.0)
-            return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(),
-                                   -std::numeric_limits<nested>::infinity());
-    }
+    if (!is_finite_impl(z))
+        return plain_impl(z, [](const std::complex<nested>& w) { return acos(w); });
+    if (z.real() == 0.0 && z.imag() == 0.0 && !xad::signbit(z.imag()))
+        return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5 - z.real(),
+                               -z.imag());
 
     return T(3.141592653589793238462643383279502884197169399 * 0.5) - asin(z);
 }
-- 
2.43.0

