From 2c32e044a54a71a35d161774eb9e4c14c95516d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 01/99] fix: accumulate all exception flags in __dfp_set_status

Each test overwrote the mask computed so far, so overflow, underflow and
divide-by-zero were never raised in the floating-point environment.
---
 libbid/bid_decimal_globals.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..ebb97da 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -97,10 +97,10 @@ __dfp_set_status (int excepts) {
   else
     {
       int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
+      fexcepts |= (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
+      fexcepts |= (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
+      fexcepts |= (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
+      fexcepts |= (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
       fesetexcept (fexcepts);
     }
 }
-- 
2.43.0


From 19e51497806e166feb8e1ce244c9d9ca8604bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 02/99] fix: treat non-canonical BID coefficients as zero in
 bid->dpd conversion

_bid_to_dpd32 already does; _bid_to_dpd64 and _bid_to_dpd128 produced
garbage digits (and, for the large-coefficient 128-bit form, a wrong
exponent, infinity or NaN).
---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..4d6e681 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -193,6 +193,7 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
   }
+  if (bcoeff >= 10000000000000000ull) bcoeff = 0; /* non-canonical */
   D61 = 2305843009ull; /* Floor(2^61 / 10^9) */
   /* Multiply the binary coefficient by ceil(2^64 / 1000), and take the upper
      64-bits in order to compute a division by 1000. */
@@ -301,6 +302,14 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
     exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
     bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
     bcoeff.w[0] = x.w[0];
+    if ((comb & 0x18000) == 0x18000) { /* non-canonical, large coefficient */
+      exp = ((x.w[1] & 0x1fff800000000000ull) >> 47) & 0x3fff;
+      bcoeff.w[1] = bcoeff.w[0] = 0;
+    } else if (bcoeff.w[1] > 0x0001ed09bead87c0ull
+	       || (bcoeff.w[1] == 0x0001ed09bead87c0ull
+		   && bcoeff.w[0] >= 0x378d8e6400000000ull)) {
+      bcoeff.w[1] = bcoeff.w[0] = 0; /* non-canonical, 10^34 or more */
+    }
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
-- 
2.43.0


From ada8dbe81a023b607fec5a648d7206a9f09e0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 03/99] fix: correct the non-canonical threshold in
 __get_digits_d128

10^34 is 0x1ed09bead87c0378d8e6400000000, not 10^15 * 2^64: coefficients
in between were printed as numbers although they encode zero.
---
 sysdeps/bid/bid-private.c | 3 ++-
 sysdeps/bid/bid-private.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sysdeps/bid/bid-private.c b/sysdeps/bid/bid-private.c
index a95781a..3c55a55 100644
--- a/sysdeps/bid/bid-private.c
+++ b/sysdeps/bid/bid-private.c
@@ -197,7 +197,8 @@ __get_digits_d128 (_Decimal128 x, char *str, int *exp_p, int *sign_p,
       result[0] |= d.ti[0] & 0xFFFFFFFFUL;
     }
 
-  if (result[1] >= DECIMAL128_TH)
+  if (result[1] > DECIMAL128_TH
+      || (result[1] == DECIMAL128_TH && result[0] >= DECIMAL128_TL))
     {
       result[0] = 0;
       result[1] = 0;
diff --git a/sysdeps/bid/bid-private.h b/sysdeps/bid/bid-private.h
index 83b002f..06e1565 100644
--- a/sysdeps/bid/bid-private.h
+++ b/sysdeps/bid/bid-private.h
@@ -162,6 +162,8 @@ union ieee754r_Decimal128
   };
 
 #define DECIMAL128_Bias 6176		/* bias for the exponent  */
-#define DECIMAL128_TH 1000000000000000	/* threshold (10³⁴ = 10¹⁵ x 10¹⁹) */
+/* threshold (10³⁴ = DECIMAL128_TH x 2⁶⁴ + DECIMAL128_TL)  */
+#define DECIMAL128_TH 0x1ed09bead87c0ULL
+#define DECIMAL128_TL 0x378d8e6400000000ULL
 
 #endif /* _BID_PRIVATE */
-- 
2.43.0


From b077c628bdffd7555c19d826adc0a8176050b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 04/99] fix: modf of infinities and zeros

Store the infinite integral part (it was left unwritten), and give a zero
fraction the sign of the argument.
---
 ieee754r/modfd32.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..6bb99e2 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -51,13 +51,17 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
       *y = x;
       return x+x;
     }
-   if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+  if (decNumberIsInfinite (&dn_x))
+    {
+      *y = x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
   decNumberToIntegralValue (&dn_result, &dn_x, &context);
   decNumberSubtract (&dn_y, &dn_x, &dn_result, &context);
+  decNumberCopySign (&dn_y, &dn_y, &dn_x);
 
   FUNC_CONVERT_FROM_DN (&dn_result, y, &context);
   FUNC_CONVERT_FROM_DN (&dn_y, &result, &context);
-- 
2.43.0


From 043ec472e9b2051d6632eaa35c3d3b2ae1295358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 05/99] fix: fma rounds once, in the current rounding mode

The product was rounded before the addition, the rounding direction was
always to nearest, and a finite product overflowing to infinity was taken
for an infinite operand.
---
 ieee754r/fmad32.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..5dbbb92 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -35,6 +35,7 @@
 #include <ieee754r_private.h>
 
 #include <decNumberMath.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME fma
 
@@ -48,7 +49,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
@@ -71,16 +71,18 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
     return z+z;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
-
+  context.round = __dn_getround ();
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
+      && decNumberIsInfinite (&dn_z)
+      && ((!decNumberIsNegative (&dn_x) != !decNumberIsNegative (&dn_y))
+	  != !!decNumberIsNegative (&dn_z)))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
+  /* Only the sum may be rounded, not the product.  */
+  decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 069d57b075448c9fc5e4bc63982b98d2561fda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 06/99] fix: quantum of a zero is one unit in its exponent, not
 zero

---
 ieee754r/quantumd128.c | 2 +-
 ieee754r/quantumd32.c  | 2 +-
 ieee754r/quantumd64.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieee754r/quantumd128.c b/ieee754r/quantumd128.c
index b7c9eb9..314535b 100644
--- a/ieee754r/quantumd128.c
+++ b/ieee754r/quantumd128.c
@@ -38,7 +38,7 @@ __quantumd128 (_Decimal128 x)
   _Decimal128 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd32.c b/ieee754r/quantumd32.c
index 36e6c5f..10d6416 100644
--- a/ieee754r/quantumd32.c
+++ b/ieee754r/quantumd32.c
@@ -38,7 +38,7 @@ __quantumd32 (_Decimal32 x)
   _Decimal32 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd64.c b/ieee754r/quantumd64.c
index 42311a5..f2e1953 100644
--- a/ieee754r/quantumd64.c
+++ b/ieee754r/quantumd64.c
@@ -38,7 +38,7 @@ __quantumd64 (_Decimal64 x)
   _Decimal64 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
-- 
2.43.0


From d6b93d668b1fc9f3d58f605d26b54f7503c049c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 07/99] fix: logb from the exponent instead of a rounded
 logarithm

log10 rounds up for values just below a power of ten, which made logb one
too large there.
---
 ieee754r/logbd32.c | 26 +-------------------------
 1 file changed, 1 insertion(+), 25 deletions(-)

diff --git a/ieee754r/logbd32.c b/ieee754r/logbd32.c
index 948e980..a3c6774 100644
--- a/ieee754r/logbd32.c
+++ b/ieee754r/logbd32.c
@@ -46,11 +46,6 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_tmp;
-  decNumber dn_log10;
-  decNumber dn_one;
-  decNumber dn_cmp;
-  enum rounding round;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -63,30 +58,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       DFP_EXCEPT (FE_DIVBYZERO);
       return -DFP_HUGE_VAL;
     }
-  if (decNumberIsInfinite (&dn_x) && decNumberIsNegative (&dn_x))
-    return -x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberAbs (&dn_tmp, &dn_x, &context);
   /*  For DFP, we use radix 10 instead of whatever FLT_RADIX
       happens to be */
-  decNumberLog10 (&dn_log10, &dn_tmp, &context);
-
-  /* Capture the case where truncation will return the wrong result,
-     by rounding up if -1.0 < x < 1.0  */
-  round = DEC_ROUND_DOWN;
-  decNumberFromInt32 (&dn_one, 1);
-  decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-  if (-decNumberIsNegative(&dn_cmp))
-    {
-      decNumberFromInt32 (&dn_one, -1);
-      decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-      if (!decNumberIsNegative(&dn_cmp) && !decNumberIsZero(&dn_cmp))
-	round = DEC_ROUND_UP;
-    }
-  context.round = round;
-
-  decNumberToIntegralValue (&dn_result, &dn_log10, &context);
+  decNumberLogB (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 65eb5ac63b4035ffdf7068c81b1f5d78c14f4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 08/99] fix: exact remainder, and errno only on domain errors

The quotient was rounded to the type's precision before being rounded to
an integer, so the result was wrong for large or nearly-halfway quotients;
errno was set to EDOM for every non-infinite x.
---
 ieee754r/remainderd32.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..c3904f6 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -46,8 +46,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_mult;
-  decNumber dn_rounded;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -62,11 +60,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
-  context.round = DEC_ROUND_HALF_EVEN;
-  decNumberToIntegralValue (&dn_rounded, &dn_mult, &context);
-  decNumberMultiply (&dn_mult, &dn_rounded, &dn_y, &context);
-  decNumberSubtract (&dn_result, &dn_x, &dn_mult, &context);
+  /* The integral quotient can have as many digits as the exponent range
+     spans; the remainder itself always fits the type.  */
+  context.digits += context.emax - context.emin + context.digits;
+  decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
@@ -77,7 +74,8 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  if ((FUNC_D(__isinf) (x) && !FUNC_D(__isnan) (y))
+      || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 16365cd732c40af1abe4837e337cb8da99b10758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 09/99] fix: scalbn and scalbln with large scale factors and
 directed rounding

Scale factors the decNumber library rejects gave NaN (or the unscaled
argument) instead of overflowing or underflowing, and the current rounding
mode was ignored.
---
 ieee754r/scalblnd32.c | 19 ++++++++++++-------
 ieee754r/scalbnd32.c  | 10 ++++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..4b1f579 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -37,6 +37,7 @@
 #define FUNCTION_NAME scalbln
 
 #include <dfpmacro.h>
+#include <mapround.h>
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
@@ -44,6 +45,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int limit;
 /*   long long int sum=0LL;  */
 /*  uint32_t temp2 = 0;  */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -66,13 +68,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  /* decNumberScaleB rejects scale factors beyond twice the exponent range;
+     by then the result has long overflowed or underflowed.  */
+  limit = 2 * (context.digits + context.emax);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+  context.round = __dn_getround ();
+  decNumberFromInt32(&dn_y, (int)y);
+  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..1c94eb4 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -37,6 +37,7 @@
 #define FUNCTION_NAME scalbn
 
 #include <dfpmacro.h>
+#include <mapround.h>
 
 #include <stdio.h>
 
@@ -46,6 +47,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int limit;
 /*  long int sum = 0L; */
 /*  uint32_t temp2 = 0; */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -67,6 +69,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
+  /* decNumberScaleB rejects scale factors beyond twice the exponent range;
+     by then the result has long overflowed or underflowed.  */
+  limit = 2 * (context.digits + context.emax);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+  context.round = __dn_getround ();
   decNumberFromInt32(&dn_y, y);
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
-- 
2.43.0


From f6681b035ba2ceb7d4b2d45ccb59a2e321140598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 10/99] fix: ldexp through scalbn

Adding a large scale factor to the exponent overflowed int, lost the sign
of underflowing results, dropped the adjusted exponent of zeros and ignored
the rounding mode; scalbn already computes the same function.
---
 ieee754r/ldexpd32.c | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..a4d49b9 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -45,12 +45,13 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
+  DEC_TYPE result;
+#if NUMDIGITS_SUPPORT==1
+  DEC_TYPE tiny;
   long newexp;
   int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
   int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
 
-#if NUMDIGITS_SUPPORT==1
   newexp = FUNC_D (getexp) (x) + y;
   if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
     {
@@ -75,30 +76,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
     result = FUNC_D(setexp) (x, newexp);
 
 #else
-  decContext context;
-  decNumber dn_x;
-
-  FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
-    return x+x;
-  if (y == 0)
-    return x;
-
-  /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
-   * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
-  dn_x.exponent = newexp;
-
-  decContextDefault (&context, DEFAULT_CONTEXT);
-  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
-
-  if (context.status & DEC_Overflow)
-    DFP_EXCEPT (FE_OVERFLOW);
+  /* ldexp(x,y) is just x*10**y, which is what scalbn computes.  */
+  result = FUNC_D (__scalbn) (x, y);
 #endif
 
   return result;
-- 
2.43.0


From bb592f96ec882c79a6f97f7203d56881f0f3502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 11/99] fix: ldexp through scalbn; frexp of zero; remainder
 padding

---
 ieee754r/frexpd32.c     |  4 +++-
 ieee754r/ldexpd32.c     | 40 +---------------------------------------
 ieee754r/remainderd32.c |  4 +++-
 3 files changed, 7 insertions(+), 41 deletions(-)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..3111f3b 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -51,7 +51,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
 #if NUMDIGITS_SUPPORT==1
   int digits, exponent;
 
-  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
+  *y = 0;
+  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x)
+      || x == DFP_CONSTANT(0.0))
     return x+x;
 
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index a4d49b9..01748da 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -37,50 +37,12 @@
 #define FUNCTION_NAME ldexp
 
 #include <dfpmacro.h>
-#include <numdigits.h>
-#include <limits.h>
-
-#include "dfp_inline.h"
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result;
-#if NUMDIGITS_SUPPORT==1
-  DEC_TYPE tiny;
-  long newexp;
-  int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
-  int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
   /* ldexp(x,y) is just x*10**y, which is what scalbn computes.  */
-  result = FUNC_D (__scalbn) (x, y);
-#endif
-
-  return result;
+  return FUNC_D (__scalbn) (x, y);
 }
 
 DEC_TYPE
diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index c3904f6..3dd6c86 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -61,8 +61,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   /* The integral quotient can have as many digits as the exponent range
-     spans; the remainder itself always fits the type.  */
+     spans; the remainder itself always fits the type.  Do not let the
+     enlarged precision pad the remainder to that many digits.  */
   context.digits += context.emax - context.emin + context.digits;
+  context.clamp = 0;
   decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-- 
2.43.0


From 7b9a52f420fd5d6ec36a9417aacd951f17ee9abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 12/99] fix: fdim rounds in the current rounding mode

---
 ieee754r/fdimd32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 6109c71..87c6772 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -37,6 +37,7 @@
 #define FUNCTION_NAME fdim
 
 #include <dfpmacro.h>
+#include <mapround.h>
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
@@ -59,6 +60,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if (decNumberIsNegative(&dn_result) || decNumberIsZero(&dn_result))
     return 0;
 
+  context.round = __dn_getround ();
   decNumberSubtract (&dn_result, &dn_x, &dn_y, &context);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
-- 
2.43.0


From de49cd8e7e568c946cadb6782a4bf25ec479fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 13/99] fix: decNumber FMA with an addend overlapping the tail
 of the product

---
 libdecnumber/decNumber.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 2fff5c3..0739707 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -3992,7 +3992,10 @@ static decNumber * decAddOp(decNumber *res, const decNumber *lhs,
       /* If, after pad, rhs would be longer than lhs by digits+1 or */
       /* more then lhs cannot affect the answer, except as a residue, */
       /* so only need to pad up to a length of DIGITS+1. */
-      if (rhs->digits+padding > lhs->digits+reqdigits+1) {
+      /* [A rhs longer than DIGITS, as from an FMA product, must also not */
+      /* overlap lhs.] */
+      if (padding>=lhs->digits
+       && rhs->digits+padding > lhs->digits+reqdigits+1) {
 	/* The RHS is sufficient */
 	/* for residue use the relative sign indication... */
 	Int shift=reqdigits-rhs->digits;     /* left shift needed */
-- 
2.43.0


From 56b9c4a6e9d3d22dfdbd1d3c62b4b9b7d829fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 14/99] fix: (unsigned) conversions of 2^31 and 2^63 with a
 fraction

---
 libbid/_dd_to_usi.c | 4 +++-
 libbid/_td_to_udi.c | 4 +++-
 libbid/_td_to_usi.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..08d2169 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunsddsi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // the indefinite value: 0, for NaNs too, unless it is the actual result
+  if (res == 0x80000000
+      && !(x >= 2147483648.DD && x < 2147483649.DD)) res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..0c5d2fa 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -34,7 +34,9 @@ __bid_fixunstddi (_Decimal128 x) {
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  // the indefinite value: 0, for NaNs too, unless it is the actual result
+  if (res == 0x8000000000000000ull
+      && !(x >= 9223372036854775808.DL && x < 9223372036854775809.DL)) res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..b4fc0eb 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunstdsi (_Decimal128 x) {
   ux.d = x;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // the indefinite value: 0, for NaNs too, unless it is the actual result
+  if (res == 0x80000000
+      && !(x >= 2147483648.DL && x < 2147483649.DL)) res = 0;
   return (res);
 }
 
-- 
2.43.0


From 7e8b521c6b222384515345e512f78afd7459f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 15/99] fix: 64-bit integer to _Decimal32 conversions round
 once

---
 libbid/_di_to_sd.c  | 7 ++++---
 libbid/_udi_to_sd.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..e6ac3f9 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // go through an exact format, so as to round only once
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..db8ef77 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // go through an exact format, so as to round only once
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
-- 
2.43.0


From 4e9b729f6c72aa86c4711b76eda4426d05a8e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 16/99] fix: conversion of INT_MIN to decimal overflowed

---
 libbid/bid_from_int.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index cfee0ed..c4fa99b 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -42,8 +42,7 @@ bid64_from_int32 (int x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // in the lowest 32bits of the result
   if ((x & SIGNMASK32) == SIGNMASK32) {
     // negative int32
-    x = ~x + 1;	// 2's complement of x
-    res = (unsigned int) x | 0xb1c0000000000000ull;
+    res = (~(unsigned int) x + 1) | 0xb1c0000000000000ull; // 2's complement of x
     // (exp << 53)) = biased exp. is 0
   } else {	// positive int32
     res = x | 0x31c0000000000000ull;	// (exp << 53)) = biased exp. is 0
-- 
2.43.0


From 0ab99c80bbb9180e5cff6905e035b385f6d96668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 17/99] fix: 128-bit integer to decimal conversions honour the
 rounding mode and sign

---
 base-math/floattitd.c           | 23 ++++++++++++++++-------
 sysdeps/soft-dfp/candtruncd32.c |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..80ca1af 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -135,6 +135,14 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+#ifndef UNSIGNED
+	  /* The sign matters to how the result is rounded.  */
+	  if (negative)
+	    {
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -146,6 +154,14 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_low = t_low;
 	  d_mid = t_mid;
 	  d_high = t_high;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_high = -d_high;
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
@@ -160,13 +176,6 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 #endif
 	}
 
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..b761600 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -39,6 +39,7 @@
 
 #include "decimal128.h"
 #include "dfpmacro.h"
+#include <mapround.h>
 
 #include "convert_helpers.h"
 
@@ -63,6 +64,7 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decContextDefault (&context, DEC_INIT_DECIMAL128);
   /* Hack, we're using 39 digits here. */
   context.digits = 39;
+  context.round = __dn_getround ();
 
   decNumberFromInt32(&dn_17, 17);
   decNumberFromInt32(&dn_34, 34);
-- 
2.43.0


From 450cc655fa8c671b4a963af0322f58733ac100b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 18/99] fix: _Decimal128 directed rounding when the smaller
 addend is exactly half an ulp

---
 libbid/bid128_add.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libbid/bid128_add.c b/libbid/bid128_add.c
index 986ef53..ba678be 100644
--- a/libbid/bid128_add.c
+++ b/libbid/bid128_add.c
@@ -1392,7 +1392,8 @@ bid128_add (UINT128 x, UINT128 y
 	      }
 	      if (rnd_mode != ROUNDING_TO_NEAREST) {
 		if ((rnd_mode == ROUNDING_TIES_AWAY && x_sign == y_sign)
-		    || (rnd_mode == ROUNDING_UP && !y_sign)) {
+		    || (rnd_mode == ROUNDING_UP && !x_sign && !y_sign)
+		    || (rnd_mode == ROUNDING_DOWN && x_sign && y_sign)) {
 		  // add 1 ulp and then check for overflow
 		  C1_lo = C1_lo + 1;
 		  if (C1_lo == 0) {	// rounding overflow in the low 64 bits
@@ -1412,7 +1413,8 @@ bid128_add (UINT128 x, UINT128 y
 		      *pfpsf |= OVERFLOW_EXCEPTION;
 		    }
 		  }
-		} else if ((rnd_mode == ROUNDING_DOWN && y_sign)
+		} else if ((rnd_mode == ROUNDING_DOWN && !x_sign && y_sign)
+			   || (rnd_mode == ROUNDING_UP && x_sign && !y_sign)
 			   || (rnd_mode == ROUNDING_TO_ZERO
 			       && x_sign != y_sign)) {
 		  // subtract 1 ulp from C1
-- 
2.43.0


From 06ed2fc66bbf066f325288c1efcfc4731808b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 19/99] fix: raise the exception flags of _Decimal128 add,
 subtract and multiply

---
 libbid/_addsub_td.c | 6 ++++++
 libbid/_mul_td.c    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/libbid/_addsub_td.c b/libbid/_addsub_td.c
index b927f2f..889e5e0 100644
--- a/libbid/_addsub_td.c
+++ b/libbid/_addsub_td.c
@@ -31,7 +31,10 @@ __bid_addtd3 (_Decimal128 x, _Decimal128 y) {
 
   ux.d = x;
   uy.d = y;
+  _IDEC_glbflags = 0;
   res.i = __bid128_add (ux.i, uy.i);
+  if (_IDEC_glbflags)
+    __dfp_set_status (_IDEC_glbflags);
   return (res.d);
 }
 
@@ -41,7 +44,10 @@ __bid_subtd3 (_Decimal128 x, _Decimal128 y) {
 
   ux.d = x;
   uy.d = y;
+  _IDEC_glbflags = 0;
   res.i = __bid128_sub (ux.i, uy.i);
+  if (_IDEC_glbflags)
+    __dfp_set_status (_IDEC_glbflags);
   return (res.d);
 }
 hidden_def(__bid_addtd3);
diff --git a/libbid/_mul_td.c b/libbid/_mul_td.c
index 619285e..be436b9 100644
--- a/libbid/_mul_td.c
+++ b/libbid/_mul_td.c
@@ -31,7 +31,10 @@ __bid_multd3 (_Decimal128 x, _Decimal128 y) {
 
   ux.d = x;
   uy.d = y;
+  _IDEC_glbflags = 0;
   res.i = __bid128_mul (ux.i, uy.i);
+  if (_IDEC_glbflags)
+    __dfp_set_status (_IDEC_glbflags);
   return (res.d);
 }
 hidden_def(__bid_multd3);
-- 
2.43.0


From 6e41b4442e5a3b8185f2e3feb70ae2194756ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 20/99] fix: printf and strfrom round exactly in every rounding
 mode

---
 printf-hooks/printf_dfp.c | 100 +++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 49 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..281fe5a 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -629,8 +629,10 @@ __printf_dfp (FILE *fp,
    * existing method would be faster.  */
   if (prec < input_prec)
     {
-      int index, roundmode = 0;
-      char rounddigit = '4';
+      int index, i, roundmode = FE_DEC_TONEAREST;
+      int half = 0;    /* Discarded part compared with half a unit.  */
+      int inexact = 0; /* Anything but zeros discarded?  */
+      int up = 0;      /* Add a unit to the digits kept?  */
 
       if (spec == 'f')
 	/* This may force index to negative, in which case we ignore it at a
@@ -645,59 +647,59 @@ __printf_dfp (FILE *fp,
       else
 	index = n + prec + 1;
 
-      /* FIXME: we should check rounding mode for %a */
       if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+	roundmode = (*__printf_dfp_getround_callback)();
 
-	  switch (roundmode)
-	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
-	    }
-	}
+      /* The digits from 'index' on are discarded.  If 'exp' was sufficiently
+       * negative 'index' may be negative, the digits before the first one
+       * being zeros.  */
+      for (i = (index < 0 ? 0 : index); i < mw; i++)
+	if (digits[i] != '0')
+	  inexact = 1;
 
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
-	    {
-	      while (trailzero < mw)
-		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
-		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
-	  }
+      half = -1;
+      if (index >= 0 && index < mw && digits[index] >= '5')
+	{
+	  half = digits[index] > '5';
+	  for (i = index+1; i < mw && !half; i++)
+	    half = digits[i] != '0';
+	}
 
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
+      if (inexact)
+	switch (roundmode)
 	  {
-	    n--;
-	    nd++;
+	    case FE_DEC_TOWARDZERO: break;
+	    case FE_DEC_UPWARD: up = !is_neg; break;
+	    case FE_DEC_DOWNWARD: up = is_neg; break;
+	    case FE_DEC_TONEARESTFROMZERO: up = half >= 0; break;
+	    case 5: up = half > 0; break; /* nearest, ties toward zero */
+	    case 6: up = 1; break; /* away from zero */
+	    case FE_DEC_TONEAREST:
+	    default:
+	      up = half > 0 || (half == 0 && (digits[index-1] & 1));
+	      break;
 	  }
-      } while (0);
+
+      if (up && index > 0)
+	{
+	  while (digits[--index] == '9')
+	    digits[index] = '0';
+	  digits[index]++;
+	  if (index < n)
+	    {
+	      nd += n - index;
+	      n = index;
+	    }
+	}
+      else if (up)
+	{
+	  /* Only for 'f': everything lies below the last place printed.  */
+	  memset (digits, '0', mw);
+	  n = mw - 1;
+	  nd = 1;
+	  digits[n] = '1';
+	  exp = -prec;
+	}
     } /* Done rounding.  */
 
   /* If spec == 'a' at this point it means that prec was set by the user
-- 
2.43.0


From 217b78b31eb09a5ea4be3e5068ed98cfb116d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 21/99] fix: %g rounds to its precision before choosing the
 style

---
 printf-hooks/printf_dfp.c | 70 ++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 281fe5a..d4f0295 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -566,41 +566,16 @@ __printf_dfp (FILE *fp,
 	  }
 	case 'g':
 	  {
-	    int P = prec;
-
-	    /* When the C specification refers to X as the exponent it means the
-	     * exponent when the input value encoding is normalized to the form
-	     * d.dddd.  This means we have to do that before we can do the goof
-	     * check.
-	     *
-	     * e.g., 123.456E-5
-	     * right-justified -> 00123456E-9
-	     * normalized -> 1.23456E-4
-	     *
-	     * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
-	     *
-	     * X == -4  */
-	    int X = exp + (nd -1);
-
-	    /* The C Specification also indicates how to compute P. */
+	    /* Per the C Specification the style is chosen by the exponent
+	     * the value has after rounding to P significant digits, so only
+	     * P is determined here.  */
 	    if (prec < 0)
-	      P = 6;
+	      prec = 6;
 	    else if (prec == 0)
-	      P = 1;
-
-	    /* Straight from the specification which assumes X is exponent normalized to
-	     * d.ddd... form.  */
-	    if (X >= -4 && P > X)
-	      {
-		prec = (P - (X + 1));
-		spec = 'f';
-	      }
-	    else
-	      {
-		prec = P - 1;
-		spec = 'e';
-	      }
-	    input_prec = nd - 1;
+	      prec = 1;
+	    if (is_zero)
+	      exp = 0;
+	    input_prec = nd;
 	  break;
 	  }
 	case 'e':
@@ -640,7 +615,7 @@ __printf_dfp (FILE *fp,
 	index = n + nd + exp + prec;
       /* Goofy special case where we round significant digits which aren't
        * right of the decimal place.  */
-      else if (tolower(info->spec) == 'a' && prec > 0)
+      else if (spec == 'g' || (tolower(info->spec) == 'a' && prec > 0))
        {
 	index = n + prec;
        }
@@ -702,6 +677,33 @@ __printf_dfp (FILE *fp,
 	}
     } /* Done rounding.  */
 
+  if (spec == 'g')
+    {
+      /* When the C specification refers to X as the exponent it means the
+       * exponent when the input value encoding is normalized to the form
+       * d.dddd.
+       *
+       * e.g., 123.456E-5
+       * right-justified -> 00123456E-9
+       * normalized -> 1.23456E-4
+       *
+       * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
+       *
+       * X == -4  */
+      int X = exp + (nd - 1);
+
+      if (X >= -4 && prec > X)
+	{
+	  prec = prec - (X + 1);
+	  spec = 'f';
+	}
+      else
+	{
+	  prec = prec - 1;
+	  spec = 'e';
+	}
+    }
+
   /* If spec == 'a' at this point it means that prec was set by the user
    * and rounding had to be considered.  The spec now requires that the
    * 'a' format presentation algorithm be calculated again.  If prec
-- 
2.43.0


From 041ec8c6a49406921f9640eb0e362d6c960e0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 22/99] fix: %a with precision zero shows one digit in either
 style

---
 printf-hooks/printf_dfp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index d4f0295..beb595a 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -541,6 +541,10 @@ __printf_dfp (FILE *fp,
 	     * digits in the precision.  */
 	    input_prec = nd;
 
+	    /* There is always one digit to show.  */
+	    if (prec == 0)
+	      prec = 1;
+
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
-- 
2.43.0


From 9acecbd61672a50e93f7d7992e7afec1235e4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 23/99] fix: field width of exponents and grouped digits in
 decimal printf

---
 printf-hooks/printf_dfp.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index beb595a..16087ef 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -778,11 +778,17 @@ __printf_dfp (FILE *fp,
       while (prec > 0 && decpt+prec > n+nd && digits[decpt+prec-1] == '0') prec--;
     }
 
+  /* The C spec says that for %e, if the value is zero the exponent is zero.
+   * This isn't true for the DFP spec for %a so make sure to check info->spec
+   * and not spec since it could have promoted 'a' to 'e'.  */
+  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
+    exp = 0;
+
   /* Digits to the left of the decimal pt. */
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n)/3;
+      if (grouping) width -= (decpt-n-1)/3;
     }
   else width--;  /* none to the left of the decimal point */
 
@@ -793,7 +799,7 @@ __printf_dfp (FILE *fp,
   if (spec != 'f')
     {
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower(info->spec) != 'a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
@@ -857,12 +863,6 @@ __printf_dfp (FILE *fp,
   /* print decimal point, if needed */
   if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
-
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
   if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
-- 
2.43.0


From 3160664669a72ffc5c1c4ce088d9d719618853c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 24/99] fix: length of printed infinities and NaNs

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 16087ef..c1a8e03 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
-- 
2.43.0


From d7d8b1c63bc630b4222b9a2bd802852a47f3f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 25/99] fix: strfrom terminates a buffer of one byte

---
 stdlib/strfromd32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..c23a84e 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -84,5 +84,9 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
   }
 
   fclose (f);
+
+  /* fmemopen leaves a buffer of one byte alone.  */
+  if (n == 1)
+    s[0] = '\0';
   return num;
 }
-- 
2.43.0


From 5af8907ad449e815bd3dc9fd85d8725257ca7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 26/99] fix: no decimal point for tiny values printed without
 decimals

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c1a8e03..4e3afac 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -824,7 +824,7 @@ __printf_dfp (FILE *fp,
     {
       n = decpt;
       outchar ('0');
-      if (n < 0)
+      if (n < 0 && prec > 0)
 	{
 	  outchar (wide ? decimalwc.wc : *decimal);
 	  while (n < 0 && n < decpt + prec)
-- 
2.43.0


From 621cf0b884e993458117f4ed1de8f217adcaea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 27/99] fix: strtod and wcstod read every digit and round once

Digits were folded in with one rounding per digit, fraction digits past the
precision plus one were ignored, and 98 or more integer digits hung strtod32.
---
 stdlib/strtod32.c | 175 ++++++++++++++++++++++++----------------------
 1 file changed, 90 insertions(+), 85 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..1e01ba9 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -793,6 +793,10 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	d32 /= 10;
       d32 -= d32;
 #else
+      if (exponent < __DEC_MIN_EXP__ - __DEC_MANT_DIG__)
+	exponent = __DEC_MIN_EXP__ - __DEC_MANT_DIG__;
+      else if (exponent > __DEC_MAX_EXP__ - __DEC_MANT_DIG__)
+	exponent = __DEC_MAX_EXP__ - __DEC_MANT_DIG__;
       d32 = FUNC_D(setexp) (d32, exponent);
 #endif
 
@@ -853,90 +857,73 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
       freelocale(C_locale);
       return FLOAT_ZERO;
     }
-  /* Read in the integer portion of the input string */
-  if (int_no > 0)
-    {
-      /* Read the integer part as a d32.  */
-      int digcnt = int_no;
-
-      while (int_no > MAX_10_EXP + 1)
-	{
-	  digcnt--;
-	  exponent++;
-	}
-      do
-	{
-	  /* There might be thousands separators or radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-#ifdef USE_WIDE_CHAR
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    ++startp;
-#else
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    {
-	      int inner = 0;
-	      if (thousands != NULL && *startp == *thousands
-		  && ({
-			for (inner = 1; thousands[inner] != '\0'; ++inner)
-			  if (thousands[inner] != startp[inner])
-			    break;
-			thousands[inner] == '\0';
-		      })
-		  )
-		startp += inner;
-	      else
-		startp += decimal_len;
-	    }
-#endif
-	  d32 = d32 * 10 + (*startp - L_('0'));
-	  ++startp;
-	}
-      while (--digcnt > 0);
+  /* Read the first MANT_DIG significant digits, which is exact, and remember
+     what follows them: the next digit, and whether anything after it is
+     nonzero.  */
+  {
+    int digcnt = dig_no, sig_no = 0, next_digit = 0, sticky = 0;
 
-    }
-  /* If we haven't filled our datatype, read in the fractional digits */
-  if (int_no <= MANT_DIG && dig_no > int_no)
-    {
-      /* Read the decimal part as a FLOAT.  */
-      int digcnt = dig_no - int_no;
-      
-  /* There might be radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-
-      /*do
-	{
-	  frac = frac/10 + *(startp+digcnt-1) - L_('0');
-	}
-      while (--digcnt > 0);
-      frac /= 10;
+    exponent -= dig_no - int_no;
+    do
+      {
+	int digit;
 
-      d32 += frac;*/
-      int_no = 0;
-      do
-        {
+	/* There might be thousands separators or radix characters in
+	   the string.  But these all can be ignored because we know the
+	   format of the number is correct and we have an exact number
+	   of characters to read.  */
 #ifdef USE_WIDE_CHAR
-      if (*startp < L_('0') || *startp > L_('9'))
-	++startp;
+	if (*startp < L_('0') || *startp > L_('9'))
+	  ++startp;
 #else
-      if (*startp < '0' || *startp > '9')
-	startp += decimal_len;
+	if (*startp < L_('0') || *startp > L_('9'))
+	  {
+	    int inner = 0;
+	    if (thousands != NULL && *startp == *thousands
+		&& ({
+		      for (inner = 1; thousands[inner] != '\0'; ++inner)
+			if (thousands[inner] != startp[inner])
+			  break;
+		      thousands[inner] == '\0';
+		    })
+		)
+	      startp += inner;
+	    else
+	      startp += decimal_len;
+	  }
 #endif
+	digit = *startp - L_('0');
+	++startp;
 
-        /* We need the extra digit to get proper rounding.  */
-	if (int_no < MANT_DIG + 1)
+	if (sig_no > 0 || digit != 0)
+	  ++sig_no;
+	if (sig_no <= MANT_DIG)
+	  d32 = d32 * 10 + digit;
+	else
 	  {
-	    d32 = d32*10 + (*startp - L_('0'));
-	    ++startp;
-	    --exponent;
-	    int_no++;
+	    if (sig_no == MANT_DIG + 1)
+	      next_digit = digit;
+	    else if (digit != 0)
+	      sticky = 1;
+	    ++exponent;
 	  }
-	}
+      }
     while (--digcnt > 0);
-    }
+
+    /* The sign matters to the directed rounding modes.  */
+    if (negative)
+      d32 = -d32;
+
+    /* Round once: a digit that looks exact or halfway is moved off that
+       point by the digits behind it.  */
+    if (next_digit != 0 || sticky)
+      {
+	if (sticky && (next_digit == 0 || next_digit == 5))
+	  ++next_digit;
+	d32 = d32 * 10 + (negative ? -next_digit : next_digit);
+	--exponent;
+      }
+  }
 
 #if NUMDIGITS_SUPPORT==0
   while(exponent-- > 0)
@@ -944,27 +931,45 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   while(++exponent < 0)
     d32 /= 10;
 #else
+  exponent += FUNC_D (getexp) (d32);
+
+  if (d32 == 0)
+    {
+      /* A zero takes the nearest exponent the format has.  */
+      if (exponent < __DEC_MIN_EXP__ - __DEC_MANT_DIG__)
+	exponent = __DEC_MIN_EXP__ - __DEC_MANT_DIG__;
+      else if (exponent > __DEC_MAX_EXP__ - __DEC_MANT_DIG__)
+	exponent = __DEC_MAX_EXP__ - __DEC_MANT_DIG__;
+    }
+
   /* Computed underflow after normalization.  */
-  if ( exponent <  (__DEC_MIN_EXP__ - __DEC_MANT_DIG__))
+  if (exponent < __DEC_MIN_EXP__ - __DEC_MANT_DIG__)
     {
       __set_errno (ERANGE);
       freelocale(C_locale);
-      return FLOAT_ZERO;
+      return negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
 
-  /* Left justification allows us to set a positive exponent that's near
-   * __DEC*_MAX_EXP__, i.e. _almost_ overflowing.  Complete left justification
-   * may be overkill for most numbers in this situation, so perhaps a specific
-   * digit shift will be a better solution in the future.  */
-  if (exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__))
-      d32 = FUNC_D(left_justify) (d32);
+  /* An exponent that is too large needs the digits left justified.  */
+  if (exponent > __DEC_MAX_EXP__ - __DEC_MANT_DIG__)
+    while (FUNC_D (numdigits) (d32) < __DEC_MANT_DIG__)
+      {
+	d32 *= 10;
+	--exponent;
+      }
+  if (exponent > __DEC_MAX_EXP__ - __DEC_MANT_DIG__)
+    {
+      __set_errno (ERANGE);
+      freelocale(C_locale);
+      return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
+    }
 
-  d32 = FUNC_D(setexp) (d32, FUNC_D (getexp) (d32) + exponent);
+  d32 = FUNC_D(setexp) (d32, exponent);
 
 #endif
 
   freelocale(C_locale);
-  return negative? -d32:d32;
+  return d32;
 }
 hidden_def(FUNCTION_L_INTERNAL)
 
-- 
2.43.0


From 5f640bb78627fec6201b0d65382ff1c1b52ecf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 28/99] fix: strtod of zeros with large exponents and of
 negative underflow

---
 stdlib/strtod32.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 1e01ba9..eb52187 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -331,6 +331,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   const STRING_TYPE *expp;
   /* Total number of digit and number of digits in integer part.  */
   int dig_no, int_no, lead_zero;
+  /* Nonzero if all digits are zeroes.  */
+  int zero;
   /* Contains the last character read.  */
   CHAR_TYPE c;
   __locale_t C_locale;
@@ -715,8 +717,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		    {
 		      /* Overflow or underflow.  */
 		      __set_errno (ERANGE);
-		      result = (exp_negative ? FLOAT_ZERO :
-				negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL);
+		      result = exp_negative ? FLOAT_ZERO : FLOAT_HUGE_VAL;
+		      if (negative)
+			result = -result;
 		    }
 
 		  /* Accept all following digits as part of the exponent.  */
@@ -805,6 +808,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
     }
 
 
+  /* Without a nonzero digit the exponent cannot put it out of range.  */
+  zero = lead_zero == -1;
+
   if (lead_zero)
     {
       /* Find the decimal point */
@@ -843,7 +849,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
     exponent -= incr;
   }
 
-  if (int_no + exponent > MAX_10_EXP)
+  if (int_no + exponent > MAX_10_EXP && !zero)
     {
       __set_errno (ERANGE);
       freelocale(C_locale);
@@ -851,12 +857,13 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
     }
 
   /* Obvious underflow before normalization.  */
-  if (exponent < MIN_10_EXP - MANT_DIG + 1 )
+  if (exponent < MIN_10_EXP - MANT_DIG + 1 && !zero)
     {
       __set_errno (ERANGE);
       freelocale(C_locale);
-      return FLOAT_ZERO;
+      return negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
+
   /* Read the first MANT_DIG significant digits, which is exact, and remember
      what follows them: the next digit, and whether anything after it is
      nonzero.  */
@@ -933,7 +940,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #else
   exponent += FUNC_D (getexp) (d32);
 
-  if (d32 == 0)
+  if (zero)
     {
       /* A zero takes the nearest exponent the format has.  */
       if (exponent < __DEC_MIN_EXP__ - __DEC_MANT_DIG__)
-- 
2.43.0


From c47a8bd2b52de8dc6c3017da7c2e54c1348279ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 29/99] fix: wcstod crashed looking up the decimal point

---
 stdlib/strtod32.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index eb52187..f98df60 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -62,6 +62,7 @@
 
 #include <limits.h> /* For CHAR_MAX  */
 #include <alloca.h>
+#include <stdint.h> /* For uintptr_t.  */
 
 #ifndef FLOAT
 # define FLOAT		_Decimal32
@@ -344,7 +345,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The radix character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *decimalmb;
   wchar_t decimal;
 #else
   const char *decimal;
@@ -352,7 +352,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The thousands character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *thousandsmb = NULL;
   wchar_t thousands = L'\0';
 #else
   const char *thousands = NULL;
@@ -375,8 +374,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	{
 	  /* Figure out the thousands separator character.  */
 #ifdef USE_WIDE_CHAR
-	  thousandsmb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
-	  mbrtowc(&thousands,thousandsmb, CHAR_MAX, NULL);
+	  thousands = (wchar_t) (uintptr_t)
+	    nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
 
 	  if (thousands == L'\0')
 	    grouping = NULL;
@@ -395,8 +394,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
   /* Find the locale's decimal point character.  */
 #ifdef USE_WIDE_CHAR
-  decimalmb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
-  mbrtowc(&decimal,decimalmb, CHAR_MAX, NULL);
+  /* This item is the wide character itself, not a pointer to it.  */
+  decimal = (wchar_t) (uintptr_t) nl_langinfo (_NL_NUMERIC_DECIMAL_POINT_WC);
   assert (decimal != L'\0');
 # define decimal_len 1
 #else
-- 
2.43.0


From 42a13ceac0d37305ed925643bdd4b2820fe770b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 30/99] fix: strtod consumes the closing parenthesis of
 nan(...)

---
 stdlib/strtod32.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index f98df60..cba3bce 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -477,12 +477,14 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		     || (TOLOWER (*cp) >= L_('a') && TOLOWER (*cp) <= L_('z'))
 		     || *cp == L_('_'));
 
-	      if (*cp != L_(')'))
+	      if (*cp == L_(')'))
+		/* The closing brace belongs to the match.  */
+		++cp;
+	      else
 		/* The closing brace is missing.  Only match the NAN
 		   part.  */
 		cp = startp;
 #if 0
-	      else
 		{
 		  /* This is a system-dependent way to specify the
 		     bitmask used for the NaN.  We expect it to be
-- 
2.43.0


From 700374d1f7c37711f3af2f59941835405eafc76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 31/99] fix: printf groups digits by the locale's rules and
 prints whole separators

Groups of three were assumed, a separator was written before the first digit
when it started a group, only the first byte of multibyte decimal points and
separators was written, and wide output looked separators up wrongly.
---
 printf-hooks/printf_dfp.c | 80 ++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 4e3afac..6bac1c9 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -44,6 +44,7 @@
 #include <langinfo.h>
 #include <wctype.h>
 #include <limits.h> /* For CHAR_MAX  */
+#include <stdint.h> /* For uintptr_t.  */
 #include <stdio.h>
 
 #include <get_digits.h>
@@ -130,6 +131,25 @@ padn (FILE *fp, int pad, int count)
       ++done;								      \
     } while (0)
 
+/* Output a decimal point or thousands separator: a wide character, or a
+   string of one or more bytes.  */
+#define outsep(mb, wc)							      \
+  do									      \
+    {									      \
+      if (wide)								      \
+	{								      \
+	  if (putwc ((wc), fp) == WEOF)					      \
+	    return -1;							      \
+	  ++done;							      \
+	}								      \
+      else								      \
+	{								      \
+	  const char *outs;						      \
+	  for (outs = (mb); *outs != '\0'; outs++)			      \
+	    outchar (*outs);						      \
+	}								      \
+    } while (0)
+
 #define PADN(ch, len)							      \
   do									      \
     {									      \
@@ -341,6 +361,25 @@ hidden_def(__dfp_ais)
 /* fe_decround.c will initialize this function pointer to fe_decgetround */
 int (*__printf_dfp_getround_callback)(void) = NULL;
 
+/* Nonzero if a group ends LEFT digits before the decimal point, that is if a
+   thousands separator precedes these digits.  */
+static int
+group_ends (const char *grouping, int left)
+{
+  while (left > 0)
+    {
+      if (*grouping <= 0 || *grouping == CHAR_MAX)
+	return 0;
+      if (left == *grouping)
+	return 1;
+      left -= *grouping;
+      /* The last rule repeats.  */
+      if (grouping[1] != '\0')
+	++grouping;
+    }
+  return 0;
+}
+
 int
 __printf_dfp (FILE *fp,
 	      const struct printf_info *info,
@@ -360,7 +399,6 @@ __printf_dfp (FILE *fp,
   /* Locale-dependent thousands separator and grouping specification.  */
   const char *thousands_sep = NULL;
   wchar_t thousands_sepwc = 0;
-  const char * thousands_sepmb;
 
   const char *grouping;
 
@@ -397,16 +435,13 @@ __printf_dfp (FILE *fp,
 	  /* Figure out the thousands separator character.  */
 	  if (wide)
 	    {
+	      /* These items are the wide character itself.  */
 	      if (info->extra == 0)
-		{
-		  thousands_sepmb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
-		}
+		thousands_sepwc = (wchar_t) (uintptr_t)
+		  nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
 	      else
-		{
-		  thousands_sepmb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
-		}
+		thousands_sepwc = (wchar_t) (uintptr_t)
+		  nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
 	    }
 	  else
 	    {
@@ -444,6 +479,7 @@ __printf_dfp (FILE *fp,
    input_prec = 0,   /* Precision of the _Decimal* value.  */
    mw,           /* Mantissa Width  */
    n,            /* Current digit offset into digits[] */
+   first,        /* Offset of the first digit printed.  */
    nd,           /* num_digits before the get_digits call. */
    width,        /* Width of the field */
    is_zero = 0;  /* Used in some of the output tests.  */
@@ -788,7 +824,13 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n-1)/3;
+      if (grouping)
+	{
+	  int left;
+	  for (left = decpt - n - 1; left > 0; left--)
+	    if (group_ends (grouping, left))
+	      width--;
+	}
     }
   else width--;  /* none to the left of the decimal point */
 
@@ -826,7 +868,7 @@ __printf_dfp (FILE *fp,
       outchar ('0');
       if (n < 0 && prec > 0)
 	{
-	  outchar (wide ? decimalwc.wc : *decimal);
+	  outsep (decimal, decimalwc.wc);
 	  while (n < 0 && n < decpt + prec)
 	    {
 	      outchar ('0');
@@ -835,16 +877,18 @@ __printf_dfp (FILE *fp,
 	}
     }
 
+  first = n;
+
   /* Print the digits.  If decpt exceeds mw then we know that
    * they're simply trailing zeros and we don't need to display them.  */
   while (n < mw && n < decpt + prec)
     {
       if (n == decpt)
       {
-	outchar (wide ? decimalwc.wc : *decimal);
+	outsep (decimal, decimalwc.wc);
       }
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+      else if (grouping && n > first && group_ends (grouping, decpt - n))
+	outsep (thousands_sep, thousands_sepwc);
       outchar (digits[n]);
       n++;
     }
@@ -853,15 +897,15 @@ __printf_dfp (FILE *fp,
   while (n < decpt + prec)
     {
       if (n == decpt)
-	outchar (wide ? decimalwc.wc : *decimal);
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+	outsep (decimal, decimalwc.wc);
+      else if (grouping && n > first && group_ends (grouping, decpt - n))
+	outsep (thousands_sep, thousands_sepwc);
       outchar ('0');
       n++;
     }
 
   /* print decimal point, if needed */
-  if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
+  if (n == decpt && info->alt) outsep (decimal, decimalwc.wc);
 
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
-- 
2.43.0


From 156069f2b0eee506b195edc16d5716158fa5c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 32/99] fix: decimal stream output overflowed a 64 byte buffer

---
 dfp/decimal/decimal | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index 852810d..a33335f 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -57,7 +57,7 @@ using std::string;
 using namespace std;
 
 #include <stdlib.h> /* Pick up the strtod[32|64|128] prototypes.  */
-#include <stdio.h>  /* Pick up the sprintf prototype.  */
+#include <stdio.h>  /* Pick up the snprintf prototype.  */
 #include <limits.h> /* For CHAR_MAX.  */
 #include <string.h> /* For memset.  */
 
@@ -113,19 +113,6 @@ private:
 public:
   static inline ostream & decimal_to_string(std::ostream &os, decimal_type &d)
     {
-      /* If strbuf is big enough for a _Decimal128, it is big enough for the
-       * other types as well, so just use the same size for all of them.
-       *   1  (leading zero)
-       * + 1  (.)
-       * + 34 (__DEC128_MANT_DIG__)
-       * + 1  (e)
-       * + 1  (+/-)
-       * + 4  (digits in __DEC128_MAX_EXP__)
-       * + 1  "\n"
-       * = 43 -> round up to a power of 2 = 64.  */
-
-      char strbuf[64];
-
       ios_base::fmtflags flags = os.flags();
       unsigned int precision = os.precision();
 
@@ -161,11 +148,25 @@ public:
       /* Per the confusing reading of the draft DFP C++ Specification, a/A type
          are never passed with an accompanying precision.  This causes the
 	 implicit precision in the type to be used for printing.  */
-      if (flags & ios::fixed && flags & ios::scientific)
-        sprintf (strbuf, fmtstr.c_str(), d.__getval());
+      bool implicit = flags & ios::fixed && flags & ios::scientific;
+
+      /* With ios::fixed the text can be thousands of characters long.  */
+      int len = implicit
+	? snprintf (NULL, 0, fmtstr.c_str(), d.__getval())
+	: snprintf (NULL, 0, fmtstr.c_str(), precision, d.__getval());
+      if (len < 0)
+	{
+	  os.setstate (ios::failbit);
+	  return os;
+	}
+
+      std::string str (len + 1, '\0');
+      if (implicit)
+        snprintf (&str[0], len + 1, fmtstr.c_str(), d.__getval());
       else
-        sprintf (strbuf, fmtstr.c_str(), precision, d.__getval());
-      os << strbuf;
+        snprintf (&str[0], len + 1, fmtstr.c_str(), precision, d.__getval());
+      str.resize (len);
+      os << str;
       return os;
     }
 
-- 
2.43.0


From 58ac76e2ea33fd6da50ba0ddf379e538e25e4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 33/99] fix: decimal stream input consumed the rest of the
 stream

operator>> read 127 characters whatever they were, so that nothing could be
read after a number, numbers further than that were cut, and a stream with
fewer characters was left in a failed state.
---
 dfp/decimal/decimal | 133 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 118 insertions(+), 15 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index a33335f..ec893db 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -211,37 +211,140 @@ namespace decimal
 
 //  ISO/IEC TR 27433 - 3.2.11 Formatted input:
 
+  /* Recognizes the characters that can continue a number, one at a time.  */
+  class __decimal_scanner
+  {
+    enum {START, SIGN, INT, POINT, FRAC, EXP, EXPSIGN, EXPDIG, WORD, PAREN, END} state;
+    std::string text;
+
+    static bool isdig (char c) { return c >= '0' && c <= '9'; }
+
+    /* Letters of "infinity" and "nan", in any case.  */
+    bool word (char c)
+    {
+      static const char *const words[] = { "infinity", "nan" };
+      size_t start = text[0] == '+' || text[0] == '-';
+      for (int i = 0; i < 2; i++)
+	{
+	  size_t j, n = text.size () - start;
+	  for (j = 0; j < n && (text[start + j] | 32) == words[i][j]; j++);
+	  if (j == n && words[i][j] != '\0' && (c | 32) == words[i][j])
+	    return true;
+	}
+      return false;
+    }
+
+  public:
+    __decimal_scanner () : state (START) {}
+
+    const std::string &str () const { return text; }
+
+    /* Append C if it can be part of the number.  */
+    bool accept (char c)
+    {
+      switch (state)
+	{
+	case START:
+	  if (c == '+' || c == '-') { state = SIGN; break; }
+	  /* Fall through.  */
+	case SIGN:
+	  if (isdig (c)) state = INT;
+	  else if (c == '.') state = POINT;
+	  else if (word (c)) state = WORD;
+	  else return false;
+	  break;
+	case INT:
+	  if (c == '.') state = FRAC;
+	  else if ((c | 32) == 'e') state = EXP;
+	  else if (!isdig (c)) return false;
+	  break;
+	case POINT:
+	  if (!isdig (c)) return false;
+	  state = FRAC;
+	  break;
+	case FRAC:
+	  if ((c | 32) == 'e') state = EXP;
+	  else if (!isdig (c)) return false;
+	  break;
+	case EXP:
+	  if (c == '+' || c == '-') { state = EXPSIGN; break; }
+	  /* Fall through.  */
+	case EXPSIGN:
+	case EXPDIG:
+	  if (!isdig (c)) return false;
+	  state = EXPDIG;
+	  break;
+	case WORD:
+	  if (c == '(' && (text[text.size () - 1] | 32) == 'n'
+	      && (text[text.size () - 2] | 32) == 'a') state = PAREN;
+	  else if (!word (c)) return false;
+	  break;
+	case PAREN:
+	  if (c == ')') state = END;
+	  else if (!isdig (c) && c != '_' && !((c | 32) >= 'a' && (c | 32) <= 'z'))
+	    return false;
+	  break;
+	case END:
+	  return false;
+	}
+      text += c;
+      return true;
+    }
+  };
+
+  /* Extract the characters of a number, and no others, and convert them.  */
+  template <class charT, class traits, class decimal_type, class value_type>
+    inline std::basic_istream<charT, traits> &
+      __extract_decimal (std::basic_istream<charT, traits> & is, decimal_type & d,
+			 value_type (*convert) (const char *, char **))
+      {
+	typename std::basic_istream<charT, traits>::sentry ok (is);
+	if (!ok)
+	  return is;
+
+	__decimal_scanner scan;
+	while (1)
+	  {
+	    typename traits::int_type c = is.rdbuf ()->sgetc ();
+	    if (traits::eq_int_type (c, traits::eof ()))
+	      {
+		is.setstate (ios_base::eofbit);
+		break;
+	      }
+	    if (!scan.accept (is.narrow (traits::to_char_type (c), '\0')))
+	      break;
+	    is.rdbuf ()->sbumpc ();
+	  }
+
+	const char *str = scan.str ().c_str ();
+	char *end;
+	value_type val = convert (str, &end);
+	if (end == str || *end != '\0')
+	  is.setstate (ios_base::failbit);
+	else
+	  d.__setval (val);
+	return is;
+      }
+
   template <class charT, class traits>
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal32 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod32(buf, NULL));
-	return is;
+	return __extract_decimal (is, d, strtod32);
       }
 
   template <class charT, class traits>
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal64 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod64(buf, NULL));
-	return is;
+	return __extract_decimal (is, d, strtod64);
       }
 
   template <class charT, class traits>
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal128 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod128(buf, NULL));
-	return is;
+	return __extract_decimal (is, d, strtod128);
       }
 
 } /* namespace decimal  */
-- 
2.43.0


From a8cb5dc35539fa1707fa3bb94b17d53d59d22b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 34/99] fix: exception flags of tiny products and quotients
 depended on earlier operations

is_inexact() consults _IDEC_glbflags, which accumulates over the life of the
thread, so a stale inexact bit raised a spurious underflow and dropped inexact.
Start multiplications, divisions and narrowing conversions with clean flags.
---
 libbid/_dd_to_sd.c | 1 +
 libbid/_div_dd.c   | 1 +
 libbid/_div_sd.c   | 1 +
 libbid/_div_td.c   | 1 +
 libbid/_mul_dd.c   | 1 +
 libbid/_mul_sd.c   | 1 +
 libbid/_td_to_dd.c | 1 +
 libbid/_td_to_sd.c | 1 +
 8 files changed, 8 insertions(+)

diff --git a/libbid/_dd_to_sd.c b/libbid/_dd_to_sd.c
index 554e75f..80c2a21 100644
--- a/libbid/_dd_to_sd.c
+++ b/libbid/_dd_to_sd.c
@@ -30,6 +30,7 @@ __bid_truncddsd2 (_Decimal64 x) {
   union decimal32 res;
   union decimal64 ux;
 
+  _IDEC_glbflags = 0;
   ux.d = x;
   res.i = __bid64_to_bid32 (ux.i);
   return (res.d);
diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 47dcfe3..204c9ce 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -29,6 +29,7 @@ _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
 
+  _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   res.i = __bid64_div (ux.i, uy.i);
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index bb05b8f..d5bc55c 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -30,6 +30,7 @@ __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
 
+  _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 97e15f6..84c54ba 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -29,6 +29,7 @@ _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
 
+  _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   res.i = __bid128_div (ux.i, uy.i);
diff --git a/libbid/_mul_dd.c b/libbid/_mul_dd.c
index a4107eb..600633e 100644
--- a/libbid/_mul_dd.c
+++ b/libbid/_mul_dd.c
@@ -29,6 +29,7 @@ _Decimal64
 __bid_muldd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
  
+  _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   res.i = __bid64_mul (ux.i, uy.i);
diff --git a/libbid/_mul_sd.c b/libbid/_mul_sd.c
index 3db444d..c81adce 100644
--- a/libbid/_mul_sd.c
+++ b/libbid/_mul_sd.c
@@ -30,6 +30,7 @@ __bid_mulsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
  
+  _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
diff --git a/libbid/_td_to_dd.c b/libbid/_td_to_dd.c
index 6adf82b..61a9f14 100644
--- a/libbid/_td_to_dd.c
+++ b/libbid/_td_to_dd.c
@@ -30,6 +30,7 @@ __bid_trunctddd2 (_Decimal128 x) {
   union decimal128 ux;
   union decimal64 res;
 
+  _IDEC_glbflags = 0;
   ux.d = x;
   res.i = __bid128_to_bid64 (ux.i);
   return (res.d);
diff --git a/libbid/_td_to_sd.c b/libbid/_td_to_sd.c
index 39c8f7c..db0543b 100644
--- a/libbid/_td_to_sd.c
+++ b/libbid/_td_to_sd.c
@@ -30,6 +30,7 @@ __bid_trunctdsd2 (_Decimal128 x) {
   union decimal128 ux;
   union decimal32 res;
 
+  _IDEC_glbflags = 0;
   ux.d = x;
   res.i = __bid128_to_bid32 (ux.i);
   return (res.d);
-- 
2.43.0


From 6f80ce2b4269390ebe23464794a0d66a55fa2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 35/99] fix: division under a binary rounding mode other than
 to-nearest

The 64- and 128-bit division cores estimate quotient digits in binary floating
point and corrected the estimates assuming round-to-nearest.
---
 libbid/_div_dd.c | 8 ++++++++
 libbid/_div_sd.c | 8 ++++++++
 libbid/_div_td.c | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 204c9ce..59b310e 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -29,10 +30,17 @@ _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
 
+  /* The quotient digits are estimated in binary arithmetic, which must round
+     to nearest.  */
+  int round = fegetround ();
+  if (round != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   res.i = __bid64_div (ux.i, uy.i);
+  if (round != FE_TONEAREST)
+    fesetround (round);
   return (res.d);
 }
 hidden_def(__bid_divdd3);
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index d5bc55c..bb104d5 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -30,6 +31,11 @@ __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
 
+  /* The quotient digits are estimated in binary arithmetic, which must round
+     to nearest.  */
+  int round = fegetround ();
+  if (round != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
@@ -37,6 +43,8 @@ __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_div (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  if (round != FE_TONEAREST)
+    fesetround (round);
   return (res.d);
 }
 hidden_def(__bid_divsd3);
diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 84c54ba..4c9aa1c 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -29,10 +30,17 @@ _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
 
+  /* The quotient digits are estimated in binary arithmetic, which must round
+     to nearest.  */
+  int round = fegetround ();
+  if (round != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   _IDEC_glbflags = 0;
   ux.d = x;
   uy.d = y;
   res.i = __bid128_div (ux.i, uy.i);
+  if (round != FE_TONEAREST)
+    fesetround (round);
   return (res.d);
 }
 hidden_def(__bid_divtd3);
-- 
2.43.0


From 09042e90146e00715714112ca8a978de44f344bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 36/99] fix: expd64 of a NaN indexed its table with an
 undefined conversion

---
 ieee754r/expd64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 0dbb347..1679c96 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -59,6 +59,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   int neg = 0;
 
+  if (__isnand64 (val))
+    return val + val;
+
   if (__isinfd64(val))
     {
       if (val < DFP_CONSTANT(0.0))
-- 
2.43.0


From 44af16a7ab2d0f580d348e4dca52410fde535c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:26 +0000
Subject: [PATCH 37/99] fix: negation overflow converting the most negative
 integers

---
 base-math/floattitd.c | 2 +-
 libbid/bid_from_int.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index 80ca1af..1a514c5 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -107,7 +107,7 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
        * Can't just use copysign later because we are dealing with
        * different register sets and copysign instructions only
        * within a specific register set.  */
-      u = (UINT128) -a;
+      u = -(UINT128) a;
       negative = 1;
     }
   else
diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index c4fa99b..3a91aab 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -322,7 +322,7 @@ bid128_from_int64 (SINT64 x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // if integer is negative, use the absolute value
   if ((x & SIGNMASK64) == SIGNMASK64) {
     res.w[HIGH_128W] = 0xb040000000000000ull;
-    res.w[LOW_128W] = ~x + 1;	// 2's complement of x
+    res.w[LOW_128W] = ~(UINT64) x + 1;	// 2's complement of x
   } else {
     res.w[HIGH_128W] = 0x3040000000000000ull;
     res.w[LOW_128W] = x;
-- 
2.43.0


From 3208e3eefdbf0dd3d64855ba1dc7e2a94150d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:26 +0000
Subject: [PATCH 38/99] fix: shifts by the word width in the 128-bit to integer
 conversions

---
 libbid/bid128_to_int32.c  | 20 ++++++++++----------
 libbid/bid128_to_int64.c  | 20 ++++++++++----------
 libbid/bid128_to_uint32.c | 20 ++++++++++----------
 libbid/bid128_to_uint64.c | 20 ++++++++++----------
 4 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/libbid/bid128_to_int32.c b/libbid/bid128_to_int32.c
index de11aff..bac6975 100644
--- a/libbid/bid128_to_int32.c
+++ b/libbid/bid128_to_int32.c
@@ -300,7 +300,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -625,7 +625,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -987,7 +987,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1364,7 +1364,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1749,7 +1749,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2124,7 +2124,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2505,7 +2505,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2867,7 +2867,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -3254,7 +3254,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -3568,7 +3568,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
diff --git a/libbid/bid128_to_int64.c b/libbid/bid128_to_int64.c
index 6539798..1a22378 100644
--- a/libbid/bid128_to_int64.c
+++ b/libbid/bid128_to_int64.c
@@ -279,7 +279,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull) ||
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -582,7 +582,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -907,7 +907,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1196,7 +1196,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1489,7 +1489,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1777,7 +1777,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2058,7 +2058,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2304,7 +2304,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2609,7 +2609,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2900,7 +2900,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
diff --git a/libbid/bid128_to_uint32.c b/libbid/bid128_to_uint32.c
index b36d395..211a5bd 100644
--- a/libbid/bid128_to_uint32.c
+++ b/libbid/bid128_to_uint32.c
@@ -312,7 +312,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -642,7 +642,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -973,7 +973,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1298,7 +1298,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1676,7 +1676,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2045,7 +2045,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2420,7 +2420,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2785,7 +2785,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -3176,7 +3176,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -3495,7 +3495,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
diff --git a/libbid/bid128_to_uint64.c b/libbid/bid128_to_uint64.c
index 1ef5253..5b2f557 100644
--- a/libbid/bid128_to_uint64.c
+++ b/libbid/bid128_to_uint64.c
@@ -345,7 +345,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -708,7 +708,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1040,7 +1040,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1306,7 +1306,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1629,7 +1629,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -1965,7 +1965,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2296,7 +2296,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2591,7 +2591,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -2959,7 +2959,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
@@ -3315,7 +3315,7 @@ if ((C1.w[1] > 0x0001ed09bead87c0ull)
       shift = shiftright128[ind - 1];	// 0 <= shift <= 102
       if (ind - 1 <= 21) {	// 0 <= ind - 1 <= 21
 	Cstar.w[0] =
-	  (Cstar.w[0] >> shift) | (Cstar.w[1] << (64 - shift));
+	  (Cstar.w[0] >> shift) | ((Cstar.w[1] << 1) << (63 - shift));
 	// redundant, it will be 0! Cstar.w[1] = (Cstar.w[1] >> shift);
       } else {	// 22 <= ind - 1 <= 33
 	Cstar.w[0] = (Cstar.w[0] >> (shift - 64));	// 2 <= shift - 64 <= 38
-- 
2.43.0


From 2553b877e90815632a2eeea6354ba5f5c07d4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 39/99] fix: strfrom and printf with precisions near INT_MAX
 crashed

---
 printf-hooks/printf_dfp.c | 8 ++++++++
 stdlib/strfromd32.c       | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 6bac1c9..217da42 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -38,6 +38,7 @@
 #include <stdlib.h>
 #include <ctype.h>
 #include <assert.h>
+#include <errno.h>
 
 #include <fenv.h>
 
@@ -396,6 +397,13 @@ __printf_dfp (FILE *fp,
 
   char spec = tolower(info->spec);
 
+  /* The digits before the precision applies must still be countable.  */
+  if (info->prec > INT_MAX - 16384)
+    {
+      errno = EOVERFLOW;
+      return -1;
+    }
+
   /* Locale-dependent thousands separator and grouping specification.  */
   const char *thousands_sep = NULL;
   wchar_t thousands_sepwc = 0;
diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index c23a84e..8921304 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -25,6 +25,7 @@
 #include <printf.h>
 #include <errno.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "printf_dfp.h"
 
@@ -63,7 +64,11 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
       format++;
       info.prec = 0;
       while (isdigit (format[0])) {
-	info.prec = info.prec * 10 + format[0] - '0';
+	/* A precision that does not fit is refused by printf_dfp.  */
+	if (info.prec > (INT_MAX - 9) / 10)
+	  info.prec = INT_MAX;
+	else
+	  info.prec = info.prec * 10 + (format[0] - '0');
 	format++;
       }
     }
-- 
2.43.0


From 11e2c187224cc1835af2ed69817c6f6d7697b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 40/99] fix: sinh, cosh and tanh of small and of large
 arguments

The difference of the two exponentials cancels for small arguments, and
the exponentials were only computed to the precision of the result.
---
 decNumberMath/decNumberMath.c | 88 ++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 4ff0ab8..d77ec5d 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -74,6 +74,16 @@
     ctxp->digits = _digits_stashed; \
     decNumberAdd (resultoutp, resultinp, zerop, ctxp);
 
+// Exponents for squares of any argument.
+#define DEC_WIDE_EXPONENTS(ctxp) \
+    ctxp->emax = DEC_MAX_MATH; \
+    ctxp->emin = -DEC_MAX_MATH;
+
+// Arguments so close to zero that the leading terms of a power series
+// give the result to the working precision less the digits that a
+// closed formula would lose to cancellation.
+#define DEC_IS_TINY(x) ((x)->exponent + (x)->digits < -DECNUMDIGITS/3)
+
 // ----------------------------------------------------------------------
 // Basic Functions
 // ----------------------------------------------------------------------
@@ -488,45 +498,77 @@ decNumber* decNumberPow (decNumber *result, decNumber *x, decNumber *y,
 // Hyperbolic Functions
 // ----------------------------------------------------------------------
 
-decNumber* decNumberSinh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberSinh (decNumber *_result, decNumber *x, decContext *set)
 {
   // sinh x = (e^x - e^-x)/2
-  decNumber ex, emx, mx, two;
+  // For small x both exponentials are close to one and the subtraction
+  // cancels: there sinh x = x + x^3/6 + ... has converged to x.
+  decNumber ex, emx, mx, two, zero, result;
 
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
-  return result;
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  if (DEC_IS_TINY (x))
+    decNumberCopy (&result, x);
+  else
+  {
+    decNumberExp (&ex, x, set);
+    decNumberMinus (&mx, x, set);
+    decNumberExp (&emx, &mx, set);
+    decNumberSubtract (&result, &ex, &emx, set);
+    decNumberFromString (&two, "2", set);
+    decNumberDivide (&result, &result, &two, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 }
 
-decNumber* decNumberCosh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberCosh (decNumber *_result, decNumber *x, decContext *set)
 {
   // cosh x = (e^x + e^-x)/2
-  decNumber ex, emx, mx, two;
+  decNumber ex, emx, mx, two, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
 
   decNumberExp (&ex, x, set);
   decNumberMinus (&mx, x, set);
   decNumberExp (&emx, &mx, set);
-  decNumberAdd (result, &ex, &emx, set);
+  decNumberAdd (&result, &ex, &emx, set);
   decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
-  return result;
+  decNumberDivide (&result, &result, &two, set);
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberCosh  */
 
-decNumber* decNumberTanh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberTanh (decNumber *_result, decNumber *x, decContext *set)
 {
   // tanh x = sinh x / cosh x = (e^x - e^-x) / (e^x + e^-x)
-  decNumber ex, emx, mx, denominator;
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberAdd (&denominator, &ex, &emx, set);
-  decNumberDivide (result, result, &denominator, set);
-  return result;
+  // Small x are handled as in sinh.  For large x the quotient has long
+  // reached one (or minus one) before the exponentials overflow.
+  decNumber ex, emx, mx, denominator, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+
+  if (DEC_IS_TINY (x))
+    decNumberCopy (&result, x);
+  else
+  {
+    decNumberFromInt32 (&result, 999);
+    if (x->exponent + x->digits > 3)
+      decNumberCopySign (&mx, &result, x);
+    else
+      decNumberCopy (&mx, x);
+    decNumberExp (&ex, &mx, set);
+    decNumberMinus (&mx, &mx, set);
+    decNumberExp (&emx, &mx, set);
+    decNumberSubtract (&result, &ex, &emx, set);
+    decNumberAdd (&denominator, &ex, &emx, set);
+    decNumberDivide (&result, &result, &denominator, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberTanh  */
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From 4c092014ee8143aea2f51333cf7a8f9699caae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 41/99] fix: atan of small and of large arguments

sqrt (1 + x^2) - 1 cancels, and x^2 overflows.
---
 decNumberMath/decNumberMath.c | 52 +++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index d77ec5d..4abaed5 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -739,7 +739,7 @@ decNumber* decNumberTan (decNumber *result, decNumber *y, decContext *set)
   return result;
 } /* decNumberTan  */
 
-decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set) 
+decNumber* decNumberAtan (decNumber *_result, decNumber *y, decContext *set)
 {
   //                 x^3   x^5   x^7
   // arctan(x) = x - --- + --- - --- + ...
@@ -749,32 +749,36 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // If x is larger, the series converges too slowly,
   // so in order to get a smaller x, we apply the identity 
   //
-  //                      sqrt(1+x^2) - 1
-  // arctan(x) = 2*arctan ---------------
   //                             x
+  // arctan(x) = 2*arctan ---------------
+  //                      1 + sqrt(1+x^2)
   //
   // twice. The first application gives us a new x with x < 1.
   // The second application gives us a new x with x < 0.4142136.
   // For that x, we use the power series and multiply the result by four.
   
-  decNumber f, g, mx2, one, two, term;
+  decNumber f, g, mx2, one, two, term, zero, x, result;
   int i;
 
+  if (decNumberIsZero (y)) {
+    decNumberCopy (_result, y);
+    return _result;
+  }
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
   decNumberFromString (&one, "1", set);
   decNumberFromString (&two, "2", set);
-
-  if (decNumberIsZero (x)) {
-    decNumberCopy (result, x);
-    return result;
-  }
+  decNumberCopy (&x, y);
 
   for (i=0; i<2; i++) {
-    decNumber y;
-    decNumberMultiply (&y, x, x, set);     // y = x^2
-    decNumberAdd (&y, &y, &one, set);      // y = y+1
-    decNumberSquareRoot (&y, &y, set);     // y = sqrt(y)
-    decNumberSubtract (&y, &y, &one, set); // y = y-1
-    decNumberDivide (x, &y, x, set);       // x = y/x
+    decNumber t;
+    decNumberMultiply (&t, &x, &x, set);   // t = x^2
+    decNumberAdd (&t, &t, &one, set);      // t = t+1
+    decNumberSquareRoot (&t, &t, set);     // t = sqrt(t)
+    decNumberAdd (&t, &t, &one, set);      // t = t+1
+    decNumberDivide (&x, &x, &t, set);     // x = x/t
   }
   // f(0) = x
   // f(i) = f(i-1) * (-x^2)
@@ -783,11 +787,11 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // g(i) = g(i-1) + 2
   //
   // term(i) = f(i) / g(i)
-  decNumberCopy (&f, x);     // f(0) = x
+  decNumberCopy (&f, &x);     // f(0) = x
   decNumberCopy (&g, &one);  // g(0) = 1
-  decNumberCopy (&term, x);  // term = x
-  decNumberCopy (result, x); // sum  = x 
-  decNumberMultiply (&mx2, x, x, set); // mx2 = x^2
+  decNumberCopy (&term, &x);  // term = x
+  decNumberCopy (&result, &x); // sum  = x
+  decNumberMultiply (&mx2, &x, &x, set); // mx2 = x^2
   decNumberMinus (&mx2, &mx2, set);    // mx2 = -x^2  
   // Since x is less than sqrt(2)-1 = 0.4142...,
   // each term is smaller than the previous term by a factor of about 6,
@@ -802,10 +806,12 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
     // term = f/g
     decNumberDivide (&term, &f, &g, set);
     // sum = sum + term
-    decNumberAdd (result, result, &term, set);
+    decNumberAdd (&result, &result, &term, set);
   }
   // Multiply result by four.
-  decNumberAdd (result, result, result, set);
-  decNumberAdd (result, result, result, set);
-  return result;
+  decNumberAdd (&result, &result, &result, set);
+  decNumberAdd (&result, &result, &result, set);
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberAtan  */
-- 
2.43.0


From 965eaa9be8c4cfbb187c918359cead1f24197ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 42/99] fix: atan2 rounds the quotient and the sum with pi

The quotient may also overflow or underflow where the angle does not.
---
 decNumberMath/decNumberMath.c | 20 ++++++++++++++++++++
 decNumberMath/decNumberMath.h |  2 ++
 ieee754r/atan2d32.c           | 17 +++--------------
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 4abaed5..2fea350 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -815,3 +815,23 @@ decNumber* decNumberAtan (decNumber *_result, decNumber *y, decContext *set)
   DEC_RESTORE_ROUND (set, _result, &result, &zero);
   return _result;
 } /* decNumberAtan  */
+
+// The angle of the point (x, y), both finite and not zero
+decNumber* decNumberAtan2 (decNumber *_result, decNumber *y, decNumber *x, decContext *set)
+{
+  decNumber zero, t, pi, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  decNumberDivide (&t, y, x, set);
+  decNumberAtan (&result, &t, set);
+  if (decNumberIsNegative (x))
+  {
+    decNumberFromString (&t, PI, set);
+    decNumberCopySign (&pi, &t, y);
+    decNumberAdd (&result, &result, &pi, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAtan2  */
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index e04815f..22777f4 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -46,5 +46,7 @@ extern decNumber* decNumberTan (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTan)
 extern decNumber* decNumberAtan (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberAtan)
+extern decNumber* decNumberAtan2 (decNumber *, decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAtan2)
 
 #endif /* _DECNUMBERMATH_H  */
diff --git a/ieee754r/atan2d32.c b/ieee754r/atan2d32.c
index 49108ba..480d330 100644
--- a/ieee754r/atan2d32.c
+++ b/ieee754r/atan2d32.c
@@ -48,7 +48,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
   const DEC_TYPE generate_inexact = DFP_CONSTANT(1e-94);
 
   decContext context;
-  decNumber dn_result, dn_temp;
+  decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
 
@@ -64,20 +64,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
       && !decNumberIsInfinite (&dn_y) && !decNumberIsZero (&dn_x))
     {
       decContextDefault (&context, DEFAULT_CONTEXT);
-      decNumberDivide (&dn_temp, &dn_y, &dn_x, &context);
-      decNumberAtan (&dn_result, &dn_temp, &context);
+      decNumberAtan2 (&dn_result, &dn_y, &dn_x, &context);
       FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-      /* decNumberAtan doesn't quite return the values in the ranges we
-       * want for x < 0. So we need to do some correction */
-      if (decNumberIsNegative (&dn_x))
-	{
-	  if (decNumberIsNegative (&dn_y))
-	    return result - M_PIdl;
-	  else
-	    return result + M_PIdl;
-	}
-      else
-	return result;
+      return result;
     }
 
   /* If x and y are both inf, the result depends on the sign of x */
-- 
2.43.0


From 42d6e8c40b8e6416c2b727d95c57d8ef3244688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 43/99] fix: hypot overflows and underflows for representable
 results

---
 decNumberMath/decNumberMath.c | 17 +++++++++++++++++
 decNumberMath/decNumberMath.h |  2 ++
 ieee754r/hypotd32.c           |  8 +-------
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 2fea350..de99bcc 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -571,6 +571,23 @@ decNumber* decNumberTanh (decNumber *_result, decNumber *x, decContext *set)
   return _result;
 } /* decNumberTanh  */
 
+// sqrt (x^2 + y^2)
+decNumber* decNumberHypot (decNumber *_result, decNumber *x, decNumber *y, decContext *set)
+{
+  decNumber zero, xx, yy, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  decNumberMultiply (&xx, x, x, set);
+  decNumberMultiply (&yy, y, y, set);
+  decNumberAdd (&xx, &xx, &yy, set);
+  decNumberSquareRoot (&result, &xx, set);
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberHypot  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index 22777f4..98124ac 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -28,6 +28,8 @@
 
 extern decNumber* decNumberPow (decNumber *, decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberPow)
+extern decNumber* decNumberHypot (decNumber *, decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberHypot)
 
 /* Hyperbolic Functions */
 extern decNumber* decNumberSinh (decNumber *, decNumber *, decContext *);
diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 3c06b93..26c32b8 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -47,10 +47,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_xx;
   decNumber dn_y;
-  decNumber dn_yy;
-  decNumber dn_sum;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -62,10 +59,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     return x+y;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_xx, &dn_x, &dn_x, &context);
-  decNumberMultiply (&dn_yy, &dn_y, &dn_y, &context);
-  decNumberAdd (&dn_sum, &dn_xx, &dn_yy, &context);
-  decNumberSquareRoot (&dn_result, &dn_sum, &context);
+  decNumberHypot (&dn_result, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From b2ed7ed0334717954ccf4977d4c6b42e63de7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 44/99] fix: expm1 and log1p of small arguments

The sum with one dropped the digits of the argument these functions
exist to keep.
---
 decNumberMath/decNumberMath.c | 50 +++++++++++++++++++++++++++++++++++
 decNumberMath/decNumberMath.h |  4 +++
 ieee754r/expm1d32.c           |  7 +----
 ieee754r/log1pd32.c           | 11 +++-----
 4 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index de99bcc..aaa5967 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -588,6 +588,56 @@ decNumber* decNumberHypot (decNumber *_result, decNumber *x, decNumber *y, decCo
   return _result;
 } /* decNumberHypot  */
 
+// e^x - 1
+decNumber* decNumberExpm1 (decNumber *_result, decNumber *x, decContext *set)
+{
+  decNumber zero, one, t, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  if (DEC_IS_TINY (x))
+  {
+    // x + x^2/2
+    decNumberFromString (&t, "0.5", set);
+    decNumberMultiply (&t, &t, x, set);
+    decNumberFMA (&result, &t, x, x, set);
+  }
+  else
+  {
+    decNumberFromInt32 (&one, 1);
+    decNumberExp (&t, x, set);
+    decNumberSubtract (&result, &t, &one, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberExpm1  */
+
+// ln (1 + x), x > -1
+decNumber* decNumberLog1p (decNumber *_result, decNumber *x, decContext *set)
+{
+  decNumber zero, one, t, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  if (DEC_IS_TINY (x))
+  {
+    // x - x^2/2
+    decNumberFromString (&t, "-0.5", set);
+    decNumberMultiply (&t, &t, x, set);
+    decNumberFMA (&result, &t, x, x, set);
+  }
+  else
+  {
+    decNumberFromInt32 (&one, 1);
+    decNumberAdd (&t, x, &one, set);
+    decNumberLn (&result, &t, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberLog1p  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index 98124ac..b866a54 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -30,6 +30,10 @@ extern decNumber* decNumberPow (decNumber *, decNumber *, decNumber *, decContex
 hidden_proto (decNumberPow)
 extern decNumber* decNumberHypot (decNumber *, decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberHypot)
+extern decNumber* decNumberExpm1 (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberExpm1)
+extern decNumber* decNumberLog1p (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberLog1p)
 
 /* Hyperbolic Functions */
 extern decNumber* decNumberSinh (decNumber *, decNumber *, decContext *);
diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 3ce810f..388884e 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -47,12 +47,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_one;
-  decNumber dn_exponent;
-  DEC_TYPE one = DFP_CONSTANT(1.0);
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
-  FUNC_CONVERT_TO_DN(&one, &dn_one);
   if (decNumberIsNaN (&dn_x))
     return x+x;
 
@@ -60,8 +56,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
     return decNumberIsNegative (&dn_x) ? DFP_CONSTANT(-1.0) : x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-  decNumberExp(&dn_exponent, &dn_x, &context);
-  decNumberSubtract(&dn_result, &dn_exponent, &dn_one, &context);
+  decNumberExpm1(&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/log1pd32.c b/ieee754r/log1pd32.c
index f86084d..8b54d4c 100644
--- a/ieee754r/log1pd32.c
+++ b/ieee754r/log1pd32.c
@@ -46,12 +46,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_sum;
-  decNumber dn_one;
-  DEC_TYPE one = DFP_CONSTANT(1.0);
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
 
   /*  For NaN, 0, or +Inf, just return x */
   if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x) ||
@@ -59,19 +55,18 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
     return x+x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-  decNumberAdd(&dn_sum, &dn_x, &dn_one, &context);
-  if (decNumberIsZero(&dn_sum)) /*  Pole Error if x was -1 */
+  if (x == DFP_CONSTANT(-1.0)) /*  Pole Error if x was -1 */
     {
       DFP_EXCEPT (FE_DIVBYZERO);
       return -DFP_HUGE_VAL;
     }
-  if (decNumberIsNegative(&dn_sum)) /*  Domain Error if x < -1 */
+  if (x < DFP_CONSTANT(-1.0)) /*  Domain Error if x < -1 */
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
 
-  decNumberLn(&dn_result, &dn_sum, &context);
+  decNumberLog1p(&dn_result, &dn_x, &context);
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
 
-- 
2.43.0


From e8839ee97c4c466dd7064e76d59c827f49ddbd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 45/99] fix: log2 of arguments close to one, and of powers of
 two

Both logarithms were rounded before the division.
---
 decNumberMath/decNumberMath.c | 16 ++++++++++++++++
 decNumberMath/decNumberMath.h |  2 ++
 ieee754r/log2d32.c            | 10 +---------
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index aaa5967..0b209ec 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -638,6 +638,22 @@ decNumber* decNumberLog1p (decNumber *_result, decNumber *x, decContext *set)
   return _result;
 } /* decNumberLog1p  */
 
+// log_2 (x) = ln (x) / ln (2)
+decNumber* decNumberLog2 (decNumber *_result, decNumber *x, decContext *set)
+{
+  decNumber zero, two, t, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+
+  decNumberFromInt32 (&two, 2);
+  decNumberLn (&t, x, set);
+  decNumberLn (&two, &two, set);
+  decNumberDivide (&result, &t, &two, set);
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberLog2  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index b866a54..bc576e4 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -34,6 +34,8 @@ extern decNumber* decNumberExpm1 (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberExpm1)
 extern decNumber* decNumberLog1p (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberLog1p)
+extern decNumber* decNumberLog2 (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberLog2)
 
 /* Hyperbolic Functions */
 extern decNumber* decNumberSinh (decNumber *, decNumber *, decContext *);
diff --git a/ieee754r/log2d32.c b/ieee754r/log2d32.c
index 3343adf..4af3a24 100644
--- a/ieee754r/log2d32.c
+++ b/ieee754r/log2d32.c
@@ -46,13 +46,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_two;
-  decNumber dn_logtwo;
-  decNumber dn_logx;
-  DEC_TYPE two = DFP_CONSTANT(2.0);
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  FUNC_CONVERT_TO_DN (&two, &dn_two);
 
   if (decNumberIsNaN (&dn_x))
     return x+x;
@@ -70,10 +65,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
     return x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  // log_2 (x) = log_10 (x) / log_10 (2)
-  decNumberLog10 (&dn_logx, &dn_x, &context);
-  decNumberLog10 (&dn_logtwo, &dn_two, &context);
-  decNumberDivide (&dn_result, &dn_logx, &dn_logtwo, &context);
+  decNumberLog2 (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 5cf80e15945189f73417614d5ec4c73f7b286f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 46/99] fix: asinh of negative, and asinh, acosh and atanh of
 small arguments

x + sqrt (x^2 + 1) cancels for negative x, x^2 overflows for large x, and
the logarithms are taken of arguments rounded close to one.
---
 decNumberMath/decNumberMath.c | 71 +++++++++++++++++++++++++++++++++++
 decNumberMath/decNumberMath.h |  6 +++
 ieee754r/acoshd32.c           | 10 +----
 ieee754r/asinhd32.c           | 13 ++-----
 ieee754r/atanhd32.c           | 11 +-----
 5 files changed, 84 insertions(+), 27 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 0b209ec..9571ab6 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -654,6 +654,77 @@ decNumber* decNumberLog2 (decNumber *_result, decNumber *x, decContext *set)
   return _result;
 } /* decNumberLog2  */
 
+
+decNumber* decNumberAsinh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // asinh (x) = ln (|x| + sqrt (x^2 + 1)) with the sign of x
+  decNumber zero, one, t, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  if (DEC_IS_TINY (x))
+    decNumberCopy (&result, x);
+  else
+  {
+    decNumberFromInt32 (&one, 1);
+    decNumberMultiply (&t, x, x, set);
+    decNumberAdd (&t, &t, &one, set);
+    decNumberSquareRoot (&t, &t, set);
+    decNumberCopyAbs (&one, x);
+    decNumberAdd (&t, &t, &one, set);
+    decNumberLn (&t, &t, set);
+    decNumberCopySign (&result, &t, x);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAsinh  */
+
+
+decNumber* decNumberAcosh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // acosh (x) = ln (x + sqrt ((x-1)*(x+1))), x >= 1
+  decNumber zero, one, t, u, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  DEC_WIDE_EXPONENTS (set);
+
+  decNumberFromInt32 (&one, 1);
+  decNumberSubtract (&t, x, &one, set);
+  decNumberAdd (&u, x, &one, set);
+  decNumberMultiply (&t, &t, &u, set);
+  decNumberSquareRoot (&t, &t, set);
+  decNumberAdd (&t, &t, x, set);
+  decNumberLn (&result, &t, set);
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAcosh  */
+
+
+decNumber* decNumberAtanh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // atanh (x) = 1/2 * ln ((1+x)/(1-x)), |x| < 1
+  decNumber zero, one, two, t, u, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+
+  if (DEC_IS_TINY (x))
+    decNumberCopy (&result, x);
+  else
+  {
+    decNumberFromInt32 (&one, 1);
+    decNumberFromInt32 (&two, 2);
+    decNumberAdd (&t, &one, x, set);
+    decNumberSubtract (&u, &one, x, set);
+    decNumberDivide (&t, &t, &u, set);
+    decNumberLn (&t, &t, set);
+    decNumberDivide (&result, &t, &two, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAtanh  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index bc576e4..540d040 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -44,6 +44,12 @@ extern decNumber* decNumberCosh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberCosh)
 extern decNumber* decNumberTanh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTanh)
+extern decNumber* decNumberAsinh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAsinh)
+extern decNumber* decNumberAcosh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAcosh)
+extern decNumber* decNumberAtanh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAtanh)
 
 /* Trigonometric Functions */
 extern decNumber* decNumberSin (decNumber *, decNumber *, decContext *);
diff --git a/ieee754r/acoshd32.c b/ieee754r/acoshd32.c
index 82acb92..6fa87b4 100644
--- a/ieee754r/acoshd32.c
+++ b/ieee754r/acoshd32.c
@@ -45,10 +45,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  decNumber dn_x;
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x))
@@ -80,12 +79,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberSubtract (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAcosh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/asinhd32.c b/ieee754r/asinhd32.c
index c07f2d4..5fe946a 100644
--- a/ieee754r/asinhd32.c
+++ b/ieee754r/asinhd32.c
@@ -43,11 +43,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   decContext context;
   decNumber dn_result;
-  DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  DEC_TYPE result;
+  decNumber dn_x;
 
-  one = DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x)
@@ -57,12 +55,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     }
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAsinh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/atanhd32.c b/ieee754r/atanhd32.c
index ffc2bcc..380c279 100644
--- a/ieee754r/atanhd32.c
+++ b/ieee754r/atanhd32.c
@@ -45,11 +45,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one, temp;
-  decNumber dn_x, dn_temp, dn_one;
+  decNumber dn_x, dn_temp;
 /*  int comp;*/
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   /*  Handle NaN and early exit for x==0 */
@@ -81,13 +80,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 //	return DFP_NAN;
 //    }
 
-  /* Using trig identity: atanh(x) = 1/2 * log((1+x)/(1-x)) */
-  decNumberAdd (&dn_result, &dn_one, &dn_x, &context);
-  decNumberSubtract (&dn_temp, &dn_one, &dn_x, &context);
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_temp, &dn_one, &dn_one, &context); /* 2 */
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
+  decNumberAtanh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From ed549e19459bdf23a4d67178011dd669ac8e2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 47/99] fix: wrong digits in the log and exp tables of
 _Decimal64

In twelve entries 774 had become 974: log of numbers starting 0.49 was
wrong from the eleventh digit on, exp (580) from the fifth.
---
 ieee754r/ddlogtbls.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ieee754r/ddlogtbls.h b/ieee754r/ddlogtbls.h
index 98f768b..1fef294 100644
--- a/ieee754r/ddlogtbls.h
+++ b/ieee754r/ddlogtbls.h
@@ -76,13 +76,13 @@ const _Decimal128 __LN2digits [] = {
 	-0.7765287894989963678119979561003557DL, /* ln(0.46DL) */
 	-0.7550225842780327812150322395965547DL, /* ln(0.47DL) */
 	-0.7339691750802004389718091866134964DL, /* ln(0.48DL) */
-	-0.7133498878974647578252974224823690DL, /* ln(0.49DL) */
+	-0.7133498878774647578252974224823690DL, /* ln(0.49DL) */
 	-0.6931471805599453094172321214581766DL, /* ln(0.50DL) */
 	-0.6733445532637655963912030545730762DL, /* ln(0.51DL) */
 	-0.6539264674066640131480312248870567DL, /* ln(0.52DL) */
 	-0.6348782724359695338915137703396706DL, /* ln(0.53DL) */
 	-0.6161861394238169844330150771429747DL, /* ln(0.54DL) */
-	-0.5978370007556204493732799981974115DL, /* ln(0.55DL) */
+	-0.5978370007556204493732799981774115DL, /* ln(0.55DL) */
 	-0.5798184952529421346789338015510190DL, /* ln(0.56DL) */
 	-0.5621189181535412166317102405583492DL, /* ln(0.57DL) */
 	-0.5447271754416720314354787555486402DL, /* ln(0.58DL) */
@@ -179,7 +179,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.0DL, /* exp(0.0DL) */
 	2.718281828459045235360287471352662DL, /* exp(1.0DL) */
 	7.389056098930650227230427460575008DL, /* exp(2.0DL) */
-	20.08553692318766974092852965458172DL, /* exp(3.0DL) */
+	20.08553692318766774092852965458172DL, /* exp(3.0DL) */
 	54.59815003314423907811026120286088DL, /* exp(4.0DL) */
 	148.4131591025766034211155800405523DL, /* exp(5.0DL) */
 	403.4287934927351226083871805433883DL, /* exp(6.0DL) */
@@ -203,7 +203,7 @@ const _Decimal128 __expIntXDL [] = {
 	26489122129.84347229413916215281188DL, /* exp(24.0DL) */
 	72004899337.38587252416135146612616DL, /* exp(25.0DL) */
 	195729609428.8387642697763978760953DL, /* exp(26.0DL) */
-	532048240601.7986166837473043411974DL, /* exp(27.0DL) */
+	532048240601.7986166837473043411774DL, /* exp(27.0DL) */
 	1446257064291.475173677047422996929DL, /* exp(28.0DL) */
 	3931334297144.042074388620580843528DL, /* exp(29.0DL) */
 	10686474581524.46214699046865074140DL, /* exp(30.0DL) */
@@ -211,7 +211,7 @@ const _Decimal128 __expIntXDL [] = {
 	78962960182680.69516097802263510822DL, /* exp(32.0DL) */
 	214643579785916.0646242977615312609DL, /* exp(33.0DL) */
 	583461742527454.8814029027346103910DL, /* exp(34.0DL) */
-	1586013452313430.728129644625974660DL, /* exp(35.0DL) */
+	1586013452313430.728129644625774660DL, /* exp(35.0DL) */
 	4311231547115195.227113422292856925DL, /* exp(36.0DL) */
 	11719142372802611.30877293979119019DL, /* exp(37.0DL) */
 	31855931757113756.22032867170129865DL, /* exp(38.0DL) */
@@ -337,7 +337,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.154589706104022437390577106831935e+68DL, /* exp(158.0DL) */
 	1.129334570280556947872702202187131e+69DL, /* exp(159.0DL) */
 	3.069849640644242466736457030165496e+69DL, /* exp(160.0DL) */
-	8.344716494264974360965835809202325e+69DL, /* exp(161.0DL) */
+	8.344716494264774360965835809202325e+69DL, /* exp(161.0DL) */
 	2.268329121000240471305839031261140e+70DL, /* exp(162.0DL) */
 	6.165957830579432532004967054378165e+70DL, /* exp(163.0DL) */
 	1.676081112590882772586107349772233e+71DL, /* exp(164.0DL) */
@@ -374,7 +374,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.868822826641319706709336201865967e+84DL, /* exp(195.0DL) */
 	1.323483261564570355306938300562604e+85DL, /* exp(196.0DL) */
 	3.597600500180681130758662848849109e+85DL, /* exp(197.0DL) */
-	9.779292065696317602741493974881592e+85DL, /* exp(198.0DL) */
+	9.779292065696317602741493774881592e+85DL, /* exp(198.0DL) */
 	2.658287191737601973400328347238974e+86DL, /* exp(199.0DL) */
 	7.225973768125749258177477042189306e+86DL, /* exp(200.0DL) */
 	1.964223318681795865648486413742023e+87DL, /* exp(201.0DL) */
@@ -387,7 +387,7 @@ const _Decimal128 __expIntXDL [] = {
 	2.154032421824846569020981598875600e+90DL, /* exp(208.0DL) */
 	5.855267190158109347508158747532035e+90DL, /* exp(209.0DL) */
 	1.591626640377924159157186340777442e+91DL, /* exp(210.0DL) */
-	4.326489974230630919937147247796921e+91DL, /* exp(211.0DL) */
+	4.326489774230630919937147247796921e+91DL, /* exp(211.0DL) */
 	1.176061853430500122733564724127810e+92DL, /* exp(212.0DL) */
 	3.196867565323993534884678511593018e+92DL, /* exp(213.0DL) */
 	8.689987010810321382206327468404931e+92DL, /* exp(214.0DL) */
@@ -452,7 +452,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.650846383862075425813175768321853e+118DL, /* exp(273.0DL) */
 	9.924029383747695725897538647368045e+118DL, /* exp(274.0DL) */
 	2.697630873893497823276541791257137e+119DL, /* exp(275.0DL) */
-	7.332920984394789339791797649312974e+119DL, /* exp(276.0DL) */
+	7.332920984394789339791797649312774e+119DL, /* exp(276.0DL) */
 	1.993294586140636987940405781793673e+120DL, /* exp(277.0DL) */
 	5.418336452271886559100375698876231e+120DL, /* exp(278.0DL) */
 	1.472856551868792008087437247897063e+121DL, /* exp(279.0DL) */
@@ -557,7 +557,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.456512309747928310205062027767040e+164DL, /* exp(378.0DL) */
 	3.959210944514705822310560742686318e+164DL, /* exp(379.0DL) */
 	1.076225116551049803541837343424381e+165DL, /* exp(380.0DL) */
-	2.925483177651936727218575960974259e+165DL, /* exp(381.0DL) */
+	2.925483177651936727218575960774259e+165DL, /* exp(381.0DL) */
 	7.952287761273884428431842997922460e+165DL, /* exp(382.0DL) */
 	2.161655931614806197980514918359209e+166DL, /* exp(383.0DL) */
 	5.875990038289236239608284190826147e+166DL, /* exp(384.0DL) */
@@ -639,7 +639,7 @@ const _Decimal128 __expIntXDL [] = {
 	5.962956971409260822395127288810348e+199DL, /* exp(460.0DL) */
 	1.620899757926497623081284104932651e+200DL, /* exp(461.0DL) */
 	4.406062357725263759379850038557442e+200DL, /* exp(462.0DL) */
-	1.197691924206200182564330974252429e+201DL, /* exp(463.0DL) */
+	1.197691924206200182564330774252429e+201DL, /* exp(463.0DL) */
 	3.255664193661862052431253530725589e+201DL, /* exp(464.0DL) */
 	8.849812817195809529800229688135934e+201DL, /* exp(465.0DL) */
 	2.405628536624731937016932793996026e+202DL, /* exp(466.0DL) */
@@ -756,7 +756,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.871828017611068619756333191738026e+250DL, /* exp(577.0DL) */
 	1.052471974319077600436351056214937e+251DL, /* exp(578.0DL) */
 	2.860915442753963560149385355110176e+251DL, /* exp(579.0DL) */
-	7.776974460795963023293133416439138e+251DL, /* exp(580.0DL) */
+	7.776774460795963023293133416439138e+251DL, /* exp(580.0DL) */
 	2.113946470080605596467762082192512e+252DL, /* exp(581.0DL) */
 	5.746302275955252943010619149104434e+252DL, /* exp(582.0DL) */
 	1.562006905756201809684652029738012e+253DL, /* exp(583.0DL) */
@@ -815,7 +815,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.626636414927522393392903634887462e+276DL, /* exp(636.0DL) */
 	4.421656208207251754959015960656940e+276DL, /* exp(637.0DL) */
 	1.201930772246289711810497611562084e+277DL, /* exp(638.0DL) */
-	3.267186577262836658270402974456316e+277DL, /* exp(639.0DL) */
+	3.267186577262836658270402774456316e+277DL, /* exp(639.0DL) */
 	8.881133903158873299234272672967127e+277DL, /* exp(640.0DL) */
 	2.414142490506831928910472323441926e+278DL, /* exp(641.0DL) */
 	6.562319663255584349955503981011063e+278DL, /* exp(642.0DL) */
@@ -950,7 +950,7 @@ const _Decimal128 __expIntXDL [] = {
 	6.934985340964692832704317313855231e+334DL, /* exp(771.0DL) */
 	1.885124463297418049480527073185397e+335DL, /* exp(772.0DL) */
 	5.124299572964981846159920452385392e+335DL, /* exp(773.0DL) */
-	1.392929041277115553629473402158305e+336DL, /* exp(974.0DL) */
+	1.392929041277115553629473402158305e+336DL, /* exp(774.0DL) */
 	3.786373701236462561280390085789673e+336DL, /* exp(775.0DL) */
 	1.029243082782629411817691553637979e+337DL, /* exp(776.0DL) */
 	2.797772768995190337381259359131943e+337DL, /* exp(777.0DL) */
-- 
2.43.0


From fe05579e95f463b962b2c31b0d4e00c63b82c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 48/99] fix: logd64 close to one

The table entry and the series cancel.
---
 ieee754r/logd64.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ieee754r/logd64.c b/ieee754r/logd64.c
index 4187f98..fa2117b 100644
--- a/ieee754r/logd64.c
+++ b/ieee754r/logd64.c
@@ -86,6 +86,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
   tmp = result * 100.0DD;
   top = tmp;
   top = top * 0.01DD;
+
+  /* Close to one the sum below would cancel: use log(a) == log(1) == 0.  */
+  if (val > 0.99DD && val < 1.01DD)
+    {
+      result = val;
+      exp = 0;
+      tmp = 100;
+      top = 1.0DD;
+    }
   fraction = result - top;
 
   if (fraction != 0.00DD)
-- 
2.43.0


From 6898dc3c3fc8d213d50ae9b57e1c779bae5a54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 49/99] fix: expd64 and expd128 return zero for subnormal
 results

---
 ieee754r/expd128.c | 3 ++-
 ieee754r/expd64.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a826c9e..c70ffb8 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -70,7 +70,8 @@ __expd128 (_Decimal128 val)
 
   /* Computed by interval using mpfr in 512b precision */
   const _Decimal128 max = 14149.38539644841072829055748903541DL;
-  const _Decimal128 min = -14144.78022626242263692252150612604DL;
+  /* Half the smallest subnormal.  */
+  const _Decimal128 min = -14221.45868151178608980453245625209DL;
 
   if (!(val >= min && val <= max))
     {
diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 1679c96..316aefa 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -83,7 +83,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   /* via 1024 bits of mpfr and rtn: log(9.999999999999999e+384). */
   if (val >= 886.49526080270759DD)
-    return neg ? DFP_CONSTANT(0.0) : DFP_INF;
+    /* The results down to the smallest subnormal are beyond the table.  */
+    return neg ? (DEC_TYPE) __expd128 (-val) : DFP_INF;
 
   if (fraction != 0.0DD)
     {
-- 
2.43.0


From 2b6b5b0bcad180e9336c0046f23eec5ca553859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 50/99] fix: logd128 confuses EDOM and ERANGE

---
 ieee754r/logd128.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index 4deef4c..c4394ee 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,12 +68,12 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
-	  DFP_ERRNO (EDOM);
+	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
-	  DFP_ERRNO (ERANGE);
+	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
     }
-- 
2.43.0


From bc5269f5bf293b34e459f126ed13878ca3f5bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 51/99] fix: powd64 of subnormals, of -0 to odd negative
 powers, of negative to huge powers

---
 ieee754r/powd64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index dd11f6b..0685e08 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -80,7 +80,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   int y_class = __fpclassifyd64 (y);
   if (!(x_class == FP_NORMAL && y_class == FP_NORMAL))
     {
-      if (y_class == FP_SUBNORMAL && y_class == FP_SUBNORMAL)
+      if ((x_class == FP_NORMAL || x_class == FP_SUBNORMAL)
+	  && (y_class == FP_NORMAL || y_class == FP_SUBNORMAL))
 	{
 	  /* Handle normally */
 	}
@@ -97,7 +98,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
 	  if (y_class == FP_INFINITE)
 	    return y < 0.DD ? DEC_INFINITY : 0.DD;
 	  if (isodd(y))
-	    return y < 0.DD ? DEC_INFINITY : __copysignd64(0.DD, x);
+	    return __copysignd64 (y < 0.DD ? DEC_INFINITY : 0.DD, x);
 	  return y < 0.DD ? DEC_INFINITY : 0.DD;
 	}
       else if (y_class == FP_INFINITE)
@@ -153,6 +154,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
       /* TODO: the following will likely be inaccurate, but hopefully not blatantly wrong.
                Fixing this requires a better implementation.  */
       y_int = 0.DD;
+      /* Such a y is an even integer: the sign of x does not matter.  */
+      x = __fabsd64 (x);
     }
 
   y_frac = y - y_int;
-- 
2.43.0


From 9a2f8b4481eccad93766632e3c2a8c49ccbdf247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 52/99] fix: powd128 of negative numbers to integers above
 999999999 is NaN

---
 ieee754r/powd128.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 682ce05..e905579 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -140,7 +140,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return DFP_NAN;
     }
 
-  decNumberPower (&dn_result, &dn_x, &dn_y, &context);
+  /* decNumberPower only takes a negative base with a small exponent.  */
+  decNumberPower (&dn_result, &dn_absx, &dn_y, &context);
+  if (decNumberIsNegative (&dn_x) && y_is_oddint)
+    decNumberMinus (&dn_result, &dn_result, &context);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   if (context.status & DEC_Overflow)
-- 
2.43.0


From c331cf8d37b44b328615f0eb81419c025023c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 53/99] fix: erf and erfc take large arguments for infinities,
 erfcd128 underflows early

The bound was a bit pattern in the binary original.
---
 ieee754r/erfd32.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ieee754r/erfd32.c b/ieee754r/erfd32.c
index 809891a..6996948 100644
--- a/ieee754r/erfd32.c
+++ b/ieee754r/erfd32.c
@@ -775,7 +775,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   a = FUNC_D(__fabs) (x);
 
-  if (a >= 0x7fff0000)		/* erf(nan)=nan */
+  if (! FUNC_D(__isfinite) (x))	/* erf(nan)=nan */
     return (DEC_TYPE) ((1 - (sign<<1)) + one / x);	/* erf(+-inf)=+-1 */
 
   if (a >= 1.0DL) /* |x| >= 1.0 */
@@ -823,7 +823,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   ix = FUNC_D(__fabs) (x);
 
-  if (ix >= 0x7fff0000)
+  if (! FUNC_D(__isfinite) (x))
     {				/* erfc(nan)=nan */
       /* erfc(+-inf)=0,2 */
       return (DEC_TYPE) ((sign << 1) + one / x);
@@ -886,8 +886,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	y = 2.0DF - y;
       return y;
     }
-  /* 1.25 < |x| < 107 */
-  if (ix < 107.0DF)
+  /* 1.25 < |x| < 120 */
+  if (ix < 120.0DF)
     {
       /* x < -9 */
       if (x > 9.0DF && sign)
-- 
2.43.0


From 5d551905a491d90a29e4032131d63fe1cbdbf459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 54/99] fix: lgamma of negative numbers close to zero overflows

---
 ieee754r/lgammad32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index d09bfa5..1991494 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -804,6 +804,9 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
       i = p;
       if ((i & 1) == 0)
 	*signgamp = -1;
+      /* The product below would underflow.  */
+      if (q < 1e-40DL)
+	return (DEC_TYPE)(-__logd128 (q));
       z = q - p;
       if (z > 0.5DL)
 	{
-- 
2.43.0


From f4aced457c6cae8122ddfcbf073da528d636bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 55/99] fix: tgamma of -0 and -inf

---
 ieee754r/tgammad32.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index b4c1cf5..d47a2c7 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -53,10 +53,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   if (x == DFP_CONSTANT(0.0))	/*  Pole error if x== +-0 */
     {
       DFP_EXCEPT (FE_DIVBYZERO);
-//      return FUNC_D (__builtin_signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
-      return (x<0) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
+      return FUNC_D (__signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
     }
-  if (x < DFP_CONSTANT(0.0) && (!FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && FUNC_D (__rint) (x) == x)
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
-- 
2.43.0


From 142bda0f91637c674e5f7d8b0e3b27d9f2d4af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 56/99] fix: cbrtd64 and cbrtd128 stop before they converge

---
 ieee754r/cbrtd32.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ieee754r/cbrtd32.c b/ieee754r/cbrtd32.c
index bb64505..9a73e1f 100644
--- a/ieee754r/cbrtd32.c
+++ b/ieee754r/cbrtd32.c
@@ -32,6 +32,8 @@
 #include <math.h>
 #include <ieee754r_private.h>
 
+#include <decNumberMath.h>
+
 #define FUNCTION_NAME cbrt
 
 #include <dfpmacro.h>
@@ -84,8 +86,8 @@ static const _Decimal128
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  int e, rem, sign;
-  _Decimal128 z;
+  int e, rem, sign, i;
+  _Decimal128 y, z;
 
   if (! FUNC_D(__isfinite) (x)) /* cbrt(x:x=inf/nan/-inf) = x+x (for sNaN) */
     return x + x;
@@ -145,9 +147,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   x = FUNC_D(__ldexp) (x, e);
 
   /* Newton iteration */
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+  y = x;
+  for (i = 0; i < 6; i++)
+    y -= (y - (z / (y * y))) * 0.3333333333333333333333333333333333333333DL;
+  x = y;
 
   if (sign < 0)
     x = -x;
-- 
2.43.0


From c318e0482464f4892129b17c30604e34c697c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 57/99] fix: nextafter sets ERANGE for a NaN direction

---
 ieee754r/nextafterd32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieee754r/nextafterd32.c b/ieee754r/nextafterd32.c
index 42762d2..9dc4bbe 100644
--- a/ieee754r/nextafterd32.c
+++ b/ieee754r/nextafterd32.c
@@ -36,6 +36,8 @@
 #include <ieee754r_private.h>
 #include <dfpfenv_private.h>
 
+#include <decNumberMath.h>
+
 #define FUNCTION_NAME nextafter
 #include <dfpmacro.h>
 
@@ -95,7 +97,7 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D (__isfinite) (z) && FUNC_D (__isfinite) (x))
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x))
     DFP_ERRNO (ERANGE);
   /* TODO: Handle underflow here */
   return z;
-- 
2.43.0


From 974ed67aa1c4208e41daca62857a26613a9e45b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 58/99] fix: expd128 reports overflow (ERANGE, FE_OVERFLOW)
 like the other formats

---
 ieee754r/expd128.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index c70ffb8..1103a1c 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -29,9 +29,13 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
 #include <ieee754r_private.h>
 #include <dfp/fenv.h>
 
+#define _DECIMAL_SIZE 128
+#include <dfpmacro.h>
+
 #include "dfp_inline.h"
 
 /* Generated lookup tables */
@@ -79,7 +83,15 @@ __expd128 (_Decimal128 val)
       if (__builtin_isnan (val))
 	return val + val;
       else if (val > max)
-	return DEC_INFINITY;
+	{
+	  /* A range error, unless the argument is infinite.  */
+	  if (__isfinited128 (val))
+	    {
+	      DFP_EXCEPT (FE_OVERFLOW);
+	      DFP_ERRNO (ERANGE);
+	    }
+	  return DEC_INFINITY;
+	}
       else
 	return 0.0DL;
     }
-- 
2.43.0


From cbf05abdde0f55c9fa70f5a247cb5cd6a8c53e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 59/99] fix: powd32 sets ERANGE when only the narrowed result
 overflows

---
 ieee754r/powd32.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index d335960..c1a6c7a 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -24,12 +24,22 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
+#include <ieee754r_private.h>
+
+#define _DECIMAL_SIZE 32
+#include <dfpmacro.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
 _Decimal32
 __powd32 (_Decimal32 x, _Decimal32 y)
 {
-  return (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal64 z64 = __powd64 ((_Decimal64) x, (_Decimal64) y);
+  _Decimal32 z = (_Decimal32) z64;
+  /* The result may overflow _Decimal32 only.  */
+  if (__isinfd32 (z) && __isfinited64 (z64))
+    DFP_ERRNO (ERANGE);
+  return z;
 }
 weak_alias(__powd32, powd32)
-- 
2.43.0


From 2491c660bd465b30c4d4d6ed662c57ced2b2c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 60/99] fix: powd128 keeps the sign of a power that underflows
 to zero

---
 ieee754r/powd128.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index e905579..8db2c7d 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -143,7 +143,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   /* decNumberPower only takes a negative base with a small exponent.  */
   decNumberPower (&dn_result, &dn_absx, &dn_y, &context);
   if (decNumberIsNegative (&dn_x) && y_is_oddint)
-    decNumberMinus (&dn_result, &dn_result, &context);
+    decNumberCopyNegate (&dn_result, &dn_result);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   if (context.status & DEC_Overflow)
-- 
2.43.0


From db0959276ffc57d5ed4496e50619011b14e6130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 61/99] fix: hypot of a negative infinity is negative

---
 ieee754r/hypotd32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 26c32b8..402643e 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -52,9 +52,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
   if (decNumberIsInfinite (&dn_x))
-    return x;
+    return FUNC_D (__fabs) (x);
   if (decNumberIsInfinite (&dn_y))
-    return y;
+    return FUNC_D (__fabs) (y);
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
     return x+y;
 
-- 
2.43.0


From 8e9dd3b6dbe6984c8a25b5b8fdd742d0d2de4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 62/99] fix: expm1(-0) is +0

---
 ieee754r/expm1d32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 388884e..2707c30 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -49,7 +49,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
-  if (decNumberIsNaN (&dn_x))
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
     return x+x;
 
   if (decNumberIsInfinite (&dn_x))
-- 
2.43.0


From 2c0b0266b9c6ebe37b89881b98594b83b6f50b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 63/99] fix: logd128 raises no invalid and divide-by-zero
 exceptions

---
 ieee754r/logd128.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index c4394ee..4ced717 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,11 +68,13 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
+	  DFP_EXCEPT (FE_DIVBYZERO);
 	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
+	  DFP_EXCEPT (FE_INVALID);
 	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
-- 
2.43.0


From 716b8c928ea13ab3b7faca0f224778696296f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 64/99] fix: tgamma of a negative integer is a domain error,
 not a range error

---
 ieee754r/tgammad32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index d47a2c7..6206008 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -74,7 +74,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
     DFP_ERRNO (ERANGE);
-  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) || FUNC_D (__rint) (x) == x) )
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 846cb5a8fe1c0d21981084c428a61a34f83410c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 65/99] fix: lgamma(0) raises no divide-by-zero exception

---
 ieee754r/lgammad32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index 1991494..3f863f3 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -791,6 +791,12 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
   if (FUNC_D(__isinf) (x) || FUNC_D(__isnan) (x))
     return x * x;
 
+  if (x == 0.0DL)
+    {
+      DFP_EXCEPT (FE_DIVBYZERO);
+      return DFP_HUGE_VAL;
+    }
+
   if (x < 0.0DL)
     {
       q = -x;
-- 
2.43.0


From 9c25f05375a75acd110d2538a01dcaab9c67b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 66/99] fix: powd32 and powd64 raise no divide-by-zero
 exception at the pole

---
 ieee754r/powd64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index 0685e08..7155446 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -177,7 +177,10 @@ INTERNAL_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   _Decimal64 z = IEEE_FUNCTION_NAME (x, y);
   /* Pole error: x = 0, y < 0 (non-inf). Set ERANGE in accordance with C99 */
   if (x == 0.DD && __isfinited64 (y) && y < 0.DD)
-    DFP_ERRNO (ERANGE);
+    {
+      DFP_EXCEPT (FE_DIVBYZERO);
+      DFP_ERRNO (ERANGE);
+    }
   if (!__isfinited64 (z) && __isfinited64 (x) && __isfinited64 (y))
     {
       if (__isnand64 (z))	/*  Domain error was triggered, x < 0 and y was not an odd int */
-- 
2.43.0


From bdcfad8a484000431494b1c1d52f3ba1160028d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 67/99] fix: powd128 takes odd 34-digit exponents for even

---
 ieee754r/powd128.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 8db2c7d..e7fd55e 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -51,15 +51,12 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumber dn_absx;
   decNumber dn_y;
   decNumber dn_one;
-  decNumber dn_two;
   decNumber dn_temp;
   decNumber dn_temp2;
-  decNumber dn_temp3;
   int y_is_int;
   int y_is_oddint=0;
   int abs_x_vs_1;
   DEC_TYPE one = DFP_CONSTANT(1.0);
-  DEC_TYPE two = DFP_CONSTANT(2.0);
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -92,13 +89,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumberSubtract (&dn_temp2, &dn_temp, &dn_y, &context);
   y_is_int = decNumberIsZero (&dn_temp2);
   if (y_is_int)
-    {
-      FUNC_CONVERT_TO_DN (&two, &dn_two);
-      decNumberDivide (&dn_temp, &dn_y, &dn_two, &context);
-      decNumberToIntegralValue (&dn_temp2, &dn_temp, &context);
-      decNumberSubtract (&dn_temp3, &dn_temp2, &dn_temp, &context);
-      y_is_oddint = !decNumberIsZero (&dn_temp3);
-    }
+    /* The halves of integers with 34 digits are not representable.  */
+    y_is_oddint = dn_temp.exponent == 0 && (dn_temp.lsu[0] & 1);
 
   /*  Handle all special cases for which x = +-0 */
   if (decNumberIsZero (&dn_x))
-- 
2.43.0


From 77ec36aaf5a77c8ca46ddc3dcac51244452fd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 68/99] fix: fmod of a NaN sets EDOM

---
 sysdeps/bid/fmodd32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sysdeps/bid/fmodd32.c b/sysdeps/bid/fmodd32.c
index c9f5075..fd1aae7 100644
--- a/sysdeps/bid/fmodd32.c
+++ b/sysdeps/bid/fmodd32.c
@@ -70,7 +70,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       || decNumberIsZero (&dn_y))
     {
       result.bits = DECNAN;
-      DFP_ERRNO (EDOM);
+      /* Not a domain error when an argument is a NaN already.  */
+      if (!decNumberIsNaN (&dn_x) && !decNumberIsNaN (&dn_y))
+	DFP_ERRNO (EDOM);
       goto done;
     }
 
-- 
2.43.0


From 22c38b08427c48bfbf44986bbb7d19701d98414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 69/99] fix: nexttoward sets ERANGE for a NaN direction

---
 ieee754r/nexttowardd32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieee754r/nexttowardd32.c b/ieee754r/nexttowardd32.c
index dd77abf..d351d71 100644
--- a/ieee754r/nexttowardd32.c
+++ b/ieee754r/nexttowardd32.c
@@ -37,6 +37,8 @@
 #include <ieee754r_private.h>
 #include <dfpfenv_private.h>
 
+#include <decNumberMath.h>
+
 #define FUNCTION_NAME nexttoward
 #include <dfpmacro.h>
 
@@ -97,7 +99,7 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, _Decimal128 y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
+  if (FUNC_D(__isinf) (z) && FUNC_D(__isfinite) (x))
     DFP_ERRNO (ERANGE);
   /* TODO: Handle underflow */
   return z;
-- 
2.43.0


From ce4115890235e7ddc42e5dd916508a15340ba359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 70/99] fix: lrint, lround, llrint and llround misjudge values
 next to the limits of the integer type

---
 ieee754r/llroundd32.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ieee754r/llroundd32.c b/ieee754r/llroundd32.c
index f1c7ca0..e3aca68 100644
--- a/ieee754r/llroundd32.c
+++ b/ieee754r/llroundd32.c
@@ -61,10 +61,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     {
       DFP_EXCEPT (FE_INVALID);
+      DFP_ERRNO (EDOM);
       return (__ROUND_RETURN_TYPE) x;
     }
 
@@ -74,6 +74,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
+  /* The rounded value decides, and _Decimal128 holds the limits exactly.  */
+  if ((_Decimal128) result > (_Decimal128) __MAX_VALUE
+      || (_Decimal128) result < (_Decimal128) __MIN_VALUE)
+    {
+      DFP_EXCEPT (FE_INVALID);
+      DFP_ERRNO (EDOM);
+      return (__ROUND_RETURN_TYPE) x;
+    }
+
 #ifdef POSTFIX_CHECK
   POSTFIX_CHECK;
 #endif
@@ -87,11 +96,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 __ROUND_RETURN_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  __ROUND_RETURN_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    DFP_ERRNO (EDOM);
-  return z;
+  return IEEE_FUNCTION_NAME (x);
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From fd3491a49b4063dc5dd52ee73507b41e7f99dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 71/99] fix: do not let strtod and wcstod crash when no locale
 object can be made

They made locale objects for the current locale on every call, and gave
the null pointer to isspace_l and freelocale when memory had run out or
the locale's data were out of reach (after chroot, say).  Ask the current
locale directly what is white space, and use the predefined C locale,
which takes no memory, for the rest.  This also makes infinities and NaNs
case-insensitive for wcstod in locales with a dotted capital I.
---
 stdlib/strtod32.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index cba3bce..c6072cc 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -89,7 +89,7 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 # define STRING_TYPE wchar_t
 # define CHAR_TYPE wint_t
 # define L_(Ch) L##Ch
-# define ISSPACE(Ch) iswspace_l ((Ch), loc)
+# define ISSPACE(Ch) iswspace (Ch)
 # define ISDIGIT(Ch) iswdigit_l ((Ch), loc)
 # define TOLOWER(Ch) towlower_l ((Ch), loc)
 //# define TOLOWER_C(Ch) towlower_l ((Ch), nl_C_locobj_ptr)
@@ -105,7 +105,7 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 # define STRING_TYPE char
 # define CHAR_TYPE char
 # define L_(Ch) Ch
-# define ISSPACE(Ch) isspace_l ((Ch), loc)
+# define ISSPACE(Ch) isspace ((unsigned char) (Ch))
 # define ISDIGIT(Ch) isdigit_l ((Ch), loc)
 # define TOLOWER(Ch) tolower_l ((Ch), loc)
 # define TOLOWER_C(Ch) tolower_l ((Ch), C_locale)
@@ -362,7 +362,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
      in the format described in <locale.h>.  */
   const char *grouping;
 
-  C_locale = newlocale(LC_ALL_MASK, setlocale (LC_ALL, NULL),NULL);
+  /* The predefined C locale: this takes no memory and cannot fail.  */
+  C_locale = newlocale(LC_ALL_MASK, "C", NULL);
 
   if (group)
     {
@@ -985,12 +986,10 @@ hidden_def(FUNCTION_L_INTERNAL)
 FLOAT
 FUNCTION_INTERNAL (const STRING_TYPE *nptr, STRING_TYPE **endptr, int group)
 {
-  char * curlocale;
   __locale_t cur_locale_t;
   FLOAT ret_val;
 
-  curlocale = setlocale(LC_ALL,NULL);
-  cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
+  cur_locale_t = newlocale(LC_ALL_MASK, "C", NULL);
 
   ret_val = FUNCTION_L_INTERNAL (nptr,endptr,group,cur_locale_t);
   freelocale(cur_locale_t);
@@ -1005,12 +1004,10 @@ weak_function
 #endif
 FUNCTION_NAME (const STRING_TYPE *nptr, STRING_TYPE **endptr)
 {
-  char * curlocale;
   __locale_t cur_locale_t;
   FLOAT ret_val;
 
-  curlocale = setlocale(LC_ALL,NULL);
-  cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
+  cur_locale_t = newlocale(LC_ALL_MASK, "C", NULL);
 
   ret_val = FUNCTION_L_INTERNAL(nptr, endptr, 0, cur_locale_t);
   freelocale(cur_locale_t);
-- 
2.43.0


From 2a9df9963f2ef395ab0235c90e76f8d6bc89b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 72/99] fix: report lack of storage from decNumber's iterations

decNumberExp and decNumberLn looped for ever when an operation in their
iteration could not allocate its buffer, and decNumberLog10 and
decNumberSquareRoot gave a wrong result, because the status of the
intermediate operations was dropped.
---
 libdecnumber/decNumber.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 0739707..6c03935 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -1504,6 +1504,7 @@ decNumber * decNumberLog10(decNumber *res, const decNumber *rhs,
 
     aset.digits=p;
     decLnOp(b, w, &aset, &ignore);	/* b=ln(10) */
+    status|=ignore&DEC_Insufficient_storage;
 
     aset.digits=set->digits;		/* for final divide */
     decDivideOp(res, a, b, &aset, DIVIDE, &status); /* into result */
@@ -3040,8 +3041,10 @@ decNumber * decNumberSquareRoot(decNumber *res, const decNumber *rhs,
 	decAddOp(a, &dzero, a, &approxset, 0, &ignore);
 	}
       }
-    /* [no errors are possible in the above, and rounding/inexact during */
-    /* estimation are irrelevant, so status was not accumulated] */
+    /* [no errors but a lack of storage are possible in the above, and */
+    /* rounding/inexact during estimation are irrelevant, so status was */
+    /* not accumulated] */
+    status|=ignore&DEC_Insufficient_storage;
 
     /* Here, 0.1 <= a < 1  (still), so adjust back */
     a->exponent+=exp/2; 		     /* set correct exponent */
@@ -3061,6 +3064,7 @@ decNumber * decNumberSquareRoot(decNumber *res, const decNumber *rhs,
      else {				     /* could be exact/unrounded */
       uInt mstatus=0;			     /* local status */
       decMultiplyOp(b, b, b, &workset, &mstatus); /* try the multiply */
+      status|=mstatus&DEC_Insufficient_storage;
       if (mstatus&DEC_Overflow) {	     /* result just won't fit */
 	status|=DEC_Inexact|DEC_Rounded;
 	}
@@ -5433,6 +5437,10 @@ decNumber * decExpOp(decNumber *res, const decNumber *rhs,
 	decAddOp(a, a, t, &aset, 0, status);	       /* a=a+t */
 	decMultiplyOp(t, t, x, &tset, &ignore);        /* t=t*x */
 	decDivideOp(t, t, d, &tset, DIVIDE, &ignore);  /* t=t/d */
+	/* without storage the iteration would not converge: abandon */
+	if ((*status|ignore)&DEC_Insufficient_storage) {
+	  *status|=DEC_Insufficient_storage;
+	  break;}
 	/* the iteration ends when the term cannot affect the result, */
 	/* if rounded to p digits, which is when its value is smaller */
 	/* than the accumulator by p+1 digits.	There must also be */
@@ -5750,6 +5758,8 @@ decNumber * decLnOp(decNumber *res, const decNumber *rhs,
       /* now multiply by rhs and subtract 1, at the wider precision */
       decMultiplyOp(b, b, rhs, &bset, &ignore);        /* b=b*rhs */
       decAddOp(b, b, &numone, &bset, DECNEG, &ignore); /* b=b-1 */
+      /* without storage the iteration would not converge: abandon */
+      if (ignore&DEC_Insufficient_storage) break;
 
       /* the iteration ends when the adjustment cannot affect the */
       /* result by >=0.5 ulp (at the requested digits), which */
@@ -5781,6 +5791,7 @@ decNumber * decLnOp(decNumber *res, const decNumber *rhs,
       aset.digits=pp;			     /* working context */
       bset.digits=pp+rhs->digits;	     /* wider context */
       } /* Newton's iteration */
+    *status|=ignore&DEC_Insufficient_storage;
 
     #if DECCHECK
     /* just a sanity check; remove the test to show always */
-- 
2.43.0


From 64dd2487ba2ca6b414c7f96f879cd114dbabb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 73/99] fix: signal an invalid operation when quantizing
 carries past Emax

decNumberQuantize and decNumberRescale gave Infinity and Overflow when
rounding to the requested exponent carried past Emax, where a result that
does not fit is an Invalid operation.
---
 libdecnumber/decNumber.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 6c03935..1e0f03b 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -5927,6 +5927,7 @@ static decNumber * decQuantizeOp(decNumber *res, const decNumber *lhs,
 	workset=*set;			     /* clone rounding, etc. */
 	workset.digits=lhs->digits-adjust;   /* set requested length */
 	/* [note that the latter can be <1, here] */
+	workset.emax++;			     /* allow a carry, see below */
 	decCopyFit(res, lhs, &workset, &residue, status); /* fit to result */
 	decApplyRound(res, &workset, residue, status);	  /* .. and round */
 	residue=0;					  /* [used] */
@@ -5935,7 +5936,9 @@ static decNumber * decQuantizeOp(decNumber *res, const decNumber *lhs,
 	if (res->exponent>reqexp) {
 	  /* re-check needed, e.g., for quantize(0.9999, 0.001) under */
 	  /* set->digits==3 */
-	  if (res->digits==reqdigits) {      /* cannot shift by 1 */
+	  /* or if the carry made the result too big */
+	  if (res->digits==reqdigits	     /* cannot shift by 1 */
+	   || res->exponent>set->emax-res->digits+1) {
 	    *status&=~(DEC_Inexact | DEC_Rounded); /* [clean these] */
 	    *status|=DEC_Invalid_operation;
 	    break;
-- 
2.43.0


From d772104ea1a7ae348c9235a22bfe473eb86a3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 74/99] fix: keep the full precision of inexact square roots in
 decNumberSquareRoot

When the last quotient of the iteration was exact and short, so was the
approximation, and the inexact result had fewer digits than the context
asks for.
---
 libdecnumber/decNumber.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 1e0f03b..535c306 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -2979,6 +2979,13 @@ decNumber * decNumberSquareRoot(decNumber *res, const decNumber *rhs,
       decMultiplyOp(a, b, t, &workset, &ignore);       /* a=b*0.5 */
       } /* loop */
 
+    /* a is short if the last quotient was exact and short */
+    if (a->digits<maxp) {
+      Int pad=maxp-a->digits;		     /* zeros to add */
+      a->digits=decShiftToMost(a->lsu, a->digits, pad);
+      a->exponent-=pad;
+      }
+
     /* Here, 0.1 <= a < 1 [Hull], and a has maxp digits */
     /* now reduce to length, etc.; this needs to be done with a */
     /* having the correct exponent so as to handle subnormals */
-- 
2.43.0


From 3af437cae395f5183726f528a8c3b626db5f06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 75/99] fix: size decNumber's local buffers for the
 mathematical functions

The functions compute with 60 digits, for which every operation inside
them allocated its buffers: when no memory could be had they gave wrong
numbers (an infinity for sinh(430), say).  With buffers on the stack, of
some hundred bytes each, they allocate nothing.
---
 libdecnumber/decNumberLocal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdecnumber/decNumberLocal.h b/libdecnumber/decNumberLocal.h
index e2cf0eb..f6c95b3 100644
--- a/libdecnumber/decNumberLocal.h
+++ b/libdecnumber/decNumberLocal.h
@@ -71,7 +71,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
   /* Tuning parameter for decNumber (arbitrary precision) module      */
   #if !defined(DECBUFFER)
-  #define DECBUFFER 36	      /* Size basis for local buffers.	This  */
+  #define DECBUFFER 144	      /* Size basis for local buffers.	This  */
 			      /* should be a common maximum precision */
 			      /* rounded up to a multiple of 4; must  */
 			      /* be zero or positive.		      */
-- 
2.43.0


From f2906bf8e33fc62051ca163d55c264f1b1cc0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 76/99] fix: raise the exceptions of quantize

IEEE 754 requires the invalid exception when the coefficient of the result
does not fit, and the inexact exception when it is rounded; quantize raised
neither.
---
 ieee754r/quantized32.c |  1 +
 include/dfpmacro.h     | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/ieee754r/quantized32.c b/ieee754r/quantized32.c
index 8cea627..1c12838 100644
--- a/ieee754r/quantized32.c
+++ b/ieee754r/quantized32.c
@@ -55,6 +55,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decContextDefault(&context, DEFAULT_CONTEXT);
   context.round = __dn_getround();
   decNumberQuantize(&dn_result, &dn_x, &dn_y, &context);
+  DFP_EXCEPT_STATUS (context.status);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
diff --git a/include/dfpmacro.h b/include/dfpmacro.h
index b89e96d..fd4eebc 100644
--- a/include/dfpmacro.h
+++ b/include/dfpmacro.h
@@ -113,6 +113,22 @@
       feraiseexcept( (the_exception) );			\
   } while(0)
 
+/* Raise the exceptions that the status of a decNumber operation tells of.  */
+#define DFP_EXCEPT_STATUS(the_status)					\
+  do {									\
+    int the_excepts = 0;						\
+    if ((the_status) & DEC_IEEE_754_Invalid_operation)			\
+      the_excepts |= FE_INVALID;					\
+    if ((the_status) & DEC_IEEE_754_Overflow)				\
+      the_excepts |= FE_OVERFLOW;					\
+    if ((the_status) & DEC_IEEE_754_Underflow)				\
+      the_excepts |= FE_UNDERFLOW;					\
+    if ((the_status) & DEC_IEEE_754_Inexact)				\
+      the_excepts |= FE_INEXACT;					\
+    if (the_excepts != 0)						\
+      DFP_EXCEPT (the_excepts);						\
+  } while(0)
+
 
 /* Useful for generating constants */
 #if _DECIMAL_SIZE == 32
-- 
2.43.0


From dd9bd8d36a015783d38661f6d3138259f6ecf8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 77/99] fix: raise overflow, underflow and inexact in fma

fma raised the invalid exception only.
---
 ieee754r/fmad32.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 5dbbb92..53a8834 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -85,6 +85,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
+  DFP_EXCEPT_STATUS (context.status);
 
   return result;
 }
-- 
2.43.0


From 4aa9fdb9418a2775460d03224d0dba1df6987d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 78/99] fix: raise underflow and inexact in fdim, scalbn,
 scalbln and ldexp

They raised overflow only, and that without inexact.
---
 ieee754r/fdimd32.c    | 3 +--
 ieee754r/scalblnd32.c | 3 +--
 ieee754r/scalbnd32.c  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 87c6772..6a468a8 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -63,8 +63,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   context.round = __dn_getround ();
   decNumberSubtract (&dn_result, &dn_x, &dn_y, &context);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-  if (context.status & DEC_Overflow)
-    DFP_EXCEPT (FE_OVERFLOW);
+  DFP_EXCEPT_STATUS (context.status);
 
   return result;
 }
diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 4b1f579..60f2569 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -80,8 +80,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
-  if (context.status & DEC_Overflow)
-    DFP_EXCEPT (FE_OVERFLOW);
+  DFP_EXCEPT_STATUS (context.status);
 
   return result;
 }
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 1c94eb4..0a54aa5 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -81,8 +81,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
-  if (context.status & DEC_Overflow)
-    DFP_EXCEPT (FE_OVERFLOW);
+  DFP_EXCEPT_STATUS (context.status);
 
   return result;
 }
-- 
2.43.0


From bb381bdc769a278fa9b43763e3c1998cea6427b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 79/99] fix: raise invalid in fmod

A domain error of fmod set errno but did not raise the exception, as
remainder does.
---
 sysdeps/bid/fmodd32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sysdeps/bid/fmodd32.c b/sysdeps/bid/fmodd32.c
index fd1aae7..249eff9 100644
--- a/sysdeps/bid/fmodd32.c
+++ b/sysdeps/bid/fmodd32.c
@@ -72,7 +72,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       result.bits = DECNAN;
       /* Not a domain error when an argument is a NaN already.  */
       if (!decNumberIsNaN (&dn_x) && !decNumberIsNaN (&dn_y))
-	DFP_ERRNO (EDOM);
+	{
+	  DFP_ERRNO (EDOM);
+	  DFP_EXCEPT (FE_INVALID);
+	}
       goto done;
     }
 
-- 
2.43.0


From 37927414eb80295b227b14751a0042987bad44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 80/99] fix: raise invalid in ilogb, llogb and llquantexp

A zero, infinity or NaN has no exponent to give: the exception goes with
the domain error these functions report.
---
 ieee754r/ilogbd32.c      | 3 +++
 ieee754r/llquantexpd32.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ieee754r/ilogbd32.c b/ieee754r/ilogbd32.c
index cd3087c..4c8f1a6 100644
--- a/ieee754r/ilogbd32.c
+++ b/ieee754r/ilogbd32.c
@@ -68,16 +68,19 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       if (x != x)
 	{
 	  DFP_ERRNO (EDOM);
+	  DFP_EXCEPT (FE_INVALID);
 	  return _FBLOGNAN;
 	}
       else if (c == FP_ZERO)
 	{
 	  DFP_ERRNO (EDOM);
+	  DFP_EXCEPT (FE_INVALID);
 	  return _FBLOG0;
 	}
       else if (c == FP_INFINITE)
 	{
 	  DFP_ERRNO (EDOM);
+	  DFP_EXCEPT (FE_INVALID);
 	  return FUNC_D (__signbit) (x) ? _MIN_VALUE : _MAX_VALUE;
 	}
       /* And handle subnormals like any other finite value. */
diff --git a/ieee754r/llquantexpd32.c b/ieee754r/llquantexpd32.c
index 035c2ae..919ff6b 100644
--- a/ieee754r/llquantexpd32.c
+++ b/ieee754r/llquantexpd32.c
@@ -46,6 +46,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     {
       DFP_ERRNO (EDOM);
+      DFP_EXCEPT (FE_INVALID);
       return LLONG_MIN;
     }
   
-- 
2.43.0


From 2de672214e2d88b0bb0d6c50abcbaa53b42aa4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 81/99] fix: do not raise invalid for fractions above -1
 converted to unsigned __int128

They truncate to zero, which the type can hold.
---
 base-math/fixsdti.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base-math/fixsdti.c b/base-math/fixsdti.c
index 1dee500..59a29d3 100644
--- a/base-math/fixsdti.c
+++ b/base-math/fixsdti.c
@@ -58,12 +58,14 @@
 #    define MIN_VAL (-170141183460469231731687303715884100000.DL)
 #    define MAX_VAL ( 170141183460469231731687303715884100000.DL)
 #  endif
+#  define TOO_SMALL(_x) ((_x) < MIN_VAL)
 #  define RET_TYPE INT128
 #  define QUICK_CONVERT(_x) ({ long long int _a_di = _x; _a_di;})
 #else
 #  define MAX_RET_VAL {.di = {0xFFFFFFFFFFFFFFFFLL, 0xFFFFFFFFFFFFFFFFLL}}
 #  define MIN_RET_VAL {.di = {0LL, 0LL}}
-#  define MIN_VAL PASTE(0., DSUFF)
+/* Whatever is above -1 is truncated to zero.  */
+#  define TOO_SMALL(_x) ((_x) <= -1)
 #  if SRC_SIZE == 32
 #    define MAX_VAL (340282300000000000000000000000000000000.DF)
 #  elif SRC_SIZE == 64
@@ -106,7 +108,7 @@ RET_TYPE __BACKEND_(FUNC) (DEC_TYPE a)
       return min.ti;
   }
 
-  if(a < MIN_VAL || a > MAX_VAL)
+  if(TOO_SMALL (a) || a > MAX_VAL)
   {
     DFP_EXCEPT (FE_INVALID);
     return SIGNBIT(a) ? min.ti : max.ti;
-- 
2.43.0


From 55cebd4bfa18d42417ba2c2e48b986c6862295f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 82/99] fix: raise inexact in sqrt, and not for a remainder's
 domain error

---
 ieee754r/remainderd32.c | 2 +-
 ieee754r/sqrtd32.c      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 3dd6c86..93209a3 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -56,7 +56,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if (decNumberIsInfinite (&dn_x) || decNumberIsZero (&dn_y))
     {
       DFP_EXCEPT (FE_INVALID);
-      return (x - x) / (x - x);
+      return DFP_NAN;
     }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
diff --git a/ieee754r/sqrtd32.c b/ieee754r/sqrtd32.c
index 4602095..aeadf87 100644
--- a/ieee754r/sqrtd32.c
+++ b/ieee754r/sqrtd32.c
@@ -64,6 +64,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumberSquareRoot(&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
+  DFP_EXCEPT_STATUS (context.status);
 
   return result;
 }
-- 
2.43.0


From c4f7067c4c47159162b78f2ab03ccbf8f8b1f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 83/99] fix: raise invalid when a decimal value does not fit
 the integer type

The conversions to 32-bit and 64-bit integers noted the exception in the
flags of libbid only.
---
 libbid/_dd_to_di.c  | 3 +++
 libbid/_dd_to_si.c  | 3 +++
 libbid/_dd_to_udi.c | 3 +++
 libbid/_dd_to_usi.c | 3 +++
 libbid/_sd_to_di.c  | 3 +++
 libbid/_sd_to_si.c  | 3 +++
 libbid/_sd_to_udi.c | 3 +++
 libbid/_sd_to_usi.c | 3 +++
 libbid/_td_to_di.c  | 3 +++
 libbid/_td_to_si.c  | 3 +++
 libbid/_td_to_udi.c | 3 +++
 libbid/_td_to_usi.c | 3 +++
 12 files changed, 36 insertions(+)

diff --git a/libbid/_dd_to_di.c b/libbid/_dd_to_di.c
index 4ab7cd2..ee46c27 100644
--- a/libbid/_dd_to_di.c
+++ b/libbid/_dd_to_di.c
@@ -31,7 +31,10 @@ __bid_fixdddi (_Decimal64 x) {
   union decimal64 ux;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid64_to_int64_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   return (res);
 }
diff --git a/libbid/_dd_to_si.c b/libbid/_dd_to_si.c
index e737059..08005c5 100644
--- a/libbid/_dd_to_si.c
+++ b/libbid/_dd_to_si.c
@@ -31,7 +31,10 @@ __bid_fixddsi (_Decimal64 x) {
   union decimal64 ux;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid64_to_int32_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   return (res);
 }
diff --git a/libbid/_dd_to_udi.c b/libbid/_dd_to_udi.c
index 588a4d3..ba5820f 100644
--- a/libbid/_dd_to_udi.c
+++ b/libbid/_dd_to_udi.c
@@ -31,7 +31,10 @@ __bid_fixunsdddi (_Decimal64 x) {
   union decimal64 ux;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid64_to_uint64_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   if (res == 0x8000000000000000ull) res = 0; // for NaNs too
   return (res);
diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 08d2169..fa7d555 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -31,7 +31,10 @@ __bid_fixunsddsi (_Decimal64 x) {
   union decimal64 ux;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid64_to_uint32_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   // the indefinite value: 0, for NaNs too, unless it is the actual result
   if (res == 0x80000000
diff --git a/libbid/_sd_to_di.c b/libbid/_sd_to_di.c
index e1ba302..2843e15 100644
--- a/libbid/_sd_to_di.c
+++ b/libbid/_sd_to_di.c
@@ -33,7 +33,10 @@ __bid_fixsddi (_Decimal32 x) {
 
   ux.d = x;
   x64 = __bid32_to_bid64 (ux.i);
+  _IDEC_glbflags = 0;
   res = __bid64_to_int64_xint (x64);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   return (res);
 }
diff --git a/libbid/_sd_to_si.c b/libbid/_sd_to_si.c
index ef712c7..d2ad9f3 100644
--- a/libbid/_sd_to_si.c
+++ b/libbid/_sd_to_si.c
@@ -33,7 +33,10 @@ __bid_fixsdsi (_Decimal32 x) {
 
   ux.d = x;
   x64 = __bid32_to_bid64 (ux.i);
+  _IDEC_glbflags = 0;
   res = __bid64_to_int32_xint (x64);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   return (res);
 }
diff --git a/libbid/_sd_to_udi.c b/libbid/_sd_to_udi.c
index e061256..46b2994 100644
--- a/libbid/_sd_to_udi.c
+++ b/libbid/_sd_to_udi.c
@@ -33,7 +33,10 @@ __bid_fixunssddi (_Decimal32 x) {
 
   ux.d = x;
   x64 = __bid32_to_bid64 (ux.i);
+  _IDEC_glbflags = 0;
   res = __bid64_to_uint64_xint (x64);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   if (res == 0x8000000000000000ull) res = 0; // for NaNs too
   return (res);
diff --git a/libbid/_sd_to_usi.c b/libbid/_sd_to_usi.c
index 8ab0f20..4984ca3 100644
--- a/libbid/_sd_to_usi.c
+++ b/libbid/_sd_to_usi.c
@@ -33,7 +33,10 @@ __bid_fixunssdsi (_Decimal32 x) {
 
   ux.d = x;
   x64 = __bid32_to_bid64 (ux.i);
+  _IDEC_glbflags = 0;
   res = __bid64_to_uint32_xint (x64);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   if (res == 0x80000000) res = 0; // for NaNs too
   return (res);
diff --git a/libbid/_td_to_di.c b/libbid/_td_to_di.c
index 90dd525..3015beb 100644
--- a/libbid/_td_to_di.c
+++ b/libbid/_td_to_di.c
@@ -31,7 +31,10 @@ __bid_fixtddi (_Decimal128 x) {
   union decimal128 ux;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid128_to_int64_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   return (res);
 }
diff --git a/libbid/_td_to_si.c b/libbid/_td_to_si.c
index 07b945c..322cf64 100644
--- a/libbid/_td_to_si.c
+++ b/libbid/_td_to_si.c
@@ -31,7 +31,10 @@ __bid_fixtdsi (_Decimal128 x) {
   SItype res = 0xbaddbadd;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid128_to_int32_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   return (res);
 }
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 0c5d2fa..1fb6642 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -32,7 +32,10 @@ __bid_fixunstddi (_Decimal128 x) {
 
   ux.d = x;
 
+  _IDEC_glbflags = 0;
   res = __bid128_to_uint64_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   // the indefinite value: 0, for NaNs too, unless it is the actual result
   if (res == 0x8000000000000000ull
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index b4fc0eb..eaf83e9 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -31,7 +31,10 @@ __bid_fixunstdsi (_Decimal128 x) {
   union decimal128 ux;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid128_to_uint32_xint (ux.i);
+  if (_IDEC_glbflags & INVALID_EXCEPTION)
+    __dfp_set_status (INVALID_EXCEPTION);
 
   // the indefinite value: 0, for NaNs too, unless it is the actual result
   if (res == 0x80000000
-- 
2.43.0


From b154a39b37ae64aeff2df9fce030ed9d6c9e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 84/99] fix: keep the library in memory while its printf
 extensions are registered

---
 Makefile.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile.in b/Makefile.in
index df54f35..3b9ed44 100644
--- a/Makefile.in
+++ b/Makefile.in
@@ -231,7 +231,7 @@ $(top_builddir)/$(SHARED_SONAME_LIB): $(top_builddir)/$(SHARED_REALNAME_LIB)
 #  calls.
 $(top_builddir)/$(SHARED_REALNAME_LIB): $(top_builddir)/$(dfp_name).map $(addsuffix .os,$(libdfp_files))
 	@echo +Linking shared object files into $@.
-	$(CC) $(CFLAGS) $(sysdeps-CFLAGS) $(LDFLAGS) -shared -Wl,-soname,$(SHARED_SONAME_LIB) -Bsymbolic -Wl,--whole-archive -Wl,--no-whole-archive -Wl,--version-script,$(dfp_name).map -Wl,-entry=__libdfp_version $(addsuffix .os,$(libdfp_files)) -o $@ -lm -shared-libgcc
+	$(CC) $(CFLAGS) $(sysdeps-CFLAGS) $(LDFLAGS) -shared -Wl,-soname,$(SHARED_SONAME_LIB) -Bsymbolic -Wl,--whole-archive -Wl,--no-whole-archive -Wl,--version-script,$(dfp_name).map -Wl,-entry=__libdfp_version -Wl,-z,nodelete $(addsuffix .os,$(libdfp_files)) -o $@ -lm -shared-libgcc
 
 # The LIBDFP version script support is strongly based upon the GLIBC version
 # script Makefile foo.  Thank you Roland McGrath and Ulrich Drepper!
-- 
2.43.0


From 857802be57309a1f5f87a3906c5f33f2dd9056a5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 85/99] fix: strfrom returned -1 when the text exceeded the
 stream's buffer

---
 stdlib/strfromd32.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index 8921304..2489484 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -26,6 +26,7 @@
 #include <errno.h>
 #include <ctype.h>
 #include <limits.h>
+#include <string.h>
 
 #include "printf_dfp.h"
 
@@ -34,12 +35,35 @@
 #define DECIMALN  _Decimal32
 #endif
 
+/* The room left in the caller's buffer, without the terminating null.  */
+struct strfrom_buffer
+{
+  char *next;
+  size_t room;
+};
+
+/* Keep what fits and drop the rest, which only counts.  */
+static ssize_t
+strfrom_write (void *cookie, const char *text, size_t len)
+{
+  struct strfrom_buffer *buffer = cookie;
+  size_t fits = len < buffer->room ? len : buffer->room;
+
+  if (fits > 0)
+    memcpy (buffer->next, text, fits);
+  buffer->next += fits;
+  buffer->room -= fits;
+  return len;
+}
+
 int
 FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMALN fp)
 {
   /* format = %{[.][0-9]*[aAeEfFgG], else behavior undefined.
      Reuse our printf hook to do this.  */
-  FILE * f = fmemopen (s, n, "w");
+  struct strfrom_buffer buffer = { s, n > 0 ? n - 1 : 0 };
+  const cookie_io_functions_t io = { .write = strfrom_write };
+  FILE * f = fopencookie (&buffer, "w", io);
   const void * const args = &fp;
   const void * const * argsp = &args;
   const void * const * argp = (const void * const *)&argsp;
@@ -50,7 +74,7 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
      about this.  */
   if (!f)
     {
-    /* errno set by fmemopen.  */
+    /* errno set by fopencookie.  */
     return 0;
     }
 
@@ -90,8 +114,7 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
 
   fclose (f);
 
-  /* fmemopen leaves a buffer of one byte alone.  */
-  if (n == 1)
-    s[0] = '\0';
+  if (n > 0)
+    *buffer.next = '\0';
   return num;
 }
-- 
2.43.0


From 0963256a6093198fc2e97c068655a58e23a28331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 86/99] fix: decNumberToIntegralExact gave NaN when the context
 already held an invalid flag

---
 libdecnumber/decNumber.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 535c306..4959d17 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -3202,6 +3202,7 @@ decNumber * decNumberToIntegralExact(decNumber *res, const decNumber *rhs,
     workset=*set;		   /* clone rounding, etc. */
     workset.digits=rhs->digits;    /* no length rounding */
     workset.traps=0;		   /* no traps */
+    workset.status=0;		   /* earlier conditions are not ours */
     decNumberZero(&dn); 	   /* make a number with exponent 0 */
     decNumberQuantize(res, rhs, &dn, &workset);
     status|=workset.status;
@@ -3214,10 +3215,12 @@ decNumber * decNumberToIntegralValue(decNumber *res, const decNumber *rhs,
 				     decContext *set) {
   decContext workset=*set;	   /* working context */
   workset.traps=0;		   /* no traps */
+  workset.status=0;		   /* earlier conditions are not ours */
   decNumberToIntegralExact(res, rhs, &workset);
   /* this never affects set, except for sNaNs; NaN will have been set */
   /* or propagated already, so no need to call decStatus */
-  set->status|=workset.status&DEC_Invalid_operation;
+  if (workset.status&DEC_Invalid_operation)
+    decContextSetStatus(set, DEC_Invalid_operation);
   return res;
   } /* decNumberToIntegralValue */
 
-- 
2.43.0


From 19bcf39ed34d31f9b327441682baaf47b640dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 87/99] fix: decConvert.h, as installed, used types that no
 installed header declares

---
 libdecnumber/decConvert.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdecnumber/decConvert.h b/libdecnumber/decConvert.h
index f3b2922..038f5cf 100644
--- a/libdecnumber/decConvert.h
+++ b/libdecnumber/decConvert.h
@@ -31,9 +31,9 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 extern "C" {
 #endif
 
-decNumber * decimal128ToNumber(const decimal128 *, decNumber *);
-decNumber * decimal64ToNumber(const decimal64 *, decNumber *);
-decNumber * decimal32ToNumber(const decimal32 *, decNumber *);
+decNumber * decimal128ToNumber(const _Decimal128 *, decNumber *);
+decNumber * decimal64ToNumber(const _Decimal64 *, decNumber *);
+decNumber * decimal32ToNumber(const _Decimal32 *, decNumber *);
 
 _Decimal128 * decimal128FromNumber(_Decimal128 *, const decNumber *,
 				    decContext *);
-- 
2.43.0


From 3946dc9cc1563ee025816863fccf465b8e6878cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 88/99] fix: decNumberSetBCD placed the digits by the old
 length of the number

---
 libdecnumber/decNumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 4959d17..9b6a885 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -3497,7 +3497,7 @@ uByte * decNumberGetBCD(const decNumber *dn, uByte *bcd) {
 /* and bcd[0] zero.						      */
 /* ------------------------------------------------------------------ */
 decNumber * decNumberSetBCD(decNumber *dn, const uByte *bcd, uInt n) {
-  Unit *up=dn->lsu+D2U(dn->digits)-1;	/* -> msu [target pointer] */
+  Unit *up=dn->lsu+D2U(n)-1;		/* -> msu [target pointer] */
   const uByte *ub=bcd;			/* -> source msd */
 
   #if DECDPUN==1			/* trivial simple copy */
-- 
2.43.0


From 9bb411f77138662b42081e1c2244abac85005698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 89/99] fix: decNumberGetBCD read a unit past the end of a full
 number

---
 libdecnumber/decNumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 9b6a885..d6c7a36 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -3475,7 +3475,7 @@ uByte * decNumberGetBCD(const decNumber *dn, uByte *bcd) {
       *ub=(uByte)(u%10);	   /* [*6554 trick inhibits, here] */
       u=u/10;
       cut--;
-      if (cut>0) continue;	   /* more in this unit */
+      if (cut>0 || ub==bcd) continue; /* more in this unit, or done */
       up++;
       u=*up;
       cut=DECDPUN;
-- 
2.43.0


From 68add3bd41b26804e5ff9776c121a6932d74faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 90/99] fix: the nextafter family sets errno, so it is not
 const

---
 dfp/bits/dfp_dmathcalls.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dfp/bits/dfp_dmathcalls.h b/dfp/bits/dfp_dmathcalls.h
index 1112876..28c5753 100644
--- a/dfp/bits/dfp_dmathcalls.h
+++ b/dfp/bits/dfp_dmathcalls.h
@@ -83,8 +83,8 @@ __DECL_D(yn, (int, __DECIMAL), __THROW)
 #ifdef __STDC_WANT_IEC_60559_DFP_EXT__
 __DECL_D(fmaxmag, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
 __DECL_D(fminmag, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
-__DECL_D(nextdown, (__DECIMAL), __THROW __attribute_const__)
-__DECL_D(nextup, (__DECIMAL), __THROW __attribute_const__)
+__DECL_D(nextdown, (__DECIMAL), __THROW)
+__DECL_D(nextup, (__DECIMAL), __THROW)
 #endif
 
 __DECL_D(ceil, (__DECIMAL), __THROW __attribute_const__)
@@ -92,8 +92,8 @@ __DECL_D(copysign, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
 __DECL_D(fabs, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(floor, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(nan, (__const char *), __THROW __attribute_const__)
-__DECL_D(nextafter, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
-__DECL_D(nexttoward, (__DECIMAL, _Decimal128), __THROW __attribute_const__)
+__DECL_D(nextafter, (__DECIMAL, __DECIMAL), __THROW)
+__DECL_D(nexttoward, (__DECIMAL, _Decimal128), __THROW)
 __DECL_D(round, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(roundeven, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(trunc, (__DECIMAL), __THROW __attribute_const__)
-- 
2.43.0


From 8a88146b1e2724e9edcb82dbb55cdbb0a5aada7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 91/99] fix: issignaling was not an int, and true of every
 binary value, without _GNU_SOURCE

---
 dfp/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfp/math.h b/dfp/math.h
index 19c29e7..1f53571 100644
--- a/dfp/math.h
+++ b/dfp/math.h
@@ -169,8 +169,10 @@ __END_DECLS
      (sizeof (x) == sizeof (float)					      \
       ? __issignalingf (x)						      \
       : __dfp_ldbl(__issignaling, x))
+#elif defined __GNUC__ && __GNUC__ >= 13
+#define __dfp_issignaling(x) __builtin_issignaling (x)
 #else
-#define __dfp_issignaling(x) x
+#define __dfp_issignaling(x) 0
 #endif
 
 #define fpclassify(x) \
-- 
2.43.0


From 2cfa1431e598c9f4782022f895b599b90c5e2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 92/99] fix: decNumberFMA added an accumulator the multiply had
 not set when storage ran out

---
 libdecnumber/decNumber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index d6c7a36..516fffd 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -1145,6 +1145,7 @@ decNumber * decNumberFMA(decNumber *res, const decNumber *lhs,
     /* multiply with extended range and necessary precision */
     /*printf("emin=%ld\n", dcmul.emin); */
     decMultiplyOp(acc, lhs, rhs, &dcmul, &status);
+    if (status&DEC_Insufficient_storage) break; /* acc is not set */
     /* Only Invalid operation (from sNaN or Inf * 0) is possible in */
     /* status; if either is seen than ignore fhs (in case it is */
     /* another sNaN) and set acc to NaN unless we had an sNaN */
-- 
2.43.0


From 073199bd9ce3b0b144cd3bf0748b4be402ea4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 93/99] fix: decNumberLog10 divided by an ln(10) that had not
 been set when storage ran out

---
 libdecnumber/decNumber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 516fffd..7f3495f 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -1506,6 +1506,7 @@ decNumber * decNumberLog10(decNumber *res, const decNumber *rhs,
     aset.digits=p;
     decLnOp(b, w, &aset, &ignore);	/* b=ln(10) */
     status|=ignore&DEC_Insufficient_storage;
+    if (status&DEC_Insufficient_storage) break; /* b is not set */
 
     aset.digits=set->digits;		/* for final divide */
     decDivideOp(res, a, b, &aset, DIVIDE, &status); /* into result */
-- 
2.43.0


From aac71f12c141b61729ec1dee73d5b3ad2b8746d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 94/99] fix: decNumberPower went on without the logarithm when
 storage ran out

---
 libdecnumber/decNumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 7f3495f..315dd93 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -2149,7 +2149,8 @@ decNumber * decNumberPower(decNumber *res, const decNumber *lhs,
       /* reduce to integer 1; decLnOp has a fastpath which detects */
       /* the case of x=1 */
       decLnOp(dac, lhs, &aset, &status);     /* dac=ln(lhs) */
-      /* [no error possible, as lhs 0 already handled] */
+      /* [no error but a lack of storage possible, as lhs 0 already handled] */
+      if (status&DEC_Insufficient_storage) break; /* dac is not set */
       if (ISZERO(dac)) {		     /* x==1, 1.0, etc. */
 	/* need to return fully-padded 1.0000 etc., but rhsint->1 */
 	*dac->lsu=1;			     /* was 0, make int 1 */
-- 
2.43.0


From 0825cd1e08e694a4242f646dc336cb393e87c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 95/99] fix: decNumberSquareRoot went on without the quotient
 when storage ran out

---
 libdecnumber/decNumber.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 315dd93..881842c 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -2978,9 +2978,13 @@ decNumber * decNumberSquareRoot(decNumber *res, const decNumber *rhs,
       /* a = 0.5 * (a + f/a) */
       /* [calculated at p then rounded to currentprecision] */
       decDivideOp(b, f, a, &workset, DIVIDE, &ignore); /* b=f/a */
+      if (ignore&DEC_Insufficient_storage) break;      /* b is not set */
       decAddOp(b, b, a, &workset, 0, &ignore);	       /* b=b+a */
       decMultiplyOp(a, b, t, &workset, &ignore);       /* a=b*0.5 */
       } /* loop */
+    if (ignore&DEC_Insufficient_storage) {
+      status|=DEC_Insufficient_storage;
+      break;}
 
     /* a is short if the last quotient was exact and short */
     if (a->digits<maxp) {
@@ -3080,6 +3084,7 @@ decNumber * decNumberSquareRoot(decNumber *res, const decNumber *rhs,
 	}
        else {				     /* plausible */
 	decCompareOp(t, b, rhs, &workset, COMPARE, &mstatus); /* b ? rhs */
+	status|=mstatus&DEC_Insufficient_storage;
 	if (!ISZERO(t)) status|=DEC_Inexact|DEC_Rounded; /* not equal */
 	 else { 			     /* is Exact */
 	  /* here, dropped is the count of trailing zeros in 'a' */
-- 
2.43.0


From a3246f0dbd5734da6d468f5efbfddfac53631f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 96/99] fix: inserting a decimal into a wide stream did not
 compile

---
 dfp/decimal/decimal | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index ec893db..7e50068 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -111,7 +111,9 @@ template<class decimal_type>
 class LIBDFP_META {
 private:
 public:
-  static inline ostream & decimal_to_string(std::ostream &os, decimal_type &d)
+  template <class charT, class traits>
+  static inline std::basic_ostream<charT, traits> &
+    decimal_to_string(std::basic_ostream<charT, traits> &os, decimal_type &d)
     {
       ios_base::fmtflags flags = os.flags();
       unsigned int precision = os.precision();
@@ -166,7 +168,7 @@ public:
       else
         snprintf (&str[0], len + 1, fmtstr.c_str(), precision, d.__getval());
       str.resize (len);
-      os << str;
+      os << str.c_str(); /* Widened by a wide stream.  */
       return os;
     }
 
-- 
2.43.0


From 4acf1316623041567c3a4af653a0c05e7d299c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 97/99] fix: decNumberScaleB wrapped the exponent of a very
 small number and refused large scales

---
 libdecnumber/decNumber.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 881842c..0452a3c 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -2630,15 +2630,22 @@ decNumber * decNumberScaleB(decNumber *res, const decNumber *lhs,
     status=DEC_Invalid_operation;
    else {
     /* lhs is a number; rhs is a finite with q==0 */
-    reqexp=decGetInt(rhs);		     /* [cannot fail] */
-    if (reqexp==BADINT			     /* something bad .. */
-     || reqexp==BIGODD || reqexp==BIGEVEN    /* .. very big .. */
-     || abs(reqexp)>(2*(set->digits+set->emax))) /* .. or out of range */
+    decContext workset;			     /* for the conversion only */
+    uInt limit=2*((uInt)set->digits+(uInt)set->emax); /* furthest allowed */
+    decContextDefault(&workset, DEC_INIT_DECIMAL64); /* no traps */
+    reqexp=decNumberToInt32(rhs, &workset);
+    if ((workset.status&DEC_Invalid_operation)	 /* very big .. */
+     || (reqexp<0 ? -(uInt)reqexp : (uInt)reqexp)>limit) /* out of range */
       status=DEC_Invalid_operation;
      else {				     /* rhs is OK */
       decNumberCopy(res, lhs);		     /* all done if infinite lhs */
       if (!decNumberIsInfinite(res)) {	     /* prepare to scale */
-	res->exponent+=reqexp;		     /* adjust the exponent */
+	/* adjust the exponent; beyond this it is out of range anyway */
+	if (reqexp<0 && res->exponent<-2*DEC_MAX_EMAX-reqexp)
+	  res->exponent=-2*DEC_MAX_EMAX;
+	 else if (reqexp>0 && res->exponent>2*DEC_MAX_EMAX-reqexp)
+	  res->exponent=2*DEC_MAX_EMAX;
+	 else res->exponent+=reqexp;
 	residue=0;
 	decFinalize(res, set, &residue, &status); /* .. and check */
 	} /* finite LHS */
-- 
2.43.0


From 42039a47e0479119f86d93891ad5ce13e26e729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 98/99] fix: decNumberPower of a subnormal to a negative
 integer was 1 with an overflow

---
 libdecnumber/decNumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 0452a3c..3066e92 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -2192,7 +2192,8 @@ decNumber * decNumberPower(decNumber *res, const decNumber *lhs,
 	    }
 	  /* [inv now points to big-enough buffer or allocated storage] */
 	  decNumberCopy(inv, dac);	/* copy the 1/lhs */
-	  decNumberCopy(dac, &dnOne);	/* restore acc=1 */
+	  if (!(status&DEC_Overflow))	/* 1/lhs is in range */
+	    decNumberCopy(dac, &dnOne); /* .. so restore acc=1 */
 	  lhs=inv;			/* .. and go forward with new lhs */
 	#if DECSUBSET
 	  }
-- 
2.43.0


From 1388b95bd6f592dd3b5eadcc8c5b0339e22da5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 99/99] fix: a long exponent overflowed an int in
 decNumberFromString

---
 libdecnumber/decNumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 3066e92..4340e49 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -606,7 +606,7 @@ decNumber * decNumberFromString(decNumber *dn, const char chars[],
       firstexp=c;			     /* save exponent digit place */
       for (; ;c++) {
 	if (*c<'0' || *c>'9') break;	     /* not a digit */
-	exponent=X10(exponent)+(Int)*c-(Int)'0';
+	exponent=(Int)(X10((uInt)exponent)+(uInt)*c-(uInt)'0'); /* may wrap */
 	} /* c */
       /* if not now on a '\0', *c must not be a digit */
       if (*c!='\0') break;
-- 
2.43.0

