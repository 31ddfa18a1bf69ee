From bae8863cd6e8c2d3b5ea59084e81a77f495a69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 1/6] fix: avoid signed overflow in the 32 and 64 bit absolute
 value of NaR

---
 src/absolute.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/absolute.c b/src/absolute.c
index e54ce80..bb9fafb 100644
--- a/src/absolute.c
+++ b/src/absolute.c
@@ -18,13 +18,15 @@ takum16_absolute(takum16 t)
 takum32
 takum32_absolute(takum32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* NaR has no negation, -t would overflow */
+	return (t < 0 && t != TAKUM32_NAR) ? -t : t;
 }
 
 takum64
 takum64_absolute(takum64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* NaR has no negation, -t would overflow */
+	return (t < 0 && t != TAKUM64_NAR) ? -t : t;
 }
 
 takum_linear8
@@ -42,11 +44,13 @@ takum_linear16_absolute(takum_linear16 t)
 takum_linear32
 takum_linear32_absolute(takum_linear32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* NaR has no negation, -t would overflow */
+	return (t < 0 && t != TAKUM_LINEAR32_NAR) ? -t : t;
 }
 
 takum_linear64
 takum_linear64_absolute(takum_linear64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* NaR has no negation, -t would overflow */
+	return (t < 0 && t != TAKUM_LINEAR64_NAR) ? -t : t;
 }
-- 
2.43.0


From 45d2522f8038db1fdd03ebc384557ce7098868fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 2/6] fix: compute odd roots of negative linear takums instead
 of returning NaR

---
 src/root.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/root.c b/src/root.c
index e116d31..dfb1072 100644
--- a/src/root.c
+++ b/src/root.c
@@ -75,7 +75,12 @@ takum_linear8_root(takum_linear8 t, int64_t n)
 	}
 
 	f = takum_linear8_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+
+	/* odd roots of negative numbers are negative */
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -94,7 +99,12 @@ takum_linear16_root(takum_linear16 t, int64_t n)
 	}
 
 	f = takum_linear16_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+
+	/* odd roots of negative numbers are negative */
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -113,7 +123,12 @@ takum_linear32_root(takum_linear32 t, int64_t n)
 	}
 
 	f = takum_linear32_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+
+	/* odd roots of negative numbers are negative */
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -132,7 +147,12 @@ takum_linear64_root(takum_linear64 t, int64_t n)
 	}
 
 	f = takum_linear64_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+
+	/* odd roots of negative numbers are negative */
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
-- 
2.43.0


From d958b3f8e026bb8251cd894d4500912499d42200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 3/6] fix: do not export the arccot_over_pi and arccsc_over_pi
 helpers

---
 src/arccot.c | 4 ++--
 src/arccsc.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arccot.c b/src/arccot.c
index 1b08f01..063b979 100644
--- a/src/arccot.c
+++ b/src/arccot.c
@@ -27,7 +27,7 @@ arccot(double f)
 UTIL_UNARY_FLOAT_TAKUM_WRAPPER(arccot, arccot, RESULT_FIXER_MACRO)
 UTIL_UNARY_FLOAT_TAKUM_LINEAR_WRAPPER(arccot, arccot, RESULT_FIXER_MACRO)
 
-long double
+static long double
 arccot_over_pil(long double f)
 {
 	if (f >= 0.0) {
@@ -37,7 +37,7 @@ arccot_over_pil(long double f)
 	}
 }
 
-double
+static double
 arccot_over_pi(double f)
 {
 	return (double)arccot_over_pil((long double)f);
diff --git a/src/arccsc.c b/src/arccsc.c
index 984a2aa..b8ef0e2 100644
--- a/src/arccsc.c
+++ b/src/arccsc.c
@@ -23,13 +23,13 @@ arccsc(double f)
 UTIL_UNARY_FLOAT_TAKUM_WRAPPER(arccsc, arccsc, RESULT_FIXER_MACRO)
 UTIL_UNARY_FLOAT_TAKUM_LINEAR_WRAPPER(arccsc, arccsc, RESULT_FIXER_MACRO)
 
-long double
+static long double
 arccsc_over_pil(long double f)
 {
 	return asinl(1.0l / f) / PI;
 }
 
-double
+static double
 arccsc_over_pi(double f)
 {
 	return (double)arccsc_over_pil((long double)f);
-- 
2.43.0


From cbe1e3eb1db914a13a1b1aa2b8aba05372ffeb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 4/6] fix: convert logarithmic takums to float32 and float64 in
 extended precision

---
 src/conversion.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index af7a9bf..f726ecb 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -630,28 +630,29 @@ takum_linear32_from_takum_linear64(takum_linear64 t)
 float
 takum8_to_float32(takum8 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) * powf(SQRTE, codec_takum8_to_l(t));
+	return (t != 0) * (1 - 2 * (t < 0)) *
+	       powl(SQRTE, (long double)codec_takum8_to_l(t));
 }
 
 float
 takum16_to_float32(takum16 t)
 {
 	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, codec_takum16_to_l(t));
+	       powl(SQRTE, (long double)codec_takum16_to_l(t));
 }
 
 float
 takum32_to_float32(takum32 t)
 {
 	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, (float)codec_takum32_to_l(t));
+	       powl(SQRTE, (long double)codec_takum32_to_l(t));
 }
 
 float
 takum64_to_float32(takum64 t)
 {
 	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, (float)codec_takum64_to_l(t));
+	       powl(SQRTE, codec_takum64_to_l(t));
 }
 
 float
@@ -694,20 +695,21 @@ double
 takum16_to_float64(takum16 t)
 {
 	return (t != 0) * (1 - 2 * (t < 0)) *
-	       pow(SQRTE, (double)codec_takum16_to_l(t));
+	       powl(SQRTE, (long double)codec_takum16_to_l(t));
 }
 
 double
 takum32_to_float64(takum32 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) * pow(SQRTE, codec_takum32_to_l(t));
+	return (t != 0) * (1 - 2 * (t < 0)) *
+	       powl(SQRTE, (long double)codec_takum32_to_l(t));
 }
 
 double
 takum64_to_float64(takum64 t)
 {
 	return (t != 0) * (1 - 2 * (t < 0)) *
-	       pow(SQRTE, (double)codec_takum64_to_l(t));
+	       powl(SQRTE, codec_takum64_to_l(t));
 }
 
 double
-- 
2.43.0


From b5df065a507401ec62a07623c833a5a91555dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 5/6] fix: round float32 and float64 only once when converting
 to linear takum8 and takum16

---
 src/conversion.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index f726ecb..aef5c25 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -96,15 +96,15 @@ takum64_from_float32(float f)
 takum_linear8
 takum_linear8_from_float32(float f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+	return (takum_linear8)takum8_from_takum64(codec_takum64_from_s_and_l(
+		f < 0, codec_linear_l_from_float32(f)));
 }
 
 takum_linear16
 takum_linear16_from_float32(float f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+	return (takum_linear16)takum16_from_takum64(codec_takum64_from_s_and_l(
+		f < 0, codec_linear_l_from_float32(f)));
 }
 
 takum_linear32
@@ -177,15 +177,15 @@ takum64_from_float64(double f)
 takum_linear8
 takum_linear8_from_float64(double f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float64(f));
+	return (takum_linear8)takum8_from_takum64(codec_takum64_from_s_and_l(
+		f < 0, codec_linear_l_from_float64(f)));
 }
 
 takum_linear16
 takum_linear16_from_float64(double f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (double)codec_linear_l_from_float64(f));
+	return (takum_linear16)takum16_from_takum64(codec_takum64_from_s_and_l(
+		f < 0, codec_linear_l_from_float64(f)));
 }
 
 takum_linear32
-- 
2.43.0


From d30f5bdd9633a86ffb80ec64a741a3b5d2f2beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 6/6] fix: round only once when converting linear takum64 to
 float32

---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index aef5c25..9c6a52b 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -679,7 +679,7 @@ takum_linear32_to_float32(takum_linear32 t)
 float
 takum_linear64_to_float32(takum_linear64 t)
 {
-	return (float)codec_s_and_linear_l_to_float64(
+	return (float)codec_s_and_linear_l_to_extended_float(
 		t < 0, codec_takum64_to_l((takum64)t));
 }
 
-- 
2.43.0

