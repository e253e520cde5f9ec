From e0ffff3f1773d3a52903ee53ef4cbbc7c7127f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 1/5] fix: Artin-Schreier map must not skip the all-ones value

When the trace of the all-ones element is zero, x*x+x=GF::N is solvable
and some double errors were reported as uncorrectable.
---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..1bb1d47 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From 55c5a59465e385b1aab662f03a467d47c4867091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 2/5] fix: Reed-Solomon decoder must reject a locator of too
 small degree

A locator polynomial with a degree below the length of the shift register
does not explain the syndromes and the result was no code word.
---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 1bb1d47..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -205,9 +205,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From 9c92ded754b58c8681e8a33b8b279f7cc8491eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:05 +0000
Subject: [PATCH 3/5] fix: ignore unset slots while searching the least
 reliable positions in the short BCH decoder

---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..e6db72b 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < L && j < k && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From f8bbe8ba0163bdab97adecb494adb79c8d75f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:36 +0000
Subject: [PATCH 4/5] fix: ordered statistics decoders assumed metrics above -1

---
 osd.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..81d8b32 100644
--- a/osd.hh
+++ b/osd.hh
@@ -191,7 +191,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = -128 * N;
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
@@ -352,7 +352,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = -128 * N;
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From 06ad4c1e641bff80472a3cc7e6ef4df24ebed587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:20 +0000
Subject: [PATCH 5/5] fix: clamping 64 bit integers must not need AVX-512

---
 avx2.hh        | 3 ++-
 avx2_double.hh | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/avx2.hh b/avx2.hh
index b275cee..bfd65cc 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1150,7 +1150,8 @@ template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 4> tmp;
-	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	tmp.m = _mm256_blendv_epi8(x.m, _mm256_set1_epi64x(a), _mm256_cmpgt_epi64(_mm256_set1_epi64x(a), x.m));
+	tmp.m = _mm256_blendv_epi8(tmp.m, _mm256_set1_epi64x(b), _mm256_cmpgt_epi64(tmp.m, _mm256_set1_epi64x(b)));
 	return tmp;
 }
 
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..d499ea7 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1276,8 +1276,10 @@ template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 8> tmp;
-	for (int i = 0; i < 2; ++i)
-		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	for (int i = 0; i < 2; ++i) {
+		tmp.m[i] = _mm256_blendv_epi8(x.m[i], _mm256_set1_epi64x(a), _mm256_cmpgt_epi64(_mm256_set1_epi64x(a), x.m[i]));
+		tmp.m[i] = _mm256_blendv_epi8(tmp.m[i], _mm256_set1_epi64x(b), _mm256_cmpgt_epi64(tmp.m[i], _mm256_set1_epi64x(b)));
+	}
 	return tmp;
 }
 
-- 
2.43.0

