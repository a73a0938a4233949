From f0aad13e1d978663535533df6cc634b832d33829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 01/29] fix: bits_new_rand always left the last byte zero for
 whole-byte lengths

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..b99ee12 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -20,7 +20,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	bits_t *result = bits_new(bit_len);
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
-			size_t last_bits = bit_len % 8;
+			size_t last_bits = bit_len % 8 == 0 ? 8 : bit_len % 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From a59270c48987c39597b3e1da33c17a7fd42c0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 02/29] fix: bits_shiftrz rotated wrongly by negative amounts
 when wrapping

---
 src/util/bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index b99ee12..e4be79b 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -406,8 +406,8 @@ void bits_shiftrz(bits_t *bits, long amount) {
 		} else if (amount > 0) {
 			new_pos = (i + amount) % bits->bitlen;
 		} else if (amount < 0) {
-			long mod_amount = amount % bits->bitlen;
-			new_pos = (i + mod_amount) % bits->bitlen;
+			long mod_amount = amount % (long)bits->bitlen;
+			new_pos = (i + bits->bitlen + mod_amount) % bits->bitlen;
 		}
 		new_bit = (unsigned char)GET_BIT(original_bits, new_pos);
 		bits->bits[i / 8] |= new_bit << (7 - (i % 8));
-- 
2.43.0


From 3e621ae39e4f03ceb260e2dac640af703fd2a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 03/29] fix: bits_from_raw kept bits beyond the length, exposed
 by lengthening

---
 src/util/bits.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/bits.c b/src/util/bits.c
index e4be79b..8757042 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -135,6 +135,9 @@ bits_t *bits_from_raw(const unsigned char *bits, size_t bit_len) {
 	result->bitlen = bit_len;
 	result->allocated = BYTE_LEN(bit_len);
 	if (bit_len > 0) result->bits = try_memdup(bits, result->allocated);
+	if (bit_len % 8 != 0) {
+		result->bits[bit_len / 8] &= (unsigned char)(0xff << (8 - bit_len % 8));
+	}
 	return result;
 }
 
-- 
2.43.0


From 1231e67515326f6a6c972189f2565b4baffbaa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 04/29] fix: bits_to_bitvec of an empty bit string had one
 entry

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 8757042..f86bb6c 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -218,7 +218,7 @@ unsigned char *bits_to_raw(const bits_t *bits) {
 size_t bits_to_rawlen(const bits_t *bits) { return BYTE_LEN(bits->bitlen); }
 
 GEN bits_to_bitvec(const bits_t *bits) {
-	GEN bitvec = gtovecsmall0(gen_0, bits->bitlen);
+	GEN bitvec = zero_zv(bits->bitlen);
 	for (size_t i = 0; i < bits->bitlen; ++i) {
 		if (GET_BIT(bits->bits, i) != 0) gel(bitvec, i + 1) = (GEN)1;
 	}
-- 
2.43.0


From 6ef97f7b2bad08de1d3ed9b84a998617a2c44f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 05/29] fix: bits_to_i of a zero bit string with sign changed
 the constant gen_0

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index f86bb6c..584d407 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -157,7 +157,7 @@ GEN bits_to_i(const bits_t *bits) {
 		if (GET_BIT(bits->bits, i) != 0)
 			result = addii(result, int2n(bits->bitlen - i - 1));
 	}
-	if (bits->sign) {
+	if (bits->sign && signe(result) != 0) {
 		setsigne(result, -1);
 	}
 	return gerepilecopy(ltop, result);
-- 
2.43.0


From db2b714f8067657f749f6c9340e5d66af8d904b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 06/29] fix: order_gen_koblitz used the binary curve orders for
 prime field curves

---
 src/gen/order.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..9f6fc59 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,7 +104,10 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	GEN order = NULL;
+	if (cfg->field == FIELD_BINARY) {
+		order = koblitz_get_order(cfg->bits, itou(curve->a));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From be91299b2f70cd9b84e15f4c43509323ee73030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 07/29] fix: point_gen_random could give the point at infinity

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..3af4b06 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -12,7 +12,7 @@ GENERATOR(point_gen_random) {
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
+	GEN mul = random_range(gen_1, subgroup->generator->order);
 	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
 	point->point = p;
-- 
2.43.0


From 142edb836ab3f0eac2da396ac8d22ad76ee80b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 08/29] fix: gens_gen_cofactor could give a generator of a
 wrong order on noncyclic curves

---
 src/gen/gens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..b4ed489 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -67,7 +67,7 @@ GENERATOR(gens_gen_cofactor) {
 			break;
 		}
 
-		if (dvdiu(gen_order, cofactor)) {
+		if (equalii(gen_order, curve->order)) {
 			GEN res = diviuexact(gen_order, cofactor);
 			p = point_new();
 			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
-- 
2.43.0


From 3ab4f49fc38f266589dd3f8f3f521971184b7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 09/29] fix: exhaustive_generate left a trailing separator when
 a later curve failed

---
 src/exhaustive/exhaustive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..1649cd7 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -476,10 +476,10 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		debug_log_end("Generated new curve");
 
-		output_o(curve);
-		if (i != cfg->count - 1) {
+		if (i != 0) {
 			output_o_separator();
 		}
+		output_o(curve);
 		curve_free(&curve);
 	}
 	output_o_end();
-- 
2.43.0


From 43dc0d27d6fedcf6527b6415f4c53393b7b597e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 10/29] fix: str_joinv wrote past its buffer when joining more
 than ten strings

---
 src/util/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/str.c b/src/util/str.c
index ff075f2..a5cfff5 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -51,7 +51,8 @@ char *str_joinv(char *separator, ...) {
 	size_t i = 0;
 	while ((next = va_arg(valist, char *)) != NULL) {
 		if (i == len) {
-			strings = try_realloc(strings, (len * 2) * sizeof(char *));
+			len *= 2;
+			strings = try_realloc(strings, len * sizeof(char *));
 		}
 		strings[i++] = next;
 	}
-- 
2.43.0


From 5e7b43446fbec4f910169d3edab96737440afe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 11/29] fix: str_join of no strings computed a wrong size

---
 src/util/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/str.c b/src/util/str.c
index a5cfff5..0bbc327 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -28,7 +28,7 @@ char *str_join(char *separator, char **strings, size_t len) {
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) total += strlen(strings[i]);
 	}
-	if (separator) total += (len - 1) * strlen(separator);
+	if (separator && len) total += (len - 1) * strlen(separator);
 	char *result = try_calloc(total);
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) {
-- 
2.43.0


From b4e0540b498ea9da6f975d62fe7badea7039f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 12/29] fix: twist of a regenerated curve could keep the order
 of a rejected one

---
 src/gen/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/curve.c b/src/gen/curve.c
index 7ea2fb5..973ff2b 100644
--- a/src/gen/curve.c
+++ b/src/gen/curve.c
@@ -39,6 +39,8 @@ GENERATOR(curve_gen_any_twist) {
 	if (result != 1) {
 		return result;
 	} else {
+		// any order present is that of an earlier, rejected, curve
+		curve->order = NULL;
 		twist_rand(curve);
 		return 1;
 	}
-- 
2.43.0


From 93a86c04951f74eb4926daaa52377701479108ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 13/29] fix: NUMS b did not restart at one for a curve
 allocated at the address of the last one

---
 src/exhaustive/nums.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index 7e41938..c512be5 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -37,7 +37,8 @@ GENERATOR(nums_gen_b) {
 		curve_b = curve;
 		return 1;
 	} else {
-		if (curve_b == curve) {
+		// a new curve can be allocated at the address of an old one
+		if (curve_b == curve && curve->b) {
 			// use b, add 1 to it, store it back modified,
 			GEN bn;
 			if (equaliu(b, 1)) {
-- 
2.43.0


From 4b3743a67a1fddbba3f8cf9a4b10e59d2a49aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 14/29] fix: family b did not restart at one for a curve
 allocated at the address of the last one

---
 src/exhaustive/family.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 08505b6..b18f43c 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -122,7 +122,8 @@ GENERATOR(family_gen_equation_iter) {
 		b_curve = curve;
 		return 1;
 	} else {
-		if (curve == b_curve) {
+		// a new curve can be allocated at the address of an old one
+		if (curve == b_curve && curve->b) {
 			GEN bn = addii(b, gen_1);
 			gunclone(b);
 			b = gclone(bn);
-- 
2.43.0


From da868b6c50af4e17b451961308021c478fcc0626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 15/29] fix: ansi_gen_equation_fp crashed when the derived r is
 zero

---
 src/exhaustive/ansi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..ba62bb2 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -124,6 +124,13 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->seed->ansi.r = r;
 
 	GEN r_inv = Fp_invsafe(r, curve->field);
+	if (!r_inv) {
+		avma = ltop;
+		bits_free(&c0);
+		bits_free(&W0);
+		bits_free(&W);
+		return -3;
+	}
 	GEN a;
 	GEN b2;
 	do {
-- 
2.43.0


From 83d2e8c0b777c6400dcfb613a1c443b326e85087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 16/29] fix: ansi_gen_equation_fp reported an unreduced a

---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index ba62bb2..70aead3 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -134,7 +134,7 @@ static GENERATOR(ansi_gen_equation_fp) {
 	GEN a;
 	GEN b2;
 	do {
-		a = random_int(cfg->bits);
+		a = modii(random_int(cfg->bits), curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
-- 
2.43.0


From 703cb3b87f26dd7a97e449724d7f56e4d441c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 17/29] fix: hex_points ran points together, matching strings
 across their boundary

---
 src/gen/hex.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gen/hex.c b/src/gen/hex.c
index 58250a0..6e2d92d 100644
--- a/src/gen/hex.c
+++ b/src/gen/hex.c
@@ -27,14 +27,8 @@ static char *hex_points(point_t *points[], size_t len) {
 		p[i] = hex_point(pt);
 	}
 
-	size_t total = 1;
+	char *result = str_join(",", p, len);
 	for (size_t i = 0; i < len; ++i) {
-		total += strlen(p[i]);
-	}
-
-	char *result = try_calloc(total);
-	for (size_t i = 0; i < len; ++i) {
-		strcat(result, p[i]);
 		try_free(p[i]);
 	}
 	return result;
-- 
2.43.0


From 4f7974b5217e21e2950339c75461f68451967033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 18/29] fix: invalid runs without primes or with threads wrote
 malformed JSON

---
 src/invalid/invalid.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3679c6b..e50d52b 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -197,10 +197,8 @@ static size_t invalid_curves_single(const curve_t *curve, pari_ulong *primes,
 						// copy if pointer already assigned
 						curves[i] = curve_new_copy(invalid);
 					}
+					output_o_separator();
 					output_o(curves[i]);
-					if (ncurves != nprimes - 1) {
-						output_o_separator();
-					}
 					ncurves++;
 					count++;
 				}
@@ -281,10 +279,8 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		pthread_cond_wait(&generated_cond, &state_mutex);
 		for (size_t i = 0; i < nprimes; ++i) {
 			if (old_states[i] != states[i] && states[i] == STATE_GENERATED) {
+				output_o_separator();
 				output_o(local_curves[i]);
-				if (*generated != nprimes) {
-					output_o_separator();
-				}
 				old_states[i] = states[i];
 			}
 		}
@@ -361,7 +357,6 @@ int invalid_do() {
 
 	output_o_begin();
 	output_o(curve);
-	output_o_separator();
 
 	debug_log_start("Starting to generate primes to product over order^2");
 	pari_ulong *primes;
@@ -369,6 +364,7 @@ int invalid_do() {
 	debug_log_end("Generated primes");
 
 	if (!nprimes) {
+		output_o_end();
 		fprintf(err, "No orders to generate curves for, quitting.");
 		return EXIT_FAILURE;
 	}
-- 
2.43.0


From 92d09d0d66ea01952d82153fa497558aaaf21c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 19/29] fix: no polynomial of degree 1060, --f2m 1060 crashed

---
 src/math/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/poly.c b/src/math/poly.c
index 0a042c4..5bc2fe1 100644
--- a/src/math/poly.c
+++ b/src/math/poly.c
@@ -963,7 +963,7 @@ static polynomial_t ansi_trinomials[] = {
     {1028, 119}, {1029, 98},  {1030, 93},  {1031, 68},  {1033, 108},
     {1034, 75},  {1036, 411}, {1039, 21},  {1041, 412}, {1042, 439},
     {1044, 41},  {1047, 10},  {1049, 141}, {1050, 159}, {1052, 291},
-    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1062, 49},
+    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1060, 439}, {1062, 49},
     {1063, 168}, {1065, 463}, {1071, 7},   {1078, 361}, {1079, 230},
     {1081, 24},  {1082, 407}, {1084, 189}, {1085, 62},  {1086, 189},
     {1087, 112}, {1089, 91},  {1090, 79},  {1092, 23},  {1094, 57},
-- 
2.43.0


From 5d5421654f5c43e1026fb43a7bad4ad6f9b426fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 20/29] fix: field_gen_input looped forever at end of input and
 took negative exponents as zero

---
 src/gen/field.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..87214e7 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,23 +50,39 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (equalii(m, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
-			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
+			if (equalii(e1, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (gsigne(e1) < 0 || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
-			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
+			if (equalii(e2, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (gsigne(e2) < 0 || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
-			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
+			if (equalii(e3, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (gsigne(e3) < 0 || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
-- 
2.43.0


From 7cf7ffd714c1e57185b019f6c0e74ef0b749852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 21/29] fix: input accepted 2^bits, a number of bits + 1 bits

---
 src/io/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..d164e9e 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -43,7 +43,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 	// check bitsize here
 	GEN size = int2n(bits);
-	if (cmpii(in, size) <= 0) {
+	if (cmpii(in, size) < 0) {
 		return gerepileupto(ltop, in);
 	} else {
 		fprintf(err, "Number too big(> %ld bits).\n", bits);
-- 
2.43.0


From 85c3708bdb5b5540cbc20c2ad9eb92c5d8a94b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:34 +0000
Subject: [PATCH 22/29] fix: copies and clones of a curve lost its metadata

---
 src/obj/curve.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/obj/curve.c b/src/obj/curve.c
index 4821442..1b2ee10 100644
--- a/src/obj/curve.c
+++ b/src/obj/curve.c
@@ -16,6 +16,18 @@ curve_t *curve_copy(const curve_t *src, curve_t *dest) {
 		dest->generators = subgroups_new_copy(src->generators, src->ngens);
 		dest->ngens = src->ngens;
 	}
+	if (src->meta.j_invariant)
+		dest->meta.j_invariant = gcopy(src->meta.j_invariant);
+	if (src->meta.discriminant)
+		dest->meta.discriminant = gcopy(src->meta.discriminant);
+	if (src->meta.cm_discriminant)
+		dest->meta.cm_discriminant = gcopy(src->meta.cm_discriminant);
+	if (src->meta.frobenius_trace)
+		dest->meta.frobenius_trace = gcopy(src->meta.frobenius_trace);
+	if (src->meta.embedding_degree)
+		dest->meta.embedding_degree = gcopy(src->meta.embedding_degree);
+	if (src->meta.conductor)
+		dest->meta.conductor = gcopy(src->meta.conductor);
 	return dest;
 }
 
@@ -30,6 +42,18 @@ curve_t *curve_clone(const curve_t *src, curve_t *dest) {
 		dest->generators = subgroups_new_clone(src->generators, src->ngens);
 		dest->ngens = src->ngens;
 	}
+	if (src->meta.j_invariant)
+		dest->meta.j_invariant = gclone(src->meta.j_invariant);
+	if (src->meta.discriminant)
+		dest->meta.discriminant = gclone(src->meta.discriminant);
+	if (src->meta.cm_discriminant)
+		dest->meta.cm_discriminant = gclone(src->meta.cm_discriminant);
+	if (src->meta.frobenius_trace)
+		dest->meta.frobenius_trace = gclone(src->meta.frobenius_trace);
+	if (src->meta.embedding_degree)
+		dest->meta.embedding_degree = gclone(src->meta.embedding_degree);
+	if (src->meta.conductor)
+		dest->meta.conductor = gclone(src->meta.conductor);
 	return dest;
 }
 
@@ -58,6 +82,17 @@ void curve_free(curve_t **curve) {
 		if ((*curve)->order && isclone((*curve)->order)) {
 			gunclone((*curve)->order);
 		}
+		GEN meta[] = {(*curve)->meta.j_invariant,
+		              (*curve)->meta.discriminant,
+		              (*curve)->meta.cm_discriminant,
+		              (*curve)->meta.frobenius_trace,
+		              (*curve)->meta.embedding_degree,
+		              (*curve)->meta.conductor};
+		for (size_t i = 0; i < sizeof(meta) / sizeof(*meta); ++i) {
+			if (meta[i] && isclone(meta[i])) {
+				gunclone(meta[i]);
+			}
+		}
 
 		try_free(*curve);
 		*curve = NULL;
-- 
2.43.0


From b6a98f3f86617ada65c67dac1aa997dd7477fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 23/29] fix: cofactor and smoothness ignored by Brainpool and
 NUMS were not reported as unused

---
 src/exhaustive/exhaustive.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 1649cd7..fdfa25c 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -47,22 +47,29 @@ static void exhaustive_ginit(gen_f *generators) {
 	GET(field);
 
 	if (GET_BOOL(seed_algo)) {
-		if (GET_BOOL(prime)) {
-			generators[OFFSET_ORDER] = &order_gen_prime;
-		} else if (GET_BOOL(cofactor)) {
-			generators[OFFSET_ORDER] = &order_gen_cofactor;
-		} else if (GET_BOOL(smooth)) {
-			generators[OFFSET_ORDER] = &order_gen_smooth;
-		} else {
-			generators[OFFSET_ORDER] = &order_gen_any;
-		}
+		if (cfg->seed_algo == SEED_ANSI) {
+			if (GET_BOOL(prime)) {
+				generators[OFFSET_ORDER] = &order_gen_prime;
+			} else if (GET_BOOL(cofactor)) {
+				generators[OFFSET_ORDER] = &order_gen_cofactor;
+			} else if (GET_BOOL(smooth)) {
+				generators[OFFSET_ORDER] = &order_gen_smooth;
+			} else {
+				generators[OFFSET_ORDER] = &order_gen_any;
+			}
 
-		if (GET_BOOL(unique)) {
-			generators[OFFSET_GENERATORS] = &gens_gen_one;
-		} else if (GET_BOOL(cofactor)) {
-			generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
+			if (GET_BOOL(unique)) {
+				generators[OFFSET_GENERATORS] = &gens_gen_one;
+			} else if (GET_BOOL(cofactor)) {
+				generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
+			} else {
+				generators[OFFSET_GENERATORS] = &gens_gen_any;
+			}
 		} else {
-			generators[OFFSET_GENERATORS] = &gens_gen_any;
+			// The other procedures fix the order and the generator themselves:
+			// prime order, so one generator.
+			GET(prime);
+			GET(unique);
 		}
 
 		switch (cfg->seed_algo) {
-- 
2.43.0


From 7ec6fcdc7d9744c344112ee47e2330e6abb44b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 24/29] fix: point selection was ignored for complex
 multiplication with a prime order

---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From 9d11d666d54d9d1c2586bc9d416e8a93a97c910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:05 +0000
Subject: [PATCH 25/29] fix: points_gen_trial dropped all but the first prime
 of a subgroup

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 3af4b06..833a3f1 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -118,7 +118,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From 3fec526e70126ac54815b43cbbd0e15040069a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 26/29] fix: several seed procedures at once were accepted,
 bypassing the seed's check

---
 src/io/cli.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index d98a0c0..6401662 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -150,6 +150,16 @@ static unsigned long cli_parse_time(const char *str, struct argp_state *state) {
 	return read;
 }
 
+static void cli_seed_algo(seed_e algo, struct argp_state *state) {
+	// the seed procedures share one method, but exclude each other
+	if (cfg->seed_algo != SEED_NONE && cfg->seed_algo != algo) {
+		argp_failure(state, 1, 0,
+		             "Only one generation method can be specified.");
+	}
+	cfg->seed_algo = algo;
+	SET(seed_algo);
+}
+
 static void cli_end(struct argp_state *state) {
 	// validate all option states here.
 	// Only one field
@@ -308,8 +318,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_ANSI:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_ANSI;
-			SET(seed_algo);
+			cli_seed_algo(SEED_ANSI, state);
 			if (arg) {
 				if (!ansi_seed_valid(arg)) {
 					argp_failure(
@@ -323,8 +332,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_BRAINPOOL:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL;
-			SET(seed_algo);
+			cli_seed_algo(SEED_BRAINPOOL, state);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
 					argp_failure(
@@ -338,14 +346,12 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_NUMS:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_NUMS;
-			SET(seed_algo);
+			cli_seed_algo(SEED_NUMS, state);
 			break;
 		case OPT_BRAINPOOL_RFC:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL_RFC;
-			SET(seed_algo);
+			cli_seed_algo(SEED_BRAINPOOL_RFC, state);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
 					argp_failure(
-- 
2.43.0


From ee35f0e587e9b976e71e2209344bd51c3f97ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:52 +0000
Subject: [PATCH 27/29] fix: complex multiplication took the wrong twist for D
 = -3 and for composite orders

---
 src/cm/cm_any.c | 76 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index f948ac1..f50a679 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -133,6 +133,20 @@ static cm_any_qdisc_t *good_qdisc_brute(GEN order, GEN alpha, GEN beta) {
 }
 */
 
+static GEN cm_special_twist(GEN j, GEN order, GEN p) {
+	// The curves of j-invariant 0 (1728) are y^2 = x^3 + c (y^2 = x^3 + c*x).
+	pari_sp ltop = avma;
+	for (long c = 1; cmpsi(c, p) < 0; ++c) {
+		GEN v = gequal0(j) ? mkvec2(gen_0, stoi(c)) : mkvec2(stoi(c), gen_0);
+		GEN e = ellinit(v, p, 0);
+		if (equalii(ellff_get_card(e), order)) {
+			return gerepilecopy(ltop, e);
+		}
+		avma = ltop;
+	}
+	return NULL;
+}
+
 GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 	debug_log("Constructing a curve with N = %Pi, d = %Pi, p = %Pi", order, d,
 	          p);
@@ -157,17 +171,31 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 		pari_TRY { checkell(e); };
 		pari_ENDCATCH{};
 
+		if (gequal0(root) || equalii(root, modsi(1728, p))) {
+			// Six (or four) twists, one of them has the requested order.
+			e = cm_special_twist(root, order, p);
+			if (e == NULL) {
+				continue;
+			}
+			debug_log("Got curve.");
+			return gerepilecopy(ltop, e);
+		}
+
+		GEN twist = ellinit(elltwist(e, NULL), p, 0);
 		if (ord_prime) {
 			// Easy part, the requested order is prime so
 			// [order]G = 0 iff the curve has exactly order points, for any G on
 			// it. otherwise it is the twist
-			GEN g = genrand(e);
+			GEN g;
+			do {
+				g = genrand(e);
+			} while (ell_is_inf(g));
 			if (ell_is_inf(ellmul(e, g, order))) {
 				debug_log("Got curve.");
 				return gerepilecopy(ltop, e);
 			} else {
 				debug_log("Got curve twist.");
-				return gerepilecopy(ltop, ellinit(elltwist(e, NULL), p, 0));
+				return gerepilecopy(ltop, twist);
 			}
 		} else {
 			// Hard part, requested order is composite, so it might share a
@@ -175,34 +203,30 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 			// might be true for a point on the twist as well as a point o the
 			// right curve.
 			//
-			// We calculate what the twist order is, then compute gcd of the
-			// orders which leads to the product of the factors that the orders
-			// do not share. By multiplying a random point by this product on
-			// some curve, we can determine that that curve has that number of
-			// points.
-			GEN twist_order = subii(addis(p, 1), subii(order, addis(p, 1)));
-			GEN twist = ellinit(elltwist(e, NULL), p, 0);
-			GEN gcd = gcdii(order, twist_order);
-			GEN orig_mul = divii(order, gcd);
-			GEN twist_mul = divii(twist_order, gcd);
-			while (true) {
-				GEN orig_point = genrand(e);
-				if (ell_is_inf(ellmul(e, orig_point, orig_mul))) {
-					debug_log("Got curve.");
+			// A random point, of the curve or its twist, that is annihilated by
+			// only one of the two orders determines which one of them has the
+			// requested order. Such points always exist for p > 229.
+			GEN twist_order = subii(mulis(addis(p, 1), 2), order);
+			if (cmpis(p, 229) <= 0 || equalii(order, twist_order)) {
+				if (equalii(ellff_get_card(e), order)) {
 					return gerepilecopy(ltop, e);
 				}
-				if (ell_is_inf(ellmul(e, orig_point, twist_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
+				return gerepilecopy(ltop, twist);
+			}
+			while (true) {
+				GEN orig_point = genrand(e);
+				bool orig_inf = ell_is_inf(ellmul(e, orig_point, order));
+				if (orig_inf !=
+				    ell_is_inf(ellmul(e, orig_point, twist_order))) {
+					debug_log(orig_inf ? "Got curve." : "Got curve twist.");
+					return gerepilecopy(ltop, orig_inf ? e : twist);
 				}
 				GEN twist_point = genrand(twist);
-				if (ell_is_inf(ellmul(e, twist_point, twist_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, twist_point, orig_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
+				bool twist_inf = ell_is_inf(ellmul(twist, twist_point, order));
+				if (twist_inf !=
+				    ell_is_inf(ellmul(twist, twist_point, twist_order))) {
+					debug_log(twist_inf ? "Got curve twist." : "Got curve.");
+					return gerepilecopy(ltop, twist_inf ? twist : e);
 				}
 			}
 		}
-- 
2.43.0


From 9d6d70ff4c2c9ebac8775d94e4e6750363ca63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:18 +0000
Subject: [PATCH 28/29] fix: invalid run without primes died in realloc,
 leaving the array open

---
 src/invalid/invalid.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index e50d52b..4c20191 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -108,10 +108,8 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 		}
 	}
 	/* realloc to smaller size, to tightly fit all generated primes */
-	pari_ulong *new_primes =
-	    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
-	if (new_primes) {
-		*primes = new_primes;
+	if (nprimes) {
+		*primes = try_realloc(*primes, nprimes * sizeof(pari_ulong));
 	}
 	avma = ltop;
 
-- 
2.43.0


From add8850a58a6a216e6e6102d47fb893929d69d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 29/29] fix: an empty bit size was accepted

---
 src/io/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index 6401662..68e1d19 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -524,7 +524,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 
 			char *bits_end = NULL;
 			cfg->bits = strtoul(arg, &bits_end, 10);
-			if (*bits_end != '\0') {
+			if (bits_end == arg || *bits_end != '\0') {
 				argp_failure(state, 1, 0, "Invalid bit size specified.");
 			}
 			cfg->hex_digits =
-- 
2.43.0

