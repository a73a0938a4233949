/* C08: ANSI X9.62 seed expansion and equations, every field size up to a bound, seeds with leading zeros, wrap-around */
#include "exhaustive/ansi.h"
#include "gen/field.h"
#include "io/output.h"
#include "math/poly.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "util/bits.h"
#include "h.h"
#include "h_sha.h"
extern config_t *cfg;
static int bit(const unsigned char *p, long k) { return (p[k / 8] >> (7 - k % 8)) & 1; }
static GEN ref_r(const unsigned char *seed, size_t g, long t, int prime) {
	long s = (t - 1) / 160, h = t - 160 * s;
	unsigned char d[20], sd[64];
	ref_sha1(seed, (g + 7) / 8, d);
	GEN r = gen_0;
	for (long k = 160 - h; k < 160; ++k) r = addiu(shifti(r, 1), (k == 160 - h && prime) ? 0 : bit(d, k));
	for (long i = 1; i <= s; ++i) {
		ref_add(seed, g, i, sd);
		ref_sha1(sd, (g + 7) / 8, d);
		r = addii(shifti(r, 160), ref_int(d, 20));
	}
	return r;
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(400000000, 100000);
	static config_t c;
	cfg = &c;
	err = stderr;
	out = stdout;
	for (int rep = 0; rep < (h_thorough ? 12 : 3); ++rep)
		for (int t = 5; t <= 700; t += 1 + (t > 330 ? below(7) : 0)) {
			pari_sp av = avma;
			unsigned char seed[64] = {0};
			size_t digits = 40 + (below(3) ? 0 : below(40));
			size_t g = digits * 4;
			int style = below(5);
			for (size_t i = 0; i < (g + 7) / 8; ++i) seed[i] = style == 0 ? 255 : style == 1 ? 0 : rnd();
			if (style == 2) seed[0] = seed[1] = 0;
			if (style == 3) seed[0] = 0x0f & seed[0];
			if (g % 8) seed[(g + 7) / 8 - 1] &= 0xf0;
			if (style == 0 && g % 8 == 0 && below(2)) seed[(g + 7) / 8 - 1] = 0xfe;
			char hex[140], arg[144];
			hexof(seed, digits, hex);
			snprintf(arg, sizeof arg, "%s%s", below(2) ? "0x" : "", hex);
			memset(&c, 0, sizeof c);
			c.bits = t;
			c.seed = arg;
			int prime = below(2);
			c.field = prime ? FIELD_PRIME : FIELD_BINARY;
			if (!prime && !poly_exists(t)) continue;
			at("seed %s size %d prime %d", arg, t, prime);
			curve_t *cv = curve_new();
			if (ansi_gen_seed_argument(cv, NULL, OFFSET_SEED) != 1) fail("seed", "seed %s rejected", arg);
			if (prime) cv->field = nextprime(randomi(int2n(t)));
			else cv->field = poly_find_gen(t);
			GEN r = ref_r(seed, g, t, prime);
			int ok = ansi_gen_equation(cv, NULL, OFFSET_A);
			++h_cases;
			if (ok == 1) {
				if (prime) {
					GEN p = cv->field;
					GEN bb = Fp_mul(r, Fp_sqr(cv->b, p), p), aa = Fp_powu(cv->a, 3, p);
					if (!equalii(bb, aa)) fail("r-b2-a3", "seed %s, size %d, p %Ps: r*b^2 != a^3", arg, t, p);
					if (signe(cv->a) < 0 || cmpii(cv->a, p) >= 0) fail("coefficients", "a not reduced: seed %s size %d", arg, t);
				} else {
					GEN e = field_elementi(cv->b);
					if (!equalii(e, r)) fail("b-is-derived", "seed %s, size %d: b is not the derived value", arg, t);
				}
			} else if (ok == -3) {
				if (prime ? signe(modii(r, cv->field)) : signe(r)) fail("valid-seed-rejected", "seed %s, size %d", arg, t);
			} else
				fail("verdict", "seed %s size %d: %d", arg, t, ok);
			char *rep_hex = bits_to_hex(cv->seed->seed);
			unsigned char zz[80] = {0};
			GEN want = shifti(ref_int(seed, (g + 7) / 8), -(long)((8 - g % 8) % 8));
			GEN got = gen_0;
			for (char *x = rep_hex; *x; ++x) got = addiu(shifti(got, 4), *x <= '9' ? *x - '0' : *x - 'a' + 10);
			if (!equalii(want, got)) fail("seed-reported", "seed %s reported as %s", arg, rep_hex);
			if (cv->seed->seed->bitlen != g) fail("seed-length", "seed %s has %lu bits", arg, cv->seed->seed->bitlen);
			avma = av;
		}
	/* ansi_seed_valid */
	for (int i = 0; i < 4000; ++i) {
		char s[100];
		int n = below(60), k = 0, bad = 0;
		const char *pre[] = {"", "0x", "0X", "x"};
		int pi = below(4);
		strcpy(s, pre[pi]);
		k = strlen(s);
		for (int j = 0; j < n; ++j) s[k++] = below(60) == 0 ? (bad = 1, "gz -+xG:@`/"[below(11)]) : "0123456789abcdefABCDEF"[below(22)];
		s[k] = 0;
		int want = !bad && pi != 3 && n >= 40;
		if (pi == 0 && n >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) continue;
		++h_cases;
		at("seed_valid %s", s);
		if (ansi_seed_valid(s) != want && !(n == 0)) {
			/* "0x" prefixes do not count towards the length */
			fail("seed-valid", "ansi_seed_valid(\"%s\") is %d", s, !want);
		}
	}
	printf("SAMPLE seeds of 160..320 bits, field sizes 5..700\n");
	return h_done();
}
