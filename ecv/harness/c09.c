/* C09: Brainpool / RFC 5639 derivations against a replay of the procedure */
#include "exhaustive/brainpool.h"
#include "exhaustive/brainpool_rfc.h"
#include "io/output.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "util/bits.h"
#include "h.h"
#include "h_sha.h"
extern config_t *cfg;
static unsigned char S[20];
static int upd;
static void adv(void) {
	unsigned char t[20];
	ref_add(S, 160, 1, t);
	memcpy(S, t, 20);
}
static GEN derive(const unsigned char *s, long w, long v) {
	unsigned char d[20], t[20];
	ref_sha1(s, 20, d);
	GEN r = modii(ref_int(d, 20), int2n(w));
	for (long i = 1; i <= v; ++i) {
		ref_add(s, 160, i, t);
		ref_sha1(t, 20, d);
		r = addii(shifti(r, 160), ref_int(d, 20));
	}
	return r;
}

static int same_seed(const bits_t *b) { return b->bitlen == 160 && !memcmp(b->bits, S, 20); }
static GEN ref_field(long L, long w, long v) {
	GEN p;
	for (;; upd = 1) {
		if (upd) adv(), upd = 0;
		p = addiu(derive(S, w + 1, v), 1);
		while (mod4(p) != 3 || !isprime(p)) p = addiu(p, 1);
		if (cmpii(p, int2n(L - 1)) >= 0 && cmpii(p, int2n(L)) < 0) break;
	}
	upd = 1;
	return p;
}
static int qr(GEN x, GEN p) { return kronecker(x, p) == 1; }
static void ref_equation(GEN p, long w, long v, int rfc, GEN *a, GEN *b) {
	for (;; upd = 1) {
		if (upd) adv(), upd = 0;
		*a = derive(S, w, v);
		/* z^4 = -3/a has a solution iff -3a is a square, p = 3 mod 4 */
		if (!signe(modii(*a, p)) || !qr(mulis(*a, -3), p)) continue;
		if (rfc) {
			do {
				adv();
				*b = derive(S, w, v);
			} while (qr(*b, p));
		} else {
			adv();
			*b = derive(S, w, v);
			if (!qr(*b, p)) continue;
		}
		GEN disc = addii(mulis(powiu(*a, 3), 4), mulis(sqri(*b), 27));
		if (!signe(modii(disc, p))) continue;
		break;
	}
	upd = 1;
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(800000000, 1000000);
	static config_t c;
	cfg = &c;
	err = stderr;
	out = stdout;
	c.field = FIELD_PRIME;
	/* seed successor and derivation by themselves */
	for (int k = 0; k < (h_thorough ? 4000 : 800); ++k) {
		pari_sp av = avma;
		int style = below(6);
		for (int i = 0; i < 20; ++i) S[i] = style == 0 ? 255 : style == 1 ? 0 : rnd();
		if (style == 2) S[0] = S[1] = S[2] = 0;
		if (style == 3) memset(S + 2, 255, 18);
		if (style == 0 && below(2)) S[19] -= below(5);
		bits_t *s = bits_from_raw(S, 160);
		long v = below(5), w = below(160);
		at("hash style %d w %ld v %ld", style, w, v);
		bits_t *h = brainpool_hash(s, w, v);
		++h_cases;
		if ((long)h->bitlen != w + 160 * v || !equalii(bits_to_i(h), derive(S, w, v))) fail("hash", "brainpool_hash of seed style %d, w=%ld v=%ld", style, w, v);
		if (!same_seed(s)) fail("hash", "seed changed");
		brainpool_update_seed(s);
		adv();
		if (!same_seed(s)) fail("update-seed", "successor of a seed of style %d", style);
		bits_free(&s);
		bits_free(&h);
		avma = av;
	}
	long sizes[] = {20, 22, 27, 33, 40, 48, 64, 80, 96, 112, 128, 159, 160, 161, 162, 170, 192, 224, 256, 320, 321, 322, 384, 400};
	for (int rep = 0; rep < (h_thorough ? 6 : 1); ++rep)
		for (int si = 0; si < 24; ++si)
			for (int rfc = 0; rfc < 2; ++rfc) {
				pari_sp av = avma;
				long L = sizes[si], v = (L - 1) / 160, w = L - 160 * v - 1;
				int style = below(5);
				for (int i = 0; i < 20; ++i) S[i] = style == 0 ? 255 : style == 1 ? 0 : rnd();
				if (style == 0) S[19] = 255 - below(20);
				if (style == 2) S[0] = S[1] = 0;
				char arg[44] = "0x";
				hexof(S, 40, arg + (below(2) ? 2 : 0));
				memset(&c, 0, sizeof c);
				c.field = FIELD_PRIME;
				c.bits = L;
				c.seed = arg;
				upd = 0;
				at("seed %s size %ld rfc %d", arg, L, rfc);
				curve_t *cv = curve_new();
				int r = rfc ? brainpool_rfc_gen_seed_argument(cv, NULL, OFFSET_SEED) : brainpool_gen_seed_argument(cv, NULL, OFFSET_SEED);
				if (r != 1 || !same_seed(cv->seed->seed)) {
					fail("seed", "seed %s rejected or changed", arg);
					continue;
				}
				for (int round = 0; round < 2; ++round) {
					GEN p = ref_field(L, w, v);
					r = brainpool_gen_field(cv, NULL, OFFSET_FIELD);
					++h_cases;
					if (r != 1 || !equalii(cv->field, p)) {
						fail("field", "seed %s size %ld (round %d): field %Ps instead of %Ps", arg, L, round, cv->field, p);
						break;
					}
					int bad = 0;
					for (int e = 0; e < 2 + (int)below(3) && !bad; ++e) {
						GEN a, b;
						ref_equation(p, w, v, rfc, &a, &b);
						r = rfc ? brainpool_rfc_gen_equation(cv, NULL, OFFSET_A) : brainpool_gen_equation(cv, NULL, OFFSET_A);
						++h_cases;
						if (r != 1 || !equalii(lift(cv->a), modii(a, p)) || !equalii(lift(cv->b), modii(b, p))) {
							fail(rfc ? "rfc-equation" : "equation", "seed %s size %ld attempt %d: other coefficients than the procedure gives", arg, L, e);
							bad = 1;
						} else if (!same_seed(cv->seed->seed)) {
							fail("seed-advance", "seed %s size %ld attempt %d: the seed is not where the procedure leaves it", arg, L, e);
							bad = 1;
						}
					}
					if (bad) break;
					if (L <= 48) {
						cv->curve = ellinit(mkvec2(cv->a, cv->b), cv->field, 1);
						if (glength(cv->curve)) {
							cv->order = ellcard(cv->curve, NULL);
							adv();
							GEN k = derive(S, w, v);
							GEN x = gen_0;
							while (glength(ellordinate(cv->curve, x, 0)) == 0) x = addiu(x, 1);
							GEN y = ellordinate(cv->curve, x, 0);
							GEN G = ellmul(cv->curve, mkvec2(gmodulo(x, p), gel(y, 1)), k), G2 = ellneg(cv->curve, G);
							r = brainpool_gen_gens(cv, NULL, OFFSET_GENERATORS);
							++h_cases;
							point_t *P = cv->generators[0]->generator;
							if (r != 1 || cv->ngens != 1 || !(gequal(P->point, G) || gequal(P->point, G2))) fail("generator", "seed %s size %ld: not k times a point of smallest x", arg, L);
							else if (!gequal(P->order, ellorder(cv->curve, P->point, NULL)) || !equalii(mulii(P->order, P->cofactor), cv->order)) fail("generator-order", "seed %s size %ld", arg, L);
							if (!same_seed(cv->seed->seed)) fail("seed-advance", "seed %s size %ld: after the generator", arg, L);
							/* acceptance: embedding degree beyond (order-1)/100 */
							GEN e = utoi(1), t = modii(p, P->order), z = t;
							int small = 0;
							if (cmpiu(P->order, 50000) < 0 && ugcd(1, 1)) {
								ulong n = itou(P->order), m = itou(t), kk = 1, u = m;
								if (n > 1 && ugcd(n, m) == 1) {
									while (u != 1 && kk < n) u = Fl_mul(u, m, n), kk++;
									int want = (n - 1) / 100 < kk;
									r = brainpool_check_gens(cv, NULL, OFFSET_GENERATORS);
									if ((r == 1) != want) fail("embedding-check", "order %lu degree %lu: verdict %d", n, kk, r);
									if (r != 1 && r != -5) fail("embedding-check", "verdict %d does not go back to the field", r);
								}
							}
							cv->order = cv->order;
							r = brainpool_check_order(cv, NULL, OFFSET_ORDER);
							int want = cmpii(cv->order, p) < 0;
							if ((r == 1) != want || (!want && r != -4)) fail("order-check", "order %Ps field %Ps: verdict %d", cv->order, p, r);
							cv->order = p;
							if (brainpool_check_order(cv, NULL, OFFSET_ORDER) == 1) fail("order-check", "order equal to the field accepted");
						}
					}
				}
				avma = av;
			}
	for (int i = 0; i < 3000; ++i) {
		char s[80];
		int n = below(4) ? 40 : 36 + below(8), k = 0, bad = 0;
		const char *pre[] = {"", "0x", "0X"};
		strcpy(s, pre[below(3)]);
		k = strlen(s);
		for (int j = 0; j < n; ++j) s[k++] = below(100) == 0 ? (bad = 1, "gz -+xG"[below(7)]) : "0123456789abcdefABCDEF"[k == 0 ? 1 : below(22)];
		s[k] = 0;
		++h_cases;
		if (brainpool_seed_valid(s) != (!bad && n == 40)) fail("seed-valid", "brainpool_seed_valid(\"%s\")", s);
	}
	printf("SAMPLE seeds of 160 bits, sizes 20..400, field, 2-4 equations, generator, twice\n");
	return h_done();
}
