/* C12: complete evaluation of the Koblitz lookup; the order is 2^m + 1 - V_m, V_k = mu V_(k-1) - 2 V_(k-2), mu = (-1)^(1-a) */
#include "math/koblitz.h"
#include "gen/order.h"
#include "gen/field.h"
#include "gen/equation.h"
#include "gen/curve.h"
#include "math/poly.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "h.h"
extern config_t *cfg;
static GEN order(long m, int a) {
	GEN u = gen_2, v = stoi(a ? 1 : -1);
	long mu = a ? 1 : -1;
	for (long k = 2; k <= m; ++k) {
		GEN w = subii(mulis(v, mu), shifti(u, 1));
		u = v;
		v = w;
	}
	return subii(addiu(int2n(m), 1), v);
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(800000000, 1000);
	static config_t c;
	cfg = &c;
	long found = 0;
	for (unsigned long m = 2; m <= 3000; ++m)
		for (unsigned long a = 0; a < 4; ++a) {
			pari_sp av = avma;
			++h_cases;
			const koblitz_t *k = koblitz_find(m, a);
			GEN o = koblitz_get_order(m, a);
			if (!k != !o) fail("lookup", "m=%lu a=%lu: find and order disagree", m, a);
			if (k) {
				++found;
				if (k->m != m || k->a != a) fail("pair", "m=%lu a=%lu: found the entry of %u %u", m, a, k->m, k->a);
				if (a > 1 || !equalii(o, order(m, a))) fail("order", "m=%lu a=%lu: order %Ps is not that of the curve", m, a, o);
			}
			avma = av;
		}
	if (found != 20) fail("tabulated", "%ld pairs found", found);
	/* order stage over both kinds of fields */
	for (int r = 0; r < (h_thorough ? 60 : 18); ++r) {
		pari_sp av = avma;
		long ms[] = {101, 103, 107, 113, 131, 163, 97, 89, 64, 31, 7, 233};
		long m = ms[r % 12];
		int prime = r % 3 == 2, a = below(2);
		memset(&c, 0, sizeof c);
		c.field = prime ? FIELD_PRIME : FIELD_BINARY;
		c.bits = m;
		at("order stage m=%ld a=%d prime %d", m, a, prime);
		if (prime && m > 163) continue;
		curve_t *cv = curve_new();
		if (prime) {
			cv->field = nextprime(int2n(m - 1));
		} else {
			cv->field = poly_find_gen(m);
		}
		(a ? a_gen_one : a_gen_zero)(cv, NULL, OFFSET_A);
		b_gen_one(cv, NULL, OFFSET_B);
		if (curve_gen_any(cv, NULL, OFFSET_CURVE) != 1) {
			avma = av;
			continue;
		}
		int ok = order_gen_koblitz(cv, NULL, OFFSET_ORDER);
		++h_cases;
		GEN want = prime ? ellcard(cv->curve, NULL) : order(m, a);
		if (ok != 1 || !equalii(cv->order, want)) fail("stage-order", "m=%ld a=%d %s field: order %Ps instead of %Ps", m, a, prime ? "prime" : "binary", cv->order, want);
		else if (!equalii(ellff_get_card(cv->curve), want)) fail("curve-object-order", "m=%ld a=%d", m, a);
		avma = av;
	}
	printf("SAMPLE all m in 2..3000, a in 0..3\n");
	return h_done();
}
