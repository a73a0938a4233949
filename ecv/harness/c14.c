/* C14: element <-> integer over many fields */
#include "gen/field.h"
#include "math/poly.h"
#include "misc/config.h"
#include "h.h"
extern config_t *cfg;
/* bits of an integer, least significant first, from its words */
static int ibit(GEN n, long k) {
	long l = k / BITS_IN_LONG;
	return signe(n) && l < lgefint(n) - 2 ? (*int_W(n, l) >> (k % BITS_IN_LONG)) & 1 : 0;
}
static GEN rint_(long bits) {
	GEN r = gen_0;
	for (long i = 0; i < bits; i += 32) r = addii(shifti(r, 32), utoi(rnd() & 0xffffffffu));
	return remii(r, int2n(bits));
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(400000000, 1000);
	static config_t c;
	cfg = &c;
	pari_sp top = avma;
	for (long r = 0; r < (h_thorough ? 3000 : 600); ++r, avma = top) {
		if (r % 2) {
			long bits = r < 100 ? 2 + r / 8 : 2 + (long)below(600);
			GEN p = nextprime(addis(int2n(bits - 1), below(50)));
			for (int k = 0; k < 12; ++k) {
				GEN v = k == 0 ? gen_0 : k == 1 ? gen_1 : k == 2 ? subis(p, 1) : k == 3 ? p : k == 4 ? addii(p, gen_1) : remii(rint_(bits + 8), k & 1 ? p : int2n(bits));
				++h_cases;
				at("p=%Ps v=%Ps", p, v);
				GEN e = field_ielement(p, v);
				GEN i = field_elementi(e);
				if (typ(e) != t_INTMOD || !equalii(gel(e, 1), p) || !equalii(gel(e, 2), remii(v, p))) fail("element", "p=%Ps: %Ps gives %Ps", p, v, e);
				if (typ(i) != t_INT || !equalii(i, remii(v, p))) fail("integer", "p=%Ps: %Ps is printed as %Ps", p, e, i);
				if (!gequal(field_ielement(p, i), e)) fail("roundtrip", "p=%Ps: %Ps", p, e);
				GEN n = field_elementi(v);
				if (!gequal(n, v)) fail("integer-of-integer", "%Ps gives %Ps", v, n);
			}
		} else {
			long m = r < 60 ? 2 + r / 2 : 2 + (long)below(300);
			GEN f = (r % 4 || !poly_exists(m)) ? ffinit(gen_2, m, fetch_user_var("x")) : NULL;
			GEN g = f ? ffgen(f, fetch_user_var("t")) : poly_find_gen(m);
			for (int k = 0; k < 8; ++k) {
				GEN v = k == 0 ? gen_0 : k == 1 ? gen_1 : k == 2 ? subis(int2n(m), 1) : k == 3 ? int2n(m - 1) : k == 4 ? gen_2 : rint_(m);
				++h_cases;
				at("m=%ld v=%Ps", m, v);
				GEN e = field_ielement(g, v);
				/* sum of the powers of the generator */
				GEN w = gmul(g, gen_0);
				for (long j = m - 1; j >= 0; --j) {
					w = gmul(w, g);
					if (ibit(v, j)) w = gadd(w, gen_1);
				}
				GEN i = field_elementi(e), i2 = field_elementi(w);
				if (typ(e) != t_FFELT || !gequal(e, w)) fail("element", "m=%ld modulus %Ps: %Ps gives %Ps", m, FF_mod(g), v, e);
				if (typ(i2) != t_INT || !equalii(i2, v)) fail("integer", "m=%ld modulus %Ps: %Ps is printed as %Ps, not %Ps", m, FF_mod(g), w, i2, v);
				if (!gequal(i, v)) fail("roundtrip", "m=%ld: %Ps gives %Ps", m, v, i);
				if (!gequal(field_ielement(g, i2), w)) fail("roundtrip", "m=%ld: element %Ps", m, w);
			}
		}
	}
	printf("SAMPLE prime fields to 600 bits, binary fields to degree 300\n");
	return h_done();
}
