/* C16: the hex filter on real curve objects against a plain search in the parameters' hexadecimal forms */
#include <ctype.h>
#include "exhaustive/arg.h"
#include "gen/field.h"
#include "gen/hex.h"
#include "gen/seed.h"
#include "math/poly.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/bits.h"
#include "util/memory.h"
#include "h.h"
extern config_t *cfg;
static config_t c;
static char *forms[4000];
static int nforms;
static GEN integer(GEN e) {
	if (typ(e) == t_INT) return e;
	if (typ(e) == t_INTMOD) return gel(e, 2);
	GEN p = FF_to_FpXQ(e), r = gen_0;
	for (long i = degpol(p); i >= 0; --i) r = addii(shifti(r, 1), gel(p, i + 2));
	return r;
}
static void add(GEN n) {
	/* digits of the absolute value, at least hex_digits of them, after 0x */
	char b[3000];
	int k = 0;
	static const char *H = "0123456789abcdef";
	GEN m = integer(n);
	while (signe(m)) {
		b[k++] = H[Mod16(m)];
		m = shifti(m, -4);
	}
	while (k < (int)c.hex_digits || k < 1) b[k++] = '0';
	char *s = malloc(k + 3);
	s[0] = '0', s[1] = 'x';
	for (int i = 0; i < k; ++i) s[2 + i] = b[k - 1 - i];
	s[k + 2] = 0;
	forms[nforms++] = s;
}
static GEN rint_(GEN q) {
	GEN r = gen_0;
	for (long i = 0; i <= expi(q) + 8; i += 32) r = addii(shifti(r, 32), utoi(rnd() & 0xffffffffu));
	r = modii(r, q);
	return below(12) ? r : shifti(r, -(long)below(expi(q) + 1));
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(200000000, 1000);
	cfg = &c;
	pari_sp top = avma;
	for (long r = 0; r < (h_thorough ? 20000 : 4000); ++r, avma = top) {
		int bin = r & 1;
		long bits = 2 + below(below(5) ? 40 : 300);
		while (bin && !poly_exists(bits)) bits = 2 + below(below(5) ? 40 : 300);
		memset(&c, 0, sizeof c);
		c.field = bin ? FIELD_BINARY : FIELD_PRIME;
		c.bits = bits;
		c.hex_digits = 2 * (bits / 8 + (bits % 8 != 0 ? 1 : 0));
		curve_t *cv = curve_new();
		nforms = 0;
		GEN q = bin ? int2n(bits) : nextprime(int2n(bits - 1));
		cv->field = bin ? poly_find_gen(bits) : q;
		if (below(2)) {
			cv->seed = seed_new();
			if (below(8)) {
				char h[41];
				int n = below(4) ? 40 : 2 * below(20);
				for (int i = 0; i < n; ++i) h[i] = "0123456789abcdef"[below(16)];
				h[n] = 0;
				cv->seed->seed = bits_from_hex(h);
				forms[nforms++] = strdup(h);
			}
		}
#define EL(v) field_ielement(cv->field, v)
		cv->a = EL(rint_(q));
		cv->b = EL(rint_(q));
		cv->order = rint_(q);
		cv->ngens = 1 + below(3);
		cv->generators = subgroups_new(cv->ngens);
		if (!bin) add(cv->field);
		add(cv->a), add(cv->b), add(cv->order);
		for (size_t i = 0; i < cv->ngens; ++i) {
			subgroup_t *s = cv->generators[i] = subgroup_new();
			for (int k = below(2) ? 0 : 1 + (int)below(8), j = -1; j < k; ++j) {
				point_t *p = point_new();
				p->point = mkvec2(EL(rint_(q)), EL(rint_(q)));
				p->order = gen_1;
				add(gel(p->point, 1)), add(gel(p->point, 2));
				if (j < 0) {
					s->generator = p;
					s->npoints = k > 0 ? k : 0;
					s->points = k > 0 ? points_new(k) : NULL;
				} else
					s->points[j] = p;
			}
		}
		for (int t = 0; t < 6; ++t) {
			char q[700];
			if (below(3)) {
				char *f = forms[below(nforms)];
				size_t l = strlen(f), a = below(l + 1), n = below(l - a + 1);
				int pre = l > 2 && f[1] == 'x' ? 2 : 0;
				if (a < pre) a = pre + below(l - pre), n = below(l - a + 1);
				if (!below(4)) a = pre, n = l - a;
				memcpy(q, f + a, n);
				q[n] = 0;
				if (n && below(3) == 0) q[below(n)] = "0123456789abcdef"[below(16)];
				if (below(8) == 0) strcat(q, "0123456789abcdef" + 15 - below(3));
			} else {
				int n = 1 + below(5);
				for (int i = 0; i < n; ++i) q[i] = "0123456789abcdef"[below(16)];
				q[n] = 0;
			}
			for (char *p = q; *p; ++p)
				if (below(3) == 0) *p = toupper(*p);
			char low[700], *p = low;
			for (char *s = q; (*p++ = tolower(*s)); ++s)
				;
			int want = 0;
			for (int i = 0; i < nforms; ++i) want |= strstr(forms[i], low) != NULL;
			char *arg = strdup(q);
			arg_t a = {.args = arg, .nargs = 1};
			at("%s field of %ld bits, filter '%s', %d parameters", bin ? "binary" : "prime", bits, q, nforms);
			curve_t *before = curve_new_copy(cv);
			int g = hex_check_param(cv, &a, OFFSET_POINTS);
			++h_cases;
			if (want ? g <= 0 : g != OFFSET_FIELD - OFFSET_POINTS) fail("verdict", "%s field of %ld bits, filter '%s', occurs: %d; verdict %d; order %Ps a %Ps b %Ps", bin ? "binary" : "prime", bits, q, want, g, cv->order, cv->a, cv->b);
			if (strcmp(arg, q)) fail("argument-changed", "filter '%s' became '%s'", q, arg);
			int same = gequal(before->a, cv->a) && gequal(before->b, cv->b) && gequal(before->order, cv->order) && gequal(before->field, cv->field) && before->ngens == cv->ngens;
			for (size_t i = 0; same && i < cv->ngens; ++i) {
				same = gequal(before->generators[i]->generator->point, cv->generators[i]->generator->point) && before->generators[i]->npoints == cv->generators[i]->npoints;
				for (size_t j = 0; same && j < cv->generators[i]->npoints; ++j) same = gequal(before->generators[i]->points[j]->point, cv->generators[i]->points[j]->point);
			}
			if (same && before->seed && before->seed->seed) same = bits_eq(before->seed->seed, cv->seed->seed);
			if (!same) fail("curve-changed", "filter '%s'", q);
			curve_free(&before);
			free(arg);
		}
		for (int i = 0; i < nforms; ++i) free(forms[i]);
		curve_free(&cv);
	}
	printf("SAMPLE fields of up to 300 bits, up to 3 generators and 27 points\n");
	return h_done();
}
