/* C15: documents written for random curve objects; one line with the document, one with the values it must hold
 * (decimal).  Compared by docs.py. */
#include "exhaustive/arg.h"
#include "gen/field.h"
#include "gen/seed.h"
#include "io/output.h"
#include "math/poly.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/bits.h"
#include "util/memory.h"
#include "h.h"
static config_t c;
static GEN integer(GEN e) {
	if (typ(e) == t_INT) return e;
	if (typ(e) == t_INTMOD) return gel(e, 2);
	GEN p = FF_to_FpXQ(e), r = gen_0;
	for (long i = degpol(p); i >= 0; --i) r = addii(shifti(r, 1), gel(p, i + 2));
	return r;
}
static GEN rint_(GEN q) {
	GEN r = gen_0;
	for (long i = 0; i <= expi(q) + 8; i += 32) r = addii(shifti(r, 32), utoi(rnd() & 0xffffffffu));
	r = modii(r, q);
	return below(12) ? r : shifti(r, -(long)below(expi(q) + 1));
}
static void pt(point_t *p) {
	pari_printf("{\"x\":%Ps,\"y\":%Ps,\"order\":%Ps", integer(gel(p->point, 1)), integer(gel(p->point, 2)), p->order);
	if (p->cofactor) pari_printf(",\"cofactor\":%Ps", p->cofactor);
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(200000000, 1000);
	cfg = &c;
	output_init();
	pari_sp top = avma;
	for (long r = 0; r < (h_thorough ? 6000 : 1200); ++r, avma = top) {
		int bin = r & 1;
		long bits = 2 + below(below(5) ? 40 : 300);
		while (bin && !poly_exists(bits)) bits = 2 + below(below(5) ? 40 : 300);
		memset(&c, 0, sizeof c);
		c.field = bin ? FIELD_BINARY : FIELD_PRIME;
		c.bits = bits;
		c.hex_digits = 2 * (bits / 8 + (bits % 8 != 0 ? 1 : 0));
		c.metadata = below(2);
		curve_t *cv = curve_new();
		GEN q = bin ? int2n(bits) : nextprime(int2n(bits - 1));
		cv->field = bin ? poly_find_gen(bits) : q;
		char h[43];
		int seed = below(2);
		if (seed) {
			cv->seed = seed_new();
			seed = below(6) != 0;
			if (seed) {
				int n = below(4) ? 40 : 2 * below(20);
				for (int i = 0; i < n; ++i) h[i] = "0123456789abcdef"[below(16)];
				h[n] = 0;
				cv->seed->seed = bits_from_hex(h);
			}
		}
#define EL(v) field_ielement(cv->field, v)
		cv->a = EL(rint_(q));
		cv->b = EL(rint_(q));
		cv->order = rint_(q);
		cv->ngens = below(4);
		if (cv->ngens) cv->generators = subgroups_new(cv->ngens);
		for (size_t i = 0; i < cv->ngens; ++i) {
			subgroup_t *s = cv->generators[i] = subgroup_new();
			int k = below(2) ? 0 : 1 + (int)below(8);
			s->npoints = k;
			s->points = k ? points_new(k) : NULL;
			for (int j = -1; j < k; ++j) {
				point_t *p = point_new();
				p->point = mkvec2(EL(rint_(q)), EL(rint_(q)));
				p->order = rint_(q);
				if (below(2)) p->cofactor = rint_(q);
				if (j < 0) s->generator = p;
				else s->points[j] = p;
			}
		}
		GEN *mt[] = {&cv->meta.j_invariant, &cv->meta.discriminant, &cv->meta.embedding_degree, &cv->meta.frobenius_trace, &cv->meta.cm_discriminant, &cv->meta.conductor};
		static const char *mn[] = {"j", "discriminant", "embedding_degree", "frobenius", "cm_discriminant", "conductor"};
		int nm = 0;
		for (int i = 0; i < 6; ++i)
			if (below(5)) *mt[i] = below(3) ? rint_(q) : negi(rint_(q)), nm = 1;
		at("%s field of %ld bits, %ld subgroups", bin ? "binary" : "prime", bits, (long)cv->ngens);
		char *s = output_s(cv);
		for (char *p = s; *p; ++p)
			if (*p == '\n') *p = ' ';
		printf("DOC %s\n", s);
		printf("EXP {\"hex_digits\":%lu,\"field\":{", c.hex_digits);
		if (bin) {
			GEN P = FF_mod(cv->field);
			int k = 0, e[4] = {0};
			for (long i = degpol(P) - 1; i > 0; --i)
				if (signe(gel(P, i + 2))) e[k++] = i;
			printf("\"m\":%ld,\"e1\":%d,\"e2\":%d,\"e3\":%d}", degpol(P), e[0], e[1], e[2]);
		} else pari_printf("\"p\":%Ps}", cv->field);
		if (seed) printf(",\"seed\":\"0x%s\"", h);
		pari_printf(",\"a\":%Ps,\"b\":%Ps,\"order\":%Ps", integer(cv->a), integer(cv->b), cv->order);
		if (cv->ngens) {
			printf(",\"subgroups\":[");
			for (size_t i = 0; i < cv->ngens; ++i) {
				if (i) printf(",");
				pt(cv->generators[i]->generator);
				for (size_t j = 0; j < cv->generators[i]->npoints; ++j) {
					printf(j ? "," : ",\"points\":[");
					pt(cv->generators[i]->points[j]);
					printf("}");
				}
				printf(cv->generators[i]->npoints ? "]}" : "}");
			}
			printf("]");
		}
		if (c.metadata && nm) {
			printf(",\"meta\":{");
			int k = 0;
			for (int i = 0; i < 6; ++i)
				if (*mt[i]) pari_printf("%s\"%s\":%Ps", k++ ? "," : "", mn[i], *mt[i]);
			printf("}");
		}
		printf("}\n");
		try_free(s);
		++h_cases;
		curve_free(&cv);
	}
	return h_done();
}
