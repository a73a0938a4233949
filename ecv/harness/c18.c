/* C18: copies, clones and releases of random curve objects; every block of the program's allocator is tracked */
#include "gen/seed.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/bits.h"
#include "util/memory.h"
#include "h.h"
extern config_t *cfg;
static long live = 0;
static void *hm(size_t n) {
	++live;
	return malloc(n ? n : 1);
}
static void *hc(size_t n) {
	++live;
	return calloc(1, n ? n : 1);
}
static void *hr(void *p, size_t n) {
	if (!p) ++live;
	return realloc(p, n ? n : 1);
}
static void hf(void *p) {
	if (p) --live;
	free(p);
}
static GEN ri(void) {
	GEN r = gen_0;
	for (long i = below(5); i >= 0; --i) r = addii(shifti(r, 32), utoi(rnd() & 0xffffffffu));
	return below(4) ? r : negi(r);
}
static GEN rpt(void) { return below(9) == 0 ? mkvec(gen_0) : mkvec2(ri(), ri()); }
static int same(GEN a, GEN b) { return !a || !b ? a == b : typ(a) == typ(b) && gequal(a, b); }
/* a copy must not share storage: unless it is one of PARI's constants (gcopy of those is a new object too) */
static int shared(GEN a, GEN b) { return a && a == b; }
static point_t *rpoint(void) {
	point_t *p = point_new();
	if (below(10)) p->point = rpt();
	if (below(10)) p->order = ri();
	if (below(3)) p->cofactor = ri();
	return p;
}
static void cmpp(const char *w, const point_t *a, const point_t *b, int clone) {
	if (!a || !b) {
		if (a != b) fail("point-missing", "%s", w);
		return;
	}
	if (a == b) fail("point-shared", "%s", w);
	GEN x[] = {a->point, a->order, a->cofactor}, y[] = {b->point, b->order, b->cofactor};
	for (int i = 0; i < 3; ++i) {
		if (!same(x[i], y[i])) fail("point-value", "%s: field %d", w, i);
		if (shared(x[i], y[i])) fail("point-shared", "%s: field %d", w, i);
		if (y[i] && clone && !isclone(y[i])) fail("point-not-cloned", "%s: field %d", w, i);
	}
}
static subgroup_t *rsub(void) {
	subgroup_t *s = subgroup_new();
	if (below(8)) s->generator = rpoint();
	if (below(4)) {
		s->npoints = below(3) ? below(6) : below(40);
		s->points = points_new(s->npoints);
		for (size_t i = 0; i < s->npoints; ++i) s->points[i] = rpoint();
	}
	return s;
}
static void cmps(const char *w, const subgroup_t *a, const subgroup_t *b, int clone) {
	if (a == b) fail("subgroup-shared", "%s", w);
	cmpp(w, a->generator, b->generator, clone);
	if (!a->points != !b->points || a->npoints != b->npoints) fail("subgroup-points", "%s: %lu points instead of %lu", w, b->npoints, a->npoints);
	else
		for (size_t i = 0; i < a->npoints; ++i) {
			if (a->points == b->points) fail("points-shared", "%s", w);
			cmpp(w, a->points[i], b->points[i], clone);
		}
}
static curve_t *rcurve(void) {
	curve_t *c = curve_new();
	if (below(3)) {
		c->seed = seed_new();
		if (below(6)) {
			size_t n = below(20);
			unsigned char raw[20];
			for (size_t i = 0; i < n; ++i) raw[i] = rnd();
			size_t bl = n * 8 - (n ? below(8) : 0);
			c->seed->seed = bits_from_raw(raw, bl);
			c->seed->seed->sign = below(2);
		}
		if (below(2)) {
			c->seed->hash20 = try_malloc(20);
			for (int i = 0; i < 20; ++i) c->seed->hash20[i] = rnd();
		}
	}
	GEN *f[] = {&c->field, &c->a, &c->b, &c->order, &c->meta.j_invariant, &c->meta.discriminant, &c->meta.cm_discriminant, &c->meta.frobenius_trace, &c->meta.embedding_degree, &c->meta.conductor};
	for (int i = 0; i < 10; ++i)
		if (below(6)) *f[i] = i < 1 || i > 2 ? ri() : gmodulo(ri(), addii(absi(ri()), gen_2));
	if (below(5)) {
		for (;;) {
			GEN e = ellinit(mkvec2(gmodulss(1 + below(100), 1009), gmodulss(1 + below(100), 1009)), stoi(1009), -1);
			if (glength(e)) {
				c->curve = e;
				break;
			}
		}
	}
	if (below(4)) {
		c->ngens = below(5) ? below(4) : below(20);
		c->generators = subgroups_new(c->ngens);
		for (size_t i = 0; i < c->ngens; ++i) c->generators[i] = rsub();
	}
	return c;
}
static void cmpc(const char *w, const curve_t *a, const curve_t *b, int clone) {
	if (a == b) fail("curve-shared", "%s", w);
	if (!a->seed != !b->seed) fail("seed-missing", "%s", w);
	else if (a->seed) {
		if (a->seed == b->seed) fail("seed-shared", "%s", w);
		bits_t *x = a->seed->seed, *y = b->seed->seed;
		if (!x != !y) fail("seed-bits", "%s", w);
		else if (x) {
			if (x == y || (x->bits && x->bits == y->bits)) fail("seed-shared", "%s", w);
			if (!bits_eq(x, y) || x->bitlen != y->bitlen || x->sign != y->sign) fail("seed-bits", "%s", w);
		}
		unsigned char *p = a->seed->hash20, *q = b->seed->hash20;
		if (!p != !q || (p && (p == q || memcmp(p, q, 20)))) fail("seed-hash", "%s", w);
	}
	GEN x[] = {a->field, a->a, a->b, a->curve, a->order, a->meta.j_invariant, a->meta.discriminant, a->meta.cm_discriminant, a->meta.frobenius_trace, a->meta.embedding_degree, a->meta.conductor};
	GEN y[] = {b->field, b->a, b->b, b->curve, b->order, b->meta.j_invariant, b->meta.discriminant, b->meta.cm_discriminant, b->meta.frobenius_trace, b->meta.embedding_degree, b->meta.conductor};
	for (int i = 0; i < 11; ++i) {
		if (!same(x[i], y[i])) fail("curve-value", "%s: value %d (field, a, b, curve, order, metadata) differs", w, i);
		if (shared(x[i], y[i])) fail("curve-shared", "%s: value %d", w, i);
		if (y[i] && clone && !isclone(y[i])) fail("curve-not-cloned", "%s: value %d", w, i);
	}
	if (!a->generators != !b->generators || a->ngens != b->ngens) fail("curve-generators", "%s: %lu generators instead of %lu", w, b->ngens, a->ngens);
	else
		for (size_t i = 0; i < a->ngens; ++i) {
			if (a->generators == b->generators) fail("generators-shared", "%s", w);
			cmps(w, a->generators[i], b->generators[i], clone);
		}
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(200000000, 1000);
	static config_t cc;
	cfg = &cc;
	set_mem_funcs(hm, hc, hr, hf);
	pari_sp top = avma;
	for (long r = 0; r < (h_thorough ? 20000 : 4000); ++r, avma = top) {
		long l0 = live;
		at("curve round %ld", r);
		curve_t *c = rcurve();
		long own = live - l0;
		curve_t *ref = NULL;
		int op = r % 4;
		if (op < 2) {
			curve_t *d = op ? curve_new_clone(c) : curve_new_copy(c);
			++h_cases;
			cmpc(op ? "clone" : "copy", c, d, op);
			if (live - l0 != 2 * own) fail("copy-storage", "%s has %ld blocks, the original %ld", op ? "clone" : "copy", live - l0 - own, own);
			/* independent: releasing one leaves the other readable and equal to a further copy */
			if (below(2)) {
				ref = curve_new_copy(c);
				curve_free(&c);
				if (c) fail("free-handle", "curve handle not null");
				cmpc("after release of the original", ref, d, op);
				curve_free(&d);
				curve_free(&ref);
			} else {
				curve_free(&d);
				if (d) fail("free-handle", "curve handle not null");
				curve_free(&c);
			}
		} else {
			curve_free(&c);
			if (c) fail("free-handle", "curve handle not null");
			curve_free(&c); /* of a null handle: nothing */
		}
		++h_cases;
		if (live != l0) fail("release", "%ld blocks of a curve are left (or released twice)", live - l0), live = l0;
		/* subgroups and points */
		at("subgroup round %ld", r);
		subgroup_t *s = rsub();
		subgroup_t *t = op & 1 ? subgroup_new_clone(s) : subgroup_new_copy(s);
		++h_cases;
		cmps("subgroup", s, t, op & 1);
		subgroup_free_deep(&s);
		subgroup_free_deep(&t);
		if (s || t) fail("free-handle", "subgroup handle not null");
		size_t n = below(9);
		subgroup_t **ss = subgroups_new(n);
		for (size_t i = 0; i < n; ++i) ss[i] = rsub();
		subgroup_t **tt = op & 1 ? subgroups_new_clone(ss, n) : subgroups_new_copy(ss, n);
		++h_cases;
		for (size_t i = 0; i < n; ++i) cmps("subgroups", ss[i], tt[i], op & 1);
		subgroups_free_deep(&ss, n);
		subgroups_free_deep(&tt, n);
		if (ss || tt) fail("free-handle", "subgroups handle not null");
		n = below(30);
		point_t **pp = points_new(n);
		for (size_t i = 0; i < n; ++i) pp[i] = rpoint();
		point_t **qq = op & 1 ? points_new_clone(pp, n) : points_new_copy(pp, n);
		++h_cases;
		for (size_t i = 0; i < n; ++i) cmpp("points", pp[i], qq[i], op & 1);
		points_free_deep(&pp, n);
		points_free_deep(&qq, n);
		if (pp || qq) fail("free-handle", "points handle not null");
		if (live != l0) fail("release", "%ld blocks of subgroups and points are left (or released twice)", live - l0), live = l0;
		/* shallow releases */
		s = rsub();
		long before = live;
		point_t **keep = s->points;
		long inner = (s->generator ? 1 : 0) + 1;
		size_t np = s->npoints;
		subgroup_free(&s);
		++h_cases;
		if (s || before - live != inner) fail("shallow-release", "subgroup_free released %ld blocks, owns %ld", before - live, inner);
		points_free_deep(&keep, np);
	}
	printf("SAMPLE random curves with up to 19 subgroups of up to 39 points\n");
	return h_done();
}
