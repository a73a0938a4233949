/* C04: what the option combinations install, stage by stage, observed at the entry of the generation engine */
/* WEAKEN: exhaustive_generate */
#include <unistd.h>
#include "cm/anomalous.h"
#include "cm/cm.h"
#include "cm/cm_any.h"
#include "cm/cm_prime.h"
#include "cm/supersingular.h"
#include "exhaustive/ansi.h"
#include "exhaustive/brainpool.h"
#include "exhaustive/brainpool_rfc.h"
#include "exhaustive/check.h"
#include "exhaustive/exhaustive.h"
#include "exhaustive/family.h"
#include "exhaustive/nums.h"
#include "gen/curve.h"
#include "gen/equation.h"
#include "gen/field.h"
#include "gen/gens.h"
#include "gen/hex.h"
#include "gen/metadata.h"
#include "gen/order.h"
#include "gen/point.h"
#include "gen/seed.h"
#include "misc/config.h"
#include "h.h"
static char what[1000];
static int called, is_cm;
static const char *st[] = {"seed", "field", "a", "b", "curve", "order", "generators", "points", "metadata"};
static config_t c;
static void gen_is(exhaustive_t *s, offset_e o, gen_f g) {
	if (s->generators[o] != g) fail("stage", "%s: another procedure for stage %s", what, st[o]);
}
static void val_is(exhaustive_t *s, offset_e o, int n, check_f a, check_f b) {
	check_t *v = s->validators ? s->validators[o] : NULL;
	int have = v ? (int)v->nchecks : 0;
	if (have != n || (n > 0 && v->checks[0] != a) || (n > 1 && v->checks[1] != b)) fail("validators", "%s: other validators for stage %s (%d)", what, st[o], have);
}
static void unr_is(exhaustive_t *s, offset_e o, unroll_f u) {
	unroll_f v = s->unrolls ? s->unrolls[o] : NULL;
	if (v == unroll_skip) v = NULL;
	if (u != v) fail("unroll", "%s: another way of undoing stage %s", what, st[o]);
}
static const void *arg(exhaustive_t *s, offset_e o) {
	arg_t *a = s->gen_argss ? s->gen_argss[o] : NULL;
	return a ? a->args : NULL;
}
static void num_arg(exhaustive_t *s, offset_e o, unsigned long v) {
	const void *a = arg(s, o);
	if (!a || *(const unsigned long *)a != v) fail("argument", "%s: stage %s is not handed %lu", what, st[o], v);
}
int exhaustive_generate(exhaustive_t *s) {
	called = 1;
	/* seed, field, a, b */
	gen_f g[OFFSET_END] = {gen_skip, field_gen_input, a_gen_input, b_gen_input, curve_gen_any, order_gen_any, gens_gen_any, points_gen_prime, gen_skip};
	if (c.random & RANDOM_FIELD) g[OFFSET_FIELD] = field_gen_random;
	if (c.random & RANDOM_A) g[OFFSET_A] = a_gen_random;
	if (c.random & RANDOM_B) g[OFFSET_B] = b_gen_random;
	if (c.koblitz && !is_cm && c.method != METHOD_SEED && c.method != METHOD_FAMILY) {
		g[OFFSET_A] = c.koblitz_value ? a_gen_one : a_gen_zero;
		g[OFFSET_B] = b_gen_one;
		g[OFFSET_ORDER] = order_gen_koblitz;
	}
	int constraints = !is_cm && c.method != METHOD_FAMILY && !(c.method == METHOD_SEED && c.seed_algo != SEED_ANSI);
	if (constraints) {
		if (c.prime) g[OFFSET_ORDER] = order_gen_prime;
		if (c.cofactor) g[OFFSET_ORDER] = order_gen_cofactor, g[OFFSET_GENERATORS] = gens_gen_cofactor;
		if (c.smooth) g[OFFSET_ORDER] = order_gen_smooth;
		if (c.cofactor) num_arg(s, OFFSET_ORDER, c.cofactor_value), num_arg(s, OFFSET_GENERATORS, c.cofactor_value);
		if (c.smooth) num_arg(s, OFFSET_ORDER, c.smooth_value);
		if (!c.cofactor && !c.smooth && arg(s, OFFSET_ORDER)) fail("argument", "%s: order stage has an argument", what);
	}
	if ((constraints || is_cm) && c.unique) g[OFFSET_GENERATORS] = gens_gen_one;
	unroll_f seed_u = NULL;
	int bp = 0, nums = 0;
	if (c.method == METHOD_SEED) {
		seed_u = seed_unroll;
		g[OFFSET_A] = gen_skip;
		switch (c.seed_algo) {
			case SEED_ANSI:
				g[OFFSET_SEED] = c.seed ? ansi_gen_seed_argument : c.random & RANDOM_SEED ? ansi_gen_seed_random : ansi_gen_seed_input;
				g[OFFSET_B] = ansi_gen_equation;
				break;
			case SEED_BRAINPOOL:
				g[OFFSET_SEED] = c.seed ? brainpool_gen_seed_argument : c.random & RANDOM_SEED ? brainpool_gen_seed_random : brainpool_gen_seed_input;
				g[OFFSET_B] = brainpool_gen_equation;
				bp = 1;
				break;
			case SEED_BRAINPOOL_RFC:
				g[OFFSET_SEED] = c.seed ? brainpool_rfc_gen_seed_argument : c.random & RANDOM_SEED ? brainpool_rfc_gen_seed_random : brainpool_rfc_gen_seed_input;
				g[OFFSET_B] = brainpool_rfc_gen_equation;
				bp = 1;
				break;
			default:
				nums = 1;
				g[OFFSET_FIELD] = nums_gen_field, g[OFFSET_A] = nums_gen_a, g[OFFSET_B] = nums_gen_b;
				g[OFFSET_ORDER] = nums_gen_order, g[OFFSET_GENERATORS] = nums_gen_gens;
		}
		if (bp) g[OFFSET_FIELD] = brainpool_gen_field, g[OFFSET_ORDER] = order_gen_prime, g[OFFSET_GENERATORS] = brainpool_gen_gens;
	} else if (c.method == METHOD_FAMILY) {
		seed_u = seed_unroll;
		g[OFFSET_SEED] = c.random ? family_gen_seed_random : family_gen_seed_input;
		g[OFFSET_FIELD] = family_gen_field;
		g[OFFSET_A] = gen_skip;
		g[OFFSET_B] = c.family == FAMILY_KSS16 || c.family == FAMILY_KSS40 ? family_gen_equation_cm : family_gen_equation_iter;
		g[OFFSET_ORDER] = family_gen_order;
	} else if (c.method == METHOD_TWIST) {
		g[OFFSET_CURVE] = curve_gen_any_twist;
	} else if (c.method == METHOD_CM) {
		g[OFFSET_FIELD] = g[OFFSET_A] = g[OFFSET_B] = gen_skip;
		g[OFFSET_CURVE] = isprime(strtoi(c.cm_order)) ? cm_gen_curve_prime : cm_gen_curve_any;
		g[OFFSET_ORDER] = cm_gen_order;
		for (int i = 0; i < 2; ++i) {
			const char *o = arg(s, i ? OFFSET_ORDER : OFFSET_CURVE);
			if (!o || !equalii(strtoi(o), strtoi(c.cm_order))) fail("argument", "%s: requested order not handed to stage %s", what, i ? "order" : "curve");
		}
	} else if (c.method == METHOD_ANOMALOUS) {
		g[OFFSET_FIELD] = anomalous_gen_field, g[OFFSET_A] = gen_skip, g[OFFSET_B] = anomalous_gen_equation, g[OFFSET_ORDER] = anomalous_gen_order;
		const size_t *f = arg(s, OFFSET_FIELD), *e = arg(s, OFFSET_B);
		if (!f || !e || *f != *e) fail("argument", "%s: field and coefficient stages use different discriminants", what);
	} else if (c.method == METHOD_SUPERSINGULAR) {
		g[OFFSET_A] = gen_skip, g[OFFSET_B] = supersingular_gen_equation, g[OFFSET_ORDER] = supersingular_gen_order;
	}
	switch (c.points.type) {
		case POINTS_RANDOM:
			g[OFFSET_POINTS] = c.points.amount ? points_gen_random : point_gen_random;
			num_arg(s, OFFSET_POINTS, c.points.amount);
			break;
		case POINTS_NONPRIME:
			g[OFFSET_POINTS] = points_gen_nonprime;
			break;
		case POINTS_ALL:
			g[OFFSET_POINTS] = points_gen_allgroups;
			break;
		case POINTS_NONE:
			g[OFFSET_POINTS] = gen_skip;
			break;
		default:
			break;
	}
	if (c.metadata) g[OFFSET_METADATA] = metadata_gen;
	for (int o = 0; o < OFFSET_END; ++o) gen_is(s, o, g[o]);
	for (int o = 0; o < OFFSET_END; ++o) {
		if (o == OFFSET_CURVE) val_is(s, o, 1, curve_check_nonzero, NULL);
		else if (o == OFFSET_POINTS && c.hex_check) {
			val_is(s, o, 1, hex_check_param, NULL);
			arg_t *a = s->check_argss ? s->check_argss[o] : NULL;
			if (!a || !a->args || strcmp(a->args, c.hex_check)) fail("argument", "%s: hex filter is not handed the string", what);
		} else if (o == OFFSET_ORDER && bp) val_is(s, o, 1, brainpool_check_order, NULL);
		else if (o == OFFSET_GENERATORS && (bp || nums)) val_is(s, o, 2, gens_check_anomalous, brainpool_check_gens);
		else val_is(s, o, 0, NULL, NULL);
	}
	unr_is(s, OFFSET_SEED, seed_u);
	unr_is(s, OFFSET_CURVE, curve_unroll);
	unr_is(s, OFFSET_GENERATORS, gens_unroll);
	unr_is(s, OFFSET_POINTS, points_unroll);
	unr_is(s, OFFSET_FIELD, NULL);
	unr_is(s, OFFSET_A, NULL);
	unr_is(s, OFFSET_B, NULL);
	unr_is(s, OFFSET_ORDER, NULL);
	return 0;
}
static char *slurp(FILE *f) {
	static char b[20000];
	fflush(f);
	rewind(f);
	size_t n = fread(b, 1, sizeof b - 1, f);
	b[n] = 0;
	return b;
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(100000000, 1000);
	extern FILE *err, *verbose, *debug, *out;
	err = stdout;
	cfg = &c;
	pari_sp top = avma;
	int saved = dup(2);
	for (long r = 0; r < (h_thorough ? 60000 : 12000); ++r, avma = top) {
		memset(&c, 0, sizeof c);
		memset(cfg_used, 0, sizeof *cfg_used);
		memset(cfg_set, 0, sizeof *cfg_set);
		int k = below(9);
		static const method_e ms[] = {METHOD_DEFAULT, METHOD_DEFAULT, METHOD_TWIST, METHOD_SEED, METHOD_SEED, METHOD_FAMILY, METHOD_CM, METHOD_ANOMALOUS, METHOD_SUPERSINGULAR};
		c.method = ms[k];
		is_cm = k >= 6;
		c.count = 1;
		c.bits = 20;
		c.field = k < 4 && below(2) ? FIELD_BINARY : FIELD_PRIME;
		cfg_set->field = cfg_set->count = 1;
		cfg_set->method = c.method != METHOD_DEFAULT;
		if (below(3)) c.random = below(16), cfg_set->random = 1;
		if (below(4) == 0) c.random = RANDOM_ALL, cfg_set->random = 1;
		switch (below(5)) {
			case 0:
				c.prime = cfg_set->prime = 1;
				break;
			case 1:
				c.cofactor = cfg_set->cofactor = 1, c.cofactor_value = 1 + below(40);
				break;
			case 2:
				c.smooth = cfg_set->smooth = 1, c.smooth_value = 1 + below(40);
				break;
		}
		if (below(3) == 0) {
			c.koblitz = cfg_set->koblitz = 1;
			if (below(2)) c.koblitz_value = below(2), cfg_set->koblitz_value = 1;
		}
		if (below(2)) c.unique = cfg_set->unique = 1;
		if (below(2)) c.metadata = cfg_set->metadata = 1;
		if (below(3) == 0) c.hex_check = "aB3", cfg_set->hex_check = 1;
		c.points.type = below(5);
		c.points.amount = below(2) ? below(20) : 0;
		cfg_set->points = c.points.type || below(2);
		if (c.method == METHOD_SEED) {
			static const seed_e as[] = {SEED_ANSI, SEED_ANSI, SEED_BRAINPOOL, SEED_BRAINPOOL_RFC, SEED_NUMS};
			c.seed_algo = as[below(5)];
			cfg_set->seed_algo = 1;
			if (c.seed_algo != SEED_ANSI) c.field = FIELD_PRIME;
			if (c.seed_algo == SEED_NUMS) c.random = cfg_set->random = 0;
			else if (below(2)) c.seed = "0123456789abcdef0123456789abcdef01234567", cfg_set->seed = 1;
		}
		if (c.method == METHOD_FAMILY) c.family = below(7), cfg_set->family = 1;
		if (c.method == METHOD_CM) {
			static char *os[] = {"1009", "1000", "0x3f1", "524287", "720", "997"};
			c.cm_order = os[below(6)];
			cfg_set->cm_order = 1;
		}
		sprintf(what, "method %d field %d random %d prime %d cofactor %d %ld smooth %d %ld koblitz %d %ld unique %d metadata %d hex %s points %d*%lu seed_algo %d seed %s family %d order %s",
		        c.method, c.field, c.random, c.prime, c.cofactor, c.cofactor_value, c.smooth, c.smooth_value, c.koblitz, c.koblitz_value, c.unique, c.metadata,
		        c.hex_check ? c.hex_check : "-", c.points.type, c.points.amount, c.seed_algo, c.seed ? c.seed : "-", c.family, c.cm_order ? c.cm_order : "-");
		at("%s", what);
		FILE *t = tmpfile();
		fflush(stderr);
		dup2(fileno(t), 2);
		called = 0;
		++h_cases;
		if (is_cm) cm_do();
		else exhaustive_do();
		fflush(stderr);
		dup2(saved, 2);
		char *w = slurp(t);
		fclose(t);
		if (!called) fail("engine", "%s: no generation", what);
		int seeded = c.method == METHOD_SEED, notansi = seeded && c.seed_algo != SEED_ANSI, fam = c.method == METHOD_FAMILY;
#define WARN(name, set, ignored)                                                                                            \
	do {                                                                                                                    \
		int has = strstr(w, "argument " name) != NULL, exp = (set) && (ignored);                                             \
		if (has != exp) fail("unused-" name, exp ? "%s: not consulted and not reported" : "%s: reported as unused", what); \
	} while (0)
		WARN("cofactor", c.cofactor, is_cm || notansi || fam);
		WARN("smooth", c.smooth, is_cm || notansi || fam);
		WARN("koblitz (", c.koblitz, is_cm || seeded || fam);
		if (!notansi) WARN("prime", c.prime, is_cm || fam);
		if (!notansi) WARN("unique", c.unique, fam);
		WARN("hex_check", c.hex_check != NULL, 0);
		WARN("points", cfg_set->points, 0);
		WARN("metadata", c.metadata, 0);
		WARN("random", cfg_set->random, c.method == METHOD_CM || (seeded && c.seed && c.seed_algo != SEED_ANSI));
	}
	printf("SAMPLE %s\n", what);
	return h_done();
}
