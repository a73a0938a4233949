/* C03: the generation engine run with scripted stages, validators and undo functions; the calls it makes are compared with
 * those prescribed */
#include "exhaustive/exhaustive.h"
#include "exhaustive/arg.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "h.h"
#define MAXEV 4000
typedef struct {
	char kind;
	int state, idx;
} ev_t;
static ev_t got[MAXEV], want[MAXEV];
static int ngot, nwant;
static int gres[MAXEV], vres[MAXEV]; /* n-th result of a stage, of a validator */
static int ng, nv;
static curve_t *the_curve;
static arg_t gargs[OFFSET_END], cargs[OFFSET_END];
static int use_args;
static void ev(char k, int s, int i) {
	if (ngot < MAXEV) got[ngot] = (ev_t){k, s, i};
	++ngot;
}
static int gen(curve_t *c, arg_t *a, offset_e s) {
	ev('G', s, 0);
	if (c != the_curve) fail("handed-curve", "stage %d", s);
	if (a != (use_args ? &gargs[s] : NULL)) fail("handed-argument", "stage %d", s);
	return ng < MAXEV ? gres[ng++] : INT_MIN;
}
static int val(int i, curve_t *c, arg_t *a, offset_e s) {
	ev('V', s, i);
	if (c != the_curve) fail("handed-curve", "validator of stage %d", s);
	if (a != (use_args ? &cargs[s] : NULL)) fail("handed-argument", "validator of stage %d", s);
	return nv < MAXEV ? vres[nv++] : INT_MIN;
}
static int v0(curve_t *c, arg_t *a, offset_e s) { return val(0, c, a, s); }
static int v1(curve_t *c, arg_t *a, offset_e s) { return val(1, c, a, s); }
static int v2(curve_t *c, arg_t *a, offset_e s) { return val(2, c, a, s); }
#define U(n) \
	static int u##n(curve_t *c, pari_sp f, pari_sp t) { \
		ev('U', n, 0); \
		if (c != the_curve) fail("handed-curve", "undo of stage " #n); \
		return -1; \
	}
U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7) U(8)
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(20000000, 1000);
	static config_t c;
	cfg = &c;
	extern FILE *err, *verbose;
	FILE *nul = fopen("/dev/null", "w");
	err = verbose = nul;
	for (long r = 0; r < (h_thorough ? 400000 : 60000); ++r) {
		pari_sp top = avma;
		gen_f gens[OFFSET_END];
		unroll_f us[OFFSET_END] = {u0, u1, u2, u3, u4, u5, u6, u7, u8};
		check_f cf[3] = {v0, v1, v2};
		check_t ch[OFFSET_END];
		check_t *chp[OFFSET_END];
		arg_t *ga[OFFSET_END], *ca[OFFSET_END];
		int nch[OFFSET_END], hasu[OFFSET_END];
		int novals = below(12) == 0, nounr = below(12) == 0;
		use_args = below(4) != 0;
		for (int i = 0; i < OFFSET_END; ++i) {
			gens[i] = gen;
			nch[i] = novals || below(3) == 0 ? 0 : (int)below(4);
			ch[i].checks = cf, ch[i].nchecks = nch[i];
			chp[i] = nch[i] || below(2) ? &ch[i] : NULL;
			hasu[i] = !nounr && below(6) != 0;
			if (!hasu[i]) us[i] = NULL;
			ga[i] = &gargs[i], ca[i] = &cargs[i];
		}
		exhaustive_t setup = {.generators = gens, .gen_argss = use_args ? ga : NULL, .validators = novals ? NULL : chp, .check_argss = use_args ? ca : NULL, .unrolls = nounr ? NULL : us};
		int back = 2 + below(12), fatal = below(3) ? 0 : 1;
		for (int i = 0; i < MAXEV; ++i) {
			gres[i] = vres[i] = 1;
			if (below(back) == 0) gres[i] = -(int)below(below(3) ? 4 : 10);
			if (below(back) == 0) vres[i] = -(int)below(below(3) ? 4 : 10);
			if (fatal && below(40) == 0) gres[i] = below(3) ? INT_MIN : INT_MIN + (int)below(20);
			if (fatal && below(40) == 0) vres[i] = below(3) ? INT_MIN : INT_MIN + (int)below(20);
			if (below(20) == 0 && vres[i] > 0) vres[i] = 1 + below(5);
		}
		int start = below(3) ? 0 : below(OFFSET_END), end = below(3) ? OFFSET_END : below(OFFSET_END + 1);
		int retry = below(2) ? 0 : 1 + below(5);
		/* what is prescribed */
		nwant = 0;
		int G = 0, V = 0, res = -1, tries[OFFSET_END] = {0};
		if (start == end) res = 2;
		else if (start > end) res = 0;
		int s = start;
		int cut = 0;
		while (res < 0) {
			if (s >= end) {
				res = 1;
				break;
			}
			if (nwant > MAXEV - 40 || G >= MAXEV - 1 || V >= MAXEV - 5) {
				cut = 1;
				break;
			}
			want[nwant++] = (ev_t){'G', s, 0};
			long d = gres[G++];
			if (d > 0)
				for (int i = 0; i < nch[s]; ++i) {
					want[nwant++] = (ev_t){'V', s, i};
					int x = vres[V++];
					if (x <= 0) {
						d = x;
						break;
					}
				}
			if (d > 0) {
				tries[s] = 0;
				s += d;
				continue;
			}
			if (s + d < 0) { /* includes INT_MIN */
				res = 0;
				break;
			}
			if (retry && ++tries[s] >= retry) {
				res = 0;
				break;
			}
			int t = s + d < start ? start : s + d;
			for (int i = s; i > t; --i)
				if (hasu[i]) want[nwant++] = (ev_t){'U', i, 0};
			s = t;
		}
		if (cut) continue;
		ngot = ng = nv = 0;
		curve_t cv = {0};
		the_curve = &cv;
		at("start %d end %d retry %d, round %ld", start, end, retry, r);
		int g = retry || below(2) ? exhaustive_gen_retry(&cv, &setup, start, end, retry) : exhaustive_gen(&cv, &setup, start, end);
		++h_cases;
		int bad = -1;
		for (int i = 0; i < nwant || i < ngot; ++i)
			if (i >= nwant || i >= ngot || got[i].kind != want[i].kind || got[i].state != want[i].state || got[i].idx != want[i].idx) {
				bad = i;
				break;
			}
		if (bad >= 0) {
			char b[400], *p = b;
			for (int i = bad > 8 ? bad - 8 : 0; i <= bad && i < nwant; ++i) p += sprintf(p, "%c%d.%d ", want[i].kind, want[i].state, want[i].idx);
			p += sprintf(p, "; instead of the last: %c%d.%d", bad < ngot ? got[bad].kind : '-', bad < ngot ? got[bad].state : 0, bad < ngot ? got[bad].idx : 0);
			fail("calls", "start %d end %d retry %d: call %d (G stage, V validator, U undo): prescribed %s", start, end, retry, bad, b);
		} else if (g != res) fail("verdict", "start %d end %d retry %d: %d instead of %d after %d calls", start, end, retry, g, res, nwant);
		avma = top;
	}
	printf("SAMPLE scripted results with up to 3 validators per stage\n");
	return h_done();
}
