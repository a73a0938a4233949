/* C11: complete evaluation of the polynomial lookup over its finite domain.  Irreducibility by Rabin's criterion:
   x^(2^m) = x mod f and gcd(x^(2^(m/r)) - x, f) = 1 for every prime r | m. */
#include "math/poly.h"
#include "gen/field.h"
#include "misc/config.h"
#include "h.h"
#include <sys/wait.h>
#include <unistd.h>
#define W 320
typedef uint64_t u64;
static int deg(const u64 *a, int n) {
	for (int i = n - 1; i >= 0; --i)
		if (a[i]) return i * 64 + 63 - __builtin_clzll(a[i]);
	return -1;
}
static u64 spread(uint32_t x) {
	u64 v = x;
	v = (v | v << 16) & 0x0000FFFF0000FFFFULL;
	v = (v | v << 8) & 0x00FF00FF00FF00FFULL;
	v = (v | v << 4) & 0x0F0F0F0F0F0F0F0FULL;
	v = (v | v << 2) & 0x3333333333333333ULL;
	v = (v | v << 1) & 0x5555555555555555ULL;
	return v;
}
static void xorshift(u64 *d, u64 w, long pos) { /* d ^= w * x^pos, pos may be split over words */
	long k = pos >> 6, s = pos & 63;
	d[k] ^= w << s;
	if (s) d[k + 1] ^= w >> (64 - s);
}
/* square mod x^m + sum x^e; exponents e < m, including 0 */
static void sqr(u64 *a, int m, const int *e, int ne, u64 *t) {
	int n = m / 64 + 1;
	memset(t, 0, sizeof(u64) * (2 * n + 2));
	for (int i = 0; i < n; ++i) t[2 * i] = spread((uint32_t)a[i]), t[2 * i + 1] = spread(a[i] >> 32);
	for (int pass = 0; pass < 2000; ++pass) {
		int done = 1;
		for (int i = 2 * n - 1; i >= m / 64; --i) {
			u64 w = t[i];
			int off = 0;
			if (i == m / 64) w = (m % 64 == 0) ? w : (w >> (m % 64)) << (m % 64);
			if (!w) continue;
			done = 0;
			t[i] ^= w;
			for (int j = 0; j < ne; ++j) {
				long pos = (long)i * 64 - m + e[j];
				if (pos >= 0) xorshift(t, w, pos);
				else xorshift(t, w >> -pos, 0);
			}
		}
		if (done) break;
	}
	memcpy(a, t, sizeof(u64) * n);
}
static int gcd1(const u64 *a0, const u64 *f0, int n) {
	static u64 x[W + 2], y[W + 2];
	u64 *a = x, *b = y;
	memset(x, 0, sizeof x);
	memset(y, 0, sizeof y);
	memcpy(a, f0, n * 8);
	memcpy(b, a0, n * 8);
	int da = deg(a, n), db = deg(b, n);
	while (db >= 0) {
		while (da >= db) {
			int s = da - db, k = s >> 6, r = s & 63;
			for (int i = db / 64; i >= 0; --i) {
				a[i + k] ^= b[i] << r;
				if (r) a[i + k + 1] ^= b[i] >> (64 - r);
			}
			da = deg(a, da / 64 + 1);
		}
		u64 *t = a;
		a = b;
		b = t;
		int d = da;
		da = db;
		db = d;
	}
	return da == 0;
}
static int irreducible(int m, const int *e, int ne) {
	static u64 a[W + 2], t[2 * W + 8], f[W + 2], g[W + 2];
	int n = m / 64 + 1, nd = 0, ds[20];
	memset(f, 0, sizeof f);
	f[m / 64] ^= 1ULL << (m % 64);
	for (int j = 0; j < ne; ++j) f[e[j] / 64] ^= 1ULL << (e[j] % 64);
	int k = m;
	for (int r = 2; r <= k; ++r)
		if (k % r == 0) {
			ds[nd++] = m / r;
			while (k % r == 0) k /= r;
		}
	memset(a, 0, sizeof a);
	a[0] = 2; /* x; m >= 2 */
	for (int i = 1; i <= m; ++i) {
		sqr(a, m, e, ne, t);
		for (int j = 0; j < nd; ++j)
			if (ds[j] == i && i != m) {
				memcpy(g, a, n * 8);
				g[0] ^= 2;
				if (!gcd1(g, f, n)) return 0;
			}
	}
	a[0] ^= 2;
	return deg(a, n) < 0;
}
static void one(unsigned long m) {
	++h_cases;
	const polynomial_t *p = poly_find(m);
	int ex = poly_exists(m);
	if (!p != !ex) fail("lookup", "degree %lu: poly_exists says %d, poly_find %s", m, ex, p ? "finds an entry" : "finds none");
	if (ex != (m >= 2 && m <= 10000)) fail("claimed-degrees", "degree %lu: poly_exists %d", m, ex);
	if (!p) return;
	if (p->m != m) {
		fail("degree", "degree %lu: the entry found is for %u", m, p->m);
		return;
	}
	int e[4] = {0}, ne = 1;
	unsigned es[3] = {p->e1, p->e2, p->e3};
	for (int i = 0; i < 3; ++i) {
		int dup = 0;
		for (int j = 0; j < ne; ++j) dup |= e[j] == (int)es[i];
		if (es[i] >= m) {
			fail("exponent", "degree %lu: exponent %u", m, es[i]);
			return;
		}
		if (!dup) e[ne++] = es[i];
		else if (es[i] != 0) {
			fail("exponent", "degree %lu: exponent %u twice", m, es[i]);
			return;
		}
	}
	if (ne != 2 && ne != 4) fail("weight", "degree %lu: %d terms", m, ne + 1);
	if (!irreducible(m, e, ne)) fail("irreducible", "degree %lu: {%u, %u, %u, %u} is reducible", m, p->m, p->e1, p->e2, p->e3);
}
static void gen(unsigned long m) {
	pari_sp av = avma;
	const polynomial_t *p = poly_find(m);
	if (!p) return;
	GEN g = poly_find_gen(m), mod = FF_mod(g);
	GEN f = zeropol(0);
	unsigned es[5] = {p->m, p->e1, p->e2, p->e3, 0};
	int seen[20000] = {0};
	++h_cases;
	int ok = typ(g) == t_FFELT && degpol(mod) == (long)m && equaliu(FF_p_i(g), 2);
	long w = 0, want = 0;
	if (ok) {
		for (int i = 0; i < 5; ++i)
			if (es[i] <= m && !seen[es[i]]) {
				seen[es[i]] = 1;
				++want;
				if (!signe(lift(polcoef(mod, es[i], -1)))) ok = 0;
			}
		for (long i = 0; i <= (long)m; ++i) w += signe(lift(polcoef(mod, i, -1))) != 0;
	}
	if (!ok || w != want) fail("field-element", "degree %lu: the field built is not that of its entry", m);
	GEN pars = field_params(g);
	unsigned long s = 0, c = 0;
	for (int i = 1; i <= glength(pars); ++i) s += itou(gel(pars, i));
	if (ok && (itou(gel(pars, 1)) != m || s != (unsigned long)m + p->e1 + p->e2 + p->e3)) fail("field-params", "degree %lu: reported exponents %Ps", m, pars);
	avma = av;
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	unsigned long top = 20000;
	pari_init(200000000, 1000);
	int fd[8][2];
	for (int k = 0; k < 8; ++k) {
		if (pipe(fd[k])) return 1;
		if (!fork()) {
			dup2(fd[k][1], 1);
			for (unsigned long m = k; m <= top; m += 8) one(m);
			if (k == 0) {
				unsigned long big[] = {1UL << 16, 1UL << 31, (1UL << 32) + 163, (1UL << 32) + 2001, 1UL << 63, ~0UL, (1UL << 32) - 1};
				for (int i = 0; i < 7; ++i) one(big[i]);
			}
			for (unsigned long m = k; m <= 10000; m += 8)
				if (m < 600 || m % 47 == 3 || h_thorough) gen(m);
			printf("CASES %ld\n", h_cases);
			printf("PART\n");
			fflush(stdout);
			_exit(0);
		}
		close(fd[k][1]);
	}
	int parts = 0;
	for (int k = 0; k < 8; ++k) {
		FILE *f = fdopen(fd[k][0], "r");
		char l[1000];
		while (fgets(l, sizeof l, f)) {
			if (!strcmp(l, "PART\n")) ++parts;
			else fputs(l, stdout);
		}
	}
	while (wait(NULL) > 0);
	h_cases = 0;
	printf("SAMPLE every degree 0..%lu: degree, weight, constant term, Rabin's criterion\n", top);
	return parts == 8 ? h_done() : 1;
}
