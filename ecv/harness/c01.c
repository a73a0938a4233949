/* C01: bit strings against a plain array-of-bits oracle */
#include "util/bits.h"
#include "util/memory.h"
#include "h.h"
#define MAXN 700
typedef struct {
	int n, sign;
	unsigned char b[4 * MAXN];
} O;

static bits_t *mk(O *o, int n, int style) {
	o->n = n;
	o->sign = 0;
	char s[4 * MAXN + 1];
	for (int i = 0; i < n; ++i) {
		o->b[i] = style == 0 ? below(2) : style == 1 ? 1 : style == 2 ? (below(8) == 0) : (i == 0 || i == n - 1);
		s[i] = '0' + o->b[i];
	}
	s[n] = 0;
	return bits_from_bin(s);
}
static int get(const bits_t *b, size_t i) { return (b->bits[i / 8] >> (7 - i % 8)) & 1; }
static void show(const O *o, char *s) {
	int i;
	for (i = 0; i < o->n && i < 200; ++i) s[i] = '0' + o->b[i];
	s[i] = 0;
}
static void cmp(const char *op, const bits_t *r, const O *o, long am, const O *src) {
	char sb[256];
	show(src, sb);
	++h_cases;
	if (!r) {
		fail(op, "returned NULL for bits=%s amount=%ld", sb, am);
		return;
	}
	if ((long)r->bitlen != o->n) {
		fail(op, "length %lu, expected %d, for bits=%s amount=%ld", r->bitlen, o->n, sb, am);
		return;
	}
	if (r->sign != o->sign) {
		fail(op, "sign %d, expected %d, for bits=%s amount=%ld", r->sign, o->sign, sb, am);
		return;
	}
	if (r->allocated < (size_t)(o->n + 7) / 8) {
		fail(op, "storage %lu bytes for %d bits", r->allocated, o->n);
		return;
	}
	for (int i = 0; i < o->n; ++i)
		if (get(r, i) != o->b[i]) {
			fail(op, "bit %d is %d, expected %d, for bits=%s amount=%ld", i, get(r, i), o->b[i], sb, am);
			return;
		}
	for (size_t i = o->n; i < r->allocated * 8; ++i)
		if (get(r, i)) {
			fail(op, "unused bit %lu is set, for bits=%s amount=%ld", i, sb, am);
			return;
		}
}
static void both(const char *op, bits_t *(*f)(const bits_t *, long), void (*fz)(bits_t *, long), bits_t *b, O *src, O *exp, long am) {
	bits_t *r = f(b, am);
	char k[64];
	cmp(op, r, exp, am, src);
	cmp(op, b, src, am, src);
	bits_free(&r);
	sprintf(k, "%sz", op);
	r = bits_copy(b);
	fz(r, am);
	cmp(k, r, exp, am, src);
	bits_free(&r);
}
static bits_t *fnot(const bits_t *b, long a) { return bits_not(b); }
static void fnotz(bits_t *b, long a) { bits_notz(b); }
static bits_t *frot(const bits_t *b, long a) { return bits_rot(b); }
static void frotz(bits_t *b, long a) { bits_rotz(b); }

static void ops(int n, int style, long am) {
	O s, e;
	bits_t *b = mk(&s, n, style);
	if (below(3) == 0) b->sign = s.sign = 1;
	at("n=%d style=%d am=%ld", n, style, am);
	cmp("bits_from_bin", b, &s, 0, &s);
	e = s;
	for (int i = 0; i < n; ++i) e.b[i] = !s.b[i];
	both("bits_not", fnot, fnotz, b, &s, &e, 0);
	for (int i = 0; i < n; ++i) e.b[i] = s.b[n - 1 - i];
	both("bits_rot", frot, frotz, b, &s, &e, 0);
	for (int i = 0; i < n; ++i) e.b[i] = i + am >= 0 && i + am < n ? s.b[i + am] : 0;
	both("bits_shift", bits_shift, bits_shiftz, b, &s, &e, am);
	for (int i = 0; i < n; ++i) e.b[i] = n ? s.b[(((i + am) % n) + n) % n] : 0;
	both("bits_shiftr", bits_shiftr, bits_shiftrz, b, &s, &e, am);
	long aa = am < 0 ? -am : am;
	if (aa < MAXN) {
		e.n = n + aa;
		memset(e.b, 0, sizeof(e.b));
		for (int i = 0; i < n; ++i) e.b[am > 0 ? i + am : i] = s.b[i];
		both("bits_lengthen", bits_lengthen, bits_lengthenz, b, &s, &e, am);
	}
	if (aa <= n) {
		e.n = n - aa;
		for (int i = 0; i < e.n; ++i) e.b[i] = s.b[am > 0 ? i + am : i];
		both("bits_shorten", bits_shorten, bits_shortenz, b, &s, &e, am);
	}
	if (am >= -n && am < MAXN) {
		e.n = n + am;
		memset(e.b, 0, sizeof(e.b));
		for (int i = 0; i < e.n && i < n; ++i) e.b[i] = s.b[i];
		both("bits_shifti", bits_shifti, bits_shiftiz, b, &s, &e, am);
	}
	bits_free(&b);
	if (b) fail("bits_free", "pointer not cleared");
}
static void conv(int n, int style) {
	O s, e;
	bits_t *b = mk(&s, n, style), *r;
	char buf[4 * MAXN + 8], exp[4 * MAXN + 8];
	at("conv n=%d style=%d", n, style);
	for (int sg = 0; sg < 2; ++sg) {
		b->sign = s.sign = sg;
		/* binary */
		char *t = bits_to_bin(b);
		int p = 0;
		if (sg) exp[p++] = '-';
		for (int i = 0; i < n; ++i) exp[p++] = '0' + s.b[i];
		exp[p] = 0;
		++h_cases;
		if (strcmp(t, exp)) fail("bits_to_bin", "got %.80s expected %.80s", t, exp);
		try_free(t);
		/* hex: the bits right aligned in whole bytes */
		t = bits_to_hex(b);
		int nb = (n + 7) / 8, off = nb * 8 - n;
		p = 0;
		if (sg) exp[p++] = '-';
		for (int j = 0; j < nb; ++j) {
			int v = 0;
			for (int q = 0; q < 8; ++q) {
				int i = j * 8 + q - off;
				v = v * 2 + (i >= 0 ? s.b[i] : 0);
			}
			p += sprintf(exp + p, "%02x", v);
		}
		exp[p] = 0;
		++h_cases;
		if (strcmp(t, exp)) fail("bits_to_hex", "n=%d got %.80s expected %.80s", n, t, exp);
		try_free(t);
		/* integer */
		pari_sp av = avma;
		GEN x = bits_to_i(b), y = gen_0;
		for (int i = 0; i < n; ++i) y = addii(shifti(y, 1), stoi(s.b[i]));
		if (sg) y = negi(y);
		++h_cases;
		if (!equalii(x, y)) fail("bits_to_i", "n=%d sign=%d got %s expected %s", n, sg, GENtostr(x), GENtostr(y));
		/* back: minimal length, sign kept */
		int lead = 0;
		while (lead < n && !s.b[lead]) ++lead;
		e = s;
		e.n = n - lead;
		for (int i = 0; i < e.n; ++i) e.b[i] = s.b[i + lead];
		if (!e.n) e.sign = 0;
		r = bits_from_i(y);
		cmp("bits_from_i", r, &e, 0, &s);
		bits_free(&r);
		/* fixed length */
		r = bits_from_i_len(y, n + 13);
		O f = e;
		f.n = n + 13;
		memset(f.b, 0, sizeof(f.b));
		for (int i = 0; i < e.n; ++i) f.b[f.n - e.n + i] = e.b[i];
		cmp("bits_from_i_len", r, &f, 13, &s);
		bits_free(&r);
		/* bit vector */
		GEN v = bits_to_bitvec(b);
		if (glength(v) != n) fail("bits_to_bitvec", "length %ld for %d bits", glength(v), n);
		else
			for (int i = 0; i < n; ++i)
				if (v[i + 1] != s.b[i]) {
					fail("bits_to_bitvec", "entry %d wrong, n=%d", i + 1, n);
					break;
				}
		r = bits_from_bitvec(v);
		e = s;
		e.sign = 0;
		cmp("bits_from_bitvec", r, &e, 0, &s);
		bits_free(&r);
		avma = av;
	}
	b->sign = s.sign = 0;
	/* raw */
	unsigned char *raw = bits_to_raw(b);
	size_t rl = bits_to_rawlen(b);
	if (rl != (size_t)(n + 7) / 8) fail("bits_to_rawlen", "%lu for %d bits", rl, n);
	if (n && (!raw || memcmp(raw, b->bits, rl))) fail("bits_to_raw", "bytes differ for %d bits", n);
	if (n) {
		unsigned char *w = malloc(rl);
		memcpy(w, raw, rl);
		if (n % 8) w[rl - 1] |= 0xff >> (n % 8);
		r = bits_from_raw(w, n);
		cmp("bits_from_raw", r, &s, 0, &s);
		bits_free(&r);
		free(w);
	}
	if (raw) try_free(raw);
	/* hex in */
	int nn = n / 4;
	e = s;
	e.n = nn * 4;
	for (int i = 0; i < nn; ++i) {
		int v = s.b[4 * i] * 8 + s.b[4 * i + 1] * 4 + s.b[4 * i + 2] * 2 + s.b[4 * i + 3];
		buf[i] = (below(2) ? "0123456789abcdef" : "0123456789ABCDEF")[v];
	}
	buf[nn] = 0;
	r = bits_from_hex(buf);
	cmp("bits_from_hex", r, &e, 0, &s);
	bits_free(&r);
	bits_free(&b);
}
static void binop(int n, int m, int st) {
	O a, b, e;
	bits_t *x = mk(&a, n, st), *y = mk(&b, m, 0), *r;
	at("binop %d %d", n, m);
	int L = n > m ? n : m;
	for (int op = 0; op < 2; ++op) {
		e.n = L;
		e.sign = 0;
		for (int i = 0; i < L; ++i) {
			int p = i - (L - n) >= 0 ? a.b[i - (L - n)] : 0, q = i - (L - m) >= 0 ? b.b[i - (L - m)] : 0;
			e.b[i] = op ? p & q : p | q;
		}
		r = op ? bits_and(x, y) : bits_or(x, y);
		cmp(op ? "bits_and" : "bits_or", r, &e, m, &a);
		bits_free(&r);
	}
	/* concatenation */
	O c;
	bits_t *z = mk(&c, below(40), 0);
	e.n = 0;
	for (int i = 0; i < n; ++i) e.b[e.n++] = a.b[i];
	for (int i = 0; i < m; ++i) e.b[e.n++] = b.b[i];
	for (int i = 0; i < c.n; ++i) e.b[e.n++] = c.b[i];
	r = bits_concat(x, y, z, NULL);
	cmp("bits_concat", r, &e, m, &a);
	bits_free(&r);
	r = bits_copy(x);
	bits_concatz(r, y, z, NULL);
	cmp("bits_concatz", r, &e, m, &a);
	bits_free(&r);
	cmp("bits_concat", y, &b, m, &b);
	/* equality */
	++h_cases;
	bool eq = n == m;
	for (int i = 0; eq && i < n; ++i) eq = a.b[i] == b.b[i];
	if (bits_eq(x, y) != eq) fail("bits_eq", "wrong for lengths %d %d", n, m);
	r = bits_copy(x);
	cmp("bits_copy", r, &a, 0, &a);
	if (!bits_eq(r, x)) fail("bits_eq", "copy differs, length %d", n);
	if (n) {
		int i = below(n);
		r->bits[i / 8] ^= 1 << (7 - i % 8);
		if (bits_eq(r, x)) fail("bits_eq", "bit %d of %d ignored", i, n);
	}
	bits_free(&r);
	r = bits_copy(x);
	r->sign = true;
	if (bits_eq(r, x)) fail("bits_eq", "sign ignored");
	bits_free(&r);
	/* bits_cpy: an empty source leaves the destination alone */
	r = bits_copy(y);
	bits_cpy(r, x);
	if (n) cmp("bits_cpy", r, &a, m, &b);
	bits_free(&r);
	bits_free(&x);
	bits_free(&y);
	bits_free(&z);
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(64000000, 10000);
	bits_t *em = bits_new(0), *f = bits_new(17);
	if (em->bitlen != 0 || f->bitlen != 17) fail("bits_new", "length");
	/* every bit position of a random string is reached */
	for (int n = 1; n <= 40; ++n) {
		unsigned long long seen = 0;
		for (int t = 0; t < 64; ++t) {
			bits_t *r = bits_new_rand(n);
			++h_cases;
			if ((int)r->bitlen != n) fail("bits_new_rand", "length %lu for %d", r->bitlen, n);
			for (int i = 0; i < n; ++i) seen |= (unsigned long long)get(r, i) << i;
			for (size_t i = n; i < 8 * r->allocated; ++i)
				if (get(r, i)) fail("bits_new_rand", "unused bit set n=%d", n);
			bits_free(&r);
		}
		if (seen != (1ULL << n) - 1) fail("bits_new_rand", "some bit of %d never set in 64 draws", n);
	}
	int top = h_thorough ? 200 : 70;
	for (int n = 0; n <= top; ++n) {
		for (int st = 0; st < 4; ++st) {
			conv(n, st);
			long ams[] = {0, 1, -1, 7, -7, 8, -8, 9, -9, n, -n, n + 1, -n - 1, n - 1, 1 - n, (long)below(3 * n + 2) - n, 64, -65, 300, -300, 2 * n, -2 * n};
			for (unsigned j = 0; j < sizeof(ams) / sizeof(*ams); ++j) ops(n, st, ams[j]);
			for (int j = 0; j < 4; ++j) binop(n, below(top), st);
			binop(n, n, st);
		}
	}
	for (int j = 0; j < (h_thorough ? 2000 : 150); ++j) {
		int n = below(MAXN - 20);
		conv(n, 0);
		ops(n, 0, (long)below(2 * n + 2) - n);
		ops(n, 0, (long)below(100000) - 50000);
		binop(n, below(MAXN - 20), 0);
	}
	printf("SAMPLE bits_shiftr/lengthen/shorten of every length 0..%d with 22 amounts each, 4 bit patterns\n", top);
	return h_done();
}
