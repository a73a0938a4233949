/* C20: string and memory helpers against plain loops, under the address sanitizer (exactly sized blocks) */
#include "util/str.h"
#include "util/memory.h"
#include "h.h"
static char *rs(size_t n, const char *al) {
	char *s = malloc(n + 1);
	for (size_t i = 0; i < n; ++i) s[i] = al[below(strlen(al))];
	s[n] = 0;
	return s;
}
static int hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static char *ref_join(const char *sep, char **s, size_t n) {
	size_t t = 1;
	for (size_t i = 0; i < n; ++i) t += (s[i] ? strlen(s[i]) : 0) + (sep ? strlen(sep) : 0);
	char *r = malloc(t), *p = r;
	for (size_t i = 0; i < n; ++i) {
		if (i && sep) for (const char *q = sep; *q; ++q) *p++ = *q;
		if (s[i]) for (const char *q = s[i]; *q; ++q) *p++ = *q;
	}
	*p = 0;
	return r;
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(8000000, 1000);
	set_mem_funcs(malloc, NULL, realloc, free);
	extern void *h_calloc(size_t);
	set_mem_funcs(malloc, h_calloc, realloc, free);
	long N = h_thorough ? 60000 : 12000;
	for (long r = 0; r < N; ++r) {
		/* join */
		size_t n = r < 60 ? r : below(r % 50 ? 14 : 80);
		char *v[90];
		for (size_t i = 0; i < n; ++i) v[i] = below(12) == 0 && r % 2 ? NULL : rs(below(4) ? below(6) : below(40), "abc,");
		char *sep = below(5) == 0 ? NULL : rs(below(4), ",; ");
		at("join of %lu, separator %s", n, sep ? sep : "none");
		char *w = ref_join(sep, v, n), *g = str_join(sep, v, n);
		++h_cases;
		if (strcmp(w, g)) fail("join", "%lu strings, separator '%s': '%s' instead of '%s'", n, sep ? sep : "none", g, w);
		free(g);
		g = str_concat(v, n);
		char *w2 = ref_join(NULL, v, n);
		++h_cases;
		if (strcmp(w2, g)) fail("concat", "%lu strings: '%s' instead of '%s'", n, g, w2);
		free(g);
		free(w2);
		size_t k = 0;
		while (k < n && v[k]) ++k;
		if (k == n && n <= 48) {
			char *a[49];
			for (size_t i = 0; i < 49; ++i) a[i] = i < n ? v[i] : NULL;
#define A8(o) a[o], a[o + 1], a[o + 2], a[o + 3], a[o + 4], a[o + 5], a[o + 6], a[o + 7]
			at("joinv of %lu", n);
			g = str_joinv(sep, A8(0), A8(8), A8(16), A8(24), A8(32), A8(40), NULL);
			++h_cases;
			if (strcmp(w, g)) fail("joinv", "%lu strings, separator '%s': '%s' instead of '%s'", n, sep ? sep : "none", g, w);
			free(g);
		}
		free(w);
		for (size_t i = 0; i < n; ++i) free(v[i]);
		free(sep);
		/* count */
		char *s = rs(below(30), "aab,x");
		char c = "ab,xz"[below(5)];
		size_t cnt = 0;
		for (char *p = s; *p; ++p) cnt += *p == c;
		at("count of %c in '%s'", c, s);
		++h_cases;
		if (str_cnt(s, c) != cnt) fail("count", "'%s' has %lu times %c, counted %lu", s, cnt, c, str_cnt(s, c));
		free(s);
		/* hex */
		size_t hl = below(12);
		s = rs(hl, r % 3 ? "0123456789abcdefABCDEF" : "0x19afgAFGXz -");
		if (r % 4 == 0 && hl >= 2) s[0] = '0', s[1] = "xX"[below(2)];
		if (r % 16 == 1 && hl) s[below(hl)] = (char)(1 + below(255));
		const char *st = strlen(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') ? s + 2 : s;
		int ok = 1;
		for (const char *p = st; *p; ++p) ok &= hexd(*p);
		at("is_hex of '%s'", s);
		++h_cases;
		if (str_is_hex(s) != (ok ? st : NULL)) fail("is_hex", "'%s': %s", s, ok ? "hex, start of the digits not returned" : "accepted");
		free(s);
		/* memory */
		size_t ml = below(70);
		unsigned char *m = malloc(ml ? ml : 1);
		for (size_t i = 0; i < ml; ++i) m[i] = rnd();
		unsigned char *d = try_memdup(m, ml);
		++h_cases;
		for (size_t i = 0; i < ml; ++i)
			if (d[i] != m[i]) fail("memdup", "length %lu, byte %lu", ml, i);
		if (d == m) fail("memdup", "same block");
		d = try_realloc(d, ml + 9);
		for (size_t i = 0; i < ml; ++i)
			if (d[i] != m[i]) fail("realloc", "length %lu, byte %lu", ml, i);
		memset(d, 7, ml + 9);
		try_free(d);
		free(m);
		s = rs(below(40), "ab\x80\xff ");
		char *t = try_strdup(s);
		++h_cases;
		if (strcmp(t, s) || t == s) fail("strdup", "'%s'", s);
		memset(t, 'x', strlen(s) + 1);
		try_free(t);
		free(s);
		size_t cl = 1 + below(100);
		d = try_calloc(cl);
		for (size_t i = 0; i < cl; ++i)
			if (d[i]) fail("calloc", "byte %lu of %lu is not zero", i, cl);
		memset(d, 1, cl);
		try_free(d);
		d = try_malloc(cl);
		memset(d, 1, cl);
		try_free(d);
	}
	printf("SAMPLE joins of up to 80 strings\n");
	return h_done();
}
void *h_calloc(size_t n) { return calloc(1, n); }
