/* common part of the C harnesses: deterministic generator, reporting */
#include <pari/pari.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef H_NOPARI /* harnesses that do not start PARI */
#define pari_printf printf
#define pari_vprintf vprintf
#endif
static uint64_t h_s = 88172645463325252ULL;
static long h_cases = 0, h_fails = 0;
static int h_thorough = 0;
static uint64_t rnd(void) {
	h_s ^= h_s << 13;
	h_s ^= h_s >> 7;
	h_s ^= h_s << 17;
	return h_s * 2685821657736338717ULL;
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static void h_init(int argc, char **argv) {
	long s = argc > 1 ? atol(argv[1]) : 1;
	h_thorough = argc > 2 && atoi(argv[2]);
	h_s ^= (uint64_t)s * 0x9E3779B97F4A7C15ULL;
	for (int i = 0; i < 8; ++i) rnd();
	setvbuf(stdout, NULL, _IOLBF, 0);
}
static void fail(const char *key, const char *fmt, ...) {
	if (++h_fails > 20) return;
	va_list v;
	va_start(v, fmt);
	fflush(stdout);
	pari_printf("FAIL %s: ", key);
	pari_vprintf(fmt, v);
	printf("\n");
	va_end(v);
}
static void at(const char *fmt, ...) {
	va_list v;
	va_start(v, fmt);
	printf("AT ");
	pari_vprintf(fmt, v);
	printf("\n");
	va_end(v);
}
static int h_done(void) {
	printf("CASES %ld\nDONE\n", h_cases);
	return 0;
}
