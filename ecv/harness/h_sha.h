/* independent SHA-1 (FIPS 180-4, straight from the definition), the oracle */
static uint32_t r_rot(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static void ref_sha1(const unsigned char *m, size_t n, unsigned char out[20]) {
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	size_t tot = ((n + 8) / 64 + 1) * 64;
	unsigned char *p = calloc(tot, 1);
	if (n) memcpy(p, m, n);
	p[n] = 0x80;
	for (int i = 0; i < 8; ++i) p[tot - 1 - i] = (unsigned char)(((uint64_t)n * 8) >> (8 * i));
	for (size_t k = 0; k < tot; k += 64) {
		uint32_t w[80];
		for (int t = 0; t < 16; ++t) w[t] = (uint32_t)p[k + 4 * t] << 24 | p[k + 4 * t + 1] << 16 | p[k + 4 * t + 2] << 8 | p[k + 4 * t + 3];
		for (int t = 16; t < 80; ++t) w[t] = r_rot(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; ++t) {
			uint32_t f, kk;
			if (t < 20) f = (b & c) | (~b & d), kk = 0x5A827999;
			else if (t < 40) f = b ^ c ^ d, kk = 0x6ED9EBA1;
			else if (t < 60) f = (b & c) | (b & d) | (c & d), kk = 0x8F1BBCDC;
			else f = b ^ c ^ d, kk = 0xCA62C1D6;
			uint32_t x = r_rot(a, 5) + f + e + kk + w[t];
			e = d;
			d = c;
			c = r_rot(b, 30);
			b = a;
			a = x;
		}
		h[0] += a;
		h[1] += b;
		h[2] += c;
		h[3] += d;
		h[4] += e;
	}
	free(p);
	for (int i = 0; i < 20; ++i) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
/* seed arithmetic on byte strings of g bits, left aligned: s + i mod 2^g */
static void ref_add(const unsigned char *s, size_t g, unsigned long i, unsigned char *out) {
	size_t n = (g + 7) / 8;
	int sh = (8 - g % 8) % 8;
	memcpy(out, s, n);
	uint64_t c = (uint64_t)i << sh;
	for (size_t k = n; k-- > 0 && c;) {
		c += out[k];
		out[k] = c & 255;
		c >>= 8;
	}
}
static GEN ref_int(const unsigned char *s, size_t nbytes) {
	GEN r = gen_0;
	for (size_t i = 0; i < nbytes; ++i) r = addiu(shifti(r, 8), s[i]);
	return r;
}
static void hexof(const unsigned char *s, size_t digits, char *out) {
	for (size_t i = 0; i < digits; ++i) out[i] = "0123456789abcdef"[(s[i / 2] >> (i % 2 ? 0 : 4)) & 15];
	out[digits] = 0;
}
