/* C02: the bundled SHA-1 against the definition, every length up to a bound, random splits */
#include "sha1/sha1.h"
#include "util/bits.h"
#include "h.h"
#include "h_sha.h"
int main(int argc, char **argv) {
	h_init(argc, argv);
	pari_init(50000000, 1000);
	for (int n = 0; n < (h_thorough ? 1200 : 400); ++n)
		for (int rep = 0; rep < 4; ++rep) {
			unsigned char *m = malloc(n + 1), *keep = malloc(n + 1), out[24], exp[20];
			for (int i = 0; i < n; ++i) m[i] = keep[i] = rep == 0 ? 0 : rep == 1 ? 255 : rnd();
			memset(out, 0xA5, sizeof out);
			ref_sha1(m, n, exp);
			SHA_CTX *ctx = malloc(sizeof(SHA_CTX));
			memset(ctx, 0xCC, sizeof *ctx);
			at("length %d", n);
			SHA1_Init(ctx);
			int k = 0;
			while (k < n) {
				int part = rep == 3 ? 1 + below(70) : rep == 2 ? below(3) : n;
				if (part > n - k) part = n - k;
				unsigned char *piece = malloc(part);
				memcpy(piece, m + k, part);
				SHA1_Update(ctx, piece, part);
				free(piece);
				k += part;
			}
			SHA1_Final(out + 2, ctx);
			++h_cases;
			if (memcmp(out + 2, exp, 20)) fail("digest", "wrong digest for a message of %d bytes (split style %d)", n, rep);
			if (out[0] != 0xA5 || out[1] != 0xA5 || out[22] != 0xA5 || out[23] != 0xA5) fail("digest-bounds", "bytes around the digest written, length %d", n);
			if (memcmp(m, keep, n)) fail("message-modified", "length %d", n);
			/* the context can be used again */
			SHA1_Init(ctx);
			SHA1_Update(ctx, m, n);
			SHA1_Final(out + 2, ctx);
			if (memcmp(out + 2, exp, 20)) fail("digest-again", "wrong digest on reuse, %d bytes", n);
			bits_t *b = bits_from_raw(m, n * 8);
			unsigned char h2[20];
			bits_sha1(b, h2);
			if (memcmp(h2, exp, 20)) fail("bits-digest", "bits_sha1 of %d bytes", n);
			if (n) {
				int nb = n * 8 - below(8);
				bits_t *c = bits_from_raw(m, nb);
				memcpy(keep, m, n);
				keep[n - 1] &= 0xff << (n * 8 - nb);
				ref_sha1(keep, n, exp);
				bits_sha1(c, h2);
				if (memcmp(h2, exp, 20)) fail("bits-digest", "bits_sha1 of %d bits", nb);
				bits_free(&c);
			}
			bits_free(&b);
			free(m);
			free(keep);
			free(ctx);
		}
	/* long messages: the length counter */
	for (int rep = 0; rep < 3; ++rep) {
		size_t n = rep == 0 ? 1 << 20 : rep == 1 ? 70000 + below(70000) : (1 << 22) + 55;
		unsigned char *m = malloc(n), out[20], exp[20];
		for (size_t i = 0; i < n; ++i) m[i] = rnd();
		ref_sha1(m, n, exp);
		SHA_CTX ctx;
		SHA1_Init(&ctx);
		SHA1_Update(&ctx, m, n);
		SHA1_Final(out, &ctx);
		++h_cases;
		if (memcmp(out, exp, 20)) fail("digest", "wrong digest for a message of %lu bytes", n);
		free(m);
	}
	if (h_thorough) {
		/* more than 2^32 bits: the high word of the length */
		size_t n = 1 << 24;
		unsigned char *m = calloc(n, 1), out[20], exp[20];
		SHA_CTX ctx;
		SHA1_Init(&ctx);
		for (int i = 0; i < 33; ++i) SHA1_Update(&ctx, m, n);
		SHA1_Final(out, &ctx);
		unsigned char *big = calloc(n, 33);
		ref_sha1(big, n * 33, exp);
		++h_cases;
		if (memcmp(out, exp, 20)) fail("digest", "wrong digest for a message of %lu zero bytes", n * 33);
	}
	printf("SAMPLE messages of 0..400 bytes in pieces\n");
	return h_done();
}
