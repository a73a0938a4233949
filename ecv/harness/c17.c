/* C17: the program's own main() on random command lines; the configuration it starts a generation with is compared with
 * the one the options mean, rejected command lines must end before a generation starts
 * WEAKEN: init exhaustive_do invalid_do cm_do
 */
#include <fcntl.h>
#include <signal.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "misc/config.h"
#define H_NOPARI
#include "h.h"
int ecgen_main(int, char **);
enum { DO_EXH = 1, DO_INV, DO_CM };
#define NS 8
typedef struct {
	int reached, which;
	config_t c;
	int has[NS];
	char s[NS][300];
} rep_t;
static rep_t *rep;
bool init(void) { return true; }
static void strings(rep_t *r, config_t *c) {
	char *p[NS] = {c->cm_order, c->invalid_primes, c->seed, c->hex_check, c->datadir, c->output, c->input, c->verbose_log};
	for (int i = 0; i < NS; ++i) {
		r->has[i] = p[i] != NULL;
		if (p[i]) snprintf(r->s[i], sizeof r->s[i], "%s", p[i]);
	}
}
static int reached(int w) {
	++rep->reached;
	rep->which = w;
	rep->c = *cfg;
	strings(rep, cfg);
	_exit(0);
}
int exhaustive_do(void) { return reached(DO_EXH); }
int invalid_do(void) { return reached(DO_INV); }
int cm_do(void) { return reached(DO_CM); }

static char *av[64], store[64][400];
static int ac;
static void arg(const char *fmt, ...) {
	va_list v;
	va_start(v, fmt);
	vsnprintf(store[ac], sizeof store[ac], fmt, v);
	va_end(v);
	av[ac] = store[ac];
	++ac;
	av[ac] = NULL;
}
static char *hex(char *b, int n) {
	for (int i = 0; i < n; ++i) b[i] = "0123456789abcdefABCDEF"[below(22)];
	b[n] = 0;
	return b;
}
static int bad, seeds_given;
static void why(const char *s) { bad = 1; }
/* a number with an optional suffix; its value */
static unsigned long suffixed(char *b, const char *suf, const unsigned long *mul, int n) {
	unsigned long v = below(3) ? below(5000) : below(4000000);
	int r = below(30);
	if (r == 0) {
		strcpy(b, "k" + below(2));
		why("no number");
		return 0;
	}
	int k = below(n + 2);
	if (k >= n) {
		sprintf(b, "%lu", v);
		return v;
	}
	sprintf(b, "%lu%c", v, below(2) ? suf[k] : suf[k] - 32);
	return v * mul[k];
}
int main(int argc, char **argv) {
	h_init(argc, argv);
	rep = mmap(NULL, sizeof *rep, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int nul = open("/dev/null", O_RDWR);
	for (long r = 0; r < (h_thorough ? 60000 : 6000); ++r) {
		config_t w;
		memset(&w, 0, sizeof w);
		char b[400], h[300];
		ac = bad = 0;
		arg("ecgen");
		int mism = 0; /* fields not compared */
		int f = below(24);
		if (f == 0) why("no field");
		else if (f == 1) arg("--fp"), arg("--f2m"), why("two fields");
		else if (f < 16) arg("--fp"), w.field = FIELD_PRIME;
		else arg("--f2m"), w.field = FIELD_BINARY;
		int first = 0, order[12], no = 0;
		for (int i = 0; i < 12; ++i)
			if (below(5) == 0 || (i < 2 && below(3) == 0)) order[no++] = below(18);
		int nm = below(2) ? 0 : below(12) ? 1 : 2;
		for (int i = 0; i < nm; ++i) order[no++] = 100 + below(10);
		for (int i = no - 1; i > 0; --i) {
			int j = below(i + 1), t = order[i];
			order[i] = order[j], order[j] = t;
		}
		seed_e algo = SEED_NONE;
		int bitsat = below(no + 1), argn = 0;
		for (int i = 0; i <= no; ++i) {
			if (i == bitsat) {
				int k = below(30);
				if (k == 0) why("no size");
				else if (k == 1) arg("%lux", below(300)), why("size");
				else if (k == 2) arg("x"), why("size");
				else if (k == 3) arg("%lu", 1 + below(300)), arg("%lu", 1 + below(300)), why("two sizes");
				else {
					w.bits = 1 + below(below(4) ? 600 : 20);
					arg("%lu", w.bits);
				}
				w.hex_digits = 2 * ((w.bits + 7) / 8);
			}
			if (i == no) break;
			int v;
			static const unsigned long mm[] = {1000, 1000000, 1000000000}, tm[] = {1, 60, 3600, 86400};
			switch (order[i]) {
				case 0:
					if (below(2)) arg("-r"), w.random = RANDOM_ALL;
					else {
						static const char *nm_[] = {"seed", "field", "a", "b", "equation"};
						static const random_e va[] = {RANDOM_SEED, RANDOM_FIELD, RANDOM_A, RANDOM_B, RANDOM_A | RANDOM_B};
						char *p = b + sprintf(b, below(2) ? "-r" : "--random=");
						for (int k = 1 + below(3), q = 0; q < k; ++q) {
							if (q) *p++ = ',';
							if (below(25) == 0) {
								p += sprintf(p, "order");
								why("random what");
							} else {
								int z = below(5);
								p += sprintf(p, "%s", nm_[z]);
								w.random |= va[z];
							}
						}
						arg("%s", b);
					}
					break;
				case 1: arg(below(2) ? "-p" : "--prime"), w.prime = true; break;
				case 2:
					v = 1 + below(100);
					if (below(2)) arg("-k"), arg("%d", v);
					else arg("--cofactor=%d", v);
					w.cofactor = true, w.cofactor_value = v;
					break;
				case 3:
					v = 1 + below(100);
					if (below(2)) arg("-B%d", v);
					else arg("--smooth=%d", v);
					w.smooth = true, w.smooth_value = v;
					break;
				case 4:
					w.koblitz = true;
					if (below(2)) arg(below(2) ? "-K" : "--koblitz");
					else {
						v = below(6) ? below(2) : below(5) - 1;
						arg("-K%d", v);
						w.koblitz_value = v;
						if (v != 0 && v != 1) why("koblitz value");
					}
					break;
				case 5: arg(below(2) ? "-u" : "--unique"), w.unique = true; break;
				case 6: {
					hex(h, 1 + below(9));
					int pre = below(3) == 0;
					if (below(15) == 0) h[below(strlen(h))] = "gGzx -"[below(6)], why("hex");
					arg("--hex-check=%s%s", pre ? "0x" : "", h);
					w.hex_check = strdup(h);
					if (!pre && strlen(h) > 2 && h[0] == '0' && (h[1] == 'x')) mism = 1;
					break;
				}
				case 7: {
					static const char *ty[] = {"prime", "nonprime", "random", "all", "none", "some", ""};
					static const enum points_e te[] = {POINTS_PRIME, POINTS_NONPRIME, POINTS_RANDOM, POINTS_ALL, POINTS_NONE};
					v = below(20) ? below(5) : 5 + below(2);
					w.points.amount = below(2) ? 0 : below(200);
					if (w.points.amount) arg("--points=%lu%s", w.points.amount, ty[v]);
					else arg("--points=%s", ty[v]);
					if (v > 4) why("points");
					else w.points.type = te[v];
					break;
				}
				case 8:
					v = 1 + below(1000);
					if (below(2)) arg("-c%d", v);
					else arg("--count=%d", v);
					w.count = v;
					break;
				case 9: arg("--metadata"), w.metadata = true; break;
				case 10:
					w.memory = suffixed(b, "kmg", mm, 3);
					if (below(2)) arg("-m"), arg("%s", b);
					else arg("--memory=%s", b);
					break;
				case 11:
					w.thread_memory = suffixed(b, "kmg", mm, 3);
					arg("--thread-stack=%s", b);
					break;
				case 12:
					w.timeout = suffixed(b, "smhd", tm, 4);
					arg("--timeout=%s", b);
					break;
				case 13:
					v = below(20) ? 1 + below(64) : 0;
					arg("--threads=%d", v);
					w.threads = v;
					if (!v) why("threads");
					break;
				case 14: hex(h, 8), arg("--data-dir=%s", h), w.datadir = strdup(h); break;
				case 15: hex(h, 8), arg(below(2) ? "-o%s" : "--output=%s", h), w.output = strdup(h); break;
				case 16: hex(h, 8), arg(below(2) ? "-f%s" : "--input=%s", h), w.input = strdup(h); break;
				case 17:
					if (below(2)) arg("-a"), w.append = true;
					else {
						w.verbose++;
						if (below(2)) arg("-v");
						else hex(h, 8), arg("-v%s", h), w.verbose_log = strdup(h);
					}
					break;
				case 100: {
					int n = 1 + below(12);
					if (below(3)) {
						hex(h, n);
						sprintf(b, "0x%s,0x%s", h, h);
						if (below(2)) b[strlen(h) + 2] = 0;
					} else sprintf(b, "%lu", rnd() >> below(40));
					if (below(10) == 0) strcpy(b, "none"), why("order");
					if (below(2)) arg("-n"), arg("%s", b);
					else arg("--order=%s", b);
					w.method |= METHOD_CM, w.cm_order = strdup(b);
					break;
				}
				case 101: arg("--anomalous"), w.method |= METHOD_ANOMALOUS; break;
				case 102: arg("--supersingular"), w.method |= METHOD_SUPERSINGULAR; break;
				case 103: {
					static const char *fn[] = {"BN", "BLS12", "BLS24", "KSS16", "KSS18", "KSS36", "KSS40"};
					v = below(9);
					w.method |= METHOD_FAMILY;
					if (v >= 7) arg("--family=%s", v == 7 ? "BLS" : "MNT4"), why("family");
					else {
						strcpy(b, fn[v]);
						if (below(2))
							for (char *p = b; *p; ++p) *p |= 32 * (*p > 64);
						if (below(2)) arg("-F"), arg("%s", b);
						else arg("--family=%s", b);
						w.family = v;
					}
					break;
				}
				case 104:
				case 105:
				case 106: {
					int n = below(3) ? 40 : below(3) ? 40 + below(60) : below(41);
					static const seed_e al[] = {SEED_ANSI, SEED_BRAINPOOL, SEED_BRAINPOOL_RFC};
					static const char *on[] = {"--ansi", "--brainpool", "--brainpool-rfc"};
					v = order[i] - 104;
					if (algo != SEED_NONE && algo != al[v]) why("two seed procedures");
					algo = al[v];
					w.method |= METHOD_SEED, w.seed_algo = algo;
					if (below(3) == 0) arg("%s", on[v]);
					else {
						hex(h, n);
						int wrong = n && below(12) == 0;
						if (wrong) h[below(n)] = "gx "[below(3)];
						if (wrong && n > 2 && h[0] == '0' && h[1] == 'x') h[1] = 'g';
						arg("%s=%s%s", on[v], below(2) ? "0x" : "", h);
						w.seed = strdup(strchr(av[ac - 1], '=') + 1);
						if (wrong || (v == 0 ? n < 40 : n != 40)) why("seed");
					}
					break;
				}
				case 107:
					if (algo != SEED_NONE && algo != SEED_NUMS) why("two seed procedures");
					algo = SEED_NUMS;
					arg("--nums"), w.method |= METHOD_SEED, w.seed_algo = SEED_NUMS;
					break;
				case 108:
					w.method |= METHOD_INVALID;
					v = below(4);
					if (v == 0) arg("--invalid");
					else {
						sprintf(b, v == 1 ? "%lu" : "%lu-%lu", 2 + below(50), 60 + below(100));
						if (below(12) == 0) b[below(strlen(b))] = "a, x"[below(4)], why("range");
						arg("-i%s", b);
						w.invalid_primes = strdup(b);
					}
					break;
				case 109: arg("--twist"), w.method |= METHOD_TWIST; break;
			}
		}
		/* consistency */
		if (w.prime + w.smooth + w.cofactor > 1) why("prime, cofactor, smooth");
		if (w.method & (w.method - 1)) why("two methods");
		if (w.field == FIELD_BINARY) {
			if (w.method & (METHOD_CM | METHOD_ANOMALOUS | METHOD_SUPERSINGULAR | METHOD_FAMILY)) why("prime field method");
			if (w.method & METHOD_SEED && algo != SEED_ANSI) why("prime field procedure");
		}
		if (w.method == METHOD_SEED && algo == SEED_NUMS && w.random) why("nums is deterministic");
		if (w.method == METHOD_ANOMALOUS && !w.random) why("anomalous needs random");
		if (!w.count) w.count = 1;
		if (!w.memory) w.memory = 1000000000;
		if (!w.threads) w.threads = 1;
		if (!w.thread_memory) w.thread_memory = w.bits * 2000000;
		w.format = FORMAT_JSON;
		/* run it */
		char line[4000], *p = line;
		for (int i = 0; i < ac && p < line + 3500; ++i) p += sprintf(p, "%s ", av[i]);
		at("%s", line);
		fflush(stdout);
		memset(rep, 0, sizeof *rep);
		pid_t pid = fork();
		if (!pid) {
			dup2(nul, 0), dup2(nul, 1), dup2(nul, 2);
			alarm(20);
			exit(ecgen_main(ac, av));
		}
		int st;
		waitpid(pid, &st, 0);
		++h_cases;
		if (mism) continue;
		if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 99)) {
			fail("crash", "status %d: %s", (long)st, line);
			continue;
		}
		if (bad) {
			if (rep->reached) fail("accepted", "%s", line);
			else if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) fail("no-error", "%s", line);
			continue;
		}
		if (!rep->reached) {
			fail("rejected", "%s", line);
			continue;
		}
		int which = w.method == METHOD_INVALID ? DO_INV : w.method == METHOD_CM || w.method == METHOD_ANOMALOUS || w.method == METHOD_SUPERSINGULAR ? DO_CM : DO_EXH;
		if (which != rep->which) fail("engine", "%s", line);
		config_t *g = &rep->c;
#define EQ(x) \
	if (g->x != w.x) fail("stored-value", #x " is %ld instead of %ld: %s", (long)g->x, (long)w.x, line);
		EQ(field) EQ(method) EQ(count) EQ(random) EQ(prime) EQ(koblitz) EQ(koblitz_value) EQ(smooth) EQ(smooth_value) EQ(cofactor) EQ(cofactor_value)
		EQ(seed_algo) EQ(family) EQ(unique) EQ(points.type) EQ(points.amount) EQ(metadata) EQ(memory) EQ(threads) EQ(thread_memory) EQ(timeout)
		EQ(format) EQ(append) EQ(verbose) EQ(bits) EQ(hex_digits)
		static rep_t ws;
		memset(&ws, 0, sizeof ws);
		strings(&ws, &w);
		for (int i = 0; i < NS; ++i)
			if (ws.has[i] != rep->has[i] || strcmp(ws.s[i], rep->s[i])) fail("stored-string", "string %d is '%s' instead of '%s': %s", (long)i, rep->s[i], ws.s[i], line);
	}
	printf("SAMPLE command lines of up to 14 options\n");
	return h_done();
}
