/* replays are reproducible: PARI's generator is seeded from ECV_SEED */
#include <pari/pari.h>
#include <stdbool.h>
#include <stdlib.h>
bool __real_random_init(void);
bool __wrap_random_init(void) {
	const char *s = getenv("ECV_SEED");
	if (s && *s) {
		setrand(utoi((ulong)atol(s) + 1));
		return true;
	}
	return __real_random_init();
}
