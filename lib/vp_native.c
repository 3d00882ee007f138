/* Native side of the harness runtime: replays the nondeterministic choices of
 * a verifier counterexample (one decimal number per line in $VP_VALUES). */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <inttypes.h>

static FILE *f;
void VP_ENTRY(void);

uint64_t vp_nd(void)
{
	uint64_t v = 0;
	if (f != NULL && fscanf(f, "%" SCNu64, &v) != 1)
		v = 0;
	return v;
}
void vp_assume_fail(const char *what)
{
	fprintf(stderr, "VP-ASSUME-FAIL: %s\n", what);
	_Exit(77);
}
void vp_assert_fail(const char *what)
{
	fprintf(stderr, "VP-ASSERT-FAIL: %s\n", what);
	_Exit(99);
}
int main(void)
{
	const char *p = getenv("VP_VALUES");
	if (p != NULL)
		f = fopen(p, "r");
	VP_ENTRY();
	fprintf(stderr, "VP-REPLAY-OK\n");
	return 0;
}
