/* initialisation callbacks (src/ecoli_init.c) */
#include "vp.h"
#include "vp_env.h"
#include "repo/ecoli_init.c"

/* three callbacks with any priorities, registered in this order */
#define N 3
static struct ec_init vp_i[N];
static unsigned int prio[N];
static bool has[N], has_exit[N], bad[N];
static int nrun, run[2 * N];
#define CB(k) \
	static int init##k(void) { if (nrun < 2 * N) run[nrun] = k; nrun++; return bad[k] ? -1 : 0; } \
	static void exit##k(void) { if (nrun < 2 * N) run[nrun] = k; nrun++; }
CB(0)
CB(1)
CB(2)
static ec_init_t *const ini[N] = { init0, init1, init2 };
static ec_exit_t *const ex[N] = { exit0, exit1, exit2 };

static void setup(void)
{
	int i;
	for (i = 0; i < N; i++) {
		prio[i] = (unsigned int)vp_nd();
		has[i] = vp_bool();
		has_exit[i] = vp_bool();
		bad[i] = vp_bool();
		vp_i[i].init = has[i] ? ini[i] : NULL;
		vp_i[i].exit = has_exit[i] ? ex[i] : NULL;
		vp_i[i].priority = prio[i];
		ec_init_register(&vp_i[i]);
	}
}
/* how many times callback k ran */
static int times(int k)
{
	int i, n = 0;
	for (i = 0; i < nrun && i < 2 * N; i++)
		n += run[i] == k;
	return n;
}
void h_init(void)
{
	int i, k, r, failed = -1;
	setup();
	r = ec_init();
	for (i = 0; i + 1 < nrun && i + 1 < N; i++)
		VP_ASSERT(prio[run[i]] <= prio[run[i + 1]], "priority order");
	for (i = 0; i < nrun && i < N; i++)
		if (bad[run[i]]) {
			VP_ASSERT(i == nrun - 1, "a failure stops initialisation");
			failed = run[i];
		}
	VP_ASSERT((r < 0) == (failed >= 0), "failure is reported");
	VP_ASSERT(r == 0 || r == -1, "result");
	for (k = 0; k < N; k++) {
		VP_ASSERT(times(k) <= (has[k] ? 1 : 0), "each callback at most once");
		if (has[k] && (r == 0 || prio[k] < prio[failed]))
			VP_ASSERT(times(k) == 1, "no callback is forgotten");
	}
	if (r < 0)
		VP_COVER("failed");
	else
		VP_COVER("initialised");
}
void h_exit(void)
{
	int i, k, n, first[N];
	setup();
	for (k = 0; k < N; k++)
		bad[k] = false;
	VP_ASSUME(has[0] && has[1] && has[2]);
	VP_ASSERT(ec_init() == 0, "initialised");
	VP_ASSERT(nrun == N, "all callbacks ran");
	for (i = 0; i < N; i++)
		first[i] = run[i];
	nrun = 0;
	ec_exit();
	n = 0;
	for (i = N - 1; i >= 0; i--)
		if (has_exit[first[i]]) {
			VP_ASSERT(n < nrun && run[n] == first[i], "clean-up in reverse order");
			n++;
		}
	VP_ASSERT(nrun == n, "each clean-up callback once");
	VP_COVER("exit");
}
