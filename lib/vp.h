/* Verification harness runtime.
 *
 * One harness source is used three ways:
 *   - VP_CBMC:            goto-cc / cbmc, bounded or unbounded (VP_PROOF)
 *   - otherwise (native): compiled with gcc+ASan and run on the values of a
 *                         verifier counterexample (replay)
 * All nondeterminism goes through vp_nd*(), so that a counterexample is just a
 * list of numbers.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <errno.h>

#ifdef VP_CBMC
uint64_t nondet_vp_u64(void);
static uint64_t vp_nd(void)
{
	uint64_t vp_nd_val = nondet_vp_u64();
	return vp_nd_val;
}
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, label) __CPROVER_assert(c, "vp:" label)
#define VP_COVER(label) __CPROVER_assert(0, "vp_cover:" label)
/* must be reachable for the unit to say anything (decomposition still fits) */
/* end of a case: nothing more to merge with the other cases */
#define VP_END __CPROVER_assume(0)
#define VP_NEED(label) __CPROVER_assert(0, "vp_need:" label)
#else
uint64_t vp_nd(void);
void vp_assume_fail(const char *what);
void vp_assert_fail(const char *what);
#define VP_ASSUME(c) do { if (!(c)) vp_assume_fail(#c); } while (0)
#define VP_ASSERT(c, label) do { if (!(c)) vp_assert_fail(label); } while (0)
#define VP_COVER(label) do { } while (0)
#define VP_END return
#define VP_NEED(label) do { } while (0)
#endif

/* value in [lo, hi] */
static inline uint64_t vp_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vp_nd();
	VP_ASSUME(v >= lo && v <= hi);
	return v;
}
static inline bool vp_bool(void)
{
	return vp_nd() & 1;
}
static inline int vp_int(void)
{
	return (int)vp_nd();
}
/* any NUL-terminated string of at most max characters (max+1 bytes) */
static inline void vp_str(char *buf, size_t max)
{
	size_t i;
	for (i = 0; i < max; i++)
		buf[i] = (char)vp_nd();
	buf[max] = 0;
}
#endif
