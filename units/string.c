/* text helpers and numeric conversion (src/ecoli_string.c) */
#include "vp.h"
#include "vp_alloc.h"
#include <ctype.h>
#include <stdio.h>
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }

/* ---- contract of strtoll / strtoull (C11 7.22.1.4, POSIX) ----------------
 * one text, described by: has a digit sequence (conv) ending at end, its
 * mathematical value: too small / too large / val; base valid or not */
static char *g_text;
static size_t g_end;
static bool g_conv, g_badbase, g_over, g_under, g_minus, g_einval;
static int64_t g_i;
static uint64_t g_u;
static unsigned g_base;
static long long vp_strtoll(const char *s, char **endptr, int base)
{
	VP_ASSERT(s == g_text, "converts the given text");
	VP_ASSERT((unsigned)base == g_base, "converts in the given base");
	if (g_badbase || !g_conv) {
		*endptr = g_text;
		if (g_badbase || g_einval)
			errno = EINVAL;
		return 0;
	}
	*endptr = g_text + g_end;
	if (g_over || g_under) {
		errno = ERANGE;
		return g_over ? LLONG_MAX : LLONG_MIN;
	}
	return g_i;
}
static unsigned long long vp_strtoull(const char *s, char **endptr, int base)
{
	VP_ASSERT(s == g_text, "converts the given text");
	VP_ASSERT((unsigned)base == g_base, "converts in the given base");
	if (g_badbase || !g_conv) {
		*endptr = g_text;
		if (g_badbase || g_einval)
			errno = EINVAL;
		return 0;
	}
	*endptr = g_text + g_end;
	if (g_over) {
		errno = ERANGE;
		return ULLONG_MAX;
	}
	/* a negative text is converted to its opposite modulo 2^64 */
	return g_minus ? -g_u : g_u;
}
static bool space(char c)
{
	return c == ' ' || (c >= '\t' && c <= '\r');
}
#ifdef VP_CBMC
/* texts of any length, one arbitrary position gk */
static char *gs1, *gs2;
static size_t n1, n2, gk;
static void vp_ghost_havoc(void) { }
void *nondet_vp_ptr(void);
#endif
/* contract of vsnprintf (C11 7.21.6.12): the same arguments need g_need
 * characters, or fail; at most size bytes are written */
static int g_need;
static unsigned g_nprint;
static bool g_pfail2, g_bigenough;
static const char g_fmt[] = "f";
static char *g_out;
static int vp_vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
	(void)ap;
	VP_ASSERT(fmt == g_fmt, "formats the given arguments");
	g_nprint++;
	if (g_need < 0 || (g_pfail2 && g_nprint == 2))
		return -1;
	if (size > 0) {
		size_t n = (size_t)g_need < size - 1 ? (size_t)g_need : size - 1;
		buf[n] = 0;
		buf[n / 2] = 0;
	}
	if (size > (size_t)g_need) {
		g_bigenough = true;
		g_out = buf;
	}
	return g_need;
}
#ifdef VP_PRINT
#define vsnprintf vp_vsnprintf
#endif
#ifdef VP_CONV
#define strtoll vp_strtoll
#define strtoull vp_strtoull
#endif
#include "repo/ecoli_string.c"
#undef vsnprintf
#undef strtoll
#undef strtoull

static char buf[9];
static void text(void)
{
	size_t i, len = 0;
	vp_str(buf, 8);
	g_text = buf;
	g_base = vp_range(0, UINT_MAX);
	g_badbase = g_base == 1 || g_base > 36;
	g_conv = vp_bool();
	g_einval = vp_bool();
	g_over = vp_bool();
	g_under = vp_bool();
	g_i = vp_nd();
	g_u = vp_nd();
	g_minus = false;
	for (i = 0; i < 8; i++) {
		if (buf[i] == 0)
			break;
		len++;
		if (buf[i] == '-')
			g_minus = true;
	}
	/* where the digits end: somewhere in the text, not at its start */
	g_end = vp_range(0, 8);
	VP_ASSUME(g_end <= len);
	VP_ASSUME(!g_conv || g_end > 0);
}
void h_llint(void)
{
	int64_t min = vp_nd(), max = vp_nd(), v = 0;
	int r, e = vp_int();
	bool good;
	text();
	VP_ASSUME(!(g_over && g_under));
	good = g_conv && !g_badbase && !g_over && !g_under &&
		buf[g_end] == 0 && g_i >= min && g_i <= max;
	errno = e;
	r = ec_str_parse_llint(g_text, g_base, min, max, &v);
	VP_ASSERT((r == 0) == good, "accepted iff the whole text is a number in range");
	if (good) {
		VP_ASSERT(v == g_i, "exact value");
		VP_ASSERT(errno == e, "errno unchanged on success");
		VP_COVER("accepted");
	} else {
		VP_ASSERT(r == -1, "refused");
		VP_COVER("refused");
	}
}
void h_ullint(void)
{
	uint64_t min = vp_nd(), max = vp_nd(), v = 0;
	int r, e = vp_int();
	bool good;
	text();
	VP_ASSUME(!g_under);
	good = g_conv && !g_badbase && !g_over && !g_minus &&
		buf[g_end] == 0 && g_u >= min && g_u <= max;
	errno = e;
	r = ec_str_parse_ullint(g_text, g_base, min, max, &v);
	VP_ASSERT((r == 0) == good, "accepted iff the whole text is an unsigned number in range");
	if (good) {
		VP_ASSERT(v == g_u, "exact value");
		VP_ASSERT(errno == e, "errno unchanged on success");
		VP_COVER("accepted");
	} else {
		VP_ASSERT(r == -1, "refused");
		VP_COVER("refused");
	}
}

/* ---- formatted text ------------------------------------------------------------ */
void h_printf(void)
{
	char *buf = (char *)&g_need;
	int r;
	g_need = vp_int();
	VP_ASSUME(g_need < INT_MAX);
#ifndef VP_CBMC
	VP_ASSUME(g_need < 1 << 20);
#endif
	g_pfail2 = vp_bool();
	vp_fail_at = vp_bool() ? 0 : UINT64_MAX;
	r = ec_asprintf(&buf, g_fmt);
	if (r < 0) {
		VP_ASSERT(g_need < 0 || vp_alloc_failed || g_pfail2, "fails only for a reason");
		VP_ASSERT(buf == NULL && vp_live == 0, "nothing is returned on failure");
		VP_COVER("fail");
		return;
	}
	VP_ASSERT(!vp_alloc_failed && g_need >= 0, "failure is reported");
	VP_ASSERT(r == g_need, "returns the length");
	VP_ASSERT(g_bigenough && g_out == buf, "the whole text is stored");
	VP_ASSERT(vp_live == 1, "one block for the caller");
	VP_COVER("ok");
}

/* ---- prefixes and blanks ---------------------------------------------------- */
#ifndef VP_N
#define VP_N 4
#endif
static char a[VP_N + 1], b[VP_N + 1];
void h_prefix(void)
{
	size_t n = 0, la, lb, i;
	bool pre;
	vp_str(a, VP_N);
	vp_str(b, VP_N);
	for (la = 0; la < VP_N && a[la]; la++)
		;
	for (lb = 0; lb < VP_N && b[lb]; lb++)
		;
	while (n < la && n < lb && a[n] == b[n])
		n++;
	VP_ASSERT(ec_strcmp_count(a, b) == n, "length of the common prefix");
	pre = n == lb;
	VP_ASSERT((ec_str_startswith(a, b) != 0) == pre, "prefix test");
	pre = true;
	for (i = 0; i < VP_N; i++)
		if (i < la && !space(a[i]))
			pre = false;
	VP_ASSERT(ec_str_is_space(a) == pre, "blank test");
	VP_COVER("end");
	if (pre && la == 3)
		VP_COVER("blanks");
}

/* any length: text of n1 and n2 characters, character k arbitrary */
#ifdef VP_CBMC
static void big(void)
{
	n1 = vp_range(0, (uint64_t)1 << 40);
	n2 = vp_range(0, (uint64_t)1 << 40);
	gs1 = malloc(n1 + 1);
	gs2 = malloc(n2 + 1);
	VP_ASSUME(gs1 != NULL && gs2 != NULL);
	gs1[n1] = 0;
	gs2[n2] = 0;
	gk = vp_nd();
	VP_ASSUME(gk <= n1 && gk <= n2);
}
void h_count_all(void)
{
	size_t r;
	big();
	r = ec_strcmp_count(gs1, gs2);
	VP_ASSERT(r <= n1 && r <= n2, "within both texts");
	VP_ASSERT(gs1[r] == 0 || gs2[r] == 0 || gs1[r] != gs2[r],
		"stops at a difference or an end");
	if (gk < r)
		VP_ASSERT(gs1[gk] == gs2[gk] && gs1[gk] != 0,
			"every character before is common");
	VP_COVER("end");
	if (r > 100)
		VP_COVER("long");
}
/* gs1 has no inner NUL (registry: instance at the position of the loop) */
void h_is_space_all(void)
{
	bool r;
	big();
	r = ec_str_is_space(gs1);
	if (r && gk < n1)
		VP_ASSERT(space(gs1[gk]), "a blank text has only blanks");
	VP_COVER("end");
	if (r && n1 > 10)
		VP_COVER("blank");
}
/* every character of gs1 is a blank */
void h_is_space_all2(void)
{
	big();
	VP_ASSERT(ec_str_is_space(gs1), "a text of blanks is blank");
	VP_COVER("end");
}
/* contract of ec_strcmp_count, proved by h_count_all: r is where the texts
 * first differ or end; gk is any position, the texts have no inner NUL */
static size_t g_r;
static bool g_called;
size_t vp_count_contract(const char *x, const char *y)
{
	VP_ASSERT((x == gs1 && y == gs2) || (x == gs2 && y == gs1),
		"compares the given texts");
	g_called = true;
	g_r = vp_nd();
	VP_ASSUME(g_r <= n1 && g_r <= n2);
	VP_ASSUME(gs1[g_r] == 0 || gs2[g_r] == 0 || gs1[g_r] != gs2[g_r]);
	VP_ASSUME(gk >= g_r || (gs1[gk] == gs2[gk] && gs1[gk] != 0));
	VP_ASSUME(g_r == n1 || gs1[g_r] != 0);
	VP_ASSUME(g_r == n2 || gs2[g_r] != 0);
	return g_r;
}
void h_startswith_all(void)
{
	int r;
	big();
	r = ec_str_startswith(gs1, gs2);
	VP_ASSUME(g_called);
	VP_NEED("the prefix test goes through the common prefix length");
	if (r)
		VP_ASSERT(n2 <= n1 && (gk >= n2 || gs1[gk] == gs2[gk]),
			"a text is a prefix only if every character agrees");
	else
		VP_ASSERT(g_r < n2 && (g_r >= n1 || gs1[g_r] != gs2[g_r]),
			"a text is not a prefix only if some character differs");
	VP_COVER("end");
	if (r)
		VP_COVER("prefix");
	else
		VP_COVER("no prefix");
}
#endif
