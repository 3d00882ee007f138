/* logs (src/ecoli_log.c) */
#include "vp.h"
#include "vp_alloc.h"
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_log.h>
#include <stdio.h>
/* the formatting, and the output of the default handler */
static const char *g_fmt = "f";
static char *g_text;
static bool g_fmtfail, g_outfail;
static int texts;
static int vp_vasprintf(char **buf, const char *format, va_list ap)
{
	(void)ap;
	VP_ASSERT(format == g_fmt, "the message is formatted");
	if (g_fmtfail)
		return -1;
	g_text = malloc(2);
	VP_ASSUME(g_text != NULL);
	g_text[0] = 'm';
	g_text[1] = 0;
	texts++;
	*buf = g_text;
	return 1;
}
static int printed, p_level;
static const char *p_name, *p_str;
static int vp_fprintf(FILE *f, const char *format, ...)
{
	va_list ap;
	(void)f;
	printed++;
	va_start(ap, format);
	p_level = va_arg(ap, int);
	p_name = va_arg(ap, const char *);
	p_str = va_arg(ap, const char *);
	va_end(ap);
	return g_outfail ? -1 : 1;
}
static void vp_free(void *p)
{
	if (p != NULL && p == g_text)
		texts--;
	free(p);
}
#undef EC_LOG_TYPE_REGISTER
#define EC_LOG_TYPE_REGISTER(name) static int ec_log_local_type
#define vasprintf vp_vasprintf
#define fprintf vp_fprintf
#define free vp_free
#include "repo/ecoli_log.c"
#undef free
#undef fprintf
#undef vasprintf

static int u_calls, u_type, u_ret;
static enum ec_log_level u_level;
static void *u_opaque;
static int u_log(int type, enum ec_log_level level, void *opaque, const char *str)
{
	u_calls++;
	u_type = type;
	u_level = level;
	u_opaque = opaque;
	VP_ASSERT(str == g_text && str[0] == 'm' && str[1] == 0, "text of the message");
	return u_ret;
}
/* every message reaches the registered handler */
void h_handler(void)
{
	int type = vp_int(), r, d;
	enum ec_log_level level = (enum ec_log_level)vp_range(0, 9);
	void *opaque = vp_bool() ? &d : NULL;
	g_fmtfail = vp_bool();
	u_ret = vp_int();
	VP_ASSERT(ec_log_level_set((enum ec_log_level)vp_range(0, EC_LOG_DEBUG)) == 0, "level");
	VP_ASSERT(ec_log_fct_register(u_log, opaque) == 0, "registered");
	r = ec_log(type, level, g_fmt);
	VP_ASSERT(u_calls == !g_fmtfail, "delivered once");
	VP_ASSERT(printed == 0, "to this handler only");
	if (g_fmtfail) {
		VP_ASSERT(r < 0, "failure is reported");
		VP_COVER("failed");
	} else {
		VP_ASSERT(u_type == type && u_level == level && u_opaque == opaque,
			"type, level and data of the handler");
		VP_ASSERT(r == u_ret, "result of the handler");
		VP_COVER("delivered");
	}
	VP_ASSERT(texts == 0, "the text is released");
	/* and the default handler is back when unregistered */
	VP_ASSERT(ec_log_fct_register(NULL, opaque) == 0, "unregistered");
	g_fmtfail = false;
	u_calls = 0;
	r = ec_log(type, 0, g_fmt);
	VP_ASSERT(u_calls == 0 && printed == 1, "printed by the default handler");
}
/* the default handler prints iff the level passes the global one */
void h_default(void)
{
	int type = (int)vp_range(0, 2) - 1, r;
	unsigned int lim = (unsigned int)vp_nd();
	enum ec_log_level level = (enum ec_log_level)vp_range(0, 9);
	enum ec_log_level old = ec_log_level_get(), cur = old;
	VP_ASSUME(lim < 1u << 31);
	g_outfail = vp_bool();
	VP_ASSERT(ec_log_type_register("t") == 0, "type");
	r = ec_log_level_set((enum ec_log_level)lim);
	VP_ASSERT((r == 0) == (lim <= EC_LOG_DEBUG), "only valid levels are accepted");
	if (r == 0)
		cur = (enum ec_log_level)lim;
	VP_ASSERT(ec_log_level_get() == cur, "level set, or unchanged");
	r = ec_log(type, level, g_fmt);
	VP_ASSERT(printed == (level <= cur), "printed iff the level passes");
	VP_ASSERT((r < 0) == (printed && g_outfail), "output failure is reported");
	if (printed) {
		VP_ASSERT(p_level == (int)level && p_str == g_text, "level and text");
		VP_ASSERT(p_name != NULL && p_name[0] == (type == 0 ? 't' : 'u'),
			"name of the type");
		VP_COVER("printed");
	} else
		VP_COVER("dropped");
	VP_ASSERT(texts == 0, "the text is released");
}
/* a type name has one identifier, whatever the order and the failures */
static const char *const names[] = { "a", "b", "ab" };
static void types(int s)
{
	int id[3] = { -1, -1, -1 }, n = 0, i, k, r;
	for (i = 0; i < 3; i++, s /= 3) {
		k = s % 3;
		vp_alloc_failed = false;
		r = ec_log_type_register(names[k]);
		if (r < 0) {
			VP_ASSERT(vp_alloc_failed && id[k] < 0,
				"refused only for lack of memory");
			VP_COVER("refused");
			continue;
		}
		if (id[k] >= 0)
			VP_ASSERT(r == id[k], "same identifier for the same name");
		else {
			VP_ASSERT(r == n, "next identifier for a new name");
			id[k] = r;
			n++;
		}
	}
	for (k = 0; k < 3; k++)
		if (id[k] >= 0)
			VP_ASSERT(!strcmp(ec_log_name(id[k]), names[k]) &&
				ec_log_lookup(names[k]) == id[k], "name of an identifier");
		else
			VP_ASSERT(ec_log_lookup(names[k]) == -1, "unknown name");
	VP_ASSERT(!strcmp(ec_log_name(n), "unknown") &&
		!strcmp(ec_log_name(-1), "unknown") &&
		!strcmp(ec_log_name(INT_MAX), "unknown"), "unknown identifier");
	VP_COVER("registered");
}
void h_types(void)
{
	int s = (int)vp_range(0, 26), i, f, g = (int)vp_range(0, 6);
	for (i = 0; i < 27; i++)
		for (f = 0; f < 7; f++)
			if (s == i && g == f) {
				vp_fail_at = f < 6 ? (uint64_t)f : UINT64_MAX;
				types(i);
				VP_END;
			}
}
