/* leaf node types: VP_T selects the type */
#define VP_ANYLEN
#define VP_NNODE 1
#define VP_NTOK 1
#ifndef VP_TOKLEN
#define VP_TOKLEN 3
#endif
#include "abs.h"
#include <regex.h>
#include <ctype.h>

/* ---- attributes ------------------------------------------------------------- */
struct ec_dict { int idx; };
static struct ec_dict g_attrs;
static bool g_has_attr;
static char cfg_text[VP_TOKLEN + 1];
bool ec_dict_has_key(const struct ec_dict *dict, const char *key)
{
	VP_ASSERT(dict == &g_attrs, "attributes of the first token");
	VP_ASSERT(!strcmp(key, cfg_text), "the configured attribute is looked up");
	return g_has_attr;
}

/* ---- completion items --------------------------------------------------------- */
struct ec_comp_item { int x; };
static struct ec_comp_item g_item;
static unsigned g_nitem;
static bool g_item_fail;
struct ec_comp_item *ec_comp_add_item(struct ec_comp *comp,
	const struct ec_node *node, enum ec_comp_type type,
	const char *current, const char *full)
{
	VP_ASSERT(comp == &vp_comp_st && node == &vp_self,
		"item added for this node");
	VP_ASSERT(type == EC_COMP_FULL, "a full completion");
	VP_ASSERT(!strcmp(current, vp_tok[0]), "the typed word is the current text");
	VP_ASSERT(!strcmp(full, cfg_text), "the node text is proposed");
	g_nitem++;
	if (g_item_fail)
		return NULL;
	return &g_item;
}

/* ---- regular expressions (POSIX contract) --------------------------------------- */
static bool g_re_ok, g_match;
static regoff_t g_so, g_eo;
static long g_re_live;
static int vp_regcomp(regex_t *re, const char *s, int flags)
{
	VP_ASSERT(!strcmp(s, cfg_text), "the configured pattern is compiled");
	VP_ASSERT(flags == REG_EXTENDED, "extended syntax with match positions");
	if (!g_re_ok)
		return vp_bool() ? REG_ESPACE : REG_BADPAT;
	re->re_nsub = 0x1234;
	g_re_live++;
	return 0;
}
static int vp_regexec(const regex_t *re, const char *s, size_t n,
	regmatch_t pos[], int flags)
{
	VP_ASSERT(re->re_nsub == 0x1234, "compiled expression");
	VP_ASSERT(s == vp_tok[0], "the first token is matched");
	VP_ASSERT(flags == 0, "whole text");
	if (!g_match)
		return REG_NOMATCH;
	if (n > 0) {
		pos[0].rm_so = g_so;
		pos[0].rm_eo = g_eo;
	}
	return 0;
}
static void vp_regfree(regex_t *re)
{
	VP_ASSERT(re->re_nsub == 0x1234, "compiled expression freed once");
	re->re_nsub = 0;
	g_re_live--;
}
#define regcomp vp_regcomp
#define regexec vp_regexec
#define regfree vp_regfree

/* ---- numeric conversion contract (units str_llint, str_ullint) ---------------------- */
static bool g_isint, g_isuint;
static int64_t g_i;
static uint64_t g_u;
static uint64_t g_base;
int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
	int64_t max, int64_t *val)
{
	VP_ASSERT(str == vp_tok[0], "the first token is converted");
	VP_ASSERT(base == (unsigned)g_base, "in the configured base");
	if (!g_isint || g_i < min || g_i > max)
		return -1;
	*val = g_i;
	return 0;
}
int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
	uint64_t max, uint64_t *val)
{
	VP_ASSERT(str == vp_tok[0], "the first token is converted");
	VP_ASSERT(base == (unsigned)g_base, "in the configured base");
	if (!g_isuint || g_u < min || g_u > max)
		return -1;
	*val = g_u;
	return 0;
}

#if VP_T == 1
#include "repo/ecoli_node_str.c"
#define TNAME "str"
#define KEY "string"
#elif VP_T == 2
#include "repo/ecoli_node_any.c"
#define TNAME "any"
#define KEY "attr"
#elif VP_T == 3
#include "repo/ecoli_node_space.c"
#define TNAME "space"
#elif VP_T == 4
#include "repo/ecoli_node_empty.c"
#define TNAME "empty"
#elif VP_T == 5
#include "repo/ecoli_node_none.c"
#define TNAME "none"
#elif VP_T == 6
#include "repo/ecoli_node_re.c"
#define TNAME "re"
#define KEY "pattern"
#elif VP_T == 7
#include "repo/ecoli_node_int.c"
#define TNAME "int"
#elif VP_T == 8
#include "repo/ecoli_node_int.c"
#define TNAME "uint"
#endif

static size_t len_of(const char *s)
{
	size_t i;
	for (i = 0; i < VP_TOKLEN; i++)
		if (s[i] == 0)
			return i;
	return VP_TOKLEN;
}
static bool same(const char *x, const char *y)
{
	size_t i;
	for (i = 0; i <= VP_TOKLEN; i++) {
		if (x[i] != y[i])
			return false;
		if (x[i] == 0)
			return true;
	}
	return true;
}
static struct ec_config cfg_val, cfg_min, cfg_max, cfg_base;

static void input(void)
{
	vp_str(vp_tok[0], VP_TOKLEN);
	vp_str(vp_tok[1], VP_TOKLEN);
	vp_setup(TNAME, vp_nd());
	vp_str(cfg_text, VP_TOKLEN);
	g_has_attr = vp_bool();
	if (vp_bool())
		vp_tok_attrs[0] = &g_attrs;
	g_match = vp_bool();
	g_re_ok = true;
	g_so = vp_int();
	g_eo = vp_int();
	VP_ASSUME(g_so >= 0 && g_so <= g_eo && (size_t)g_eo <= len_of(vp_tok[0]));
	g_isint = vp_bool();
	g_isuint = vp_bool();
	g_i = vp_nd();
	g_u = vp_nd();
}
static int config_text(void)
{
#ifdef KEY
	vp_cfg[0].key = KEY;
	vp_cfg[0].val = &cfg_val;
	cfg_val.type = EC_CONFIG_TYPE_STRING;
	cfg_val.string = cfg_text;
#endif
	if (vp_self.type->set_config == NULL)
		return 0;
	return vp_self.type->set_config(&vp_self, &vp_cfg_dict);
}
static void release(void)
{
	if (vp_self.type->free_priv != NULL)
		vp_self.type->free_priv(&vp_self);
	VP_ASSERT(vp_live == 0, "no memory kept by a freed node");
	VP_ASSERT(g_re_live == 0, "no compiled expression kept by a freed node");
}
static void one_token(bool match, int ret)
{
	if (vp_in.len == 0)
		match = false;
	VP_ASSERT(ret == (match ? 1 : EC_PARSE_NOMATCH),
		"matches one token iff it is described by the node");
	if (match)
		VP_COVER("match");
	else
		VP_COVER("nomatch");
}

void h_parse(void)
{
	int ret;
	size_t i;
	bool m = false;
	(void)i;

	input();
#if VP_T <= 6
#if VP_T == 2
	bool conf = vp_bool();
	if (conf)
#endif
	{
		ret = config_text();
		VP_ASSERT(ret == 0, "text accepted");
	}
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
#if VP_T == 1
	one_token(same(vp_tok[0], cfg_text), ret);
#elif VP_T == 2
	m = !conf || (vp_tok_attrs[0] != NULL && g_has_attr);
	one_token(m, ret);
#elif VP_T == 3
	m = vp_tok[0][0] != 0;
	for (i = 0; i < VP_TOKLEN; i++) {
		char c = vp_tok[0][i];
		if (c == 0)
			break;
		if (c != ' ' && !(c >= '\t' && c <= '\r'))
			m = false;
	}
	one_token(m, ret);
#elif VP_T == 4
	VP_ASSERT(ret == 0, "always matches, consuming nothing");
	VP_COVER("match");
#elif VP_T == 5
	VP_ASSERT(ret == EC_PARSE_NOMATCH, "never matches");
	VP_COVER("nomatch");
#elif VP_T == 6
	m = g_match && g_so == 0 && (size_t)g_eo == len_of(vp_tok[0]);
	one_token(m, ret);
#endif
#else
	int round;
	bool hmin, hmax, hbase;
	for (round = 0; round < 2; round++) {
		/* second round: another configuration replaces the first */
		hmin = vp_bool();
		hmax = vp_bool();
		hbase = vp_bool();
		vp_cfg[0].key = hmin ? "min" : NULL;
		vp_cfg[0].val = &cfg_min;
		vp_cfg[1].key = hmax ? "max" : NULL;
		vp_cfg[1].val = &cfg_max;
		vp_cfg[2].key = hbase ? "base" : NULL;
		vp_cfg[2].val = &cfg_base;
		cfg_min.type = cfg_max.type = VP_T == 7 ? EC_CONFIG_TYPE_INT64 :
			EC_CONFIG_TYPE_UINT64;
		cfg_base.type = EC_CONFIG_TYPE_UINT64;
		cfg_min.u64 = vp_nd();
		cfg_max.u64 = vp_nd();
		cfg_base.u64 = vp_range(0, UINT_MAX);
		ret = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
		VP_ASSERT((ret < 0) == (hmin && hmax && (VP_T == 7 ?
			cfg_min.i64 > cfg_max.i64 : cfg_min.u64 > cfg_max.u64)),
			"bounds refused iff contradictory");
		if (ret < 0)
			return;
	}
	g_base = hbase ? cfg_base.u64 : 0;
#if VP_T == 7
	m = g_isint && (!hmin || g_i >= cfg_min.i64) && (!hmax || g_i <= cfg_max.i64);
#else
	m = g_isuint && (!hmin || g_u >= cfg_min.u64) && (!hmax || g_u <= cfg_max.u64);
#endif
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	one_token(m, ret);
#if VP_T == 7
	int64_t v = 0;
	ret = ec_node_int_getval(&vp_self, vp_tok[0], &v);
	VP_ASSERT((ret == 0) == m, "value read back iff it matches");
	VP_ASSERT(!m || v == g_i, "the value matched");
#else
	uint64_t v = 0;
	ret = ec_node_uint_getval(&vp_self, vp_tok[0], &v);
	VP_ASSERT((ret == 0) == m, "value read back iff it matches");
	VP_ASSERT(!m || v == g_u, "the value matched");
#endif
#endif
	release();
}

/* a refused configuration changes nothing */
void h_reconf(void)
{
	int ret;
	char first[VP_TOKLEN + 1];
	size_t i;
	bool m;

	input();
	vp_in.len = 1;
	ret = config_text();
	VP_ASSERT(ret == 0, "text accepted");
	for (i = 0; i <= VP_TOKLEN; i++)
		first[i] = cfg_text[i];
	vp_str(cfg_text, VP_TOKLEN);
	vp_fail_at = vp_bool() ? vp_alloc_count : UINT64_MAX;
	g_re_ok = vp_bool();
	if (vp_bool()) {
		vp_cfg[0].key = NULL;
		ret = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
#if VP_T == 2
		VP_ASSERT(ret == 0, "the attribute is optional");
#else
		VP_ASSERT(ret < 0, "a text is needed");
#endif
	} else {
		ret = config_text();
#if VP_T == 6
		VP_ASSERT((ret < 0) == (vp_alloc_failed || !g_re_ok),
			"refused iff something failed");
#else
		VP_ASSERT((ret < 0) == vp_alloc_failed, "refused iff memory lacks");
#endif
	}
	if (ret < 0) {
		for (i = 0; i <= VP_TOKLEN; i++)
			cfg_text[i] = first[i];
		VP_COVER("refused");
	} else {
		VP_COVER("replaced");
	}
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
#if VP_T == 1
	m = same(vp_tok[0], cfg_text);
#elif VP_T == 2
	m = vp_cfg[0].key == NULL || (vp_tok_attrs[0] != NULL && g_has_attr);
#else
	m = g_match && g_so == 0 && (size_t)g_eo == len_of(vp_tok[0]);
#endif
	VP_ASSERT(ret == (m ? 1 : EC_PARSE_NOMATCH), "matches by the configuration in force");
	release();
}

/* str completion */
void h_complete(void)
{
	int ret;
	size_t i;
	bool pre = true;

	input();
	g_item_fail = vp_bool();
#if VP_T == 1
	ret = config_text();
	VP_ASSERT(ret == 0, "text accepted");
#endif
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	for (i = 0; i < VP_TOKLEN; i++) {
		if (vp_tok[0][i] == 0)
			break;
		if (vp_tok[0][i] != cfg_text[i]) {
			pre = false;
			break;
		}
	}
	if (VP_T == 5 || vp_in.len != 1)
		pre = false;
	if (pre) {
		VP_ASSERT(g_nitem == 1, "a text starting with the word is proposed once");
		VP_ASSERT((ret < 0) == g_item_fail, "failure is reported");
#if VP_T == 1
		VP_COVER("proposed");
#endif
	} else {
		VP_ASSERT(g_nitem == 0, "nothing else is proposed");
		VP_ASSERT(ret >= 0, "proposing nothing is not an error");
		VP_COVER("not proposed");
	}
	vp_check_tree_restored(0);
}
