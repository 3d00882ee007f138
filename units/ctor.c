/* constructors and setters of nodes: they consume the nodes given to them and
 * configure the new node as asked, or fail leaving nothing.  The real
 * configurations are used (src/ecoli_config.c, src/ecoli_node_helper.c).
 * VP_TYPE: the type of node. */
#define T_seq 1
#define T_or 2
#define T_many 3
#define T_option 4
#define T_bypass 5
#define T_once 6
#define T_subset 7
#define T_str 8
#define T_int 9
#define T_any 10
#define T_re 11
#define T_sh_lex 12
#define T_re_lex 13
#define T_cmd 14
#define T_cond 15
#define T_dynamic 16
#ifndef VP_TYPE
#define VP_TYPE T_seq
#endif
#include "vp.h"
#include <stdarg.h>
#ifdef VP_CBMC
#define union struct
#endif
#include <ecoli_config.h>
#undef union
#include <ecoli_utils.h>
static void *vp_va_end[1];
#undef EC_VA_END
#define EC_VA_END ((void *)vp_va_end)
static void *vp_calloc(size_t n, size_t size)
{
	struct ec_config *c;
	static struct ec_config z;
	if (n * size != sizeof(*c))
		return calloc(n, size);
	c = malloc(sizeof(*c));
	if (c != NULL)
		*c = z;
	return c;
}
#define VP_CALLOC vp_calloc
#define VP_REALLOC vp_arr_realloc
static void *vp_arr_realloc(void *ptr, unsigned long size)
{
	void **p = NULL, **o = ptr;
	unsigned long i, n = size / sizeof(*p);
	switch (n) {
	case 1: p = malloc(1 * sizeof(void *)); break;
	case 2: p = malloc(2 * sizeof(void *)); break;
	case 3: p = malloc(3 * sizeof(void *)); break;
	default: VP_ASSERT(0, "harness: a few nodes");
	}
	VP_ASSUME(p != NULL);
	for (i = 0; o != NULL && i + 1 < n; i++)
		p[i] = o[i];
	free(o);
	return p;
}
#include "vp_alloc.h"
#include "vp_env.h"
#define VP_DN 4
#define VP_DKEY 12
#include "absdict.h"
#include <ecoli_node.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>
#include <ecoli_strvec.h>
#include <ecoli_string.h>
#include <ecoli_init.h>
#include <ecoli_htable.h>
/* ---- nodes: units node_* ------------------------------------------------------------ */
struct ec_node {
	const struct ec_node_type *type;
	char id[8];
	struct ec_config *config;
	void *priv;
	long refs;
};
static struct ec_node *vp_new(const struct ec_node_type *type)
{
	static const struct ec_node z;
	struct ec_node *n = malloc(sizeof(*n));
	VP_ASSUME(n != NULL);
	*n = z;
	n->type = type;
	n->refs = 1;
	return n;
}
static long vp_nodes;
void ec_node_free(struct ec_node *node)
{
	if (node == NULL)
		return;
	VP_ASSERT(node->refs > 0, "node reference released at most once");
	if (--node->refs == 0 && node->type != NULL) {
		if (node->type->free_priv != NULL)
			node->type->free_priv(node);
		ec_config_free(node->config);
		free(node->priv);
		node->priv = NULL;
		vp_nodes--;
	}
}
struct ec_node *ec_node_clone(struct ec_node *node)
{
	if (node != NULL) {
		VP_ASSERT(node->refs > 0, "live node");
		node->refs++;
	}
	return node;
}
void *ec_node_priv(const struct ec_node *node) { return node->priv; }
const struct ec_config *ec_node_get_config(struct ec_node *node) { return node->config; }
const char *ec_node_id(const struct ec_node *node) { return node->id; }
int ec_node_check_type(const struct ec_node *node, const struct ec_node_type *type)
{
	if (node->type != type) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}
int ec_node_type_register(struct ec_node_type *type, bool override)
{ (void)override; (void)type; return 0; }
int ec_node_set_config(struct ec_node *node, struct ec_config *config)
{
	if (node->type->schema == NULL ||
			ec_config_validate(config, node->type->schema) < 0 ||
			(node->type->set_config != NULL &&
			node->type->set_config(node, config) < 0)) {
		ec_config_free(config);
		return -1;
	}
	ec_config_free(node->config);
	node->config = config;
	return 0;
}
void ec_init_register(struct ec_init *init) { (void)init; }
int ec_asprintf(char **buf, const char *format, ...)
{ (void)buf; (void)format; return -1; }
#if VP_TYPE == T_re || VP_TYPE == T_re_lex
#include <regex.h>
/* compilation may fail; a compiled expression is released once */
static long vp_regs;
int regcomp(regex_t *preg, const char *regex, int cflags)
{
	(void)preg; (void)regex; (void)cflags;
	if (vp_fail_now())
		return 1;
	vp_regs++;
	return 0;
}
void regfree(regex_t *preg) { (void)preg; vp_regs--; }
#else
static long vp_regs;
#endif
#include "repo/ecoli_config.c"
#undef TYPE
#include "repo/ecoli_node_helper.c"
#if VP_TYPE == T_seq
#include "repo/ecoli_node_seq.c"
#elif VP_TYPE == T_or
#include "repo/ecoli_node_or.c"
#elif VP_TYPE == T_many
#include "repo/ecoli_node_many.c"
#elif VP_TYPE == T_option
#include "repo/ecoli_node_option.c"
#elif VP_TYPE == T_bypass
#include "repo/ecoli_node_bypass.c"
#elif VP_TYPE == T_once
#include "repo/ecoli_node_once.c"
#elif VP_TYPE == T_subset
#include "repo/ecoli_node_subset.c"
#elif VP_TYPE == T_str
#include "repo/ecoli_node_str.c"
#elif VP_TYPE == T_int
#include "repo/ecoli_node_int.c"
#elif VP_TYPE == T_any
#include "repo/ecoli_node_any.c"
#elif VP_TYPE == T_re
#include "repo/ecoli_node_re.c"
#elif VP_TYPE == T_sh_lex
#include "repo/ecoli_node_sh_lex.c"
#elif VP_TYPE == T_re_lex
#include "repo/ecoli_node_re_lex.c"
#elif VP_TYPE == T_cmd
#include "repo/ecoli_node_cmd.c"
#elif VP_TYPE == T_cond
#include "repo/ecoli_node_cond.c"
#elif VP_TYPE == T_dynamic
#include "repo/ecoli_node_dynamic.c"
#endif

struct ec_node *ec_node_from_type(const struct ec_node_type *type, const char *id)
{
	struct ec_node *n;
	int i;
	if (vp_fail_now())
		return NULL;
	n = vp_new(type);
	for (i = 0; i < 7 && id[i] != 0; i++)
		n->id[i] = id[i];
#ifdef VP_PRIV_T
	{
		VP_PRIV_T *p = malloc(sizeof(*p));
		static VP_PRIV_T z;
		VP_ASSUME(p != NULL);
		*p = z;
		n->priv = p;
	}
#else
	n->priv = calloc(1, type->size);
	VP_ASSUME(n->priv != NULL);
#endif
	vp_nodes++;
	return n;
}

#ifndef VP_MAXF
#define VP_MAXF 30
#endif
static struct ec_node *kid[3];
static void mkkids(int n)
{
	int i;
	for (i = 0; i < n; i++)
		kid[i] = vp_new(NULL);
}
static bool consumed(int n)
{
	int i;
	bool ok = true;
	for (i = 0; i < n; i++)
		ok = ok && (kid[i] == NULL || kid[i]->refs == 0);
	return ok;
}
#define CLEAN (vp_live == 0 && vp_nodes == 0 && vp_regs == 0)
static bool is_text(const char *a, const char *b)
{
	int i;
	for (i = 0; i < 8; i++) {
		if (a[i] != b[i])
			return false;
		if (a[i] == 0)
			return true;
	}
	return false;
}
static const struct ec_config *conf(struct ec_node *n, const char *key)
{ return n->config == NULL ? NULL : ec_config_dict_get(n->config, key); }
static void start(int f)
{
	vp_alloc_failed = false;
	vp_fail_at = vp_alloc_count + f;
}
static void stop(void) { vp_fail_at = UINT64_MAX; }
#define CASES(v, f)	for (f = 0; f < (v); f++) if (pick == f)
/* node n was made with the name "nm", and holds the n kids in order */
static void check_kids(struct ec_node *n, int cnt)
{
	int i;
	struct ec_node *c = NULL;
	unsigned int refs = 0;
	VP_ASSERT(n->refs == 1, "one reference is given");
	VP_ASSERT(is_text(n->id, "nm"), "named as asked");
	VP_ASSERT((int)n->type->get_children_count(n) == cnt, "as many children as given");
	for (i = 0; i < cnt; i++) {
		VP_ASSERT(n->type->get_child(n, i, &c, &refs) == 0 && c == kid[i],
			"children in order");
		VP_ASSERT((long)refs == c->refs, "references reported");
	}
}
static void done(struct ec_node *n, int cnt)
{
	ec_node_free(n);
	VP_ASSERT(consumed(cnt), "children released with the node");
	VP_ASSERT(CLEAN, "all released");
}

#if VP_TYPE == T_seq || VP_TYPE == T_or || VP_TYPE == T_subset
#if VP_TYPE == T_seq
#define MAKE __ec_node_seq
#define ADD ec_node_seq_add
#define TYPE ec_node_seq_type
#elif VP_TYPE == T_or
#define MAKE __ec_node_or
#define ADD ec_node_or_add
#define TYPE ec_node_or_type
#else
#define MAKE __ec_node_subset
#define ADD ec_node_subset_add
#define TYPE ec_node_subset_type
#endif
/* the given children in one call; one of them may be missing */
void h_make(void)
{
	int pick = (int)vp_nd(), f, k;
	bool miss = false;
	struct ec_node *n;
	CASES(VP_MAXF * 5, f) {
		k = f % 5;
		mkkids(k < 3 ? k : 3);
		if (k == 4) {
			ec_node_free(kid[1]);
			kid[1] = NULL;
			miss = true;
		}
		start(f / 5);
		if (k == 0)
			n = MAKE("nm", EC_VA_END);
		else if (k == 1)
			n = MAKE("nm", kid[0], EC_VA_END);
		else if (k == 2)
			n = MAKE("nm", kid[0], kid[1], EC_VA_END);
		else
			n = MAKE("nm", kid[0], kid[1], kid[2], EC_VA_END);
		stop();
		if (k > 3)
			k = 3;
		if (miss || vp_alloc_failed) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(consumed(k) && CLEAN, "failure: all consumed, nothing left");
			VP_COVER("failed");
		} else {
			VP_ASSERT(n != NULL, "made");
			check_kids(n, k);
			done(n, k);
			VP_COVER("made");
		}
		VP_END;
	}
}
/* adding to a node of k children, with any failing step; to another node */
void h_add(void)
{
	int pick = (int)vp_nd(), f, k, ret;
	struct ec_node *n;
	static struct ec_node_type other;
	CASES(VP_MAXF * 4, f) {
		k = f % 4;
		mkkids(3);
		n = ec_node_from_type(&TYPE, "nm");
		if (k == 3) {
			n->type = &other;
			ret = ADD(n, kid[0]);
			VP_ASSERT(ret == -1 && kid[0]->refs == 0 && n->config == NULL,
				"refused, child consumed");
			VP_COVER("other");
			VP_END;
		}
		if (k > 0)
			VP_ASSERT(ADD(n, kid[0]) == 0, "added");
		if (k > 1)
			VP_ASSERT(ADD(n, kid[1]) == 0, "added");
		start(f / 4);
		ret = ADD(n, kid[k]);
		stop();
		if (vp_alloc_failed) {
			VP_ASSERT(ret == -1, "failure reported");
			VP_ASSERT(kid[k]->refs == 0, "failure: child consumed");
			check_kids(n, k);
			VP_COVER("failed");
		} else {
			VP_ASSERT(ret == 0, "added");
			check_kids(n, k + 1);
			k++;
			VP_COVER("added");
		}
		VP_ASSERT(ADD(n, NULL) == -1, "missing child refused");
		check_kids(n, k);
		done(n, k);
		VP_END;
	}
}
#endif
#if VP_TYPE == T_option || VP_TYPE == T_bypass || VP_TYPE == T_once || \
	VP_TYPE == T_many || VP_TYPE == T_sh_lex
#if VP_TYPE == T_option
#define MAKE(id, c, f) ec_node_option(id, c)
#define SET(n, c, f) ec_node_option_set_child(n, c)
#elif VP_TYPE == T_bypass
#define MAKE(id, c, f) ec_node_bypass(id, c)
#define SET(n, c, f) ec_node_bypass_set_child(n, c)
#elif VP_TYPE == T_once
#define MAKE(id, c, f) ec_node_once(id, c)
#define SET(n, c, f) ec_node_once_set_child(n, c)
#elif VP_TYPE == T_many
#define MAKE(id, c, f) ec_node_many(id, c, mn[f], mx[f])
#define SET(n, c, f) ec_node_many_set_params(n, c, mn[f], mx[f])
static unsigned int mn[2], mx[2];
static void bounds(struct ec_node *n, int i)
{
	VP_ASSERT(conf(n, "min") != NULL && conf(n, "min")->u64 == mn[i] &&
		conf(n, "max") != NULL && conf(n, "max")->u64 == mx[i],
		"bounds as asked");
}
#else
#define MAKE(id, c, f) ec_node_sh_lex(id, c)
#endif
void h_make(void)
{
	int pick = (int)vp_nd(), f, k, ret;
	struct ec_node *n;
#if VP_TYPE == T_many
	mn[0] = 2;
	mx[0] = 5;
	mn[1] = 1;
	mx[1] = 3;
#endif
	CASES(VP_MAXF * 2, f) {
		k = f % 2;
		mkkids(2);
		if (k == 0)
			start(f / 2);
		n = MAKE("nm", kid[0], 0);
		stop();
		if (k == 0 && vp_alloc_failed) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(kid[0]->refs == 0 && CLEAN,
				"failure: child consumed, nothing left");
			VP_ASSERT(MAKE("nm", NULL, 0) == NULL && CLEAN, "missing child refused");
			VP_COVER("failed");
			VP_END;
		}
		VP_ASSERT(n != NULL, "made");
		check_kids(n, 1);
#if VP_TYPE == T_many
		bounds(n, 0);
#endif
		if (k == 0) {
			done(n, 1);
			VP_COVER("made");
			VP_END;
		}
#ifdef SET
		start(f / 2);
		ret = SET(n, kid[1], 1);
		stop();
		if (vp_alloc_failed) {
			VP_ASSERT(ret == -1 && kid[1]->refs == 0,
				"failure reported, child consumed");
			check_kids(n, 1);
			done(n, 1);
			VP_COVER("not replaced");
		} else {
			VP_ASSERT(ret == 0 && kid[0]->refs == 0, "replaced");
			kid[0] = kid[1];
			check_kids(n, 1);
#if VP_TYPE == T_many
			bounds(n, 1);
#endif
			done(n, 1);
			VP_COVER("replaced");
		}
#else
		(void)ret;
		done(n, 1);
#endif
		VP_END;
	}
}
#endif
#if VP_TYPE == T_str || VP_TYPE == T_re || VP_TYPE == T_any
#if VP_TYPE == T_str
#define MAKE ec_node_str
#define SET ec_node_str_set_str
#define KEY "string"
#elif VP_TYPE == T_re
#define MAKE ec_node_re
#define SET ec_node_re_set_regexp
#define KEY "pattern"
#else
#define MAKE ec_node_any
#define KEY "attr"
#endif
static char t1[4] = "abc", t2[4] = "xy";
void h_make(void)
{
	int pick = (int)vp_nd(), f, k, ret = 0;
	struct ec_node *n;
	CASES(VP_MAXF * 3, f) {
		k = f % 3;
		if (k != 1)
			start(f / 3);
		n = MAKE("nm", k == 2 ? NULL : t1);
		stop();
#if VP_TYPE == T_any
		if (k == 2 && !vp_alloc_failed) {
			VP_ASSERT(n != NULL && conf(n, KEY) == NULL, "without attribute");
			done(n, 0);
			VP_END;
		}
#endif
		if (k == 2 || (k == 0 && vp_alloc_failed)) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(CLEAN, "failure: nothing left");
			VP_COVER("failed");
			VP_END;
		}
		VP_ASSERT(n != NULL && is_text(n->id, "nm"), "made");
		t1[0] = 'z';             /* a text of its own */
		VP_ASSERT(conf(n, KEY) != NULL && is_text(conf(n, KEY)->string, "abc"),
			"text as asked");
#ifdef SET
		if (k == 1) {
			start(f / 3);
			ret = SET(n, t2);
			stop();
			t2[0] = 'z';
			VP_ASSERT(ret == (vp_alloc_failed ? -1 : 0), "failure reported");
			VP_ASSERT(is_text(conf(n, KEY)->string, ret == 0 ? "xy" : "abc"),
				"replaced, or unchanged on failure");
			VP_ASSERT(SET(n, NULL) == -1 &&
				is_text(conf(n, KEY)->string, ret == 0 ? "xy" : "abc"),
				"missing text refused");
			VP_COVER("set");
		}
#endif
		(void)ret;
		done(n, 0);
		VP_COVER("made");
		VP_END;
	}
}
#endif
#if VP_TYPE == T_int
void h_make(void)
{
	int pick = (int)vp_nd(), f, k;
	int64_t mn = (int64_t)vp_nd(), mx = (int64_t)vp_nd();
	unsigned int base = (unsigned int)vp_nd();
	struct ec_node *n;
	VP_ASSUME(base <= INT_MAX);
	/* what a node accepts is its own decision (units leaf_int_*): here it does */
	ec_node_int_type.set_config = NULL;
	ec_node_uint_type.set_config = NULL;
	CASES(VP_MAXF * 2, f) {
		k = f % 2;
		start(f / 2);
		if (k == 0)
			n = ec_node_int("nm", mn, mx, base);
		else
			n = ec_node_uint("nm", (uint64_t)mn, (uint64_t)mx, base);
		stop();
		if (vp_alloc_failed) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(CLEAN, "failure: nothing left");
			VP_COVER("failed");
			VP_END;
		}
		VP_ASSERT(n != NULL && is_text(n->id, "nm") &&
			n->type == (k == 0 ? &ec_node_int_type : &ec_node_uint_type), "made");
		VP_ASSERT(conf(n, "min") != NULL && conf(n, "max") != NULL &&
			conf(n, "base") != NULL, "configured");
		if (k == 0)
			VP_ASSERT(conf(n, "min")->i64 == mn && conf(n, "max")->i64 == mx,
				"bounds as asked");
		else
			VP_ASSERT(conf(n, "min")->u64 == (uint64_t)mn &&
				conf(n, "max")->u64 == (uint64_t)mx, "bounds as asked");
		VP_ASSERT(conf(n, "base")->u64 == base, "base as asked");
		done(n, 0);
		VP_COVER("made");
		VP_END;
	}
}
#endif
#if VP_TYPE == T_cmd || VP_TYPE == T_cond
/* the configuration itself: units cmd_*, cond_* */
static int vp_set_any(struct ec_node *node, const struct ec_config *config)
{
	(void)node; (void)config;
	return vp_fail_now() ? -1 : 0;
}
static void vp_free_any(struct ec_node *node) { (void)node; }
#if VP_TYPE == T_cond
void h_make(void)
{
	int pick = (int)vp_nd(), f;
	struct ec_node *n;
	ec_node_cond_type.set_config = vp_set_any;
	ec_node_cond_type.free_priv = vp_free_any;
	CASES(VP_MAXF, f) {
		mkkids(1);
		start(f);
		n = ec_node_cond("nm", "abc", kid[0]);
		stop();
		if (vp_alloc_failed) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(kid[0]->refs == 0 && CLEAN, "failure: nothing left");
			VP_COVER("failed");
		} else {
			VP_ASSERT(n != NULL && is_text(n->id, "nm"), "made");
			VP_ASSERT(conf(n, "expr") != NULL && conf(n, "child") != NULL &&
				is_text(conf(n, "expr")->string, "abc") &&
				conf(n, "child")->node == kid[0], "configured as asked");
			done(n, 1);
			VP_COVER("made");
		}
		VP_END;
	}
}
#else
void h_make(void)
{
	int pick = (int)vp_nd(), f, k, i;
	struct ec_node *n;
	const struct ec_config *l, *c;
	bool miss = false;
	ec_node_cmd_type.set_config = vp_set_any;
	ec_node_cmd_type.free_priv = vp_free_any;
	CASES(VP_MAXF * 4, f) {
		k = f % 4;
		mkkids(k < 2 ? k : 3);
		if (k == 3) {
			ec_node_free(kid[1]);
			kid[1] = NULL;
			miss = true;
		}
		start(f / 4);
		if (k == 0)
			n = __ec_node_cmd("nm", "abc", EC_VA_END);
		else if (k == 1)
			n = __ec_node_cmd("nm", "abc", kid[0], EC_VA_END);
		else
			n = __ec_node_cmd("nm", "abc", kid[0], kid[1], kid[2], EC_VA_END);
		stop();
		if (k > 1)
			k = 3;
		if (miss || vp_alloc_failed) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(consumed(k) && CLEAN, "failure: all consumed, nothing left");
			VP_COVER("failed");
		} else {
			VP_ASSERT(n != NULL && is_text(n->id, "nm"), "made");
			l = conf(n, "children");
			VP_ASSERT(conf(n, "expr") != NULL && l != NULL &&
				is_text(conf(n, "expr")->string, "abc"), "configured as asked");
			c = TAILQ_FIRST(&l->list);
			for (i = 0; i < k; i++) {
				VP_ASSERT(c != NULL && c->node == kid[i], "children in order");
				c = TAILQ_NEXT(c, next);
			}
			VP_ASSERT(c == NULL, "no other child");
			done(n, k);
			VP_COVER("made");
		}
		VP_END;
	}
}
#endif
#endif
#if VP_TYPE == T_re_lex
void h_make(void)
{
	int pick = (int)vp_nd(), f;
	struct ec_node *n;
	CASES(VP_MAXF, f) {
		mkkids(1);
		start(f);
		n = ec_node_re_lex("nm", kid[0]);
		stop();
		if (vp_alloc_failed) {
			VP_ASSERT(n == NULL, "failure reported");
			VP_ASSERT(kid[0]->refs == 0 && CLEAN, "failure: nothing left");
			VP_ASSERT(ec_node_re_lex("nm", NULL) == NULL && CLEAN,
				"missing child refused");
			VP_COVER("failed");
		} else {
			VP_ASSERT(n != NULL, "made");
			check_kids(n, 1);
			done(n, 1);
			VP_COVER("made");
		}
		VP_END;
	}
}
static const char *const pat[2] = { "p", "q" };
static const char *const att[2] = { "t", NULL };
static void pats(struct ec_node *n, int cnt)
{
	const struct ec_config *l = conf(n, "patterns"), *c, *e;
	int i;
	if (cnt == 0) {
		VP_ASSERT(l == NULL || TAILQ_FIRST(&l->list) == NULL, "no pattern");
		return;
	}
	VP_ASSERT(l != NULL, "patterns");
	c = TAILQ_FIRST(&l->list);
	for (i = 0; i < cnt; i++) {
		VP_ASSERT(c != NULL, "as many patterns as added");
		e = ec_config_dict_get(c, "pattern");
		VP_ASSERT(e != NULL && is_text(e->string, pat[i]), "patterns in order");
		e = ec_config_dict_get(c, "keep");
		VP_ASSERT(e != NULL && e->boolean == (i == 0), "kept or not, as asked");
		e = ec_config_dict_get(c, "attr");
		VP_ASSERT(att[i] == NULL ? e == NULL :
			e != NULL && is_text(e->string, att[i]), "attribute as asked");
		c = TAILQ_NEXT(c, next);
	}
	VP_ASSERT(c == NULL, "no other pattern");
}
void h_add(void)
{
	int pick = (int)vp_nd(), f, k, ret;
	struct ec_node *n;
	CASES(VP_MAXF * 2, f) {
		k = f % 2;
		mkkids(1);
		n = ec_node_re_lex("nm", kid[0]);
		VP_ASSERT(n != NULL, "made");
		if (k == 1)
			VP_ASSERT(ec_node_re_lex_add(n, pat[0], 1, att[0]) == 0, "added");
		pats(n, k);
		start(f / 2);
		ret = ec_node_re_lex_add(n, pat[k], k == 0, att[k]);
		stop();
		if (vp_alloc_failed) {
			VP_ASSERT(ret == -1, "failure reported");
			pats(n, k);
			VP_COVER("failed");
		} else {
			VP_ASSERT(ret == 0, "added");
			pats(n, k + 1);
			VP_COVER("added");
		}
		check_kids(n, 1);
		done(n, 1);
		VP_END;
	}
}
#endif
