/* command nodes (src/ecoli_node_cmd.c), with the expressions they are made of
 * (src/ecoli_node_expr.c): from the command string to the grammar */
#define VP_REALLOC vp_arr_realloc
static void *vp_arr_realloc(void *ptr, unsigned long size);
#define VP_OWN_STRDUP
#include "vp_alloc.h"
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_node.h>
#include <ecoli_strvec.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>
#define union struct
#include <ecoli_config.h>
#undef union
#include <ecoli_utils.h>
#include <ecoli_log.h>
#include <ecoli_init.h>
#include <ecoli_node_helper.h>
#include <ecoli_node_re.h>
#include <ecoli_node_re_lex.h>
#include <assert.h>
#undef assert
#define assert(c) VP_ASSERT(c, "internal assertion of the library")
#ifndef VP_GN
#define VP_GN 190
#endif
static struct ec_node *vp_expr_new(void);
#define VP_NODE_EXTRA if (vp_is(type, "expr")) return vp_expr_new();
#include "absgraph.h"
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
int ec_node_type_register(struct ec_node_type *type, bool override)
{ (void)override; (void)type; return 0; }
int ec_log_type_register(const char *name) { (void)name; return 0; }
int ec_log(int type, enum ec_log_level level, const char *format, ...)
{ (void)type; (void)level; (void)format; return 0; }
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }
void ec_init_register(struct ec_init *init) { (void)init; }
void *ec_node_priv(const struct ec_node *node)
{
	VP_ASSERT(node->priv != NULL, "private area of the right node");
	return node->priv;
}
int ec_node_check_type(const struct ec_node *node,
		const struct ec_node_type *type)
{
	if (node->type != type) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}
static void *vp_arr_realloc(void *ptr, unsigned long size)
{
	struct ec_node **p = NULL, **o = ptr;
	unsigned long i, n = size / sizeof(*p);
	switch (n) {
	case 1: p = malloc(1 * sizeof(struct ec_node *)); break;
	case 2: p = malloc(2 * sizeof(struct ec_node *)); break;
	case 3: p = malloc(3 * sizeof(struct ec_node *)); break;
	case 4: p = malloc(4 * sizeof(struct ec_node *)); break;
	default: VP_ASSERT(0, "harness: array of a few nodes");
	}
	VP_ASSUME(p != NULL);
	for (i = 0; o != NULL && i + 1 < n; i++)
		p[i] = o[i];
	free(o);
	return p;
}
#include "abslex.h"
struct ec_node *ec_node_re(const char *id, const char *str)
{
	struct ec_node *n = vp_ctor(K_VAL, id);
	(void)id;
	if (n != NULL)
		n->tok = str;
	return n;
}
#define VP_TOKMATCH(g, pos) ((g)->kind == K_TOK ? same_text((g)->tok, vp_tk[pos]) : \
	re_match((g)->tok, vp_tk[pos]) == vp_len(vp_tk[pos]))
static int vp_len(const char *s)
{
	int i;
	for (i = 0; i < TL && s[i] != 0; i++)
		;
	return i;
}
#include "abswalk.h"
const char *ec_strvec_val(const struct ec_strvec *v, size_t i)
{ return i < (size_t)v->len ? vp_tk[v->pos + i] : NULL; }
static int vp_trees;
static struct ec_pnode *vp_top;
struct ec_pnode *ec_parse(const struct ec_node *node, const char *str)
{
	struct ec_pnode *p, *c;
	VP_ASSERT(node != NULL && node == lx_node && node->refs > 0, "parsed by the lexer");
	if (vp_fail_now())
		return NULL;
	vp_trees++;
	vp_match = false;
	p = vp_top = vp_pnew(node, 0);
	if (vp_tokens(str)) {
		c = vp_walk(node->kid[0], 0);
		if (c != NULL && c->vec.len == vp_nin && vp_nin > 0) {
			vp_link(p, c);
			p->vec.len = 1;
			vp_match = true;
		}
	}
	return p;
}
void ec_pnode_free(struct ec_pnode *p)
{
	if (p == NULL)
		return;
	VP_ASSERT(p == vp_top && vp_trees == 1, "tree released once");
	vp_trees--;
}
static int vp_cfwd;
static const struct ec_node *vp_fwd;
int ec_complete_child(const struct ec_node *node, struct ec_comp *comp,
	const struct ec_strvec *strvec)
{
	(void)comp; (void)strvec;
	vp_cfwd++;
	vp_fwd = node;
	return 7;
}
/* ---- configuration ---------------------------------------------------------------- */
static struct ec_config vp_cfg, vp_cexpr, vp_clist;
static struct ec_node *tab[3];
static int ntab;
static bool has_expr, has_list;
struct ec_config *ec_config_dict_get(const struct ec_config *config, const char *key)
{
	VP_ASSERT(config == &vp_cfg, "the given configuration");
	if (vp_is(key, "expr"))
		return has_expr ? &vp_cexpr : NULL;
	if (vp_is(key, "children"))
		return has_list ? &vp_clist : NULL;
	return NULL;
}
struct ec_node **ec_node_config_node_list_to_table(const struct ec_config *config,
	size_t *len)
{
	struct ec_node **t = NULL;
	int i;
	*len = 0;
	if (config == NULL) {
		errno = EINVAL;
		return NULL;
	}
	VP_ASSERT(config == &vp_clist, "the list of children");
	if (vp_fail_now())
		return NULL;
	switch (ntab) {
	case 0: t = malloc(1); break;
	case 1: t = malloc(1 * sizeof(struct ec_node *)); break;
	case 2: t = malloc(2 * sizeof(struct ec_node *)); break;
	default: t = malloc(3 * sizeof(struct ec_node *)); break;
	}
	VP_ASSUME(t != NULL);
	vp_live++;
	for (i = 0; i < ntab; i++)
		t[i] = ec_node_clone(tab[i]);
	*len = ntab;
	return t;
}
struct ec_config *ec_node_config_node_list_from_vargs(va_list ap)
{ (void)ap; return NULL; }
struct ec_node *ec_node_from_type(const struct ec_node_type *type, const char *id)
{ (void)type; (void)id; return NULL; }
struct ec_config *ec_config_dict(void) { return NULL; }
struct ec_config *ec_config_string(const char *string) { (void)string; return NULL; }
int ec_config_dict_set(struct ec_config *config, const char *key,
	struct ec_config *value) { (void)config; (void)key; (void)value; return -1; }
int ec_node_set_config(struct ec_node *node, struct ec_config *config)
{ (void)node; (void)config; return -1; }
void ec_config_free(struct ec_config *config) { (void)config; }
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#include "repo/ecoli_node_expr.c"
#include "repo/ecoli_node_cmd.c"

static struct ec_node *vp_expr_new(void)
{
	struct ec_node *n = vp_ctor(K_SELF, EC_NO_ID);
	if (n == NULL)
		return NULL;
	n->type = &ec_node_expr_type;
#ifdef VP_PRIV_T
	VP_PRIV_T *p = malloc(sizeof(*p));
	static VP_PRIV_T z;
	VP_ASSUME(p != NULL);
	*p = z;
	n->priv = p;
#else
	n->priv = calloc(1, ec_node_expr_type.size);
#endif
	return n;
}
static void self_new(void)
{
#ifdef VP_PRIV2_T
	VP_PRIV2_T *p = malloc(sizeof(*p));
	static VP_PRIV2_T z;
	VP_ASSUME(p != NULL);
	*p = z;
	vp_self.priv = p;
#else
	vp_self.priv = calloc(1, ec_node_cmd_type.size);
#endif
	vp_self.type = &ec_node_cmd_type;
	vp_self.refs = 1;
}

/* ---- reference: the documented meaning of a command string -------------------------- */
struct ref {
	int kind;                        /* K_* */
	int pos, len;                    /* the word */
	int n, kid[6];
	int min;
};
#define NR 24
static struct ref rf[NR];
static int nrf, rpos;
static const char *rs;
static int rmk(int kind)
{
	VP_ASSERT(nrf < NR, "harness: short commands");
	rf[nrf].kind = kind;
	rf[nrf].n = 0;
	rf[nrf].min = 0;
	return nrf++;
}
static bool isword(char c)
{
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
		(c >= '0' && c <= '9') || c == '_' || c == '-';
}
static void blanks(void)
{
	int i;
	for (i = 0; i < TL && (rs[rpos] == ' ' || rs[rpos] == '\t'); i++)
		rpos++;
}
static int ref_seq(void);
static int ref_item(void)
{
	int r, k, i;
	char c;
	blanks();
	c = rs[rpos];
	if (isword(c)) {
		r = rmk(K_TOK);
		rf[r].pos = rpos;
		for (i = 0; i < TL && isword(rs[rpos]); i++)
			rpos++;
		rf[r].len = rpos - rf[r].pos;
	} else if (c == '(' || c == '[') {
		rpos++;
		r = ref_seq();
		blanks();
		if (r < 0 || rs[rpos] != (c == '(' ? ')' : ']'))
			return -1;
		rpos++;
		if (c == '[') {
			k = rmk(K_OPTION);
			rf[k].n = 1;
			rf[k].kid[0] = r;
			r = k;
		}
	} else {
		return -1;
	}
	for (i = 0; i < 6; i++) {
		blanks();
		if (rs[rpos] != '*' && rs[rpos] != '+')
			break;
		k = rmk(K_MANY);
		rf[k].n = 1;
		rf[k].kid[0] = r;
		rf[k].min = rs[rpos] == '+';
		rpos++;
		r = k;
	}
	return r;
}
/* kind: K_SUBSET items "," - K_OR of them "|" - K_SEQ of them */
static int ref_list(int kind)
{
	int r, k = -1, i;
	r = kind == K_SUBSET ? ref_item() : ref_list(kind == K_OR ? K_SUBSET : K_OR);
	for (i = 0; r >= 0 && i < 5; i++) {
		int q;
		blanks();
		if (kind == K_SEQ) {
			if (!isword(rs[rpos]) && rs[rpos] != '(' && rs[rpos] != '[')
				break;
		} else {
			if (rs[rpos] != (kind == K_OR ? '|' : ','))
				break;
			rpos++;
		}
		q = kind == K_SUBSET ? ref_item() :
			ref_list(kind == K_OR ? K_SUBSET : K_OR);
		if (q < 0)
			return -1;
		if (k < 0) {
			k = rmk(kind);
			rf[k].n = 1;
			rf[k].kid[0] = r;
			r = k;
		}
		rf[k].kid[rf[k].n++] = q;
	}
	return r;
}
static int ref_seq(void) { return ref_list(K_SEQ); }

static bool rword(int r, const char *w)
{
	int i;
	for (i = 0; i < rf[r].len; i++)
		if (w[i] != rs[rf[r].pos + i])
			return false;
	return w[i] == 0;
}
/* sequences of sequences and choices of choices are the same language as one
 * list; a subset is extended by what follows it */
static int rflat(int r, int kind, int *out, int n)
{
	int i;
	if (rf[r].kind != kind) {
		out[n] = r;
		return n + 1;
	}
	for (i = 0; i < rf[r].n; i++) {
		if (kind == K_SUBSET && i > 0) {
			out[n++] = rf[r].kid[i];
			continue;
		}
		n = rflat(rf[r].kid[i], kind, out, n);
	}
	return n;
}
static bool is_tab(const struct ec_node *g)
{ return g == tab[0] || g == tab[1] || g == tab[2]; }
static int gflat(const struct ec_node *g, int kind, const struct ec_node **out, int n)
{
	int i;
	if ((int)g->kind != kind || is_tab(g)) {
		out[n] = g;
		return n + 1;
	}
	for (i = 0; i < g->n; i++) {
		if (kind == K_SUBSET && i > 0) {
			out[n++] = g->kid[i];
			continue;
		}
		n = gflat(g->kid[i], kind, out, n);
	}
	return n;
}
static bool means(int r, const struct ec_node *g)
{
	int out[8], i, n;
	const struct ec_node *go[8];
	VP_ASSERT(g->refs > 0, "live node");
	if (rf[r].kind == K_TOK) {
		for (i = 0; i < ntab; i++)
			if (tab[i]->id != NULL && rword(r, tab[i]->id))
				return g == tab[i];
		return g->kind == K_TOK && !is_tab(g) && rword(r, g->tok);
	}
	if (is_tab(g) || (int)g->kind != rf[r].kind)
		return false;
	if (rf[r].kind == K_MANY && ((int)g->min != rf[r].min || g->max != 0))
		return false;
	if (rf[r].kind == K_MANY || rf[r].kind == K_OPTION)
		return means(rf[r].kid[0], g->kid[0]);
	n = rflat(r, rf[r].kind, out, 0);
	if (gflat(g, rf[r].kind, go, 0) != n)
		return false;
	for (i = 0; i < n; i++)
		if (!means(out[i], go[i]))
			return false;
	return true;
}

/* ---- harnesses ------------------------------------------------------------------------ */
#ifndef VP_CMDS
#define VP_CMDS "a", "a b"
#endif
static const char *const cmds[] = { VP_CMDS };
#define NCMD ((int)(sizeof(cmds) / sizeof(cmds[0])))
#ifndef VP_MAXF
#define VP_MAXF 1
#endif
static int parser_init(void)
{
	int r = ec_node_cmd_init.init();
	if (r == 0) {
		/* kept as long as the library is in use */
		lx_node->user = 1;
		lx_node->kid[0]->user = 1;
	}
	return r;
}
/* named nodes: x sequence, y choice, z subset, of two words each */
static const enum vp_kind tabk[3] = { K_SEQ, K_OR, K_SUBSET };
static const char *const tabid[3] = { "x", "y", "z" };
static void mktab(void)
{
	int i;
	for (i = 0; i < ntab; i++) {
		tab[i] = vp_mk(tabk[i]);
		tab[i]->id = tabid[i];
#ifdef VP_NOID
		if (i == 0)
			tab[i]->id = NULL;
#endif
#ifdef VP_SAMEID
		tab[i]->id = tabid[0];
#endif
		tab[i]->n = 2;
		tab[i]->kid[0] = vp_leaf(K_TOK, "p");
		tab[i]->kid[1] = vp_leaf(K_TOK, "q");
		tab[i]->user = 1;        /* reference of the configuration */
	}
}
static char cmdbuf[TL];
static void mkconf(const char *s)
{
	int i;
	for (i = 0; i < TL - 1 && s[i] != 0; i++)
		cmdbuf[i] = s[i];
	cmdbuf[i] = 0;
	vp_cexpr.type = EC_CONFIG_TYPE_STRING;
	vp_cexpr.string = cmdbuf;
	has_expr = has_list = true;
}
#ifndef VP_NTAB
#define VP_NTAB 0
#endif
void h_cmd(void)
{
	int pick = (int)vp_nd(), pickf = (int)vp_nd(), i, f, k, want, ret;
	long live0;
	struct ec_node *cmd = NULL;
	unsigned int refs = 0;
	VP_ASSERT(parser_init() == 0, "initialised");
	live0 = vp_live;
	ntab = VP_NTAB;
	mktab();
	self_new();
	for (i = 0; i < NCMD; i++) {
		if (pick != i)
			continue;
		rs = cmds[i];
		rpos = nrf = 0;
		want = ref_seq();
		blanks();
		if (rs[rpos] != 0)
			want = -1;
		mkconf(rs);
		for (f = 0; f < VP_MAXF; f++) {
			if (pickf != f)
				continue;
			vp_alloc_failed = false;
			if (VP_MAXF > 1)
				vp_fail_at = vp_alloc_count + f;
			ret = ec_node_cmd_type.set_config(&vp_self, &vp_cfg);
			VP_ASSERT(vp_trees == 0, "parse tree of the command released");
			for (k = 0; k < ntab; k++)
				VP_ASSERT(tab[k]->n == 2 &&
					same_text(tab[k]->kid[0]->tok, "p") &&
					same_text(tab[k]->kid[1]->tok, "q"),
					"the named nodes are not modified");
			if (want < 0 || vp_alloc_failed) {
				VP_ASSERT(ret == -1, "refused");
				VP_ASSERT(ec_node_cmd_type.get_children_count(&vp_self) == 0,
					"refused: unchanged");
				VP_ASSERT(vp_live == live0, "refused: nothing left");
				VP_COVER("refused");
			} else {
				VP_ASSERT(ret == 0, "accepted");
				VP_ASSERT(ec_node_cmd_type.get_child(&vp_self, 0, &cmd,
					&refs) == 0, "a command");
				VP_ASSERT(means(want, cmd),
					"the grammar of the command is the documented one");
				for (k = 0; k < ntab; k++)
					tab[k]->user = 0; /* reported with the node */
				vp_balance();
				/* parsing and completion are those of the grammar */
				vp_cfwd = 0;
				VP_ASSERT(ec_node_cmd_type.complete(&vp_self, NULL, NULL)
					== 7 && vp_cfwd == 1 && vp_fwd == cmd,
					"completed as the grammar");
				ec_node_cmd_type.free_priv(&vp_self);
				VP_ASSERT(vp_live == live0, "all released");
				for (k = 0; k < ntab; k++)
					tab[k]->user = 1;
				VP_COVER("accepted");
			}
			free(vp_self.priv);
			vp_self.priv = NULL;
			vp_balance();
			VP_END;
		}
		VP_END;
	}
}
/* replacing the command: the old one is released, or kept on failure */
void h_again(void)
{
	int pickf = (int)vp_nd(), f, ret;
	long live0;
	struct ec_node *cmd = NULL, *cmd1 = NULL;
	unsigned int refs = 0;
	VP_ASSERT(parser_init() == 0, "initialised");
	live0 = vp_live;
	ntab = 1;
	mktab();
	self_new();
	mkconf("x|b");
	VP_ASSERT(ec_node_cmd_type.set_config(&vp_self, &vp_cfg) == 0, "accepted");
	ec_node_cmd_type.get_child(&vp_self, 0, &cmd, &refs);
	mkconf("[c]");
	for (f = 0; f < VP_MAXF; f++) {
		if (pickf != f)
			continue;
		if (f == 1)
			has_expr = false;
		else if (f == 2)
			has_list = false;
		vp_alloc_failed = false;
		vp_fail_at = f > 2 ? vp_alloc_count + f - 3 : UINT64_MAX;
		ret = ec_node_cmd_type.set_config(&vp_self, &vp_cfg);
		ec_node_cmd_type.get_child(&vp_self, 0, &cmd1, &refs);
		tab[0]->user = 0;            /* reported with the node */
		if (f == 1 || f == 2 || vp_alloc_failed) {
			VP_ASSERT(ret == -1, "refused");
			VP_ASSERT(cmd1 == cmd && cmd->refs == 1, "refused: unchanged");
			VP_COVER("refused");
		} else {
			VP_ASSERT(ret == 0, "accepted");
			VP_ASSERT(cmd1->kind == K_OPTION, "replaced");
			VP_ASSERT(cmd->refs == 0, "old command released");
			VP_COVER("accepted");
		}
		vp_balance();
		ec_node_cmd_type.free_priv(&vp_self);
		VP_ASSERT(vp_live == live0, "all released");
		VP_END;
	}
}
/* initialisation with any failure; everything is released in the end */
#ifndef VP_MOD
#define VP_MOD 1
#define VP_REM 0
#endif
void h_init(void)
{
	int pickf = (int)vp_nd(), f, r;
	for (f = VP_REM; f < VP_MAXF; f += VP_MOD) {
		if (pickf != f)
			continue;
		vp_fail_at = f;
		r = ec_node_cmd_init.init();
		VP_ASSERT(r == (vp_alloc_failed ? -1 : 0), "failure reported");
		if (vp_alloc_failed)
			VP_COVER("failed");
		if (r == 0)
			ec_node_cmd_init.exit();
		VP_ASSERT(vp_live == 0, "no memory left");
		vp_balance();
		VP_END;
	}
}
