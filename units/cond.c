/* conditions (src/ecoli_node_cond.c): from the condition string to the result
 * of parsing, over given parse trees */
#define VP_REALLOC vp_arr_realloc
static void *vp_arr_realloc(void *ptr, unsigned long size);
#define VP_MALLOC vp_typed_malloc
static void *vp_typed_malloc(unsigned long size);
#define VP_OWN_STRDUP
#include "vp_alloc.h"
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_node.h>
#include <ecoli_strvec.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>
#define union struct
#include <ecoli_config.h>
#undef union
#include <ecoli_utils.h>
#include <ecoli_log.h>
#include <ecoli_init.h>
#include <ecoli_dict.h>
#include <ecoli_htable.h>
#include <ecoli_string.h>
#include <ecoli_node_helper.h>
#include <ecoli_node_re.h>
#include <ecoli_node_re_lex.h>
#ifndef VP_GN
#define VP_GN 40
#endif
#include "absgraph.h"
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
int ec_node_type_register(struct ec_node_type *type, bool override)
{ (void)override; (void)type; return 0; }
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }
int ec_log_type_register(const char *name) { (void)name; return 0; }
int ec_log(int type, enum ec_log_level level, const char *format, ...)
{ (void)type; (void)level; (void)format; return 0; }
void ec_init_register(struct ec_init *init) { (void)init; }
void *ec_node_priv(const struct ec_node *node)
{
	VP_ASSERT(node->priv != NULL, "private area of the right node");
	return node->priv;
}
static void *vp_arr_realloc(void *ptr, unsigned long size)
{
	void **p = NULL, **o = ptr;
	unsigned long i, n = size / sizeof(*p);
	switch (n) {
	case 1: p = malloc(1 * sizeof(void *)); break;
	case 2: p = malloc(2 * sizeof(void *)); break;
	case 3: p = malloc(3 * sizeof(void *)); break;
	case 4: p = malloc(4 * sizeof(void *)); break;
	default: VP_ASSERT(0, "harness: a few arguments");
	}
	VP_ASSUME(p != NULL);
	for (i = 0; o != NULL && i + 1 < n; i++)
		p[i] = o[i];
	free(o);
	return p;
}
#define TL 48
#define NTOK 24
#include "abslex.h"
struct ec_node *ec_node_any(const char *id, const char *attr)
{
	struct ec_node *n = vp_ctor(K_VAL, id);
	if (n != NULL)
		n->tok = attr;
	return n;
}
#define VP_TOKMATCH(g, pos) ((g)->kind == K_TOK ? same_text((g)->tok, vp_tk[pos]) : \
	(g)->tok == NULL || (vp_tka[pos] != NULL && same_text((g)->tok, vp_tka[pos])))
#define VP_OWN_PARSE_CHILD
#include "abswalk.h"
/* the tokens belong to the tree of a condition: two trees at most */
static char vp_keep[2][NTOK][TL];
const char *ec_strvec_val(const struct ec_strvec *v, size_t i)
{
	VP_ASSERT(v->pos >= 0, "a live tree");
	return i < (size_t)v->len ? vp_keep[v->pos / 100][v->pos % 100 + i] : NULL;
}
static int vp_trees, vp_ntree;
struct ec_pnode *ec_parse(const struct ec_node *node, const char *str)
{
	struct ec_pnode *p, *c;
	int i, j, base;
	VP_ASSERT(node != NULL && node == lx_node && node->refs > 0, "parsed by the lexer");
	if (vp_fail_now())
		return NULL;
	vp_trees++;
	vp_match = false;
	p = vp_pnew(node, 0);
	p->tag = 1;
	if (vp_tokens(str)) {
		c = vp_walk(node->kid[0], 0);
		if (c != NULL && c->vec.len == vp_nin && vp_nin > 0) {
			vp_link(p, c);
			p->vec.len = 1;
			vp_match = true;
		}
	}
	/* keep the tokens with the tree */
	VP_ASSERT(vp_ntree < 2, "harness: two trees");
	base = vp_ntree++;
	for (i = 0; i < vp_nin; i++)
		for (j = 0; j < TL; j++) {
			vp_keep[base][i][j] = vp_tk[i][j];
			if (vp_tk[i][j] == 0)
				break;
		}
	for (c = p->first; c != NULL;) {
		c->vec.pos += base * 100;
		if (c->first != NULL) {
			c = c->first;
			continue;
		}
		for (i = 0; i < TL && c != p && c->next == NULL; i++)
			c = c->parent;
		c = c == p ? NULL : c->next;
	}
	return p;
}
/* ---- parse trees: units parse_*, pnode_* ---------------------------------------- */
static const struct ec_pnode *vp_next(const struct ec_pnode *root,
	const struct ec_pnode *p, bool down)
{
	if (down && p->first != NULL)
		return p->first;
	while (p != root && p->parent != NULL) {
		if (p->next != NULL)
			return p->next;
		p = p->parent;
	}
	return NULL;
}
const struct ec_pnode *ec_pnode_find_next(const struct ec_pnode *root,
	const struct ec_pnode *prev, const char *id, bool iter_children)
{
	const struct ec_pnode *p;
	if (root == NULL)
		return NULL;
	VP_ASSERT(root->tag >= 0, "live tree");
	p = prev == NULL ? root : vp_next(root, prev, iter_children);
	while (p != NULL) {
		if (p->node != NULL && p->node->id != NULL && same_text(p->node->id, id))
			return p;
		p = vp_next(root, p, true);
	}
	return NULL;
}
const struct ec_pnode *ec_pnode_find(const struct ec_pnode *root, const char *id)
{ return ec_pnode_find_next(root, NULL, id, true); }
struct ec_pnode *ec_pnode_get_root(struct ec_pnode *p)
{
	if (p == NULL)
		return NULL;
	while (p->parent != NULL)
		p = p->parent;
	return p;
}
struct ec_pnode *__ec_pnode_iter_next(const struct ec_pnode *root,
	struct ec_pnode *pnode, bool iter_children)
{ return (struct ec_pnode *)vp_next(root, pnode, iter_children); }
void ec_pnode_unlink_child(struct ec_pnode *child)
{
	struct ec_pnode *p = child->parent, *q;
	if (p == NULL)
		return;
	if (p->first == child) {
		p->first = child->next;
		q = NULL;
	} else {
		for (q = p->first; q->next != child; q = q->next)
			;
		q->next = child->next;
	}
	if (p->last == child)
		p->last = q;
	child->parent = child->next = NULL;
}
static int vp_childfreed;
void ec_pnode_free(struct ec_pnode *p)
{
	if (p == NULL)
		return;
	VP_ASSERT(p->parent == NULL && (p->tag == 1 || p->tag == 2),
		"a detached tree is released, once");
	if (p->tag == 1)
		vp_trees--;
	else
		vp_childfreed++;
	p->tag = -1;
}
void ec_pnode_free_children(struct ec_pnode *p)
{
	VP_ASSERT(p->first != NULL && p->first == p->last && p->first->tag == 2,
		"the result of the child");
	p->first->tag = -1;
	p->first->parent = NULL;
	p->first = p->last = NULL;
	vp_childfreed++;
}
void ec_pnode_del_last_child(struct ec_pnode *p)
{
	struct ec_pnode *c = p->last;
	ec_pnode_unlink_child(c);
	ec_pnode_free(c);
}
/* ---- tables of pointers: units htable_* ------------------------------------------ */
#define HN 8
struct ec_htable_elt_ref { const void *key; struct ec_htable_elt_ref *next; };
struct ec_htable { int n; struct ec_htable_elt_ref *e[HN]; };
struct ec_htable *ec_htable(void)
{
	struct ec_htable *h;
	if (vp_fail_now())
		return NULL;
	h = malloc(sizeof(*h));
	VP_ASSUME(h != NULL);
	h->n = 0;
	vp_live++;
	return h;
}
static int vp_hfind(const struct ec_htable *h, const void *k)
{
	int i;
	for (i = 0; i < h->n; i++)
		if (h->e[i]->key == k)
			return i;
	return -1;
}
int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
	void *val, ec_htable_elt_free_t free_cb)
{
	struct ec_htable_elt_ref *r;
	const void *k = *(const void *const *)key;
	VP_ASSERT(key_len == sizeof(void *) && val == NULL && free_cb == NULL,
		"a set of nodes");
	if (vp_fail_now())
		return -1;
	if (vp_hfind(htable, k) >= 0)
		return 0;
	VP_ASSERT(htable->n < HN, "harness: small sets");
	r = malloc(sizeof(*r));
	VP_ASSUME(r != NULL);
	r->key = k;
	r->next = NULL;
	if (htable->n > 0)
		htable->e[htable->n - 1]->next = r;
	htable->e[htable->n++] = r;
	return 0;
}
bool ec_htable_has_key(const struct ec_htable *htable, const void *key, size_t key_len)
{
	VP_ASSERT(key_len == sizeof(void *), "a node");
	return vp_hfind(htable, *(const void *const *)key) >= 0;
}
void *ec_htable_get(const struct ec_htable *htable, const void *key, size_t key_len)
{ (void)htable; (void)key; (void)key_len; return NULL; }
size_t ec_htable_len(const struct ec_htable *htable) { return htable->n; }
struct ec_htable_elt_ref *ec_htable_iter(const struct ec_htable *htable)
{ return htable->n > 0 ? htable->e[0] : NULL; }
struct ec_htable_elt_ref *ec_htable_iter_next(struct ec_htable_elt_ref *iter)
{ return iter->next; }
const void *ec_htable_iter_get_key(const struct ec_htable_elt_ref *iter)
{ return &iter->key; }
void ec_htable_free(struct ec_htable *htable)
{
	if (htable == NULL)
		return;
	VP_ASSERT(htable->n >= 0, "released once");
	htable->n = -1;
	vp_live--;
}
/* ---- functions by name: units dict_* ---------------------------------------------- */
struct ec_dict { int n; const char *k[12]; void *v[12]; };
static struct ec_dict vp_dict;
static int vp_dicts;
struct ec_dict *ec_dict(void)
{
	if (vp_fail_now())
		return NULL;
	VP_ASSERT(vp_dicts == 0, "harness: one dictionary");
	vp_dicts++;
	vp_dict.n = 0;
	return &vp_dict;
}
int ec_dict_set(struct ec_dict *dict, const char *key, void *val,
	ec_dict_elt_free_t free_cb)
{
	VP_ASSERT(dict == &vp_dict && vp_dict.n < 12 && free_cb == NULL, "harness");
	if (vp_fail_now())
		return -1;
	dict->k[dict->n] = key;
	dict->v[dict->n++] = val;
	return 0;
}
void *ec_dict_get(const struct ec_dict *dict, const char *key)
{
	int i;
	for (i = 0; i < dict->n; i++)
		if (same_text(dict->k[i], key))
			return dict->v[i];
	return NULL;
}
void ec_dict_free(struct ec_dict *dict)
{
	if (dict == NULL)
		return;
	VP_ASSERT(vp_dicts == 1, "released once");
	vp_dicts--;
}
/* unit str_parse_llint */
int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
	int64_t max, int64_t *val)
{
	uint64_t v = 0;
	int i;
	VP_ASSERT(base == 0 || base == 10, "harness: decimal integers");
	VP_ASSERT(str[0] != '0' || str[1] == 0, "harness: decimal integers");
	for (i = 0; i < 20 && str[i] >= '0' && str[i] <= '9'; i++) {
		if (v > (INT64_MAX - (uint64_t)(str[i] - '0')) / 10) {
			*val = INT64_MAX;
			errno = ERANGE;
			return -1;
		}
		v = v * 10 + (str[i] - '0');
	}
	if (str[i] != 0 || i == 0) {
		*val = v;
		errno = EINVAL;
		return -1;
	}
	*val = v;
	if (*val < min || *val > max) {
		errno = ERANGE;
		return -1;
	}
	return 0;
}
/* ---- parsing and completion of the child: contract of any node --------------------- */
static struct ec_node *vp_kid;
static struct ec_pnode *vp_kidp;
static struct ec_strvec vp_in;
static int vp_mode, vp_kidn, vp_calls;     /* mode 0: no match, 1: error, 2: match */
int ec_parse_child(const struct ec_node *node, struct ec_pnode *pstate,
	const struct ec_strvec *strvec)
{
	VP_ASSERT(node == vp_kid && strvec == &vp_in && pstate->last == NULL,
		"the child parses the input");
	vp_calls++;
	if (vp_mode == 0)
		return EC_PARSE_NOMATCH;
	if (vp_mode == 1)
		return -1;
	vp_kidp = vp_pnew(node, 0);
	vp_kidp->tag = 2;
	vp_link(pstate, vp_kidp);
	return vp_kidn;
}
static int vp_cfwd;
static const struct ec_node *vp_fwd;
int ec_complete_child(const struct ec_node *node, struct ec_comp *comp,
	const struct ec_strvec *strvec)
{
	(void)comp; (void)strvec;
	vp_cfwd++;
	vp_fwd = node;
	return 7;
}
/* ---- configuration ---------------------------------------------------------------- */
static struct ec_config vp_cfg, vp_cexpr, vp_cchild;
static bool has_expr, has_child;
struct ec_config *ec_config_dict_get(const struct ec_config *config, const char *key)
{
	VP_ASSERT(config == &vp_cfg, "the given configuration");
	if (vp_is(key, "expr"))
		return has_expr ? &vp_cexpr : NULL;
	if (vp_is(key, "child"))
		return has_child ? &vp_cchild : NULL;
	return NULL;
}
struct ec_node *ec_node_from_type(const struct ec_node_type *type, const char *id)
{ (void)type; (void)id; return NULL; }
struct ec_config *ec_config_dict(void) { return NULL; }
struct ec_config *ec_config_string(const char *string) { (void)string; return NULL; }
struct ec_config *ec_config_node(struct ec_node *node) { (void)node; return NULL; }
int ec_config_dict_set(struct ec_config *config, const char *key,
	struct ec_config *value) { (void)config; (void)key; (void)value; return -1; }
int ec_node_set_config(struct ec_node *node, struct ec_config *config)
{ (void)node; (void)config; return -1; }
void ec_config_free(struct ec_config *config) { (void)config; }
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#ifdef VP_RES_T
#define union struct
#endif
#include "repo/ecoli_node_cond.c"
#undef union

static void *vp_typed_malloc(unsigned long size)
{
#ifdef VP_RES_T
	if (size == sizeof(VP_RES_T)) {
		VP_RES_T *p = malloc(sizeof(*p));
		return p;
	}
#endif
	return malloc(size);
}
static void self_new(void)
{
#ifdef VP_PRIV_T
	VP_PRIV_T *p = malloc(sizeof(*p));
	static VP_PRIV_T z;
	VP_ASSUME(p != NULL);
	*p = z;
	vp_self.priv = p;
#else
	vp_self.priv = calloc(1, ec_node_cond_type.size);
#endif
	vp_self.type = &ec_node_cond_type;
	vp_self.refs = 1;
	vp_self.id = "k";
}
/* ---- the tree over which the condition is evaluated ------------------------------- */
#ifndef VP_TREE
#define VP_TREE 0
#endif
#define NT 7
static struct ec_pnode *tr[NT];        /* [0] is the node itself */
static struct ec_node *trn[NT];
static int ntr, cur;
static int mkp(int parent, const char *id)
{
	int i = ntr++;
	trn[i] = vp_leaf(K_EMPTY, NULL);
	trn[i]->id = id;
	trn[i]->user = 1;
	tr[i] = vp_pnew(trn[i], 0);
	if (parent >= 0)
		vp_link(tr[parent], tr[i]);
	return i;
}
static void mktree(void)
{
	int r, b;
	ntr = 0;
	if (VP_TREE == 0) {
		/* r(a, b(a, c), <the node>) */
		r = mkp(-1, "r");
		mkp(r, "a");
		b = mkp(r, "b");
		mkp(b, "a");
		mkp(b, "c");
	} else if (VP_TREE == 1) {
		/* <the node> */
		r = -1;
	} else {
		/* r(b(b, <the node>)) */
		r = mkp(-1, "r");
		r = mkp(r, "b");
		mkp(r, "b");
	}
	cur = mkp(r, "k");
	tr[cur]->node = &vp_self;
}
/* the child of the node, once parsed, is "a" and comes last */
#define ALL (ntr + 1)
static const struct ec_pnode *pn(int i) { return i < ntr ? tr[i] : vp_kidp; }
static int pidx(const struct ec_pnode *p)
{
	int i;
	for (i = 0; i < ALL; i++)
		if (pn(i) == p)
			return i;
	return -1;
}
/* ---- reference: the documented meaning of a condition -------------------------------- */
enum { R_ERR = -1, R_SET, R_BOOL, R_INT, R_STR };
struct rv { int t; int64_t v; int pos, len; };
static const char *rs;
static int rpos;
static bool rbad;                        /* malformed */
static void blanks(void)
{
	int i;
	for (i = 0; i < TL && (rs[rpos] == ' ' || rs[rpos] == '\t'); i++)
		rpos++;
}
static bool rid0(char c)
{ return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool rdig(char c) { return c >= '0' && c <= '9'; }
static bool rword(int pos, int len, const char *w)
{
	int i;
	for (i = 0; i < len; i++)
		if (w[i] != rs[pos + i])
			return false;
	return w[i] == 0;
}
static bool truth(const struct rv *r)
{ return r->t == R_STR ? r->len > 0 : r->v != 0; }
static bool below(const struct ec_pnode *p, const struct ec_pnode *root)
{
	int i;
	for (i = 0; i < NT && p != NULL; i++) {
		if (p == root)
			return true;
		p = p->parent;
	}
	return false;
}
static struct rv rcall(int pos, int len, const struct rv *a, int n)
{
	struct rv r = { R_ERR, 0, 0, 0 };
	int i, k;
	for (i = 0; i < n; i++)
		if (a[i].t == R_ERR)
			return r;
	if (rword(pos, len, "root")) {
		if (n == 0) {
			r.t = R_SET;
			r.v = 1;             /* tr[0] */
		}
	} else if (rword(pos, len, "current")) {
		if (n == 0) {
			r.t = R_SET;
			r.v = (int64_t)1 << cur;
		}
	} else if (rword(pos, len, "bool")) {
		if (n == 1) {
			r.t = R_BOOL;
			r.v = truth(&a[0]);
		}
	} else if (rword(pos, len, "or")) {
		for (i = 0; n >= 2 && i < n - 1 && !truth(&a[i]); i++)
			;
		if (n >= 2)
			r = a[i];
	} else if (rword(pos, len, "and")) {
		for (i = 0; n >= 2 && i < n - 1 && truth(&a[i]); i++)
			;
		if (n >= 2)
			r = a[i];
	} else if (rword(pos, len, "first_child")) {
		if (n == 1 && a[0].t == R_SET) {
			r.t = R_SET;
			for (i = 0; i < ALL; i++)
				if ((a[0].v >> i & 1) && pn(i)->first != NULL)
					r.v |= (int64_t)1 << pidx(pn(i)->first);
		}
	} else if (rword(pos, len, "find")) {
		if (n == 2 && a[0].t == R_SET && a[1].t == R_STR) {
			r.t = R_SET;
			for (i = 0; i < ALL; i++)
				for (k = 0; k < ALL; k++)
					if ((a[0].v >> i & 1) && below(pn(k), pn(i)) &&
							rword(a[1].pos, a[1].len, pn(k)->node->id))
						r.v |= (int64_t)1 << k;
		}
	} else if (rword(pos, len, "count")) {
		if (n == 1 && a[0].t == R_SET) {
			r.t = R_INT;
			for (i = 0; i < ALL; i++)
				r.v += a[0].v >> i & 1;
		}
	} else if (rword(pos, len, "cmp")) {
		if (n == 3 && a[0].t == R_STR && a[1].t == a[2].t) {
			bool eq, gt = a[1].v > a[2].v, num = a[1].t == R_INT;
			if (a[1].t == R_STR) {
				eq = a[1].len == a[2].len;
				for (i = 0; eq && i < a[1].len; i++)
					eq = rs[a[1].pos + i] == rs[a[2].pos + i];
			} else {
				eq = a[1].v == a[2].v;
			}
			pos = a[0].pos;
			len = a[0].len;
			r.t = R_BOOL;
			if (rword(pos, len, "eq"))
				r.v = eq;
			else if (rword(pos, len, "ne"))
				r.v = !eq;
			else if (num && rword(pos, len, "lt"))
				r.v = !gt && !eq;
			else if (num && rword(pos, len, "gt"))
				r.v = gt;
			else if (num && rword(pos, len, "le"))
				r.v = !gt;
			else if (num && rword(pos, len, "ge"))
				r.v = gt || eq;
			else
				r.t = R_ERR;
		}
	}
	return r;
}
static struct rv reval(void)
{
	struct rv r = { R_ERR, 0, 0, 0 }, a[4];
	int i, n = 0;
	blanks();
	if (rdig(rs[rpos])) {
		r.t = R_INT;
		for (i = 0; i < TL && rdig(rs[rpos]); i++, rpos++) {
			if (r.t == R_ERR || r.v > (INT64_MAX - (rs[rpos] - '0')) / 10)
				r.t = R_ERR;
			else
				r.v = r.v * 10 + (rs[rpos] - '0');
		}
		return r;
	}
	if (!rid0(rs[rpos])) {
		rbad = true;
		return r;
	}
	r.pos = rpos;
	for (i = 0; i < TL && (rid0(rs[rpos]) || rdig(rs[rpos]) || rs[rpos] == '.'); i++)
		rpos++;
	r.len = rpos - r.pos;
	blanks();
	if (rs[rpos] != '(') {
		r.t = R_STR;
		return r;
	}
	rpos++;
	blanks();
	if (rs[rpos] != ')') {
		for (i = 0; i < 5; i++) {
			VP_ASSERT(n < 4, "harness: a few arguments");
			a[n++] = reval();
			blanks();
			if (rbad || rs[rpos] != ',')
				break;
			rpos++;
		}
		if (rs[rpos] != ')')
			rbad = true;
	}
	if (rbad)
		return r;
	rpos++;
	return rcall(r.pos, r.len, a, n);
}

/* ---- harnesses ------------------------------------------------------------------------ */
#ifndef VP_CONDS
#define VP_CONDS "root()", "a"
#endif
static const char *const conds[] = { VP_CONDS };
#define NCOND ((int)(sizeof(conds) / sizeof(conds[0])))
#ifndef VP_MAXF
#define VP_MAXF 1
#endif
static int parser_init(void)
{
	int r = ec_node_cond_init.init();
	if (r == 0)
		lx_node->user = 1;       /* kept as long as the library is in use */
	return r;
}
static char condbuf[TL];
static void mkconf(const char *s)
{
	int i;
	for (i = 0; i < TL - 1 && s[i] != 0; i++)
		condbuf[i] = s[i];
	VP_ASSERT(i < TL - 1, "harness: short conditions");
	condbuf[i] = 0;
	vp_cexpr.type = EC_CONFIG_TYPE_STRING;
	vp_cexpr.string = condbuf;
	vp_cchild.type = EC_CONFIG_TYPE_NODE;
	vp_cchild.node = vp_kid;
	has_expr = has_child = true;
}
static void mkkid(void)
{
	vp_kid = vp_leaf(K_TOK, "x");
	vp_kid->id = "a";
	vp_kid->user = 1;
}
/* the outcome of one parse, with the f-th allocation failing */
static void parse_once(int f)
{
	struct rv want;
	long live1 = vp_live;
	int ret;
	mktree();
	vp_childfreed = vp_calls = 0;
	vp_kidp = NULL;
	vp_alloc_failed = false;
	vp_fail_at = f >= 0 ? vp_alloc_count + f : UINT64_MAX;
	ret = ec_node_cond_type.parse(&vp_self, tr[cur], &vp_in);
	VP_ASSERT(vp_calls == 1, "the child is parsed once");
	VP_ASSERT(vp_live == live1 && vp_trees == 1, "nothing left, condition kept");
	if (vp_mode == 0) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH && tr[cur]->first == NULL, "no match");
		return;
	}
	if (vp_mode == 1) {
		VP_ASSERT(ret < 0, "error of the child reported");
		return;
	}
	/* evaluated with the result of the child in the tree */
	if (tr[cur]->first == NULL) {
		vp_kidp->tag = 2;
		vp_link(tr[cur], vp_kidp);
		vp_kidp->tag = -1;
	}
	rpos = 0;
	rbad = false;
	want = reval();
	if (vp_alloc_failed || want.t == R_ERR) {
		VP_ASSERT(ret < 0, "failure reported, never a match");
	} else if (truth(&want)) {
		VP_ASSERT(ret == vp_kidn && vp_kidp->tag == 2 && vp_childfreed == 0,
			"true: matches as the child");
	} else {
		VP_ASSERT(ret == EC_PARSE_NOMATCH && vp_kidp->tag == -1 &&
			vp_childfreed == 1, "false: no match, result of the child released");
	}
}
void h_cond(void)
{
	int pick = (int)vp_nd(), pickf = (int)vp_nd(), i, f, ret;
	long live0;
	VP_ASSERT(parser_init() == 0, "initialised");
	live0 = vp_live;
	self_new();
	mkkid();
	for (i = 0; i < NCOND; i++) {
		if (pick != i)
			continue;
		rs = conds[i];
		rpos = 0;
		rbad = false;
		mktree();
		vp_kidp = vp_pnew(vp_kid, 0);
		(void)reval();
		blanks();
		if (rs[rpos] != 0)
			rbad = true;
		mkconf(rs);
		ret = ec_node_cond_type.set_config(&vp_self, &vp_cfg);
		if (rbad) {
			VP_ASSERT(ret == -1, "malformed: refused");
			VP_ASSERT(ec_node_cond_type.get_children_count(&vp_self) == 0 &&
				vp_live == live0 && vp_trees == 0, "refused: nothing left");
			vp_balance();
			VP_END;
		}
		VP_ASSERT(ret == 0 && vp_trees == 1, "accepted");
		VP_COVER("accepted");
		for (f = 0; f < VP_MAXF; f++) {
			if (pickf != f)
				continue;
			vp_mode = 2;
			vp_kidn = f & 1 ? 0 : 2;
			parse_once(VP_MAXF > 2 ? f : -1);
			VP_END;
		}
		VP_END;
	}
}
/* outcomes of the child that do not depend on the condition; completion */
void h_child(void)
{
	int pick = (int)vp_nd(), i;
	VP_ASSERT(parser_init() == 0, "initialised");
	self_new();
	mkkid();
	rs = "current()";
	mkconf(rs);
	VP_ASSERT(ec_node_cond_type.set_config(&vp_self, &vp_cfg) == 0, "accepted");
	for (i = 0; i < 3; i++) {
		if (pick != i)
			continue;
		vp_mode = i;
		if (i == 2) {
			VP_ASSERT(ec_node_cond_type.complete(&vp_self, NULL, &vp_in) == 7 &&
				vp_cfwd == 1 && vp_fwd == vp_kid, "completed as the child");
			VP_COVER("completion");
		} else {
			parse_once(-1);
			VP_COVER("parsed");
		}
		VP_END;
	}
}
/* configuration, with any failing step, twice */
void h_conf(void)
{
	int pickf = (int)vp_nd(), f, ret;
	long live0;
	struct ec_node *c = NULL, *kid0;
	unsigned int refs = 0;
	VP_ASSERT(parser_init() == 0, "initialised");
	live0 = vp_live;
	self_new();
	mkkid();
	kid0 = vp_kid;
#ifdef VP_TWICE
	mkconf("a");
	VP_ASSERT(ec_node_cond_type.set_config(&vp_self, &vp_cfg) == 0, "accepted");
	vp_kid->user = 2;        /* the configuration; the one the node keeps to itself */
	if (VP_TWICE == 2)
		mkkid();
	vp_kid->user = 1;
#endif
	rs = "and(root(), cmp(eq, a, b))";
	mkconf(rs);
	for (f = 0; f < VP_MAXF; f++) {
		if (pickf != f)
			continue;
		if (f == 1)
			has_expr = false;
		else if (f == 2)
			has_child = false;
		else if (f == 3)
			mkconf("root(");
		vp_alloc_failed = false;
		vp_fail_at = f > 3 ? vp_alloc_count + f - 4 : UINT64_MAX;
		ret = ec_node_cond_type.set_config(&vp_self, &vp_cfg);
		kid0->user = vp_kid->user = 1;
		if ((f >= 1 && f <= 3) || vp_alloc_failed) {
			VP_ASSERT(ret == -1, "refused");
#ifdef VP_TWICE
			VP_ASSERT(ec_node_cond_type.get_child(&vp_self, 0, &c, &refs) == 0 &&
				c == kid0 && vp_trees == 1, "refused: unchanged");
			rs = "a";        /* the former condition */
#else
			VP_ASSERT(ec_node_cond_type.get_children_count(&vp_self) == 0 &&
				vp_trees == 0 && vp_live == live0, "refused: unchanged");
#endif
			VP_COVER("refused");
		} else {
			VP_ASSERT(ret == 0, "accepted");
			VP_ASSERT(ec_node_cond_type.get_children_count(&vp_self) == 1 &&
				ec_node_cond_type.get_child(&vp_self, 0, &c, &refs) == 0 &&
				c == vp_kid && vp_trees == 1, "replaced");
			VP_COVER("accepted");
		}
		VP_ASSERT(ec_node_cond_type.get_child(&vp_self, 1, &c, &refs) < 0,
			"a single child");
		vp_fail_at = UINT64_MAX;
		if (vp_trees == 1) {
			vp_kid = c;
			vp_mode = 2;
			vp_kidn = 1;
			parse_once(-1);
		}
		if (vp_trees == 1) {
			int r = (int)c->refs - c->user;
			VP_ASSERT(r == 1 && refs == 2, "one reference, two with that of the "
				"configuration");
		}
		ec_node_cond_type.free_priv(&vp_self);
		free(vp_self.priv);
		vp_self.priv = NULL;
		vp_self.type = NULL;
		VP_ASSERT(vp_live == live0 && vp_trees == 0, "all released");
		vp_balance();
		VP_END;
	}
}
/* initialisation with any failure; everything is released in the end */
#ifndef VP_MOD
#define VP_MOD 1
#define VP_REM 0
#endif
void h_init(void)
{
	int pickf = (int)vp_nd(), f, r;
	for (f = VP_REM; f < VP_MAXF; f += VP_MOD) {
		if (pickf != f)
			continue;
		vp_fail_at = f;
		r = ec_node_cond_init.init();
		VP_ASSERT(r == (vp_alloc_failed ? -1 : 0), "failure reported");
		if (vp_alloc_failed)
			VP_COVER("failed");
		if (r == 0) {
			VP_COVER("initialised");
			ec_node_cond_init.exit();
		}
		VP_ASSERT(vp_live == 0 && vp_dicts == 0, "no memory left");
		vp_balance();
		VP_END;
	}
}
