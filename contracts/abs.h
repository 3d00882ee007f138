/* Contracts of the parsing / completion / configuration layer, as seen by a
 * node type (src/ecoli_node_*.c), over an abstract state:
 *
 *   string vector  = a slice [off, off+len) of one list of tokens
 *   parse tree     = an ordered list of children, each (node, off, len)
 *   child node     = an arbitrary deterministic matcher: what it answers on a
 *                    slice is an arbitrary function vp_R[node][off][len]
 *   completion     = the count of requests (node, slice), and the parse state
 *                    each was made in
 *
 * Each function below is a contract: it asserts its precondition, changes the
 * abstract state, and returns any result its postcondition allows.  The same
 * postconditions are checked against the real implementations by the units
 * parse_*, strvec_*, complete_*, node_*, config_*.
 */
#ifndef ABS_H
#define ABS_H
#include "vp.h"
#include "vp_alloc.h"
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_node.h>
#include <ecoli_strvec.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>
#include <ecoli_config.h>
#include <ecoli_dict.h>
#include <ecoli_htable.h>
#include <ecoli_log.h>

#ifndef VP_NTOK
#define VP_NTOK 3
#endif
#ifndef VP_NNODE
#define VP_NNODE 3
#endif
#ifndef VP_MAXKID
#define VP_MAXKID 6
#endif

#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
/* ---- logs, registration -------------------------------------------------- */
int ec_log_type_register(const char *name) { (void)name; return 0; }
int ec_log(int type, enum ec_log_level level, const char *format, ...)
{ (void)type; (void)level; (void)format; return 0; }
int __ec_log_unused;
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }

static struct ec_node_type *vp_types[2];
static unsigned vp_ntypes;
int ec_node_type_register(struct ec_node_type *type, bool override)
{
	(void)override;
	if (vp_ntypes < 2)
		vp_types[vp_ntypes++] = type;
	return 0;
}

/* ---- nodes --------------------------------------------------------------- */
struct ec_node {
	int idx;                 /* child number, -1: the node under test */
	long refs;
	const struct ec_node_type *type;
	void *priv;
	struct ec_config *config;
};
static struct ec_node vp_node[VP_NNODE];
static struct ec_node vp_self = { .idx = -1 };

void *ec_node_priv(const struct ec_node *node)
{
	VP_ASSERT(node == &vp_self, "private area of the right node");
	return node->priv;
}
struct ec_node *ec_node_clone(struct ec_node *node)
{
	if (node != NULL)
		node->refs++;
	return node;
}
/* a node type must not release a reference that it still reports (the freeing
 * of graphs counts the reported references); vp_cfgrefs: references held by the
 * old and the new configuration, beyond the one each node starts with */
static bool vp_refcheck;
static int vp_cfgrefs[VP_NNODE];
static unsigned int vp_reported(const struct ec_node *node)
{
	size_t i, n = vp_self.type->get_children_count(&vp_self);
	unsigned int refs, sum = 0;
	struct ec_node *c;
	for (i = 0; i < n; i++)
		if (vp_self.type->get_child(&vp_self, i, &c, &refs) == 0 &&
				c == node)
			sum += refs;
	return sum;
}
void ec_node_free(struct ec_node *node)
{
	if (node == NULL)
		return;
	VP_ASSERT(node->refs > 0, "node reference released at most once");
	node->refs--;
	if (vp_refcheck)
		VP_ASSERT(node->refs - 1 + vp_cfgrefs[node->idx] >=
			(long)vp_reported(node),
			"a reference is not reported anymore when released");
}
const struct ec_node_type *ec_node_type(const struct ec_node *node)
{ return node->type; }
const char *ec_node_id(const struct ec_node *node) { (void)node; return ""; }
int ec_node_check_type(const struct ec_node *node,
		const struct ec_node_type *type)
{
	if (node->type != type) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}
const struct ec_config *ec_node_get_config(struct ec_node *node)
{ return node->config; }

/* ---- string vectors -------------------------------------------------------- */
#ifdef VP_WORDS
#include "abswords.h"
#else
struct ec_strvec {
	bool live;
	bool input;              /* the caller's vector */
	size_t off, len;
};
static char vp_tok[VP_NTOK + 1][
#ifdef VP_TOKLEN
	VP_TOKLEN
#else
	0
#endif
	+ 1];
static const struct ec_dict *vp_tok_attrs[VP_NTOK + 1];

size_t ec_strvec_len(const struct ec_strvec *strvec)
{
	VP_ASSERT(strvec != NULL, "length of an existing vector");
	return strvec->len;
}
const char *ec_strvec_val(const struct ec_strvec *strvec, size_t idx)
{
	if (strvec == NULL || idx >= strvec->len)
		return NULL;
#ifdef VP_ANYLEN
	/* vector of any length: first token, and one standing for the others */
	return vp_tok[idx > 0];
#else
	return vp_tok[strvec->off + idx];
#endif
}
const struct ec_dict *ec_strvec_get_attrs(const struct ec_strvec *strvec,
	size_t idx)
{
	if (strvec == NULL || idx >= strvec->len) {
		errno = EINVAL;
		return NULL;
	}
#ifdef VP_ANYLEN
	return vp_tok_attrs[idx > 0];
#else
	return vp_tok_attrs[strvec->off + idx];
#endif
}
struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
	size_t len)
{
	struct ec_strvec *v;
	if (off > strvec->len || len > strvec->len - off)
		return NULL;
	/* filled before the failure is decided: keeps the fields constant for
	 * the solver on both outcomes */
	v = malloc(sizeof(*v));
	VP_ASSUME(v != NULL);
	v->live = true;
	v->input = false;
	v->off = strvec->off + off;
	v->len = len;
	if (vp_fail_now()) {
		free(v);
		return NULL;
	}
	vp_live++;
	return v;
}
struct ec_strvec *ec_strvec_dup(const struct ec_strvec *strvec)
{ return ec_strvec_ndup(strvec, 0, strvec->len); }
void ec_strvec_free(struct ec_strvec *strvec)
{
	if (strvec == NULL)
		return;
	VP_ASSERT(!strvec->input, "the caller's vector is not freed");
	__ec_free(strvec, "", 0);
}
int ec_strvec_del_last(struct ec_strvec *strvec)
{
	VP_ASSERT(!strvec->input, "the caller's vector is not modified");
	if (strvec->len == 0) {
		errno = EINVAL;
		return -1;
	}
	strvec->len--;
	return 0;
}
#endif /* VP_WORDS */

/* ---- parse tree ------------------------------------------------------------ */
struct ec_pnode {
	const struct ec_node *node;
	struct ec_pnode *parent;
	bool live;
	size_t off, len;         /* what it matched */
	struct vp_kids *k;       /* NULL: subtree of a child (opaque here) */
};
struct vp_kids {
	size_t n;
	struct ec_pnode *kid[VP_MAXKID];
};
static struct vp_kids vp_kids, vp_root_kids;
static long vp_pnode_live;
static struct ec_pnode vp_root_st = { .k = &vp_root_kids }, vp_pstate_st = { .k = &vp_kids };
static bool vp_parse_error;      /* a child or an allocation reported an error */

#ifdef VP_TOKENS
/* Same contracts over names instead of objects: a parse node is the value
 * (serial, node, offset, length) used as its own address (node types never
 * look inside: the structure is private to ecoli_parse.c), and each node with
 * children is one of a few lists of such names. */
#define VP_NLIST 5
#define VP_LADDR(i) ((struct ec_pnode *)(uintptr_t)(0x40000000u + (i)))
static bool vp_l_used[VP_NLIST];
static unsigned char vp_l_n[VP_NLIST];
static uint32_t vp_l_kid[VP_NLIST][VP_MAXKID];
static unsigned char vp_serial;
#define VP_TNODE(t) (((t) >> 8) & 15)
#define VP_TOFF(t) (((t) >> 4) & 15)
#define VP_TLEN(t) ((t) & 15)
static int vp_list_of(const struct ec_pnode *p)
{
	int i, r = -1;
	if (p == &vp_pstate_st)
		r = 0;
	for (i = 1; i < VP_NLIST; i++)
		if (p == VP_LADDR(i))
			r = i;
	return r;
}
static int vp_parent_of(uint32_t t)
{
	int i, j, r = -1;
	for (i = 0; i < VP_NLIST; i++)
		for (j = 0; j < VP_MAXKID; j++)
			if (j < vp_l_n[i] && vp_l_kid[i][j] == t)
				r = i;
	return r;
}
struct ec_pnode *ec_pnode(const struct ec_node *node)
{
	int i, f = -1;
	(void)node;
	if (vp_fail_now())
		return NULL;
	for (i = VP_NLIST - 1; i >= 1; i--)
		if (!vp_l_used[i])
			f = i;
	VP_ASSUME(f >= 1);
	for (i = 1; i < VP_NLIST; i++)
		if (i == f) {
			vp_l_used[i] = true;
			vp_l_n[i] = 0;
		}
	vp_pnode_live++;
	return VP_LADDR(f);
}
void ec_pnode_link_child(struct ec_pnode *pnode, struct ec_pnode *child)
{
	int i, j, l = vp_list_of(pnode);
	uint32_t t = (uint32_t)(uintptr_t)child;
	VP_ASSERT(l >= 0 && child != NULL, "linked under an existing node");
	VP_ASSERT(vp_parent_of(t) < 0, "linked once");
	for (i = 0; i < VP_NLIST; i++) {
		if (i != l)
			continue;
		VP_ASSUME(vp_l_n[i] < VP_MAXKID);
		for (j = 0; j < VP_MAXKID; j++)
			if (j == vp_l_n[i])
				vp_l_kid[i][j] = t;
		vp_l_n[i]++;
	}
}
void ec_pnode_unlink_child(struct ec_pnode *child)
{
	uint32_t t = (uint32_t)(uintptr_t)child;
	int i, j, l = vp_parent_of(t);
	for (i = 0; i < VP_NLIST; i++) {
		bool found = false;
		if (i != l)
			continue;
		for (j = 0; j < VP_MAXKID; j++) {
			if (j < vp_l_n[i] && vp_l_kid[i][j] == t)
				found = true;
			if (found && j + 1 < VP_MAXKID)
				vp_l_kid[i][j] = vp_l_kid[i][j + 1];
		}
		vp_l_n[i]--;
	}
}
void ec_pnode_free_children(struct ec_pnode *pnode)
{
	int i, l = vp_list_of(pnode);
	for (i = 0; i < VP_NLIST; i++)
		if (i == l) {
			vp_pnode_live -= vp_l_n[i];
			vp_l_n[i] = 0;
		}
}
void ec_pnode_free(struct ec_pnode *pnode)
{
	int i, l;
	if (pnode == NULL)
		return;
	l = vp_list_of(pnode);
	VP_ASSERT(l != 0, "caller's parse state is not freed");
	VP_ASSERT(l >= 0 || vp_parent_of((uint32_t)(uintptr_t)pnode) < 0,
		"a parse node is unlinked before it is freed");
	ec_pnode_free_children(pnode);
	for (i = 1; i < VP_NLIST; i++)
		if (i == l) {
			VP_ASSERT(vp_l_used[i], "parse node freed once");
			vp_l_used[i] = false;
		}
	vp_pnode_live--;
}
static uint32_t vp_kid_at(int l, int k)
{
	int i, j;
	uint32_t t = 0;
	for (i = 0; i < VP_NLIST; i++)
		for (j = 0; j < VP_MAXKID; j++)
			if (i == l && j == k && j < vp_l_n[i])
				t = vp_l_kid[i][j];
	return t;
}
static int vp_count_of(int l)
{
	int i, r = 0;
	for (i = 0; i < VP_NLIST; i++)
		if (i == l)
			r = vp_l_n[i];
	return r;
}
struct ec_pnode *ec_pnode_get_first_child(const struct ec_pnode *pnode)
{ return (struct ec_pnode *)(uintptr_t)vp_kid_at(vp_list_of(pnode), 0); }
struct ec_pnode *ec_pnode_get_last_child(const struct ec_pnode *pnode)
{
	int l = vp_list_of(pnode);
	return (struct ec_pnode *)(uintptr_t)vp_kid_at(l, vp_count_of(l) - 1);
}
struct ec_pnode *ec_pnode_next(const struct ec_pnode *pnode)
{
	uint32_t t = (uint32_t)(uintptr_t)pnode;
	int j, l = vp_parent_of(t);
	for (j = 0; j + 1 < VP_MAXKID; j++)
		if (vp_kid_at(l, j) == t)
			return (struct ec_pnode *)(uintptr_t)vp_kid_at(l, j + 1);
	return NULL;
}
void ec_pnode_del_last_child(struct ec_pnode *pnode)
{
	int i, l = vp_list_of(pnode);
	for (i = 0; i < VP_NLIST; i++)
		if (i == l && vp_l_n[i] > 0) {
			vp_l_n[i]--;
			vp_pnode_live--;
		}
}
const struct ec_node *ec_pnode_get_node(const struct ec_pnode *pnode)
{
	uint32_t t = (uint32_t)(uintptr_t)pnode;
	return &vp_node[VP_TNODE(t)];
}
struct ec_pnode *ec_pnode_get_parent(const struct ec_pnode *pnode)
{
	int l = vp_parent_of((uint32_t)(uintptr_t)pnode);
	return l < 0 ? NULL : l == 0 ? &vp_pstate_st : VP_LADDR(l);
}
#define VP_KIDS() ((size_t)vp_l_n[0])
#define VP_KID_NODE(i) ((int)VP_TNODE(vp_l_kid[0][i]))
#define VP_KID_OFF(i) ((size_t)VP_TOFF(vp_l_kid[0][i]))
#define VP_KID_LEN(i) ((size_t)VP_TLEN(vp_l_kid[0][i]))
#else
static struct ec_pnode *vp_pnode_new(const struct ec_node *node)
{
	struct ec_pnode *p;
	p = malloc(sizeof(*p));
	VP_ASSUME(p != NULL);
	p->node = node;
	p->parent = NULL;
	p->live = false;
	p->k = NULL;
	return p;
}
struct ec_pnode *ec_pnode(const struct ec_node *node)
{
	struct ec_pnode *p;
	if (vp_fail_now())
		return NULL;
	p = vp_pnode_new(node);
	p->k = malloc(sizeof(*p->k));
	VP_ASSUME(p->k != NULL);
	p->k->n = 0;
	p->live = true;
	vp_pnode_live++;
	return p;
}
void ec_pnode_link_child(struct ec_pnode *pnode, struct ec_pnode *child)
{
	VP_ASSERT(child->parent == NULL, "linked once");
	VP_ASSUME(pnode->k->n < VP_MAXKID);
	pnode->k->kid[pnode->k->n++] = child;
	child->parent = pnode;
}
void ec_pnode_unlink_child(struct ec_pnode *child)
{
	struct ec_pnode *p = child->parent;
	size_t i, j = 0;
	if (p == NULL)
		return;
	for (i = 0; i < VP_MAXKID; i++) {
		if (i >= p->k->n || p->k->kid[i] == child)
			continue;
		p->k->kid[j++] = p->k->kid[i];
	}
	p->k->n = j;
	child->parent = NULL;
}
static void vp_free_kids(struct ec_pnode *pnode)
{
	size_t i;
	for (i = 0; i < VP_MAXKID; i++) {
		if (i >= pnode->k->n)
			break;
		VP_ASSERT(pnode->k->kid[i]->live, "parse node freed once");
		pnode->k->kid[i]->live = false;
		pnode->k->kid[i]->parent = NULL;
		vp_pnode_live--;
	}
	pnode->k->n = 0;
}
void ec_pnode_free(struct ec_pnode *pnode)
{
	if (pnode == NULL)
		return;
	VP_ASSERT(pnode->parent == NULL, "a parse node is unlinked before it is freed");
	VP_ASSERT(pnode->live, "parse node freed once");
	VP_ASSERT(pnode != &vp_pstate_st && pnode != &vp_root_st,
		"caller's parse state is not freed");
	pnode->live = false;
	vp_pnode_live--;
	if (pnode->k != NULL)
		vp_free_kids(pnode);
}
void ec_pnode_free_children(struct ec_pnode *pnode)
{
	if (pnode != NULL && pnode->k != NULL)
		vp_free_kids(pnode);
}
#ifdef VP_SLOTS
void ec_pnode_del_last_child(struct ec_pnode *pnode)
{
	VP_ASSERT(pnode == &vp_pstate_st, "only the current state is changed");
	if (vp_kids.n == 0)
		return;
	vp_kids.n--;
	vp_pnode_live--;
}
#else
void ec_pnode_del_last_child(struct ec_pnode *pnode)
{
	struct ec_pnode *c;
	if (pnode->k->n == 0)
		return;
	c = pnode->k->kid[pnode->k->n - 1];
	pnode->k->n--;
	c->parent = NULL;
	ec_pnode_free(c);
}
#endif
struct ec_pnode *ec_pnode_get_first_child(const struct ec_pnode *pnode)
{ return pnode->k && pnode->k->n ? pnode->k->kid[0] : NULL; }
struct ec_pnode *ec_pnode_get_last_child(const struct ec_pnode *pnode)
{ return pnode->k && pnode->k->n ? pnode->k->kid[pnode->k->n - 1] : NULL; }
struct ec_pnode *ec_pnode_get_parent(const struct ec_pnode *pnode)
{ return pnode->parent; }
struct ec_pnode *ec_pnode_get_root(struct ec_pnode *pnode)
{
	while (pnode != NULL && pnode->parent != NULL)
		pnode = pnode->parent;
	return pnode;
}
struct ec_pnode *ec_pnode_next(const struct ec_pnode *pnode)
{
	struct ec_pnode *p = pnode->parent;
	size_t i;
	if (p == NULL)
		return NULL;
	for (i = 0; i + 1 < VP_MAXKID; i++)
		if (i + 1 < p->k->n && p->k->kid[i] == pnode)
			return p->k->kid[i + 1];
	return NULL;
}
const struct ec_node *ec_pnode_get_node(const struct ec_pnode *pnode)
{ return pnode->node; }

#define VP_KIDS() (vp_kids.n)
#define VP_KID_NODE(i) (vp_kids.kid[i]->node->idx)
#define VP_KID_OFF(i) (vp_kids.kid[i]->off)
#define VP_KID_LEN(i) (vp_kids.kid[i]->len)
#endif /* VP_TOKENS */

/* what each child answers on each slice: -1, EC_PARSE_NOMATCH, or 0..len */
static int vp_R[VP_NNODE][VP_NTOK + 1][VP_NTOK + 1];
static bool vp_child_errors;     /* may children report errors at all */
#ifdef VP_ONE
/* one question only: a single arbitrary answer, for any number of words */
static int vp_one;
static void vp_init_oracle(void)
{
	vp_one = vp_int();
	VP_ASSUME(vp_one >= -1);
}
static int vp_oracle(int idx, size_t off, size_t len)
{
	(void)idx; (void)off;
	VP_ASSUME(vp_one == EC_PARSE_NOMATCH || vp_one < 0 ||
		(size_t)vp_one <= len);
	return vp_one;
}
#else
static void vp_init_oracle(void)
{
	int c;
	size_t o, l;
	for (c = 0; c < VP_NNODE; c++)
		for (o = 0; o <= VP_NTOK; o++)
			for (l = 0; l + o <= VP_NTOK; l++) {
				int r = vp_int();
				VP_ASSUME(r == -1 || r == EC_PARSE_NOMATCH ||
					(r >= 0 && (size_t)r <= l));
				VP_ASSUME(vp_child_errors || r >= 0);
				vp_R[c][o][l] = r;
			}
}
/* lookup by case split on constants (cheaper for the solver than a symbolic
 * array index) */
static int vp_oracle(int idx, size_t off, size_t len)
{
	int c, r = 0;
	size_t o, l;
	for (c = 0; c < VP_NNODE; c++)
		for (o = 0; o <= VP_NTOK; o++)
			for (l = 0; l + o <= VP_NTOK; l++)
				if (c == idx && o == off && l == len)
					r = vp_R[c][o][l];
	return r;
}
#endif /* VP_ONE */
#ifndef VP_PARSED
#define VP_PARSED(strvec)
#endif
static bool vp_is_child(const struct ec_node *n)
{
	int c;
	for (c = 0; c < VP_NNODE; c++)
		if (n == &vp_node[c])
			return true;
	return false;
}
#ifdef VP_SLOTS
/* same contract; the subtree of the i-th match is kid number i, so that only
 * a stack of (offset, length) is kept: for functions that only add and delete
 * the last child */
static size_t vp_slot_end[VP_MAXKID + 1];
static size_t vp_slot_off[VP_MAXKID];
int ec_parse_child(const struct ec_node *node, struct ec_pnode *pstate,
		const struct ec_strvec *strvec)
{
	size_t i;
	int r;
	VP_ASSERT(vp_is_child(node), "only configured children are parsed");
	VP_ASSERT(pstate == &vp_pstate_st, "children are parsed under the current state");
	VP_ASSUME(vp_is_child(node));
	r = vp_oracle(node->idx, strvec->off, strvec->len);
	if (r < 0) {
		vp_parse_error = true;
		return -1;
	}
	if (r == EC_PARSE_NOMATCH)
		return r;
	VP_ASSUME(vp_kids.n < VP_MAXKID);
	for (i = 0; i < VP_MAXKID; i++)
		if (i == vp_kids.n) {
			vp_slot_off[i] = strvec->off;
			vp_slot_end[i + 1] = strvec->off + r;
		}
	vp_kids.n++;
	vp_pnode_live++;
	return r;
}
#elif defined(VP_TOKENS)
int ec_parse_child(const struct ec_node *node, struct ec_pnode *pstate,
		const struct ec_strvec *strvec)
{
	int r;
	VP_ASSERT(vp_is_child(node), "only configured children are parsed");
	VP_ASSERT(pstate == &vp_pstate_st, "children are parsed under the current state");
	VP_ASSUME(vp_is_child(node));
	r = vp_oracle(node->idx, strvec->off, strvec->len);
	if (r < 0) {
		vp_parse_error = true;
		return -1;
	}
	if (r == EC_PARSE_NOMATCH)
		return r;
	vp_serial++;
	vp_pnode_live++;
	ec_pnode_link_child(pstate, (struct ec_pnode *)(uintptr_t)
		(0x20000000u + vp_serial * 4096u + node->idx * 256u +
		 (unsigned)strvec->off * 16u + (unsigned)r));
	return r;
}
#else
int ec_parse_child(const struct ec_node *node, struct ec_pnode *pstate,
		const struct ec_strvec *strvec)
{
	struct ec_pnode *child;
	int r;
	/* pool slot burnt whatever the outcome: keeps slot numbers concrete */
	child = vp_pnode_new(node);
	VP_ASSERT(vp_is_child(node), "only configured children are parsed");
	VP_ASSERT(pstate == &vp_pstate_st, "children are parsed under the current state");
	VP_ASSUME(vp_is_child(node));
	VP_PARSED(strvec);
	r = vp_oracle(node->idx, strvec->off, strvec->len);
	if (r < 0) {
		vp_parse_error = true;
		return -1;
	}
	if (r == EC_PARSE_NOMATCH)
		return r;
	child->live = true;
	vp_pnode_live++;
	child->off = strvec->off;
	child->len = r;
	ec_pnode_link_child(pstate, child);
	return r;
}
#endif /* VP_SLOTS */

/* ---- completion ------------------------------------------------------------ */
static size_t vp_path_base;
#ifndef VP_OWN_COMP
struct ec_comp { struct ec_pnode *cur; };
static struct ec_comp vp_comp_st = { &vp_pstate_st };
static int vp_C[VP_NNODE][VP_NTOK + 1][VP_NTOK + 1];     /* requests made */
static int vp_Cfail = -1;       /* number of the request that fails */
static int vp_ncomp;
static bool vp_comp_error;
static bool vp_comp_path_bad;
#ifdef VP_COMP_PATH
/* the parse state of a completion request must be the list of children
 * already matched on the tokens before the requested slice */
#endif
struct ec_pnode *ec_comp_get_cur_pstate(const struct ec_comp *comp)
{ return comp->cur; }
int ec_complete_child(const struct ec_node *node, struct ec_comp *comp,
		const struct ec_strvec *strvec)
{
	size_t i, o = 0;
	struct ec_pnode *s = comp->cur;
	VP_ASSERT(vp_is_child(node), "only configured children are completed");
	VP_ASSUME(vp_is_child(node));
	VP_ASSERT(strvec->off + strvec->len == vp_path_base,
		"completion always reaches the end of the input");
	/* consecutive matches from the start up to this slice */
#ifdef VP_SLOTS
	for (i = 0; i < VP_MAXKID; i++)
		if (i < s->k->n) {
			VP_ASSERT(vp_slot_off[i] == o,
				"parse state of a completion request is contiguous");
			o = vp_slot_end[i + 1];
		}
#else
	for (i = 0; i < VP_MAXKID; i++) {
		if (i >= s->k->n)
			break;
		VP_ASSERT(s->k->kid[i]->off == o,
			"parse state of a completion request is contiguous");
		o = s->k->kid[i]->off + s->k->kid[i]->len;
	}
#endif
	VP_ASSERT(o == strvec->off,
		"parse state of a completion request leads to the completed slice");
	if (vp_ncomp++ == vp_Cfail) {
		vp_comp_error = true;
		return -1;
	}
	{
		int c;
		size_t p, l;
		for (c = 0; c < VP_NNODE; c++)
			for (p = 0; p <= VP_NTOK; p++)
				for (l = 0; l + p <= VP_NTOK; l++)
					if (c == node->idx && p == strvec->off &&
							l == strvec->len)
						vp_C[c][p][l] = 1;
	}
	return 0;
}
int ec_complete_unknown(const struct ec_node *node, struct ec_comp *comp,
		const struct ec_strvec *strvec)
{ (void)node; (void)comp; (void)strvec; return 0; }
#endif /* VP_OWN_COMP */

/* ---- configuration --------------------------------------------------------- */
struct vp_cfg_ent { const char *key; struct ec_config *val; };
static struct vp_cfg_ent vp_cfg[6];
static struct ec_config vp_cfg_dict = { .type = EC_CONFIG_TYPE_DICT };
struct ec_config *ec_config_dict_get(const struct ec_config *config,
		const char *key)
{
	int i;
#ifdef VP_SUBCFG
	struct ec_config *sub;
	if (VP_SUBCFG(config, key, &sub))
		return sub;
#endif
	VP_ASSERT(config == &vp_cfg_dict, "lookup in the given configuration");
	for (i = 0; i < 6; i++) {
		if (vp_cfg[i].key != NULL && !strcmp(vp_cfg[i].key, key))
			return vp_cfg[i].val;
	}
	return NULL;
}
enum ec_config_type ec_config_get_type(const struct ec_config *config)
{ return config->type; }

/* table of children: fresh array of references */
static size_t vp_nchild;
struct ec_node **ec_node_config_node_list_to_table(
		const struct ec_config *config, size_t *len)
{
	struct ec_node **t;
	size_t i;
	if (config == NULL || config->type != EC_CONFIG_TYPE_LIST) {
		errno = EINVAL;
		return NULL;
	}
	t = __ec_malloc(VP_NNODE * sizeof(*t), "", 0);
	if (t == NULL)
		return NULL;
	for (i = 0; i < VP_NNODE; i++) {
		t[i] = NULL;
		if (i >= vp_nchild)
			continue;
		t[i] = &vp_node[i];
		vp_node[i].refs++;
	}
	*len = vp_nchild;
	return t;
}

/* ---- common harness parts ---------------------------------------------------- */
static struct ec_strvec vp_in;
static struct ec_node_type *vp_type(const char *name)
{
	unsigned i;
	for (i = 0; i < 2; i++)
		if (i < vp_ntypes && !strcmp(vp_types[i]->name, name))
			return vp_types[i];
	VP_ASSERT(0, "node type is registered under its documented name");
	VP_ASSUME(0);
	return NULL;
}
/* run the body once per value of (number of children, length of the input),
 * as constants in each case: same inputs, smaller formulas */
#define VP_SPLIT(body, n, m) do { \
	size_t a_, b_, pa_ = vp_range(0, n), pb_ = vp_range(0, m); \
	for (a_ = 0; a_ <= (n); a_++) \
		for (b_ = 0; b_ <= (m); b_++) \
			if (a_ == pa_ && b_ == pb_) { \
				body(a_, b_); \
				return; \
			} \
} while (0)
/* a fresh node of the type, one reference on every child held by the caller */
static void vp_setup(const char *type, size_t len)
{
	int c;
	for (c = 0; c < VP_NNODE; c++) {
		vp_node[c].idx = c;
		vp_node[c].refs = 1;
	}
	vp_self.type = vp_type(type);
	vp_self.refs = 1;
#ifdef VP_PRIV_NEW
	vp_self.priv = VP_PRIV_NEW(vp_self.type->size);
#else
	vp_self.priv = calloc(1, vp_self.type->size ? vp_self.type->size : 1);
#endif
	VP_ASSUME(vp_self.priv != NULL);
	if (vp_self.type->init_priv != NULL) {
		int r = vp_self.type->init_priv(&vp_self);
		VP_ASSUME(r == 0);
	}
	vp_in.live = vp_in.input = true;
	vp_in.off = 0;
	vp_in.len = len;
	vp_path_base = vp_in.len;
	vp_pstate_st.live = vp_root_st.live = true;
	vp_pstate_st.node = &vp_self;
}
/* completion requests against the set of requests that must be made */
#ifndef VP_OWN_COMP
static bool vp_E[VP_NNODE][VP_NTOK + 1][VP_NTOK + 1];
static void vp_check_requests(void)
{
	int c;
	size_t o, l;
	for (c = 0; c < VP_NNODE; c++)
		for (o = 0; o <= VP_NTOK; o++)
			for (l = 1; l + o <= VP_NTOK; l++) {
				VP_ASSERT(!vp_E[c][o][l] || vp_C[c][o][l] > 0,
					"every child that can come next is completed");
				VP_ASSERT(vp_E[c][o][l] || vp_C[c][o][l] == 0,
					"nothing else is completed");
			}
}
static void vp_expect_at(int c, size_t off, size_t len)
{
	size_t l;
	for (l = 0; l <= VP_NTOK; l++)
		if (l == len)
			vp_E[c][off][l] = true;
}
static void vp_expect(int c, size_t off)
{
	int i;
	size_t o;
	for (i = 0; i < VP_NNODE; i++)
		for (o = 0; o <= VP_NTOK; o++)
			if (i == c && o == off && o <= vp_in.len)
				vp_expect_at(i, o, vp_in.len - o);
}
#endif
static void vp_check_tree_restored(size_t n)
{
	VP_ASSERT(VP_KIDS() == n && vp_pnode_live == (long)n,
		"parse state left as it was");
}
/* VP_ERR: one allocation, or children, or one completion request may fail;
 * otherwise nothing fails (and the exact result is compared) */
static uint64_t vp_pick_fail(uint64_t n);
static void vp_pick_errors(uint64_t nalloc, int ncomp)
{
#ifdef VP_ERR
	vp_fail_at = vp_pick_fail(nalloc);
#ifndef VP_OWN_COMP
	vp_Cfail = vp_bool() ? (int)vp_range(0, ncomp) : -1;
#endif
#else
	(void)nalloc;
	(void)ncomp;
#endif
}
static bool vp_pick_child_errors(void)
{
#ifdef VP_ERR
	return vp_bool();
#else
	return false;
#endif
}
static uint64_t vp_pick_fail(uint64_t n)
{
		return vp_bool() ? vp_alloc_count + vp_range(0, n) : UINT64_MAX;
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#endif
