/* Contracts of the node constructors, as seen by the node types that build
 * grammars out of other nodes (expr, cmd): a node is
 *   a leaf that matches one given token, or any value, or nothing (empty),
 *   a sequence, a choice, a repetition, an option or a subset of other nodes,
 * with a count of references.  A constructor or a modification may fail; the
 * nodes given to it are consumed in all cases (units node_*, refs_*, *_add).
 * vp_balance(): every reference is one of a parent, of the node under test (as
 * it reports them), or of the harness.
 */
#ifndef ABSGRAPH_H
#define ABSGRAPH_H
#include "vp.h"
/* the end of a list is told apart from the nodes by its address: an object, so
 * that the verifier decides the comparison */
#include <ecoli_utils.h>
static struct ec_node *vp_va_end[1];
#undef EC_VA_END
#define EC_VA_END ((void *)vp_va_end)
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
#ifndef VP_GN
#define VP_GN 64                     /* nodes ever made */
#endif
#ifndef VP_GK
#define VP_GK 5                      /* children of a node */
#endif
enum vp_kind { K_SELF, K_TOK, K_VAL, K_EMPTY, K_SEQ, K_OR, K_MANY, K_OPTION,
	K_SUBSET };
struct ec_node {
	int idx;
	enum vp_kind kind;
	long refs;
	const char *tok;                 /* K_TOK: what it matches */
	const char *id;
	const struct ec_node_type *type;
	void *priv;
	int user;                        /* references held by the harness */
	int n;
	unsigned min, max;
	struct ec_node *kid[VP_GK];
};
static struct ec_node *vp_g[VP_GN];   /* separate objects: cheaper to decide */
static int vp_gn;
static struct ec_node vp_self;

static struct ec_node *vp_mk(enum vp_kind kind)
{
	static const struct ec_node zero;
	struct ec_node *n;
	VP_ASSERT(vp_gn < VP_GN, "harness: enough nodes");
	n = malloc(sizeof(*n));
	VP_ASSUME(n != NULL);
	*n = zero;
	vp_g[vp_gn] = n;
	n->idx = vp_gn++;
	n->kind = kind;
	n->refs = 1;
	return n;
}
void ec_node_free(struct ec_node *node)
{
	int i;
	if (node == NULL)
		return;
	VP_ASSERT(node->refs > 0, "node reference released at most once");
	node->refs--;
	if (node->refs == 0) {
		for (i = 0; i < node->n; i++)
			ec_node_free(node->kid[i]);
		node->n = 0;
		if (node->type != NULL) {
			node->type->free_priv(node);
			free(node->priv);
			node->type = NULL;
			node->priv = NULL;
		}
	}
}
struct ec_node *ec_node_clone(struct ec_node *node)
{
	if (node != NULL) {
		VP_ASSERT(node->refs > 0, "live node");
		node->refs++;
	}
	return node;
}
static int vp_add(struct ec_node *node, struct ec_node *child)
{
	if (node == NULL || child == NULL || vp_fail_now()) {
		ec_node_free(child);
		return -1;
	}
	VP_ASSERT(node->refs > 0 && child->refs > 0, "live nodes");
	VP_ASSERT(node->n < VP_GK, "harness: enough children");
	node->kid[node->n++] = child;
	return 0;
}
static struct ec_node *vp_ctor(enum vp_kind kind, const char *id)
{
	struct ec_node *n;
	if (vp_fail_now())
		return NULL;
	n = vp_mk(kind);
	n->id = id;
	return n;
}
static struct ec_node *vp_ctor1(enum vp_kind kind, const char *id, struct ec_node *child,
	unsigned min, unsigned max)
{
	struct ec_node *n;
	if (child == NULL)
		return NULL;
	n = vp_ctor(kind, id);
	if (n == NULL) {
		ec_node_free(child);
		return NULL;
	}
	n->min = min;
	n->max = max;
	n->kid[n->n++] = child;
	return n;
}
#define VP_VCTOR(kind_)							\
	struct ec_node *n = vp_ctor(kind_, id), *c;			\
	bool bad = n == NULL;						\
	va_list ap;							\
	int i;								\
	va_start(ap, id);						\
	for (i = 0; i <= VP_GK; i++) {					\
		c = va_arg(ap, struct ec_node *);			\
		if (c == EC_VA_END)					\
			break;						\
		VP_ASSERT(i < VP_GK, "harness: enough children");	\
		if (c == NULL)						\
			bad = true;					\
		else if (n == NULL)					\
			ec_node_free(c);				\
		else							\
			n->kid[n->n++] = c;				\
	}								\
	va_end(ap);							\
	if (bad) {							\
		ec_node_free(n);					\
		return NULL;						\
	}								\
	return n
struct ec_node *__ec_node_seq(const char *id, ...) { VP_VCTOR(K_SEQ); }
struct ec_node *__ec_node_or(const char *id, ...) { VP_VCTOR(K_OR); }
struct ec_node *__ec_node_subset(const char *id, ...) { VP_VCTOR(K_SUBSET); }
struct ec_node *ec_node_many(const char *id, struct ec_node *child,
	unsigned int min, unsigned int max)
{ return vp_ctor1(K_MANY, id, child, min, max); }
struct ec_node *ec_node_option(const char *id, struct ec_node *node)
{ return vp_ctor1(K_OPTION, id, node, 0, 0); }
static int vp_is(const char *a, const char *b)
{
	int i;
	for (i = 0; i < 10; i++) {
		if (a[i] != b[i])
			return 0;
		if (a[i] == 0)
			return 1;
	}
	return 0;
}
struct ec_node *ec_node(const char *type, const char *id)
{
	if (vp_is(type, "seq"))
		return vp_ctor(K_SEQ, id);
	if (vp_is(type, "or"))
		return vp_ctor(K_OR, id);
	if (vp_is(type, "subset"))
		return vp_ctor(K_SUBSET, id);
	if (vp_is(type, "empty"))
		return vp_ctor(K_EMPTY, id);
#ifdef VP_NODE_EXTRA
	VP_NODE_EXTRA
#endif
	VP_ASSERT(0, "harness: known node type");
	return NULL;
}
#define VP_ADD(kind_)							\
	if (node != NULL && node->kind != kind_) {			\
		ec_node_free(child);					\
		return -1;						\
	}								\
	return vp_add(node, child)
int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
{ VP_ADD(K_SEQ); }
int ec_node_or_add(struct ec_node *node, struct ec_node *child)
{ VP_ADD(K_OR); }
int ec_node_subset_add(struct ec_node *node, struct ec_node *child)
{ VP_ADD(K_SUBSET); }
static const char *const vp_kname[] = { "self", "str", "re", "empty", "seq",
	"or", "many", "option", "subset" };
const char *ec_node_get_type_name(const struct ec_node *node)
{ return vp_kname[node->kind]; }
const char *ec_node_id(const struct ec_node *node) { return node->id; }

static struct ec_node *vp_leaf(enum vp_kind kind, const char *tok)
{
	struct ec_node *n = vp_mk(kind);
	n->tok = tok;
	return n;
}
static void vp_count(const struct ec_node *node, int *in)
{
	size_t k, cnt;
	if (node->type == NULL || node->priv == NULL)
		return;
	cnt = node->type->get_children_count(node);
	for (k = 0; k < cnt; k++) {
		struct ec_node *c = NULL;
		unsigned int refs = 0;
		VP_ASSERT(node->type->get_child(node, k, &c, &refs) == 0 &&
			c != NULL, "each child is reported");
		in[c->idx] += refs;
	}
}
static void vp_balance(void)
{
	static int in[VP_GN];
	int i, j;
	bool ok = true;
	for (i = 0; i < vp_gn; i++)
		in[i] = vp_g[i]->user;
	for (i = 0; i < vp_gn; i++)
		for (j = 0; j < vp_g[i]->n; j++)
			in[vp_g[i]->kid[j]->idx]++;
	vp_count(&vp_self, in);
	for (i = 0; i < vp_gn; i++)
		vp_count(vp_g[i], in);
	for (i = 0; i < vp_gn; i++)
		ok = ok && in[i] == vp_g[i]->refs;
	VP_ASSERT(ok, "every reference to a node is held by a parent, reported, "
		"or released");
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#endif
