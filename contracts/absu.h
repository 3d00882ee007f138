/* Unbounded counterpart of abs.h: contracts of the parsing layer as seen by a
 * node type, over ghost state of constant size, for any number of children and
 * any number of tokens.
 *
 *   string vector = slice (off, len) of the input; g_len = tokens of the input
 *   parse tree    = g_kids, the number of children under the current state
 *   children      = g_tab[0..g_n), arbitrary distinct or equal nodes
 *   child matcher = any answer its contract allows, at each call
 *
 * g_state: 0 nothing went wrong yet, 1 a child did not match, 2 an error
 * (child error or allocation failure) was reported.
 */
#ifndef ABSU_H
#define ABSU_H
#include "vp.h"
#include <ecoli_malloc.h>
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_node.h>
#include <ecoli_strvec.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>
#include <ecoli_config.h>
#include <ecoli_dict.h>
#include <ecoli_log.h>

#ifdef VP_CBMC
void *nondet_vp_ptr(void);
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
static size_t g_n, g_len;            /* fixed during the call */
static struct ec_node **g_tab;
static size_t g_idx, g_off, g_kids;
static int g_state;
static long g_live;                  /* live string vectors */
static long g_alloc;                 /* other live allocations */

static void *vp_alloc(size_t size, bool zero)
{
	void *p;
	if (vp_bool()) {
		g_state = 2;
		return NULL;
	}
	p = zero ? calloc(1, size) : malloc(size);
	VP_ASSUME(p != NULL);
	g_alloc++;
	return p;
}
void *__ec_malloc(size_t size, const char *f, unsigned int l)
{ (void)f; (void)l; return vp_alloc(size, false); }
void *__ec_calloc(size_t n, size_t size, const char *f, unsigned int l)
{ (void)f; (void)l; return vp_alloc(n * size, true); }
void __ec_free(void *p, const char *f, unsigned int l)
{ (void)f; (void)l; if (p) g_alloc--; free(p); }
static void *vp_h_malloc(size_t s, const char *f, unsigned int l)
{ return __ec_malloc(s, f, l); }
static void vp_h_free(void *p, const char *f, unsigned int l)
{ __ec_free(p, f, l); }
struct ec_malloc_handler ec_malloc_handler = { vp_h_malloc, vp_h_free, NULL };

int ec_log_type_register(const char *name) { (void)name; return 0; }
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }

static struct ec_node_type *vp_types[2];
static unsigned vp_ntypes;
int ec_node_type_register(struct ec_node_type *type, bool override)
{
	(void)override;
	if (vp_ntypes < 2)
		vp_types[vp_ntypes++] = type;
	return 0;
}

struct ec_node { void *priv; };
static struct ec_node vp_self, vp_child;
void *ec_node_priv(const struct ec_node *node)
{ VP_ASSERT(node == &vp_self, "private area of the right node"); return vp_self.priv; }
struct ec_node *ec_node_clone(struct ec_node *node) { return node; }
void ec_node_free(struct ec_node *node) { (void)node; }

struct ec_strvec { bool input; size_t off, len; };
static struct ec_strvec vp_in;
size_t ec_strvec_len(const struct ec_strvec *strvec) { return strvec->len; }
struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
	size_t len)
{
	struct ec_strvec *v;
	if (off > strvec->len || len > strvec->len - off)
		return NULL;
	if (vp_bool()) {
		g_state = 2;
		return NULL;
	}
	v = malloc(sizeof(*v));
	VP_ASSUME(v != NULL);
	v->input = false;
	v->off = strvec->off + off;
	v->len = len;
	g_live++;
	return v;
}
struct ec_strvec *ec_strvec_dup(const struct ec_strvec *strvec)
{ return ec_strvec_ndup(strvec, 0, strvec->len); }
void ec_strvec_free(struct ec_strvec *strvec)
{
	if (strvec == NULL)
		return;
	VP_ASSERT(!strvec->input, "the caller's vector is not freed");
	g_live--;
	free(strvec);
}

struct ec_pnode { int dummy; };
static struct ec_pnode vp_pstate_st, vp_last_kid;
static bool g_last_unlinked;
void ec_pnode_free_children(struct ec_pnode *pnode)
{ VP_ASSERT(pnode == &vp_pstate_st, "children of the current state"); g_kids = 0; }
void ec_pnode_del_last_child(struct ec_pnode *pnode)
{
	VP_ASSERT(pnode == &vp_pstate_st, "children of the current state");
	if (g_kids > 0)
		g_kids--;
}
struct ec_pnode *ec_pnode_get_last_child(const struct ec_pnode *pnode)
{
	VP_ASSERT(pnode == &vp_pstate_st, "children of the current state");
	return g_kids > 0 ? &vp_last_kid : NULL;
}
void ec_pnode_unlink_child(struct ec_pnode *child)
{
	VP_ASSERT(child == &vp_last_kid && g_kids > 0 && !g_last_unlinked,
		"unlink of an existing child");
	g_kids--;
	g_last_unlinked = true;
}
void ec_pnode_free(struct ec_pnode *pnode)
{
	if (pnode == NULL)
		return;
	VP_ASSERT(pnode == &vp_last_kid && g_last_unlinked,
		"a parse node is unlinked before it is freed");
	g_last_unlinked = false;
}

struct vp_cfg_ent { const char *key; struct ec_config *val; };
static struct vp_cfg_ent vp_cfg[4];
static struct ec_config vp_cfg_dict = { .type = EC_CONFIG_TYPE_DICT };
struct ec_config *ec_config_dict_get(const struct ec_config *config,
		const char *key)
{
	int i;
	(void)config;
	for (i = 0; i < 4; i++)
		if (vp_cfg[i].key != NULL && !strcmp(vp_cfg[i].key, key))
			return vp_cfg[i].val;
	return NULL;
}
enum ec_config_type ec_config_get_type(const struct ec_config *config)
{ return config->type; }
struct ec_node **ec_node_config_node_list_to_table(
		const struct ec_config *config, size_t *len)
{
	(void)config;
	*len = g_n;
	return g_tab;
}
static struct ec_node_type *vp_type(const char *name)
{
	unsigned i;
	for (i = 0; i < 2; i++)
		if (i < vp_ntypes && !strcmp(vp_types[i]->name, name))
			return vp_types[i];
	VP_ASSUME(0);
	return NULL;
}
static struct ec_node_type *vp_setup(const char *type)
{
	struct ec_node_type *t = vp_type(type);
	vp_self.priv = calloc(1, t->size);
	VP_ASSUME(vp_self.priv != NULL);
	g_n = vp_nd();
	g_len = vp_nd();
	/* the API counts tokens and children in an int (EC_PARSE_NOMATCH is
	 * INT_MAX) */
	VP_ASSUME(g_n < INT_MAX && g_len < INT_MAX);
	g_tab = malloc(g_n * sizeof(*g_tab));
	VP_ASSUME(g_tab != NULL);
	vp_in.input = true;
	vp_in.len = g_len;
	return t;
}
/* everything a call made in a loop may change */
static void vp_ghost_havoc(void)
{
	g_idx = vp_nd();
	g_off = vp_nd();
	g_kids = vp_nd();
	g_state = vp_int();
	g_live = (long)vp_nd();
	g_alloc = (long)vp_nd();
	g_last_unlinked = vp_bool();
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#endif
