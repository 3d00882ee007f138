/* grammar nodes and their life time (src/ecoli_node.c) */
#include "vp.h"
#include <ecoli_node.h>
#include <ecoli_config.h>
static void *vp_node_calloc(size_t n, size_t size);
#define VP_CALLOC vp_node_calloc
#define VP_OWN_STRDUP
#include "vp_alloc.h"
#include "vp_env.h"
#include "absdict.h"
#define VP_K 2
struct cfg { int n; struct ec_node *kid[VP_K]; int valid; };
struct priv { int idx, n; struct ec_node *kid[VP_K]; };
static long vp_cfg;                   /* live configurations */
static int vp_order;                  /* in which order references are dropped */
void ec_config_free(struct ec_config *config)
{
	struct cfg *c = (struct cfg *)config;
	int i;
	if (c == NULL)
		return;
	for (i = 0; i < c->n; i++)
		ec_node_free(c->kid[vp_order & 1 ? c->n - 1 - i : i]);
	vp_cfg--;
	free(c);
}
int ec_config_validate(const struct ec_config *config,
	const struct ec_config_schema *s)
{
	const struct cfg *c = (const struct cfg *)config;
	(void)s;
	if (c->valid)
		return 0;
	errno = EINVAL;
	return -1;
}
int ec_asprintf(char **buf, const char *format, ...)
{ (void)buf; (void)format; return -1; }
static const char *vp_dup_of;
char *__ec_strdup(const char *s, const char *file, unsigned int line)
{
	char *p = __ec_malloc(4, file, line);
	vp_dup_of = s;
	if (p != NULL) {
		p[0] = s[0];
		p[1] = s[0] ? s[1] : 0;
		p[2] = p[3] = 0;
	}
	return p;
}
#include "repo/ecoli_node.c"
struct nodep { struct ec_node node; struct priv priv; };
static void *vp_node_calloc(size_t n, size_t size)
{
	struct nodep *p;
	if (n * size != sizeof(*p))
		return calloc(n, size);
	p = malloc(sizeof(*p));
	if (p != NULL) {
		p->node.type = NULL;
		p->node.config = NULL;
		p->node.id = NULL;
		p->node.attrs = NULL;
		p->node.refcnt = 0;
		p->node.free.state = 0;
		p->node.free.refcnt = 0;
		p->priv.n = 0;
		p->priv.idx = 0;
	}
	return p;
}

/* ---- a node type with children -------------------------------------------------- */
static bool dead[3];
static int vp_refs;                   /* references per child: 1 or 2 */
static struct priv *PRIV(const struct ec_node *node)
{
	struct priv *p = ec_node_priv(node);
	VP_ASSERT(!dead[p->idx], "a released node is not used");
	return p;
}
static size_t t_count(const struct ec_node *node)
{ return PRIV(node)->n; }
static int t_child(const struct ec_node *node, size_t i, struct ec_node **child,
	unsigned int *refs)
{
	struct priv *p = PRIV(node);
	if (i >= (size_t)p->n)
		return -1;
	*child = p->kid[i];
	*refs = vp_refs;
	return 0;
}
static void t_free(struct ec_node *node)
{
	struct priv *p = PRIV(node);
	int i;
	for (i = 0; i < p->n; i++)
		ec_node_free(p->kid[vp_order & 2 ? p->n - 1 - i : i]);
	dead[p->idx] = true;
}
static const struct ec_config_schema t_schema[] = { { .type = 0 } };
static struct ec_node_type t_type = {
	.name = "t", .schema = t_schema, .size = sizeof(struct priv),
	.free_priv = t_free, .get_children_count = t_count, .get_child = t_child,
};

/* the lists of at most 2 children among 3 nodes */
static const int lists[13][3] = { { 0 },
	{ 1, 0 }, { 1, 1 }, { 1, 2 },
	{ 2, 0, 0 }, { 2, 0, 1 }, { 2, 0, 2 }, { 2, 1, 0 }, { 2, 1, 1 },
	{ 2, 1, 2 }, { 2, 2, 0 }, { 2, 2, 1 }, { 2, 2, 2 } };
static struct ec_node *nd[3];
static int held[3], lst[3];

static void check(void)
{
	bool alive[3];
	long n = 0, c = 0;
	int i, j, r;
	for (i = 0; i < 3; i++)
		alive[i] = held[i] > 0;
	for (r = 0; r < 2; r++)
		for (i = 0; i < 3; i++)
			for (j = 0; j < lists[lst[i]][0]; j++)
				if (alive[i])
					alive[lists[lst[i]][1 + j]] = true;
	for (i = 0; i < 3; i++) {
		VP_ASSERT(!alive[i] || !dead[i], "a node that is reachable is kept");
		VP_ASSERT(alive[i] || dead[i], "a node that is not reachable is released");
		if (alive[i] && !dead[i]) {
			n += 3;
			c += vp_refs == 2;
			VP_ASSERT(nd[i]->id != NULL && nd[i]->id[0] == 'i', "identifier of a kept node");
			VP_ASSERT((nd[i]->config != NULL) == (vp_refs == 2), "configuration of a kept node");
		}
	}
	VP_ASSERT(vp_live == n, "memory of released nodes, and only it, is released");
	VP_ASSERT(vp_cfg == c, "configurations of released nodes are released");
}
static void graph(int g, int order, int refs, int twice)
{
	static const int seq[2][4] = { { 0, 1, 2 }, { 0, 1, 0, 2 } };
	int i, j;
	lst[0] = g % 13;
	lst[1] = g / 13 % 13;
	lst[2] = g / 169;
	vp_order = order;
	vp_refs = refs;
	for (i = 0; i < 3; i++) {
		dead[i] = false;
		held[i] = 1;
		nd[i] = ec_node_from_type(&t_type, "i");
		VP_ASSERT(nd[i] != NULL, "node created");
		((struct priv *)ec_node_priv(nd[i]))->idx = i;
	}
	for (i = 0; i < 3; i++) {
		struct priv *p = ec_node_priv(nd[i]);
		struct cfg *c = NULL;
		p->n = lists[lst[i]][0];
		if (refs == 2) {
			c = malloc(sizeof(*c));
			VP_ASSUME(c != NULL);
			vp_cfg++;
			c->n = p->n;
			c->valid = 1;
		}
		for (j = 0; j < p->n; j++) {
			p->kid[j] = ec_node_clone(nd[lists[lst[i]][1 + j]]);
			if (c != NULL)
				c->kid[j] = ec_node_clone(p->kid[j]);
		}
		if (c != NULL)
			VP_ASSERT(ec_node_set_config(nd[i], (struct ec_config *)c) == 0, "configured");
	}
	if (twice) {
		VP_ASSERT(ec_node_clone(nd[0]) == nd[0], "clone is the same node");
		held[0]++;
	}
	check();
	for (i = 0; i < 3 + twice; i++) {
		ec_node_free(nd[seq[twice][i]]);
		held[seq[twice][i]]--;
		check();
	}
	VP_COVER("all released");
}
static int edges(int g)
{ return lists[g % 13][0] + lists[g / 13 % 13][0] + lists[g / 169][0]; }
#ifndef VP_EDGES
#define VP_EDGES 3
#endif
#ifndef VP_MOD
#define VP_MOD 1
#define VP_REM 0
#endif
#ifndef VP_ORD
#define VP_ORD 0
#define VP_REFS 2
#define VP_TWICE 0
#endif
void h_graph(void)
{
	int g = (int)vp_range(0, 2196), i;
	for (i = 0; i < 2197; i++)
		if (i % VP_MOD == VP_REM && edges(i) <= VP_EDGES && g == i) {
			graph(i, VP_ORD, VP_REFS, VP_TWICE);
			VP_END;
		}
}

/* ---- creation ------------------------------------------------------------------- */
static bool init_bad, init_seen;
static int i_init(struct ec_node *node)
{
	init_seen = true;
	VP_ASSERT(node != NULL && ec_node_priv(node) == node + 1, "private area");
	return init_bad ? -1 : 0;
}
static struct ec_node_type i_type = {
	.name = "ii", .size = sizeof(struct priv), .init_priv = i_init,
}, j_type = { .name = "ji", .size = sizeof(struct priv) };
static void create(bool with_init, bool bad, bool noid, bool named, int fail)
{
	struct ec_node *n;
	struct ec_node_type *t = with_init ? &i_type : &j_type;
	bool ok;
	init_bad = bad;
	ec_node_type_register(t, true);
	vp_fail_at = fail < 3 ? (uint64_t)fail : UINT64_MAX;
	errno = 0;
	n = named ? ec_node(t->name, noid ? NULL : "i") :
		ec_node_from_type(t, noid ? NULL : "i");
	ok = !noid && !vp_alloc_failed && !(with_init && bad);
	VP_ASSERT((n != NULL) == ok, "created unless refused or out of memory");
	if (n == NULL) {
		VP_ASSERT(vp_live == 0, "nothing is kept on failure");
		VP_ASSERT(!noid || errno == EINVAL, "refused with the error");
		VP_COVER("refused");
		return;
	}
	VP_ASSERT(ec_node_type(n) == t && !strcmp(ec_node_id(n), "i") &&
		ec_node_attrs(n) != NULL && ec_node_get_config(n) == NULL &&
		ec_node_get_type_name(n) == t->name, "as asked");
	VP_ASSERT(init_seen == with_init, "initialised by its type");
	VP_ASSERT(ec_node_get_children_count(n) == 0, "no child");
	VP_ASSERT(ec_node_check_type(n, t) == 0 &&
		ec_node_check_type(n, with_init ? &j_type : &i_type) < 0, "type check");
	ec_node_free(n);
	VP_ASSERT(vp_live == 0, "released");
	VP_COVER("created");
}
void h_create(void)
{
	int s = (int)vp_range(0, 63), i;
	for (i = 0; i < 64; i++)
		if (s == i) {
			create(i & 1, i & 2, i & 4, i & 8, i >> 4);
			VP_END;
		}
}
void h_null(void)
{
	VP_ASSERT(ec_node_clone(NULL) == NULL, "clone of nothing");
	VP_ASSERT(ec_node_priv(NULL) == NULL, "no private area");
	ec_node_free(NULL);
	errno = 0;
	VP_ASSERT(ec_node_type_lookup("zz") == NULL && errno == ENOENT, "unknown type");
	VP_ASSERT(ec_node("zz", "i") == NULL, "unknown type");
	VP_ASSERT(vp_live == 0, "nothing is kept");
	VP_COVER("null");
}

/* ---- configuration ---------------------------------------------------------------- */
static bool set_bad, set_seen;
static const struct ec_config *set_with;
static struct ec_node *set_node;
static int c_set(struct ec_node *node, const struct ec_config *config)
{
	set_seen = true;
	set_with = config;
	VP_ASSERT(node == set_node, "the node configured");
	return set_bad ? -1 : 0;
}
static struct ec_node_type c_type = { .name = "c", .size = sizeof(struct priv) };
static struct ec_config *new_config(bool valid)
{
	struct cfg *c = malloc(sizeof(*c));
	VP_ASSUME(c != NULL);
	vp_cfg++;
	c->n = 0;
	c->valid = valid;
	return (struct ec_config *)c;
}
static void configure(bool schema, bool setter, bool first, bool valid, bool bad)
{
	struct ec_config *c, *cur = NULL;
	struct ec_node *n;
	bool ok;
	int r;
	c_type.schema = t_schema;
	c_type.set_config = NULL;
	n = ec_node_from_type(&c_type, "i");
	VP_ASSERT(n != NULL, "created");
	set_node = n;
	if (first) {
		cur = new_config(true);
		VP_ASSERT(ec_node_set_config(n, cur) == 0, "configured");
	}
	c_type.schema = schema ? t_schema : NULL;
	c_type.set_config = setter ? c_set : NULL;
	set_bad = bad;
	c = new_config(valid);
	r = ec_node_set_config(n, c);
	ok = schema && valid && !(setter && bad);
	VP_ASSERT((r == 0) == ok, "accepted iff valid for the schema and the type");
	VP_ASSERT(set_seen == (setter && schema && valid) &&
		(!set_seen || set_with == c), "the type sees valid configurations only");
	if (ok) {
		VP_ASSERT(ec_node_get_config(n) == c && vp_cfg == 1,
			"the new configuration replaces the previous one");
		VP_COVER("accepted");
	} else {
		VP_ASSERT(r == -1 && ec_node_get_config(n) == cur && vp_cfg == first,
			"a refused configuration is consumed and changes nothing");
		VP_COVER("refused");
	}
	ec_node_free(n);
	VP_ASSERT(vp_cfg == 0 && vp_live == 0, "released");
}
void h_config(void)
{
	int s = (int)vp_range(0, 31), i;
	for (i = 0; i < 32; i++)
		if (s == i) {
			configure(i & 1, i & 2, i & 4, i & 8, i & 16);
			VP_END;
		}
}

/* ---- types -------------------------------------------------------------------------- */
static const char *const tnames[] = { "a", "b", "ab" };
static struct ec_node_type ty[3];
static void registry(int s)
{
	const struct ec_node_type *cur[3] = { NULL, NULL, NULL };
	int i, k, r;
	bool over;
	for (i = 0; i < 3; i++, s /= 6) {
		k = s % 3;
		over = s / 3 % 2;
		ty[i].name = tnames[k];
		errno = 0;
		r = ec_node_type_register(&ty[i], over);
		VP_ASSERT((r == 0) == (over || cur[k] == NULL),
			"a duplicate is refused unless overriding");
		if (r == 0)
			cur[k] = &ty[i];
		else {
			VP_ASSERT(errno == EEXIST, "refused with the error");
			VP_COVER("refused");
		}
		for (k = 0; k < 3; k++)
			VP_ASSERT(ec_node_type_lookup(tnames[k]) == cur[k],
				"the type registered last for a name");
	}
	VP_ASSERT(ec_node_type_name(&ty[0]) == ty[0].name, "name of a type");
	VP_COVER("registered");
}
void h_types(void)
{
	int s = (int)vp_range(0, 215), i;
	for (i = 0; i < 216; i++)
		if (s == i) {
			registry(i);
			VP_END;
		}
}
/* ---- search -------------------------------------------------------------------------- */
void h_find(void)
{
	/* r -> a b; a -> c; identifiers any of two */
	char ids[4][2];
	struct ec_node *n[4], *f;
	static const int kids[4][3] = { { 2, 1, 2 }, { 1, 3 }, { 0 }, { 0 } };
	static const int pre[4] = { 0, 1, 3, 2 };
	int i, j, s = (int)vp_range(0, 15), k, w;
	for (k = 0; k < 16; k++) {
		if (s != k)
			continue;
		for (i = 0; i < 4; i++) {
			ids[i][0] = k >> i & 1 ? 'x' : 'y';
			ids[i][1] = 0;
			dead[i > 2 ? 2 : i] = false;
			n[i] = ec_node_from_type(&t_type, ids[i]);
			((struct priv *)ec_node_priv(n[i]))->idx = 0;
		}
		for (i = 0; i < 4; i++)
			for (j = 0; j < kids[i][0]; j++) {
				struct priv *p = ec_node_priv(n[i]);
				p->kid[j] = n[kids[i][1 + j]];
				p->n = kids[i][0];
			}
		vp_refs = 1;
		f = ec_node_find(n[0], "x");
		for (w = 0; w < 4 && !(k >> pre[w] & 1); w++)
			;
		VP_ASSERT(f == (w < 4 ? n[pre[w]] : NULL),
			"the first node with the identifier");
		VP_ASSERT(ec_node_find(n[0], "z") == NULL, "unknown identifier");
		VP_COVER("searched");
		VP_END;
	}
}
#ifdef VP_ALL
int main(void)
{
	int g, o, r, t;
	for (g = 0; g < 2197; g++) for (o = 0; o < 4; o++) for (r = 1; r < 3; r++) for (t = 0; t < 2; t++)
		graph(g, o, r, t);
	return 0;
}
#endif
