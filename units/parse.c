/* the parse engine and parse trees (src/ecoli_parse.c) */
#include "absmin.h"
#include "repo/ecoli_parse.c"

#ifndef VP_N
#define VP_N 4
#endif

/* ---- P08: parsing a child, or a root ------------------------------------------ */
/* what the node answers, any value; how many subtrees it adds */
static int g_answer, g_kids, g_calls;
static struct ec_pnode *g_parent, *g_sib[2], *g_state;
static struct ec_strvec g_in = { .input = true };
static bool g_kid_failed;
static const struct ec_strvec *g_given;
static int node_parse(const struct ec_node *node, struct ec_pnode *pstate,
	const struct ec_strvec *strvec)
{
	int i;
	struct ec_pnode *kid;
	g_calls++;
	g_state = pstate;
	VP_ASSERT(node == &vp_node[0], "the node is asked");
	VP_ASSERT(ec_pnode_get_node(pstate) == node, "the state belongs to the node");
	VP_ASSERT(g_given == NULL || strvec == g_given ||
		(strvec->off == g_given->off && strvec->len == g_given->len),
		"about the whole input");
	VP_ASSERT(ec_pnode_get_parent(pstate) == g_parent,
		"in a state attached to the tree");
	if (g_parent != NULL)
		VP_ASSERT(ec_pnode_get_last_child(g_parent) == pstate &&
			ec_pnode_next(pstate) == NULL, "as its last child");
	VP_ASSERT(ec_pnode_get_first_child(pstate) == NULL, "empty so far");
	VP_ASSERT(!ec_pnode_matches(pstate), "not matched so far");
	if (g_given == NULL) {
		VP_ASSERT(ec_strvec_len(strvec) == 1 &&
			!strcmp(ec_strvec_val(strvec, 0), "x"), "the one text given");
	}
	for (i = 0; i < g_kids; i++) {
		kid = ec_pnode(&vp_node[1 + i]);
		if (kid == NULL) {
			g_kid_failed = true;
			return -1;
		}
		ec_pnode_link_child(pstate, kid);
	}
	return g_answer;
}
static struct ec_node_type t_parse = { .name = "t", .parse = node_parse };
static struct ec_node_type t_none = { .name = "n" };

/* answers: error, no match, or a count within or beyond the input */
static const int answers[] = { -1, EC_PARSE_NOMATCH, 0, 1, 2, 3 };
#define NA (int)(sizeof(answers) / sizeof(answers[0]))
static void setup(int kids, int noparse)
{
	unsigned i;
	for (i = 0; i < VP_NNODE; i++) {
		vp_node[i].idx = i;
		vp_node[i].id[0] = 'a' + i;
		vp_node[i].type = noparse ? &t_none : &t_parse;
	}
	g_kids = kids;
	g_in.off = 3;
	g_in.len = 2;
	g_given = &g_in;
}
static void subtree(struct ec_pnode *c, int kids)
{
	struct ec_pnode *k = ec_pnode_get_first_child(c);
	int i;
	VP_ASSERT(ec_pnode_get_node(c) == &vp_node[0], "the subtree holds the node");
	VP_ASSERT(ec_pnode_matches(c), "the subtree matches");
	VP_ASSERT(ec_pnode_len(c) == (size_t)g_answer &&
		ec_pnode_get_strvec(c)->off == g_in.off &&
		ec_pnode_get_strvec(c)->len == (size_t)g_answer,
		"the subtree holds exactly the consumed prefix");
	for (i = 0; i < kids; i++) {
		VP_ASSERT(k != NULL && ec_pnode_get_node(k) == &vp_node[1 + i],
			"the subtrees the node added are kept in order");
		if (k == NULL)
			return;
		k = ec_pnode_next(k);
	}
	VP_ASSERT(k == NULL, "and no other");
}
static void child_case(int nsib, int kids, uint64_t fail, int noparse)
{
	int r, i;
	long base;
	struct ec_pnode *c;
	setup(kids, noparse);
	g_parent = ec_pnode(&vp_node[5]);
	for (i = 0; i < nsib; i++) {
		g_sib[i] = ec_pnode(&vp_node[3 + i]);
		ec_pnode_link_child(g_parent, g_sib[i]);
	}
	base = vp_live;
	vp_fail_at = vp_alloc_count + fail;
	r = ec_parse_child(&vp_node[0], g_parent, &g_in);
	/* the siblings are as they were */
	c = ec_pnode_get_first_child(g_parent);
	for (i = 0; i < nsib; i++) {
		VP_ASSERT(c == g_sib[i], "earlier subtrees are kept");
		if (c != g_sib[i])
			return;
		c = ec_pnode_next(c);
	}
	if (r < 0 || r == EC_PARSE_NOMATCH) {
		VP_ASSERT(c == NULL, "the tree is left as it was");
		VP_ASSERT(vp_live == base, "nothing leaks");
		if (r < 0) {
			VP_ASSERT(noparse || vp_alloc_failed || g_answer < 0 ||
				(size_t)g_answer > g_in.len, "an error has a cause");
			VP_COVER("error");
		} else {
			VP_ASSERT(g_answer == EC_PARSE_NOMATCH && !vp_alloc_failed,
				"no match is the answer of the node");
			VP_COVER("no match");
		}
	} else {
		VP_ASSERT(!noparse && !vp_alloc_failed && r == g_answer,
			"consumes what the node consumed");
		VP_ASSERT(c != NULL && ec_pnode_next(c) == NULL, "one subtree more");
		if (c == NULL)
			return;
		VP_ASSERT(ec_pnode_get_parent(c) == g_parent &&
			ec_pnode_get_last_child(g_parent) == c, "attached to the tree");
		subtree(c, kids);
		/* state, attributes and text, plus the same for each subtree */
		VP_ASSERT(vp_live == base + 3 + 2 * kids, "nothing leaks");
		VP_COVER("match");
	}
	VP_ASSERT(g_calls == !noparse || (g_calls == 0 && vp_alloc_failed),
		"the node is asked once");
	VP_ASSERT(g_in.len == ec_strvec_len(&g_in) && g_in.off == 3,
		"the input is unchanged");
	ec_pnode_free(g_parent);
	VP_ASSERT(vp_live == 0, "everything is released");
}
void h_child(void)
{
	int s = vp_range(0, 2), k = vp_range(0, 1), an = vp_range(0, NA - 1);
	uint64_t f = vp_range(0, 5), c;
	int a, b, d;
	if (vp_bool()) {
		child_case(1, 0, 9, 1);
		VP_END;
	}
	for (a = 0; a <= 2; a++)
	for (b = 0; b <= 1; b++)
	for (c = 0; c <= 5; c++)
	for (d = 0; d < NA; d++)
		if (s == a && k == b && c == f && d == an) {
			g_answer = answers[d];
			child_case(a, b, c, 0);
			VP_END;
		}
}
static void root_case(int str, int kids, uint64_t fail, int noparse)
{
	struct ec_pnode *p;
	setup(kids, noparse);
	/* contract of a node type: no match leaves no subtree (units node_*) */
	VP_ASSUME(g_answer != EC_PARSE_NOMATCH || kids == 0);
	if (str) {
		g_given = NULL;
		g_in.off = 0;
		g_in.len = 1;
	}
	vp_fail_at = fail;
	p = str ? ec_parse(&vp_node[0], "x") : ec_parse_strvec(&vp_node[0], &g_in);
	VP_ASSERT((p == NULL) == (vp_alloc_failed || noparse || g_answer < 0 ||
		(g_answer != EC_PARSE_NOMATCH && (size_t)g_answer > g_in.len)),
		"an error is reported, and nothing else is one");
	if (p == NULL) {
		VP_ASSERT(vp_live == 0, "nothing leaks");
		VP_COVER("error");
		return;
	}
	VP_ASSERT(p == g_state && ec_pnode_get_parent(p) == NULL, "the tree parsed");
	VP_ASSERT(ec_pnode_matches(p) == (g_answer != EC_PARSE_NOMATCH),
		"the tree matches iff the node matched");
	if (ec_pnode_matches(p)) {
		subtree(p, kids);
		VP_COVER("match");
	} else {
		VP_ASSERT(ec_pnode_get_first_child(p) == NULL &&
			ec_pnode_get_strvec(p) == NULL && ec_pnode_len(p) == 0 &&
			ec_pnode_get_node(p) == &vp_node[0],
			"a tree that does not match is one empty node");
		VP_COVER("no match");
	}
	VP_ASSERT(g_calls == 1, "the node is asked once");
	ec_pnode_free(p);
	VP_ASSERT(vp_live == 0, "everything is released");
}
void h_root(void)
{
	int s = vp_range(0, 1), k = vp_range(0, 1), an = vp_range(0, NA - 1);
	uint64_t f = vp_range(0, 7), c;
	int a, b, d;
	if (vp_bool()) {
		root_case(0, 0, 9, 1);
		VP_END;
	}
	for (a = 0; a <= 1; a++)
	for (b = 0; b <= 1; b++)
	for (c = 0; c <= 7; c++)
	for (d = 0; d < NA; d++)
		if (s == a && k == b && c == f && d == an) {
			g_answer = answers[d];
			root_case(a, b, c, 0);
			VP_END;
		}
}

/* ---- P14: trees -------------------------------------------------------------- */
static struct ec_pnode *pn[VP_N];
static int par[VP_N];          /* parent, -1: none */
static int ord[VP_N], nord;    /* order of linking */
static bool gone[VP_N];
static int first_of(int p, int after)
{
	int i, b = -1;
	for (i = 0; i < VP_N; i++)
		if (!gone[i] && par[i] == p && i != p && ord[i] > after &&
		    (b < 0 || ord[i] < ord[b]))
			b = i;
	return b;
}
static int last_of(int p)
{
	int i, b = -1;
	for (i = 0; i < VP_N; i++)
		if (!gone[i] && par[i] == p && (b < 0 || ord[i] > ord[b]))
			b = i;
	return b;
}
static int root_of(int i)
{
	int k;
	for (k = 0; k < VP_N; k++)
		if (par[i] >= 0)
			i = par[i];
	return i;
}
static int under(int i, int top)
{
	int k;
	for (k = 0; k <= VP_N; k++) {
		if (i == top)
			return 1;
		if (i >= 0)
			i = par[i];
	}
	return 0;
}
/* next of i, depth first below top */
static int dfs_next(int top, int i, bool kids)
{
	int k, n;
	if (kids && first_of(i, -1) >= 0)
		return first_of(i, -1);
	for (k = 0; k < VP_N; k++) {
		if (i == top || par[i] < 0)
			return -1;
		n = first_of(par[i], ord[i]);
		if (n >= 0)
			return n;
		i = par[i];
	}
	return -1;
}
#define P(i) ((i) < 0 ? NULL : pn[i])
static void agree(void)
{
	int i, t, n;
	struct ec_pnode *it;
	for (i = 0; i < VP_N; i++) {
		if (gone[i])
			continue;
		VP_ASSERT(ec_pnode_get_parent(pn[i]) == P(par[i]), "parent");
		VP_ASSERT(ec_pnode_get_first_child(pn[i]) == P(first_of(i, -1)),
			"first child");
		VP_ASSERT(ec_pnode_get_last_child(pn[i]) == P(last_of(i)),
			"last child");
		if (par[i] >= 0)
			VP_ASSERT(ec_pnode_next(pn[i]) == P(first_of(par[i], ord[i])),
				"next sibling");
		VP_ASSERT(ec_pnode_get_root(pn[i]) == pn[root_of(i)], "root");
		VP_ASSERT(ec_pnode_get_node(pn[i]) == &vp_node[i] &&
			ec_pnode_get_strvec(pn[i])->off == (size_t)i &&
			ec_pnode_len(pn[i]) == (size_t)i + 1 &&
			ec_pnode_matches(pn[i]) &&
			ec_pnode_get_attrs(pn[i])->tag == i, "content is kept");
	}
	for (t = 0; t < VP_N; t++) {
		if (gone[t])
			continue;
		n = t;
		for (it = pn[t]; it != NULL; it = EC_PNODE_ITER_NEXT(pn[t], it, 1)) {
			VP_ASSERT(it == P(n), "iteration is depth first");
			if (it != P(n))
				return;
			VP_ASSERT(EC_PNODE_ITER_NEXT(pn[t], it, 0) ==
				P(dfs_next(t, n, false)), "skipping the children");
			n = dfs_next(t, n, true);
		}
		VP_ASSERT(n < 0, "iteration visits every node");
	}
}
static struct ec_pnode *mk(int i)
{
	struct ec_pnode *p = ec_pnode(&vp_node[i]);
	VP_ASSUME(p != NULL);
	p->strvec = vp_sv(i, i + 1, NULL);
	p->attrs->tag = i;
	par[i] = -1;
	pn[i] = p;
	return p;
}
static void build(int shape)
{
	int i;
	for (i = 0; i < VP_NNODE; i++) {
		vp_node[i].idx = i;
		vp_node[i].id[0] = 'a' + i;
		vp_node[i].type = &t_none;
	}
	for (i = 0; i < VP_N; i++) {
		mk(i);
		if (i > 0) {
			/* any earlier node can be the parent */
			par[i] = shape % i;
			shape /= i;
			ec_pnode_link_child(pn[par[i]], pn[i]);
			ord[i] = nord++;
		}
	}
}
static void drop(int i)
{
	int k;
	for (k = 0; k < VP_N; k++)
		if (!gone[k] && k != i && under(k, i))
			gone[k] = true;
	gone[i] = true;
}
static void finish(void)
{
	int i;
	for (i = 0; i < VP_N; i++)
		if (!gone[i] && par[i] < 0) {
			ec_pnode_free(pn[i]);
			drop(i);
		}
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
#ifdef VP_SHAPE
#define SHAPES (VP_SHAPE + 1)
#define SHAPE0 VP_SHAPE
#elif VP_N == 5
#define SHAPES 24
#else
#define SHAPES 6
#endif
#ifndef SHAPE0
#define SHAPE0 0
#endif
/* any tree, any node unlinked and linked again anywhere it can be */
static void move_case(int shape, int i, int to)
{
	build(shape);
	if (i == 0 && to == 0)
		agree();
	ec_pnode_unlink_child(pn[i]);
	par[i] = -1;
	if (to == VP_N)
		agree();
	if (to < VP_N && !under(to, i)) {
		ec_pnode_link_child(pn[to], pn[i]);
		par[i] = to;
		ord[i] = nord++;
		agree();
	}
	finish();
}
void h_move(void)
{
	int a, b, c;
	int s = vp_range(SHAPE0, SHAPES - 1), i = vp_range(0, VP_N - 1);
	int t = vp_range(0, VP_N);
	for (a = SHAPE0; a < SHAPES; a++)
	for (b = 0; b < VP_N; b++)
	for (c = 0; c <= VP_N; c++)
		if (a == s && b == i && c == t) {
			move_case(a, b, c);
			VP_END;
		}
}
/* any tree, children or last child of any node deleted */
static void del_case(int shape, int i, int what)
{
	int k;
	build(shape);
	if (what) {
		k = last_of(i);
		ec_pnode_del_last_child(pn[i]);
		if (k >= 0)
			drop(k);
	} else {
		ec_pnode_free_children(pn[i]);
		for (k = first_of(i, -1); k >= 0; k = first_of(i, -1))
			drop(k);
	}
	agree();
	finish();
}
void h_del(void)
{
	int a, b, c;
	int s = vp_range(SHAPE0, SHAPES - 1), i = vp_range(0, VP_N - 1);
	int t = vp_range(0, 1);
	for (a = SHAPE0; a < SHAPES; a++)
	for (b = 0; b < VP_N; b++)
	for (c = 0; c <= 1; c++)
		if (a == s && b == i && c == t) {
			del_case(a, b, c);
			VP_END;
		}
}
/* duplicate seen from any node, any allocation failing */
static void same(const struct ec_pnode *d, int i, bool unmatched)
{
	const struct ec_pnode *k = ec_pnode_get_first_child(d);
	int j;
	VP_ASSERT(d != pn[i], "the copy is another node");
	VP_ASSERT(ec_pnode_get_node(d) == &vp_node[i], "same grammar node");
	if (unmatched && i == 1)
		VP_ASSERT(ec_pnode_get_strvec(d) == NULL, "same text");
	else
		VP_ASSERT(ec_pnode_get_strvec(d) != NULL &&
			ec_pnode_get_strvec(d) != ec_pnode_get_strvec(pn[i]) &&
			ec_pnode_get_strvec(d)->off == (size_t)i &&
			ec_pnode_get_strvec(d)->len == (size_t)i + 1,
			"same text, of its own");
	VP_ASSERT(d->attrs != pn[i]->attrs && d->attrs->tag == i,
		"same attributes, of its own");
	for (j = first_of(i, -1); j >= 0; j = first_of(i, ord[j])) {
		VP_ASSERT(k != NULL && ec_pnode_get_parent(k) == d,
			"same children in the same order");
		if (k == NULL)
			return;
		same(k, j, unmatched);
		k = ec_pnode_next(k);
	}
	VP_ASSERT(k == NULL, "no other child");
}
static void dup_case(int shape, int i, uint64_t fail, bool unmatched)
{
	struct ec_pnode *d;
	const struct ec_pnode *up;
	long base;
	int t;
	build(shape);
	if (unmatched) {
		ec_strvec_free(pn[1]->strvec);
		pn[1]->strvec = NULL;
	}
	base = vp_live;
	vp_fail_at = vp_alloc_count + fail;
	d = ec_pnode_dup(pn[i]);
	VP_ASSERT((d == NULL) == vp_alloc_failed, "failure is reported");
	vp_fail_at = UINT64_MAX;
	if (d == NULL) {
		VP_ASSERT(vp_live == base, "nothing leaks");
		VP_COVER("failed");
	} else {
		/* same place: same path up to the root */
		VP_ASSERT(ec_pnode_get_node(d) == &vp_node[i],
			"the copy of the same node");
		up = d;
		for (t = i; par[t] >= 0; t = par[t]) {
			up = ec_pnode_get_parent(up);
			VP_ASSERT(up != NULL && ec_pnode_get_node(up) ==
				&vp_node[par[t]], "at the same place");
			if (up == NULL)
				return;
		}
		VP_ASSERT(ec_pnode_get_parent(up) == NULL, "the copy has its own root");
		same(up, 0, unmatched);
		VP_ASSERT(vp_live == 2 * base, "as large as the original");
		ec_pnode_free(EC_PNODE_GET_ROOT(d));
		VP_ASSERT(vp_live == base, "released independently");
		VP_COVER("copied");
	}
	if (!unmatched)
		agree();
	finish();
}
void h_dup(void)
{
	int a, b, c;
	int s = vp_range(SHAPE0, SHAPES - 1), i = vp_range(0, 2 * VP_N - 1);
	int t = vp_range(0, VP_N * 4);
	bool fail = vp_bool();
	for (a = SHAPE0; a < SHAPES; a++) {
		for (b = 0; b < 2 * VP_N; b++)
			if (a == s && b == i && !fail) {
				dup_case(a, b / 2, UINT32_MAX, b % 2);
				VP_END;
			}
		for (c = 0; c <= VP_N * 4; c++)
			if (a == s && c == t && fail) {
				dup_case(a, VP_N - 1, c, 0);
				VP_END;
			}
	}
}
/* searches by identifier, from any root, skipping children or not */
static void find(int top, int mask, bool kids)
{
	const struct ec_pnode *p;
	int i, n;
	for (i = 0; i < VP_N; i++)
		vp_node[i].id[0] = mask >> i & 1 ? 'x' : 'y';
	p = ec_pnode_find(pn[top], "x");
	n = top;
	while (n >= 0 && !(mask >> n & 1))
		n = dfs_next(top, n, true);
	for (;;) {
		VP_ASSERT(p == P(n), "finds the first match in depth-first order");
		if (n < 0 || p != P(n))
			break;
		p = ec_pnode_find_next(pn[top], p, "x", kids);
		n = dfs_next(top, n, kids);
		while (n >= 0 && !(mask >> n & 1))
			n = dfs_next(top, n, true);
		VP_COVER("found");
	}
}
static void find_case(int shape)
{
	int t, m;
	build(shape);
	VP_ASSERT(ec_pnode_find(NULL, "x") == NULL, "nothing in no tree");
	for (t = 0; t < VP_N; t++)
		for (m = 0; m < 1 << VP_N; m++) {
			find(t, m, true);
			find(t, m, false);
		}
	finish();
}
void h_find(void)
{
	int a, s = vp_range(SHAPE0, SHAPES - 1);
	for (a = SHAPE0; a < SHAPES; a++)
		if (a == s) {
			find_case(a);
			VP_END;
		}
}
/* absent trees and failing creation */
void h_null(void)
{
	vp_fail_at = vp_range(0, 2);
	if (vp_fail_at < 2) {
		VP_ASSERT(ec_pnode(&vp_node[0]) == NULL && vp_live == 0,
			"failure is reported, nothing leaks");
		return;
	}
	VP_ASSERT(ec_pnode_get_root(NULL) == NULL && ec_pnode_get_parent(NULL) == NULL
		&& ec_pnode_get_node(NULL) == NULL && ec_pnode_get_strvec(NULL) == NULL
		&& ec_pnode_get_attrs(NULL) == NULL && ec_pnode_len(NULL) == 0
		&& ec_pnode_matches(NULL) == 0 && ec_pnode_dup(NULL) == NULL,
		"no tree, no content");
	ec_pnode_free(NULL);
	ec_pnode_free_children(NULL);
	VP_COVER("end");
}
