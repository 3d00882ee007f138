/* completion results (src/ecoli_complete.c), on real parse trees */
#define VP_TOK(off) "tok"
#include "absmin.h"
#include <ecoli_string.h>
/* contract of ec_str_startswith (units str_startswith_all, str_prefix) */
int ec_str_startswith(const char *s, const char *beginning)
{
	size_t i;
	for (i = 0; beginning[i] != 0; i++)
		if (s[i] != beginning[i])
			return false;
	return true;
}
#include "repo/ecoli_parse.c"
#include "repo/ecoli_complete.c"

/* ---- scripts: items added by a node and by the children it asks --------------- */
/* slot 0: by the node, 1: by its first child, 2: by the node afterwards,
 * 3: by its second child */
#define NI 3
static int i_slot[NI], i_type[NI], n_items;
static struct ec_comp_item *got[NI];
static struct ec_comp_group *g_grp[4];
static const enum ec_comp_type types[3] = {
	EC_COMP_UNKNOWN, EC_COMP_FULL, EC_COMP_PARTIAL };
static const char *const texts[NI] = { "aa", "ab", "b" };
static int fail_in;            /* the slot whose node reports an error, or -1 */
static struct ec_strvec g_in = { .input = true };
static struct ec_strvec g_sub = { .input = true };
static struct ec_pnode *root_state;

static int add_slot(struct ec_comp *comp, const struct ec_node *node, int slot)
{
	int i;
	for (i = 0; i < n_items; i++) {
		struct ec_comp_item *it;
		size_t before;
		if (i_slot[i] != slot)
			continue;
		before = ec_comp_count(comp, EC_COMP_ALL);
		it = ec_comp_add_item(comp, node, types[i_type[i]],
			i_type[i] == 0 ? NULL : "a",
			i_type[i] == 0 ? NULL : texts[i]);
		VP_ASSERT((it == NULL) == vp_alloc_failed,
			"an item is added unless memory lacks");
		VP_ASSERT(ec_comp_count(comp, EC_COMP_ALL) == before + (it != NULL),
			"an item is counted iff it is added");
		if (it == NULL)
			return -1;
		got[i] = it;
		VP_ASSERT(ec_comp_get_cur_group(comp) == ec_comp_item_get_grp(it),
			"in the current group");
	}
	return fail_in == slot ? -1 : 0;
}
static int cb_leaf(const struct ec_node *node, struct ec_comp *comp,
	const struct ec_strvec *strvec)
{
	struct ec_pnode *ps = ec_comp_get_cur_pstate(comp);
	VP_ASSERT(strvec == &g_sub, "the slice asked for");
	VP_ASSERT(ec_pnode_get_node(ps) == node &&
		ec_pnode_get_parent(ps) == root_state &&
		ec_pnode_get_last_child(root_state) == ps,
		"the state is the path to the node");
	VP_ASSERT(ec_comp_get_cur_group(comp) == NULL, "no group yet");
	return add_slot(comp, node, node->idx == 1 ? 1 : 3);
}
static int ask(struct ec_comp *comp, int child)
{
	struct ec_pnode *ps = ec_comp_get_cur_pstate(comp);
	struct ec_comp_group *grp = ec_comp_get_cur_group(comp);
	int r = ec_complete_child(&vp_node[child], comp, &g_sub);
	VP_ASSERT(r == 0 || r == -1, "success or error");
	VP_ASSERT((r == -1) == (vp_alloc_failed || fail_in == (child == 1 ? 1 : 3)),
		"an error of the child is reported");
	VP_ASSERT(ec_comp_get_cur_pstate(comp) == ps &&
		ec_pnode_get_first_child(ps) == NULL, "the state is restored");
	VP_ASSERT(ec_comp_get_cur_group(comp) == grp, "the group is restored");
	return r;
}
static int cb_root(const struct ec_node *node, struct ec_comp *comp,
	const struct ec_strvec *strvec)
{
	struct ec_pnode *ps = ec_comp_get_cur_pstate(comp);
	root_state = ps;
	VP_ASSERT(strvec == &g_in, "the input given");
	VP_ASSERT(ec_pnode_get_node(ps) == node && ec_pnode_get_parent(ps) == NULL
		&& ec_pnode_get_first_child(ps) == NULL, "a fresh state");
	if (add_slot(comp, node, 0) < 0)
		return -1;
	if (ask(comp, 1) < 0)
		return -1;
	if (add_slot(comp, node, 2) < 0)
		return -1;
	return ask(comp, 2);
}
static struct ec_node_type t_root = { .name = "r", .complete = cb_root };
static struct ec_node_type t_leaf = { .name = "l", .complete = cb_leaf };
static struct ec_node_type t_def = { .name = "d" };
static void nodes(void)
{
	int i;
	for (i = 0; i < VP_NNODE; i++) {
		vp_node[i].idx = i;
		vp_node[i].type = i == 0 ? &t_root : &t_leaf;
	}
	vp_node[5].type = &t_def;
	fail_in = -1;
	g_in.len = 2;
	g_sub.len = 1;
}
/* slot whose group holds item i: that of the node is the same in 0 and 2 */
static int grp_slot(int i) { return i_slot[i] == 2 ? 0 : i_slot[i]; }
static int order[NI];
/* items in the order of their groups: a group is created by its first item */
static void ordered(void)
{
	int i, j, n = 0;
	bool done[NI] = { false, false, false };
	for (i = 0; i < n_items; i++) {
		if (done[i])
			continue;
		for (j = i; j < n_items; j++)
			if (!done[j] && grp_slot(j) == grp_slot(i)) {
				done[j] = true;
				order[n++] = j;
			}
	}
}
static void content(struct ec_comp *c)
{
	int i, mask, n, t[3] = { 0, 0, 0 };
	struct ec_comp_item *it;
	for (i = 0; i < n_items; i++)
		t[i_type[i]]++;
	for (mask = 0; mask < 8; mask++) {
		n = (mask & EC_COMP_UNKNOWN ? t[0] : 0) +
			(mask & EC_COMP_FULL ? t[1] : 0) +
			(mask & EC_COMP_PARTIAL ? t[2] : 0);
		VP_ASSERT(ec_comp_count(c, mask) == (size_t)n,
			"the counters are the number of items");
		it = ec_comp_iter_first(c, mask);
		for (i = 0; i < n_items; i++) {
			int k = order[i];
			if (!(types[i_type[k]] & mask))
				continue;
			VP_ASSERT(it == got[k], "iteration visits the items in order");
			if (it != got[k])
				return;
			it = ec_comp_iter_next(it, mask);
		}
		VP_ASSERT(it == NULL, "and no other");
	}
	for (i = 0; i < n_items; i++) {
		const struct ec_comp_group *g = ec_comp_item_get_grp(got[i]);
		const struct ec_pnode *ps = ec_comp_group_get_pstate(g);
		int s = grp_slot(i), nd = s == 0 ? 0 : s == 1 ? 1 : 2, j;
		VP_ASSERT(ec_comp_item_get_node(got[i]) == &vp_node[nd] &&
			ec_comp_group_get_node(g) == &vp_node[nd], "the node of the item");
		VP_ASSERT(ec_pnode_get_node(ps) == &vp_node[nd],
			"the parse state of the item");
		if (nd == 0)
			VP_ASSERT(ec_pnode_get_parent(ps) == NULL, "its path");
		else
			VP_ASSERT(ec_pnode_get_parent(ps) != NULL &&
				ec_pnode_get_node(ec_pnode_get_parent(ps)) == &vp_node[0]
				&& ec_pnode_get_first_child(ec_pnode_get_parent(ps)) == ps,
				"its path");
		VP_ASSERT(ec_comp_group_get_attrs(g) != NULL, "attributes exist");
		for (j = 0; j < i; j++)
			VP_ASSERT((ec_comp_item_get_grp(got[j]) == g) ==
				(grp_slot(j) == s), "one group per node and state");
		VP_ASSERT(ec_comp_item_get_type(got[i]) == types[i_type[i]], "the type");
		if (i_type[i] == 0) {
			VP_ASSERT(ec_comp_item_get_str(got[i]) == NULL &&
				ec_comp_item_get_completion(got[i]) == NULL,
				"an unknown item has no text");
		} else {
			VP_ASSERT(!strcmp(ec_comp_item_get_str(got[i]), texts[i]) &&
				!strcmp(ec_comp_item_get_display(got[i]), texts[i]),
				"the text");
			if (texts[i][0] == 'a')
				VP_ASSERT(!strcmp(ec_comp_item_get_completion(got[i]),
					texts[i] + 1), "what is missing");
			else
				VP_ASSERT(ec_comp_item_get_completion(got[i]) == NULL,
					"not a continuation");
		}
	}
}
static const int slots[][NI] = { { 0, 0, 0 }, { 0, 1, 2 }, { 1, 1, 3 },
	{ 1, 2, 3 }, { 0, 1, 3 }, { 1, 2, 2 } };
#ifndef VP_SLOTSET
#define VP_SLOTSET 1
#endif
static void script(int n, int ty)
{
	int i;
	nodes();
	n_items = n;
	for (i = 0; i < NI; i++) {
		i_slot[i] = slots[VP_SLOTSET][i];
		i_type[i] = ty % 3;
		ty /= 3;
	}
	ordered();
}
static void add_case(int n, int ty)
{
	struct ec_comp *c;
	script(n, ty);
	c = ec_complete_strvec(&vp_node[0], &g_in);
	VP_ASSERT(c != NULL, "completion succeeds");
	VP_ASSERT(ec_comp_get_cur_pstate(c) == NULL && ec_comp_get_cur_group(c) == NULL
		&& ec_comp_get_attrs(c) != NULL, "no state is left");
	content(c);
	ec_comp_free(c);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
void h_items(void)
{
	int n = vp_range(0, 1), t = vp_range(0, 26), a, b;
	for (a = 0; a <= 1; a++)
	for (b = 0; b < 27; b++)
		if (a == n && b == t && (a || b < 1)) {
			add_case(a ? NI : 0, b);
			VP_END;
		}
}
/* a failing allocation, or an error of one of the nodes */
static void fail_case(int ty, uint64_t fail, int err)
{
	struct ec_comp *c;
	script(NI, ty);
	fail_in = err;
	vp_fail_at = fail;
	c = ec_complete_strvec(&vp_node[0], &g_in);
	VP_ASSERT((c == NULL) == (vp_alloc_failed || err >= 0), "errors are reported");
	if (c == NULL) {
		VP_ASSERT(vp_live == 0, "nothing leaks");
		VP_COVER("failed");
	} else {
		VP_COVER("succeeded");
		ec_comp_free(c);
	}
}
#ifndef VP_TY
#define VP_TY 5
#endif
void h_fail(void)
{
	int f = vp_range(0, 44), b;
	for (b = 0; b <= 44; b++)
		if (b == f) {
			if (b >= 40)
				fail_case(VP_TY, UINT64_MAX, b - 41);
			else
				fail_case(VP_TY, b, -1);
			VP_END;
		}
}
/* one item that cannot be added leaves the result as it was */
static void item_fail_case(int before, int ty, uint64_t fail)
{
	struct ec_comp *c;
	struct ec_comp_item *a = NULL, *it;
	long base;
	nodes();
	c = ec_comp();
	VP_ASSUME(c != NULL);
	c->cur_pstate = ec_pnode(&vp_node[0]);
	if (before)
		a = ec_comp_add_item(c, &vp_node[0], EC_COMP_FULL, NULL, "x");
	base = vp_live;
	vp_fail_at = vp_alloc_count + fail;
	it = ec_comp_add_item(c, &vp_node[0], types[ty], ty ? "y" : NULL,
		ty ? "yy" : NULL);
	vp_fail_at = UINT64_MAX;
	VP_ASSERT((it == NULL) == vp_alloc_failed, "failure is reported");
	if (it == NULL) {
		VP_ASSERT(vp_live == base, "nothing leaks");
		VP_COVER("failed");
	}
	VP_ASSERT(ec_comp_count(c, EC_COMP_ALL) == (size_t)before + (it != NULL) &&
		ec_comp_count(c, EC_COMP_FULL) == (size_t)before + (it != NULL && ty == 1)
		&& ec_comp_count(c, EC_COMP_UNKNOWN) == (it != NULL && ty == 0) &&
		ec_comp_count(c, EC_COMP_PARTIAL) == (it != NULL && ty == 2),
		"the counters are the number of items");
	VP_ASSERT(ec_comp_iter_first(c, EC_COMP_ALL) == (before ? a : it),
		"what was there is kept");
	ec_pnode_free(c->cur_pstate);
	c->cur_pstate = NULL;
	ec_comp_free(c);
	VP_ASSERT(vp_live == 0, "everything is released");
}
void h_item_fail(void)
{
	int b = vp_range(0, 1), t = vp_range(0, 2), f = vp_range(0, 12), a, c, d;
	for (a = 0; a <= 1; a++)
	for (c = 0; c < 3; c++)
	for (d = 0; d <= 12; d++)
		if (a == b && c == t && d == f) {
			item_fail_case(a, c, d);
			VP_END;
		}
}
/* merging: every group moves, in order */
static void merge_case(int na, int nb, int ty)
{
	struct ec_comp *a, *b, *c;
	int i, n = 0, t[3] = { 0, 0, 0 }, mask;
	struct ec_comp_item *it;
	nodes();
	a = ec_comp();
	b = ec_comp();
	for (i = 0; i < na + nb; i++) {
		c = i < na ? a : b;
		i_type[i] = ty % 3;
		ty /= 3;
		/* one group each */
		c->cur_group = NULL;
		c->cur_pstate = ec_pnode(&vp_node[i]);
		got[i] = ec_comp_add_item(c, &vp_node[i], types[i_type[i]], NULL,
			i_type[i] ? texts[i] : NULL);
		ec_pnode_free(c->cur_pstate);
		t[i_type[i]]++;
	}
	VP_ASSERT(ec_comp_merge(a, b) == 0, "merging succeeds");
	for (mask = 0; mask < 8; mask++) {
		n = (mask & EC_COMP_UNKNOWN ? t[0] : 0) +
			(mask & EC_COMP_FULL ? t[1] : 0) +
			(mask & EC_COMP_PARTIAL ? t[2] : 0);
		VP_ASSERT(ec_comp_count(a, mask) == (size_t)n,
			"the counters are the number of items");
		it = ec_comp_iter_first(a, mask);
		for (i = 0; i < na + nb; i++) {
			if (!(types[i_type[i]] & mask))
				continue;
			VP_ASSERT(it == got[i], "every item moves, in order");
			if (it != got[i])
				return;
			it = ec_comp_iter_next(it, mask);
		}
		VP_ASSERT(it == NULL, "and no other");
	}
	ec_comp_free(a);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
void h_merge(void)
{
	int x = vp_range(0, 2), y = vp_range(0, 2), t = vp_range(0, 26), a, b, c;
	for (a = 0; a <= 2; a++)
	for (b = 0; b <= 2; b++)
	for (c = 0; c < 27; c++)
		if (a == x && b == y && c == t && a + b <= 3 &&
		    (a + b == 3 || c < (a + b == 2 ? 9 : a + b == 1 ? 3 : 1))) {
			merge_case(a, b, c);
			VP_END;
		}
}

/* ---- one item: texts ---------------------------------------------------------- */
static void text_case(int ns, int nf, int ty, int set)
{
	static char start[4], full[4], other[3];
	struct ec_comp *c;
	struct ec_comp_item *it;
	const char *p;
	bool pre = true;
	int i, r;
	long base;
	nodes();
	for (i = 0; i < ns; i++) {
		start[i] = vp_nd();
		VP_ASSUME(start[i] != 0);
	}
	for (i = 0; i < nf; i++) {
		full[i] = vp_nd();
		VP_ASSUME(full[i] != 0);
	}
	c = ec_comp();
	c->cur_pstate = ec_pnode(&vp_node[0]);
	it = ec_comp_add_item(c, &vp_node[0], types[ty], start, full);
	if (ty == 0) {
		VP_ASSERT(it == NULL && ec_comp_count(c, EC_COMP_ALL) == 0,
			"an unknown item has no text");
		return;
	}
	VP_ASSERT(it != NULL, "added");
	VP_ASSERT(!strcmp(ec_comp_item_get_str(it), full) &&
		ec_comp_item_get_str(it) != full, "the text, of its own");
	VP_ASSERT(!strcmp(ec_comp_item_get_display(it), full) &&
		ec_comp_item_get_display(it) != full, "the text displayed");
	for (i = 0; i < ns; i++)
		if (i >= nf || start[i] != full[i])
			pre = false;
	p = ec_comp_item_get_completion(it);
	if (pre) {
		VP_ASSERT(p != NULL && !strcmp(p, full + ns), "what is missing");
		VP_COVER("continuation");
	} else {
		VP_ASSERT(p == NULL, "not a continuation");
	}
	/* updates */
	other[0] = vp_nd();
	other[1] = vp_nd();
	base = vp_live;
	vp_fail_at = vp_bool() ? vp_alloc_count : UINT64_MAX;
	r = set == 0 ? ec_comp_item_set_str(it, other) :
		set == 1 ? ec_comp_item_set_display(it, other) :
		ec_comp_item_set_completion(it, other);
	VP_ASSERT((r == 0) == !vp_alloc_failed, "failure is reported");
	VP_ASSERT(vp_live == base || (r == 0 && set == 2 && !pre &&
		vp_live == base + 1), "the previous text is released");
	VP_ASSERT(!strcmp(ec_comp_item_get_str(it), r == 0 && set == 0 ? other : full),
		"the text");
	VP_ASSERT(!strcmp(ec_comp_item_get_display(it),
		r == 0 && set == 1 ? other : full), "the text displayed");
	p = ec_comp_item_get_completion(it);
	if (r == 0 && set == 2)
		VP_ASSERT(!strcmp(p, other), "what is missing");
	else if (pre)
		VP_ASSERT(!strcmp(p, full + ns), "what is missing");
	else
		VP_ASSERT(p == NULL, "not a continuation");
	VP_ASSERT(ec_comp_item_set_str(it, NULL) < 0 &&
		ec_comp_item_set_display(it, NULL) < 0 &&
		ec_comp_item_set_completion(it, NULL) < 0 &&
		ec_comp_item_set_str(NULL, other) < 0, "no text is refused");
	VP_COVER("end");
}
void h_text(void)
{
	int s = vp_range(0, 2), f = vp_range(0, 3), t = vp_range(0, 2);
	int u = vp_range(0, 2), a, b, c, d;
	for (a = 0; a <= 2; a++)
	for (b = 0; b <= 3; b++)
	for (c = 0; c < 3; c++)
	for (d = 0; d < 3; d++)
		if (a == s && b == f && c == t && d == u) {
			text_case(a, b, c, d);
			VP_END;
		}
}

/* ---- nodes without a completion of their own ------------------------------------ */
static int cb_one(const struct ec_node *node, struct ec_comp *comp,
	const struct ec_strvec *strvec)
{
	VP_ASSERT(ec_strvec_len(strvec) == 1 &&
		!strcmp(ec_strvec_val(strvec, 0), "xy"), "the one text given");
	return ec_comp_add_item(comp, node, EC_COMP_FULL, "xy", "xyz") == NULL ?
		-1 : 0;
}
static struct ec_node_type t_one = { .name = "o", .complete = cb_one };
static void default_case(int len, int str, uint64_t fail)
{
	struct ec_comp *c;
	struct ec_comp_item *it;
	nodes();
	g_in.len = len;
	vp_node[4].type = &t_one;
	vp_fail_at = fail;
	c = str == 2 ? ec_complete(&vp_node[4], "xy") :
		str ? ec_complete(&vp_node[5], "x") :
		ec_complete_strvec(&vp_node[5], &g_in);
	VP_ASSERT((c == NULL) == vp_alloc_failed, "failure is reported");
	if (c == NULL) {
		VP_ASSERT(vp_live == 0, "nothing leaks");
		VP_COVER("failed");
		return;
	}
	it = ec_comp_iter_first(c, EC_COMP_ALL);
	if (str == 2) {
		VP_ASSERT(it != NULL && ec_comp_item_get_type(it) == EC_COMP_FULL &&
			ec_comp_count(c, EC_COMP_ALL) == 1, "the item of the node");
	} else if (str || len == 1) {
		VP_ASSERT(it != NULL && ec_comp_item_get_type(it) == EC_COMP_UNKNOWN &&
			ec_comp_item_get_node(it) == &vp_node[5] &&
			ec_comp_count(c, EC_COMP_ALL) == 1 &&
			ec_comp_count(c, EC_COMP_UNKNOWN) == 1 &&
			ec_comp_iter_next(it, EC_COMP_ALL) == NULL,
			"one unknown item for the word completed");
		VP_COVER("unknown");
	} else {
		VP_ASSERT(it == NULL && ec_comp_count(c, EC_COMP_ALL) == 0,
			"nothing when the word completed is not the only one left");
		VP_COVER("nothing");
	}
	ec_comp_free(c);
	VP_ASSERT(vp_live == 0, "everything is released");
}
void h_default(void)
{
	int l = vp_range(0, 3), s = vp_range(0, 2), f = vp_range(0, 17), a, b, d;
	for (a = 0; a <= 3; a++)
	for (b = 0; b < 3; b++)
	for (d = 0; d <= 17; d++)
		if (a == l && b == s && d == f && (b == 0 || a == 0) &&
		    (a < 2 || d == 17)) {
			default_case(a, b, d);
			VP_END;
		}
}
void h_absent(void)
{
	VP_ASSERT(ec_comp_count(NULL, EC_COMP_ALL) == 0 &&
		ec_comp_iter_next(NULL, EC_COMP_ALL) == NULL, "no result, no item");
	ec_comp_free(NULL);
	if (vp_bool()) {
		vp_fail_at = 0;
		VP_ASSERT(ec_comp() == NULL && vp_live == 0, "failure is reported");
		VP_END;
	}
	vp_fail_at = 1;
	VP_ASSERT(ec_comp() == NULL && vp_live == 0, "failure is reported");
	VP_COVER("end");
}
