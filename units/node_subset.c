#include "abs.h"
#include "repo/ecoli_node_subset.c"

static void setup(size_t n, size_t len)
{
	size_t i;
	int r;
	vp_setup("subset", len);
	vp_nchild = n;
	for (i = 0; i < VP_NNODE; i++) {
		if (i >= vp_nchild)
			break;
		r = ec_node_subset_add(&vp_self, &vp_node[i]);
		VP_ASSERT(r == 0, "child added");
	}
}

/* largest number of children that can be consumed one after the other, each
 * at most once */
static size_t best(unsigned used, size_t off)
{
	size_t i, b = 0;
	for (i = 0; i < VP_NNODE; i++) {
		int r;
		size_t x;
		if (i >= vp_nchild)
			break;
		if (used & (1u << i))
			continue;
		r = vp_oracle(i, off, vp_in.len - off);
		if (r == EC_PARSE_NOMATCH || r < 0)
			continue;
		x = 1 + best(used | (1u << i), off + r);
		if (x > b)
			b = x;
	}
	return b;
}

static void parse(size_t n, size_t len)
{
	size_t i, off = 0;
	unsigned used = 0;
	int ret;

	vp_child_errors = false;
	vp_init_oracle();
	setup(n, len);
	long live0 = vp_live;
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	VP_ASSERT(vp_live == live0, "nothing leaked");
	if (vp_in.len == 0) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH, "nothing matches an empty input");
		vp_check_tree_restored(0);
		VP_COVER("empty");
		return;
	}
	VP_ASSERT(ret >= 0 && ret != EC_PARSE_NOMATCH, "always matches");
	VP_ASSERT(vp_pnode_live == (long)VP_KIDS(), "no subtree leaked");
	for (i = 0; i < VP_MAXKID; i++) {
		int c;
		if (i >= VP_KIDS())
			break;
		c = VP_KID_NODE(i);
		VP_ASSERT(!(used & (1u << c)), "each child at most once");
		used |= 1u << c;
		VP_ASSERT(VP_KID_OFF(i) == off,
			"the tree holds exactly the consumed chain");
		off += VP_KID_LEN(i);
	}
	VP_ASSERT(ret == (int)off, "consumes what the tree shows");
	VP_ASSERT(VP_KIDS() == best(0, 0), "as many children as possible");
	VP_COVER("match");
	if (VP_KIDS() == VP_NNODE)
		VP_COVER("all");
}

static void parse_err(size_t n, size_t len)
{
	int ret;

	vp_child_errors = true;
	vp_init_oracle();
	setup(n, len);
	long live0 = vp_live;
	vp_fail_at = vp_pick_fail(6);
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	VP_ASSERT(vp_live == live0, "nothing leaked");
	VP_ASSERT(vp_pnode_live == (long)VP_KIDS(), "no subtree leaked");
	VP_ASSERT((ret < 0) == (vp_alloc_failed || vp_parse_error),
		"errors are reported");
	if (ret < 0)
		VP_COVER("error");
	else
		VP_COVER("no error");
}

static void expect(unsigned used, size_t off)
{
	size_t i;
	if (off >= vp_in.len)
		return;
	for (i = 0; i < VP_NNODE; i++) {
		int r;
		if (i >= vp_nchild)
			break;
		if (used & (1u << i))
			continue;
		vp_expect(i, off);
		r = vp_oracle(i, off, vp_in.len - off);
		if (r >= 0 && r != EC_PARSE_NOMATCH)
			expect(used | (1u << i), off + r);
	}
}

static void complete(size_t n, size_t len)
{
	size_t i;
	int ret;

	vp_child_errors = vp_pick_child_errors();
	vp_init_oracle();
	setup(n, len);
	long live0 = vp_live;
	vp_pick_errors(5, 4);
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	vp_check_tree_restored(0);
	VP_ASSERT(vp_live == live0, "no vector leaked");
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == vp_nchild,
		"children unchanged");
	for (i = 0; i < VP_NNODE; i++) {
		struct ec_node *c = NULL;
		unsigned int refs;
		if (i >= vp_nchild)
			break;
		vp_self.type->get_child(&vp_self, i, &c, &refs);
		VP_ASSERT(c == &vp_node[i], "children unchanged by completion");
	}
	if (vp_alloc_failed || vp_comp_error || vp_parse_error) {
		VP_ASSERT(ret < 0, "errors are reported");
#ifdef VP_ERR
		VP_COVER("error");
#endif
		return;
	}
	VP_ASSERT(ret == 0, "completion succeeds");
#ifndef VP_ERR
	expect(0, 0);
	vp_check_requests();
#endif
	VP_COVER("completed");
}

static void refs(size_t n, size_t failpos)
{
	size_t i;
	int r;
	struct ec_node *c = NULL;
	unsigned int refs = 0;

	vp_setup("subset", 0);
	if (failpos > 0)
		vp_fail_at = vp_alloc_count + failpos - 1;
	vp_nchild = 0;
	r = ec_node_subset_add(&vp_self, NULL);
	VP_ASSERT(r < 0, "no child");
	for (i = 0; i < VP_NNODE; i++) {
		if (i >= n)
			break;
		r = ec_node_subset_add(&vp_self, &vp_node[i]);
		if (r < 0) {
			VP_ASSERT(vp_alloc_failed, "only allocation can fail");
			VP_ASSERT(vp_node[i].refs == 0,
				"the child is consumed on failure");
			vp_node[i].refs = 1;
			VP_COVER("failed add");
			break;
		}
		vp_nchild++;
	}
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == vp_nchild,
		"number of children");
	i = vp_range(0, VP_NNODE);
	r = vp_self.type->get_child(&vp_self, i, &c, &refs);
	VP_ASSERT((r == 0) == (i < vp_nchild), "child lookup");
	if (r == 0)
		VP_ASSERT(c == &vp_node[i] && refs == 1, "i-th child");
	vp_self.type->free_priv(&vp_self);
	for (i = 0; i < VP_NNODE; i++)
		VP_ASSERT(vp_node[i].refs == (i < vp_nchild ? 0 : 1),
			"references given back");
	VP_ASSERT(vp_live == 0, "no memory kept");
	VP_COVER("end");
}

void h_refs(void) { VP_SPLIT(refs, VP_NNODE, VP_NNODE); }
void h_parse(void) { VP_SPLIT(parse, VP_NNODE, VP_NTOK); }
void h_parse_err(void) { VP_SPLIT(parse_err, VP_NNODE, VP_NTOK); }
void h_complete(void) { VP_SPLIT(complete, VP_NNODE, VP_NTOK); }
