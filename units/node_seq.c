#include "abs.h"
#include "repo/ecoli_node_seq.c"

static struct ec_config cfg_list = { .type = EC_CONFIG_TYPE_LIST };

static void setup(size_t n, size_t len)
{
	int r;
	vp_setup("seq", len);
	vp_nchild = n;
	vp_cfg[0].key = "children";
	vp_cfg[0].val = &cfg_list;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSERT(r == 0, "a list of children is accepted");
}

/* seq: every child in order, each on what the previous ones left */
static void parse(size_t n, size_t len)
{
	size_t i, off = 0;
	int ret, exp = 0;

	vp_child_errors = vp_bool();
	vp_init_oracle();
	setup(n, len);
	long live0 = vp_live;
	vp_fail_at = vp_pick_fail(3);
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);

	/* reference */
	for (i = 0; i < VP_NNODE; i++) {
		int r;
		if (i >= vp_nchild)
			break;
		r = vp_oracle(i, off, vp_in.len - off);
		if (r < 0 || r == EC_PARSE_NOMATCH) {
			exp = r;
			break;
		}
		off += r;
		exp = off;
	}
	VP_ASSERT(vp_live == live0, "no vector leaked");
	if (vp_alloc_failed) {
		VP_ASSERT(ret < 0, "allocation failure is reported");
		VP_COVER("alloc failure");
		return;
	}
	VP_ASSERT(ret == exp || (ret < 0 && exp < 0), "sequence result");
	if (exp == EC_PARSE_NOMATCH) {
		VP_ASSERT(vp_kids.n == 0 && vp_pnode_live == 0,
			"no child left in the tree when the sequence does not match");
		VP_COVER("nomatch");
	}
	if (exp >= 0 && exp != EC_PARSE_NOMATCH) {
		VP_ASSERT(vp_kids.n == vp_nchild, "one subtree per child");
		off = 0;
		for (i = 0; i < VP_NNODE; i++) {
			if (i >= vp_nchild)
				break;
			VP_ASSERT(vp_kids.kid[i]->node == &vp_node[i] &&
				vp_kids.kid[i]->off == off,
				"children in order, contiguous");
			off += vp_kids.kid[i]->len;
		}
		VP_COVER("match");
	}
}

/* which child can come next where */
static void expect(size_t k, size_t off)
{
	size_t i;
	if (k >= vp_nchild || k >= VP_NNODE)
		return;
	vp_expect(k, off);
	for (i = 0; i < VP_NTOK; i++) {
		if (i + off >= vp_in.len)
			break;
		if (vp_oracle(k, off, i) == (int)i)
			expect(k + 1, off + i);
	}
}

static void complete(size_t n, size_t len)
{
	int ret;

	vp_child_errors = vp_pick_child_errors();
	vp_init_oracle();
	setup(n, len);
	long live0 = vp_live;
	vp_pick_errors(5, 3);
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	vp_check_tree_restored(0);
	VP_ASSERT(vp_live == live0, "no vector leaked");
	if (vp_alloc_failed || vp_comp_error || vp_parse_error) {
		VP_ASSERT(ret < 0, "errors are reported");
#ifdef VP_ERR
		VP_COVER("error");
#endif
		return;
	}
	VP_ASSERT(ret == 0, "completion succeeds");
#ifndef VP_ERR
	expect(0, 0);
	vp_check_requests();
#endif
	VP_COVER("completed");
}

/* references to children are taken and given back, also across a new
 * configuration */
static void refs(size_t n, size_t len)
{
	size_t i;
	int r;
	struct ec_node *c = NULL;
	unsigned int refs = 0;

	setup(n, len);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == vp_nchild,
		"number of children");
	i = vp_range(0, VP_NNODE);
	r = vp_self.type->get_child(&vp_self, i, &c, &refs);
	VP_ASSERT((r == 0) == (i < vp_nchild), "child lookup");
	if (r == 0)
		VP_ASSERT(c == &vp_node[i] && refs == 2, "i-th child");
	/* a second, possibly failing, configuration */
	size_t old = vp_nchild;
	vp_nchild = vp_range(0, VP_NNODE);
	vp_fail_at = vp_pick_fail(0);
	cfg_list.type = vp_bool() ? EC_CONFIG_TYPE_LIST : EC_CONFIG_TYPE_DICT;
	for (i = 0; i < VP_NNODE; i++)
		vp_cfgrefs[i] = (i < old) + (i < vp_nchild);
	vp_refcheck = true;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	vp_refcheck = false;
	if (r < 0) {
		vp_nchild = old;
		VP_COVER("reconfiguration refused");
	} else {
		VP_ASSERT(cfg_list.type == EC_CONFIG_TYPE_LIST && !vp_alloc_failed,
			"only a valid configuration is accepted");
		VP_COVER("reconfigured");
	}
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == vp_nchild,
		"refused configuration changes nothing, accepted one replaces all");
	for (i = 0; i < VP_NNODE; i++)
		VP_ASSERT(vp_node[i].refs == 1 + (i < vp_nchild),
			"one reference per child");
	vp_self.type->free_priv(&vp_self);
	for (i = 0; i < VP_NNODE; i++)
		VP_ASSERT(vp_node[i].refs == 1, "references given back");
	VP_ASSERT(vp_live == 0, "no memory kept");
}

void h_parse(void) { VP_SPLIT(parse, VP_NNODE, VP_NTOK); }
void h_complete(void) { VP_SPLIT(complete, VP_NNODE, VP_NTOK); }
void h_refs(void) { VP_SPLIT(refs, VP_NNODE, 0); }
