#include "abs.h"
#include "repo/ecoli_node_or.c"

static struct ec_config cfg_list = { .type = EC_CONFIG_TYPE_LIST };

static void setup(size_t n, size_t len)
{
	int r;
	vp_setup("or", len);
	vp_nchild = n;
	vp_cfg[0].key = "children";
	vp_cfg[0].val = &cfg_list;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSERT(r == 0, "a list of children is accepted");
}

/* or: the first child that matches decides */
static void parse(size_t n, size_t len)
{
	size_t i, win = VP_NNODE;
	int ret, exp = EC_PARSE_NOMATCH;

	vp_child_errors = vp_bool();
	vp_init_oracle();
	setup(n, len);
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	for (i = 0; i < VP_NNODE; i++) {
		if (i >= vp_nchild)
			break;
		exp = vp_oracle(i, 0, vp_in.len);
		if (exp != EC_PARSE_NOMATCH) {
			win = i;
			break;
		}
	}
	VP_ASSERT(ret == exp || (ret < 0 && exp < 0), "result of the first match");
	if (exp >= 0 && exp != EC_PARSE_NOMATCH) {
		VP_ASSERT(vp_kids.n == 1 && vp_kids.kid[0]->node == &vp_node[win],
			"only the subtree of the first match");
		VP_COVER("match");
	} else {
		VP_ASSERT(vp_kids.n == 0, "no subtree without a match");
		if (exp == EC_PARSE_NOMATCH)
			VP_COVER("nomatch");
		else
			VP_COVER("error");
	}
}

static void complete(size_t n, size_t len)
{
	size_t i;
	int ret;

	vp_init_oracle();
	setup(n, len);
	vp_Cfail = vp_bool() ? (int)vp_range(0, 3) : -1;
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	vp_check_tree_restored(0);
	if (vp_comp_error) {
		VP_ASSERT(ret < 0, "errors are reported");
#ifdef VP_ERR
		VP_COVER("error");
#endif
		return;
	}
	VP_ASSERT(ret == 0, "completion succeeds");
#ifndef VP_ERR
	for (i = 0; i < VP_NNODE; i++)
		if (i < vp_nchild)
			vp_expect(i, 0);
	vp_check_requests();
#endif
	VP_COVER("completed");
}

/* references to children are taken and given back, also across a new
 * configuration */
static void refs(size_t n, size_t len)
{
	size_t i;
	int r;
	struct ec_node *c = NULL;
	unsigned int refs = 0;

	setup(n, len);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == vp_nchild,
		"number of children");
	i = vp_range(0, VP_NNODE);
	r = vp_self.type->get_child(&vp_self, i, &c, &refs);
	VP_ASSERT((r == 0) == (i < vp_nchild), "child lookup");
	if (r == 0)
		VP_ASSERT(c == &vp_node[i] && refs == 2, "i-th child");
	/* a second, possibly failing, configuration */
	size_t old = vp_nchild;
	vp_nchild = vp_range(0, VP_NNODE);
	vp_fail_at = vp_pick_fail(0);
	cfg_list.type = vp_bool() ? EC_CONFIG_TYPE_LIST : EC_CONFIG_TYPE_DICT;
	for (i = 0; i < VP_NNODE; i++)
		vp_cfgrefs[i] = (i < old) + (i < vp_nchild);
	vp_refcheck = true;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	vp_refcheck = false;
	if (r < 0) {
		vp_nchild = old;
		VP_COVER("reconfiguration refused");
	} else {
		VP_ASSERT(cfg_list.type == EC_CONFIG_TYPE_LIST && !vp_alloc_failed,
			"only a valid configuration is accepted");
		VP_COVER("reconfigured");
	}
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == vp_nchild,
		"refused configuration changes nothing, accepted one replaces all");
	for (i = 0; i < VP_NNODE; i++)
		VP_ASSERT(vp_node[i].refs == 1 + (i < vp_nchild),
			"one reference per child");
	vp_self.type->free_priv(&vp_self);
	for (i = 0; i < VP_NNODE; i++)
		VP_ASSERT(vp_node[i].refs == 1, "references given back");
	VP_ASSERT(vp_live == 0, "no memory kept");
}

void h_parse(void) { VP_SPLIT(parse, VP_NNODE, VP_NTOK); }
void h_complete(void) { VP_SPLIT(complete, VP_NNODE, VP_NTOK); }
void h_refs(void) { VP_SPLIT(refs, VP_NNODE, 0); }
