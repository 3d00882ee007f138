/* node types with a single child: option, bypass, once (VP_T selects) */
#undef VP_NNODE
#define VP_NNODE 2
#include "abs.h"
#if VP_T == 1
#include "repo/ecoli_node_option.c"
#define TNAME "option"
#elif VP_T == 2
#include "repo/ecoli_node_bypass.c"
#define TNAME "bypass"
#else
#include "repo/ecoli_node_once.c"
#define TNAME "once"
#endif

static struct ec_config cfg_child = { .type = EC_CONFIG_TYPE_NODE };
static struct ec_pnode other, nested;
static struct vp_kids other_kids;

static void setup(size_t len)
{
	int r;
	vp_setup(TNAME, len);
	cfg_child.node = &vp_node[0];
	vp_cfg[0].key = "child";
	vp_cfg[0].val = &cfg_child;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSERT(r == 0, "a child is accepted");
}
static const struct ec_node *any_node(void)
{
	switch (vp_range(0, 3)) {
	case 0: return &vp_node[0];
	case 1: return &vp_node[1];
	case 2: return &vp_self;
	}
	return NULL;
}
/* the current state somewhere in a larger tree: root -> other -> nested,
 * root -> state */
static bool already;
static void grow(size_t shape)
{
	other.k = &other_kids;
	other.node = any_node();
	nested.node = any_node();
	vp_root_st.node = any_node();
	if (shape & 1) {
		ec_pnode_link_child(&vp_root_st, &other);
		if (other.node == &vp_node[0])
			already = true;
		if (shape & 2) {
			ec_pnode_link_child(&other, &nested);
			if (nested.node == &vp_node[0])
				already = true;
		}
	}
	if (shape & 4) {
		ec_pnode_link_child(&vp_root_st, &vp_pstate_st);
		if (vp_root_st.node == &vp_node[0])
			already = true;
	} else {
		already = false;
	}
}

static void parse(size_t shape, size_t len)
{
	int ret, r;

	vp_child_errors = vp_bool();
	vp_init_oracle();
	setup(len);
	grow(shape);
	r = vp_oracle(0, 0, vp_in.len);
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
#if VP_T == 3
	if (already) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH && vp_kids.n == 0,
			"a child already present in the tree does not match again");
		VP_COVER("already parsed");
		return;
	}
#endif
	if (r < 0) {
		VP_ASSERT(ret < 0, "child error is reported");
		VP_COVER("error");
	} else if (r == EC_PARSE_NOMATCH) {
#if VP_T == 1
		VP_ASSERT(ret == 0, "absent optional child matches nothing");
#else
		VP_ASSERT(ret == EC_PARSE_NOMATCH, "no match without the child");
#endif
		VP_ASSERT(vp_kids.n == 0, "no subtree without a match");
		VP_COVER("nomatch");
	} else {
		VP_ASSERT(ret == r, "matches what the child matches");
		VP_ASSERT(vp_kids.n == 1 && vp_kids.kid[0]->node == &vp_node[0],
			"subtree of the child");
		VP_COVER("match");
	}
}

static void complete(size_t shape, size_t len)
{
	int ret;

	vp_init_oracle();
	setup(len);
	grow(shape);
	vp_Cfail = vp_bool() ? 0 : -1;
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	vp_check_tree_restored(0);
#if VP_T == 3
	if (already) {
		VP_ASSERT(ret == 0 && vp_ncomp == 0,
			"a child already present is not proposed again");
		VP_COVER("already parsed");
		return;
	}
#endif
	if (vp_comp_error) {
		VP_ASSERT(ret < 0, "errors are reported");
		VP_COVER("error");
		return;
	}
	VP_ASSERT(ret == 0, "completion succeeds");
	vp_expect(0, 0);
	vp_check_requests();
	VP_COVER("completed");
}

void h_refs(void)
{
	int r, cur = 0;
	struct ec_node *c = NULL;
	unsigned int refs = 0;
	size_t i;

	vp_setup(TNAME, 0);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 0,
		"no child before configuration");
	setup(0);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 1,
		"one child after configuration");
	i = vp_range(0, 2);
	r = vp_self.type->get_child(&vp_self, i, &c, &refs);
	VP_ASSERT((r == 0) == (i == 0), "child lookup");
	if (r == 0)
		VP_ASSERT(c == &vp_node[0] && refs == 2, "the child");
	cfg_child.type = vp_bool() ? EC_CONFIG_TYPE_NODE : EC_CONFIG_TYPE_STRING;
	cfg_child.node = vp_bool() ? &vp_node[1] : &vp_node[0];
	if (vp_bool())
		vp_cfg[0].key = NULL;
	vp_cfgrefs[0] = 1;
	vp_cfgrefs[cfg_child.node == &vp_node[1]]++;
	vp_refcheck = true;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	vp_refcheck = false;
	VP_ASSERT((r == 0) == (cfg_child.type == EC_CONFIG_TYPE_NODE &&
			vp_cfg[0].key != NULL),
		"only a node is accepted as a child");
	if (r == 0)
		cur = cfg_child.node == &vp_node[1];
	r = vp_self.type->get_child(&vp_self, 0, &c, &refs);
	VP_ASSERT(r == 0 && c == &vp_node[cur],
		"refused configuration changes nothing, accepted one replaces the child");
	VP_ASSERT(vp_node[cur].refs == 2 && vp_node[!cur].refs == 1,
		"one reference per child");
	vp_self.type->free_priv(&vp_self);
	VP_ASSERT(vp_node[0].refs == 1 && vp_node[1].refs == 1,
		"references given back");
	VP_COVER("end");
}

void h_parse(void) { VP_SPLIT(parse, 7, VP_NTOK); }
void h_complete(void) { VP_SPLIT(complete, 7, VP_NTOK); }
