#undef VP_NNODE
#define VP_NNODE 2
#undef VP_MAXKID
#define VP_MAXKID 5
#include "abs.h"
#include "repo/ecoli_node_many.c"

static struct ec_config cfg_child = { .type = EC_CONFIG_TYPE_NODE };
static struct ec_config cfg_min = { .type = EC_CONFIG_TYPE_UINT64 };
static struct ec_config cfg_max = { .type = EC_CONFIG_TYPE_UINT64 };
static uint64_t lo, hi;

static int configure(void)
{
	vp_cfg[0].key = "child";
	vp_cfg[0].val = &cfg_child;
	cfg_child.node = &vp_node[0];
	vp_cfg[1].key = vp_bool() ? "min" : NULL;
	vp_cfg[1].val = &cfg_min;
	vp_cfg[2].key = vp_bool() ? "max" : NULL;
	vp_cfg[2].val = &cfg_max;
#ifdef VP_ERR
	vp_cfg[1].key = vp_cfg[2].key = NULL;
#endif
	cfg_min.u64 = vp_nd();
	cfg_max.u64 = vp_nd();
	lo = vp_cfg[1].key ? cfg_min.u64 : 0;
	hi = vp_cfg[2].key ? cfg_max.u64 : 0;
	return vp_self.type->set_config(&vp_self, &vp_cfg_dict);
}

/* many: greedy repetition; an iteration that consumes nothing ends it and is
 * not kept */
static void parse(size_t n, size_t len)
{
	size_t i, off = 0, count = 0;
	int ret, exp = 0;
	bool err = false;

	vp_child_errors = vp_bool();
	vp_init_oracle();
	vp_setup("many", len);
	ret = configure();
	VP_ASSUME(ret == 0);
	vp_fail_at = vp_pick_fail(4);
	long live0 = vp_live;
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	for (i = 0; i <= VP_NTOK; i++) {
		int r;
		if (hi != 0 && count >= hi)
			break;
		r = vp_oracle(0, off, vp_in.len - off);
		if (r < 0) {
			err = true;
			break;
		}
		if (r == EC_PARSE_NOMATCH || r == 0)
			break;
		off += r;
		count++;
	}
	VP_ASSERT(vp_live == live0, "no vector leaked");
	if (vp_alloc_failed) {
		VP_ASSERT(ret < 0, "allocation failure is reported");
		VP_COVER("alloc failure");
		return;
	}
	if (err) {
		VP_ASSERT(ret < 0, "child error is reported");
		VP_COVER("error");
		return;
	}
	if (count < lo) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH, "no match below the minimum");
		vp_check_tree_restored(0);
		VP_COVER("nomatch");
		return;
	}
	VP_ASSERT(ret == (int)off, "consumes all repetitions");
	VP_ASSERT(vp_kids.n == count && vp_pnode_live == (long)count,
		"one subtree per repetition");
	off = 0;
	for (i = 0; i < VP_MAXKID; i++) {
		if (i >= vp_kids.n)
			break;
		VP_ASSERT(vp_kids.kid[i]->node == &vp_node[0] &&
			vp_kids.kid[i]->off == off && vp_kids.kid[i]->len > 0,
			"repetitions are contiguous and not empty");
		off += vp_kids.kid[i]->len;
	}
	VP_COVER("match");
	if (count == 3 && hi == 3)
		VP_COVER("maximum reached");
}

static void expect(uint64_t max, size_t off, int depth)
{
	size_t i;
	if (off >= vp_in.len || depth > VP_NTOK)
		return;
	vp_expect(0, off);
	if (max == 1)
		return;
	for (i = 1; i < VP_NTOK; i++) {
		if (i + off >= vp_in.len)
			break;
		if (vp_oracle(0, off, i) == (int)i)
			expect(max ? max - 1 : 0, off + i, depth + 1);
	}
}

static void complete(size_t n, size_t len)
{
	int ret;

	vp_child_errors = vp_pick_child_errors();
	vp_init_oracle();
	vp_setup("many", len);
	ret = configure();
	VP_ASSUME(ret == 0);
	long live0 = vp_live;
	vp_pick_errors(5, 3);
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	vp_check_tree_restored(0);
	VP_ASSERT(vp_live == live0, "no vector leaked");
	if (vp_alloc_failed || vp_comp_error || vp_parse_error) {
		VP_ASSERT(ret < 0, "errors are reported");
#ifdef VP_ERR
		VP_COVER("error");
#endif
		return;
	}
	VP_ASSERT(ret == 0, "completion succeeds");
#ifndef VP_ERR
	expect(hi, 0, 0);
	vp_check_requests();
#endif
	VP_COVER("completed");
}

void h_refs(void)
{
	int r;
	struct ec_node *c = NULL;
	unsigned int refs = 0;
	bool good;

	vp_setup("many", 0);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 0,
		"no child before configuration");
	cfg_child.type = vp_bool() ? EC_CONFIG_TYPE_NODE : EC_CONFIG_TYPE_STRING;
	cfg_min.type = vp_bool() ? EC_CONFIG_TYPE_UINT64 : EC_CONFIG_TYPE_INT64;
	cfg_max.type = vp_bool() ? EC_CONFIG_TYPE_UINT64 : EC_CONFIG_TYPE_INT64;
	r = configure();
	good = cfg_child.type == EC_CONFIG_TYPE_NODE &&
		(vp_cfg[1].key == NULL ||
		 (cfg_min.type == EC_CONFIG_TYPE_UINT64 && cfg_min.u64 < UINT_MAX)) &&
		(vp_cfg[2].key == NULL ||
		 (cfg_max.type == EC_CONFIG_TYPE_UINT64 && cfg_max.u64 < UINT_MAX));
	VP_ASSERT((r == 0) == good, "bounds are accepted iff representable");
	if (r < 0) {
		VP_ASSERT(vp_node[0].refs == 1 &&
			vp_self.type->get_children_count(&vp_self) == 0,
			"refused configuration changes nothing");
		VP_COVER("refused");
		return;
	}
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 1, "one child");
	r = vp_self.type->get_child(&vp_self, 0, &c, &refs);
	VP_ASSERT(r == 0 && c == &vp_node[0] && refs == 2, "the child");
	/* again with the other child */
	cfg_child.node = &vp_node[1];
	vp_cfgrefs[0] = vp_cfgrefs[1] = 1;
	vp_refcheck = true;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	vp_refcheck = false;
	VP_ASSERT(r == 0 && vp_node[0].refs == 1 && vp_node[1].refs == 2,
		"reconfiguration replaces the child");
	vp_self.type->free_priv(&vp_self);
	VP_ASSERT(vp_node[1].refs == 1, "references given back");
	VP_COVER("end");
}

void h_parse(void) { VP_SPLIT(parse, 0, VP_NTOK); }
void h_complete(void) { VP_SPLIT(complete, 0, VP_NTOK); }
