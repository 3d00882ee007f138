#include "absu.h"
/* contract of parsing one child, and the protocol the sequence must follow */
int ec_parse_child(const struct ec_node *node, struct ec_pnode *pstate,
		const struct ec_strvec *strvec)
{
	int r;
	VP_ASSERT(pstate == &vp_pstate_st, "children parsed under the current state");
	VP_ASSERT(g_state == 0, "nothing is parsed after a failure");
	VP_ASSERT(g_idx < g_n && node == g_tab[g_idx], "children parsed in order");
	VP_ASSERT(strvec->off == g_off && strvec->len == g_len - g_off,
		"each child gets exactly what the previous ones left");
	r = vp_int();
	if (r < 0) {
		g_state = 2;
		return r;
	}
	if (r == EC_PARSE_NOMATCH) {
		g_state = 1;
		return r;
	}
	VP_ASSUME((size_t)r <= strvec->len);
	g_idx++;
	g_off += r;
	g_kids++;
	return r;
}
#include "repo/ecoli_node_seq.c"

static struct ec_config cfg_list = { .type = EC_CONFIG_TYPE_LIST };

void h_parse(void)
{
	struct ec_node_type *t = vp_setup("seq");
	int ret;

	vp_cfg[0].key = "children";
	vp_cfg[0].val = &cfg_list;
	ret = t->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSUME(ret == 0);
	g_state = 0;
	g_alloc = 0;
	ret = t->parse(&vp_self, &vp_pstate_st, &vp_in);
	VP_ASSERT(g_live == 0 && g_alloc == 0, "nothing leaked");
	if (g_state == 2) {
		VP_ASSERT(ret < 0, "an error is reported");
		VP_COVER("error");
	} else if (g_state == 1) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH,
			"no match when a child does not match");
		VP_ASSERT(g_kids == 0, "no child left when there is no match");
		VP_COVER("nomatch");
	} else {
		VP_ASSERT(g_idx == g_n && g_kids == g_n,
			"a match has one subtree per child");
		VP_ASSERT(ret >= 0 && (size_t)ret == g_off,
			"a match consumes the sum of the children");
		VP_COVER("match");
	}
}
