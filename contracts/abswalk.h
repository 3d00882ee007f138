/* Contract of parsing over the abstract grammars of absgraph.h: sequences,
 * choices (first match), repetitions (as many as possible) and options, as
 * proved of the node types by the units seq_*, or_*, many_*, option_*; the
 * result is the tree of parse nodes.  VP_TOKMATCH(g, pos): leaf g matches the
 * token at pos. */
#ifndef ABSWALK_H
#define ABSWALK_H
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
struct ec_strvec { int pos; int len; };
struct ec_pnode {
	const struct ec_node *node;
	struct ec_pnode *parent, *next, *first, *last;
	struct ec_strvec vec;
	int tag;
};
static int vp_nin;
static bool vp_match;

const struct ec_node *ec_pnode_get_node(const struct ec_pnode *p)
{ return p->node; }
struct ec_pnode *ec_pnode_get_first_child(const struct ec_pnode *p)
{ return p->first; }
struct ec_pnode *ec_pnode_get_last_child(const struct ec_pnode *p)
{ return p->last; }
struct ec_pnode *ec_pnode_next(const struct ec_pnode *p) { return p->next; }
struct ec_pnode *ec_pnode_get_parent(const struct ec_pnode *p)
{ return p->parent; }
size_t ec_pnode_matches(const struct ec_pnode *p)
{ return p != NULL && vp_match; }
size_t ec_pnode_len(const struct ec_pnode *p) { return p->vec.len; }
const struct ec_strvec *ec_pnode_get_strvec(const struct ec_pnode *p)
{ return &p->vec; }
size_t ec_strvec_len(const struct ec_strvec *v) { return v->len; }

static struct ec_pnode *vp_pnew(const struct ec_node *g, int pos)
{
	struct ec_pnode *p;
	p = malloc(sizeof(*p));
	VP_ASSUME(p != NULL);
	p->node = g;
	p->parent = p->next = p->first = p->last = NULL;
	p->tag = 0;
	p->vec.pos = pos;
	p->vec.len = 0;
	return p;
}
static void vp_link(struct ec_pnode *p, struct ec_pnode *c)
{
	c->parent = p;
	if (p->last)
		p->last->next = c;
	else
		p->first = c;
	p->last = c;
	p->vec.len += c->vec.len;
}
static struct ec_pnode *vp_walk(const struct ec_node *g, int pos)
{
	struct ec_pnode *p, *c;
	int i;
	p = vp_pnew(g, pos);
	switch (g->kind) {
	case K_TOK:
	case K_VAL:
		if (pos >= vp_nin || !VP_TOKMATCH(g, pos))
			goto no;
		p->vec.len = 1;
		return p;
	case K_EMPTY:
		return p;
	case K_SEQ:
		for (i = 0; i < g->n; i++) {
			c = vp_walk(g->kid[i], pos + p->vec.len);
			if (c == NULL)
				goto no;
			vp_link(p, c);
		}
		return p;
	case K_OR:
		for (i = 0; i < g->n; i++) {
			c = vp_walk(g->kid[i], pos);
			if (c != NULL) {
				vp_link(p, c);
				return p;
			}
		}
		goto no;
	case K_MANY:
		for (i = 0; i < 9 && (g->max == 0 || i < (int)g->max); i++) {
			c = vp_walk(g->kid[0], pos + p->vec.len);
			if (c == NULL)
				break;
			vp_link(p, c);
		}
		if (i < (int)g->min)
			goto no;
		return p;
	case K_OPTION:
		c = vp_walk(g->kid[0], pos);
		if (c != NULL)
			vp_link(p, c);
		return p;
	case K_SELF:
		if (g->type->parse(g, p, NULL) < 0)
			goto no;
		return p;
	default:
		VP_ASSERT(0, "harness: known kind of node");
	}
no:
	return NULL;
}
#ifndef VP_OWN_PARSE_CHILD
static int vp_pfwd;
int ec_parse_child(const struct ec_node *node, struct ec_pnode *pstate,
	const struct ec_strvec *strvec)
{
	struct ec_pnode *c;
	(void)strvec;
	VP_ASSERT(pstate != NULL, "parse state given");
	vp_pfwd++;
	c = vp_walk(node, pstate->vec.pos);
	if (c == NULL)
		return EC_PARSE_NOMATCH;
	vp_link(pstate, c);
	return c->vec.len;
}
#endif
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#endif
