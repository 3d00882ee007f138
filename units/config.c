/* configurations (src/ecoli_config.c) */
#include "vp.h"
/* zeroed blocks of the size of a configuration are typed as such (cheaper) */
#include <ecoli_config.h>
static void *vp_calloc(size_t n, size_t size)
{
	struct ec_config *c;
	if (n * size != sizeof(*c))
		return calloc(n, size);
	c = malloc(sizeof(*c));
	if (c != NULL) {
		c->type = 0;
		c->list.tqh_first = NULL;
		c->list.tqh_last = NULL;
		c->next.tqe_next = NULL;
		c->next.tqe_prev = NULL;
	}
	return c;
}
#define VP_CALLOC vp_calloc
#include "vp_alloc.h"
#include "vp_env.h"
#include "absdict.h"
#include <ecoli_node.h>
struct ec_node { long refs; };
static struct ec_node vp_node[3];
struct ec_node *ec_node_clone(struct ec_node *node)
{
	if (node != NULL)
		node->refs++;
	return node;
}
void ec_node_free(struct ec_node *node)
{
	if (node == NULL)
		return;
	VP_ASSERT(node->refs > 0, "node reference released at most once");
	node->refs--;
}
int ec_asprintf(char **buf, const char *format, ...)
{ (void)buf; (void)format; return -1; }
#include "repo/ecoli_config.c"

/* ---- trees -------------------------------------------------------------------- */
struct spec {
	enum ec_config_type type;
	int n;
	const struct spec *kid[2];
	const char *key[2];
	int var;                 /* which content, for a scalar */
};
static uint64_t num[3];
static char txt[3][2];
#define SC(name, t, v) static const struct spec name = \
	{ .type = EC_CONFIG_TYPE_##t, .var = v }
SC(B0, BOOL, 0); SC(B1, BOOL, 1); SC(I0, INT64, 0); SC(I1, INT64, 1);
SC(U0, UINT64, 0); SC(U1, UINT64, 1); SC(S0, STRING, 0); SC(S1, STRING, 1);
SC(N0, NODE, 0); SC(N1, NODE, 1); SC(S2, STRING, 2);
#define LS(name, c, ...) static const struct spec name = \
	{ .type = EC_CONFIG_TYPE_LIST, .n = c, .kid = { __VA_ARGS__ } }
LS(L0, 0, NULL); LS(LB, 1, &B0); LS(LI, 1, &I0); LS(LSS, 2, &S0, &S1);
LS(LBS, 2, &B0, &S1); LS(LN, 1, &N0); LS(LLI, 1, &LI); LS(LLIB, 2, &LI, &LB);
LS(LUU, 2, &U0, &U1);
#define DC(name, c, k0, v0, k1, v1) static const struct spec name = \
	{ .type = EC_CONFIG_TYPE_DICT, .n = c, .kid = { v0, v1 }, .key = { k0, k1 } }
DC(D0, 0, 0, 0, 0, 0);
DC(DaI, 1, "a", &I0, 0, 0);
DC(DaSbN, 2, "a", &S0, "b", &N0);
DC(DbNaS, 2, "b", &N0, "a", &S0);
DC(DaBbI, 2, "a", &B0, "b", &I1);
DC(DbLBS, 1, "b", &LBS, 0, 0);
DC(DaB, 1, "a", &B0, 0, 0);
DC(DcB, 1, "c", &B0, 0, 0);
DC(DbI, 1, "b", &I0, 0, 0);
DC(DaDaI, 1, "a", &DaI, 0, 0);
LS(LDbI, 1, &DbI); LS(LDaB, 1, &DaB); LS(LDaBcB, 2, &DaB, &DcB);
DC(DaLDbI, 1, "a", &LDbI, 0, 0);
DC(DaBbDaI, 2, "a", &B0, "b", &DaI);
DC(DaL0, 1, "a", &L0, 0, 0);
DC(DaLLI, 1, "a", &LLI, 0, 0);
DC(DaLLIB, 1, "a", &LLIB, 0, 0);
DC(DbLDaB, 1, "b", &LDaB, 0, 0);
DC(DbLDaBcB, 1, "b", &LDaBcB, 0, 0);
DC(DaLSS, 1, "a", &LSS, 0, 0);
DC(DaLBS, 1, "a", &LBS, 0, 0);
DC(DaD0, 1, "a", &D0, 0, 0);
static const struct spec *const tops[] = { &D0, &DaI, &DaSbN, &DaBbI, &DbLBS,
	&DcB, &DaDaI, &DaLDbI, &DaBbDaI, &DaL0, &DaLLI, &DaLLIB, &DbLDaB,
	&DbLDaBcB, &DaLSS, &DaLBS, &DaD0, &B0, &LB };
#define NTOP (int)(sizeof(tops) / sizeof(tops[0]))
static const struct spec *const vals[] = { &B0, &B1, &I0, &I1, &U0, &S0, &S1,
	&N0, &N1, &L0, &LB, &LSS, &LBS, &LLI, &LUU, &LN, &D0, &DaI, &DaSbN, &DbNaS,
	&DaBbI, &DaLDbI, &DaBbDaI };
#define NVAL (int)(sizeof(vals) / sizeof(vals[0]))

/* contents: all different, or all equal; any content of scalars: h_scalar */
static void contents(int same)
{
	int i;
	for (i = 0; i < 3; i++) {
		num[i] = same ? UINT64_MAX : ((uint64_t)i << 63) + 7 - i;
		txt[i][0] = same ? 0 : 'p' + i;
	}
}
static struct ec_config *build(const struct spec *s)
{
	struct ec_config *c = NULL;
	int i;
	switch (s->type) {
	case EC_CONFIG_TYPE_BOOL: return ec_config_bool(num[s->var] & 1);
	case EC_CONFIG_TYPE_INT64: return ec_config_i64((int64_t)num[s->var]);
	case EC_CONFIG_TYPE_UINT64: return ec_config_u64(num[s->var]);
	case EC_CONFIG_TYPE_STRING: return ec_config_string(txt[s->var]);
	case EC_CONFIG_TYPE_NODE:
		vp_node[s->var].refs++;
		return ec_config_node(&vp_node[s->var]);
	case EC_CONFIG_TYPE_LIST:
		c = ec_config_list();
		for (i = 0; i < s->n; i++)
			ec_config_list_add(c, build(s->kid[i]));
		return c;
	default:
		c = ec_config_dict();
		for (i = 0; i < s->n; i++)
			ec_config_dict_set(c, s->key[i], build(s->kid[i]));
		return c;
	}
}
static void content(struct ec_config *c, const struct spec *s)
{
	int i;
	struct ec_config *k;
	struct ec_dict *d;
	VP_ASSERT(c != NULL, "the value is there");
	if (c == NULL)
		return;
	VP_ASSERT(ec_config_get_type(c) == s->type, "its type");
	switch (s->type) {
	case EC_CONFIG_TYPE_BOOL:
		VP_ASSERT(c->boolean == (num[s->var] & 1), "its boolean");
		break;
	case EC_CONFIG_TYPE_INT64:
		VP_ASSERT(c->i64 == (int64_t)num[s->var], "its integer");
		break;
	case EC_CONFIG_TYPE_UINT64:
		VP_ASSERT(c->u64 == num[s->var], "its unsigned integer");
		break;
	case EC_CONFIG_TYPE_STRING:
		VP_ASSERT(c->string != txt[s->var] && c->string[0] == txt[s->var][0] &&
			(c->string[0] == 0 || c->string[1] == 0), "its text");
		break;
	case EC_CONFIG_TYPE_NODE:
		VP_ASSERT(c->node == &vp_node[s->var], "its node");
		break;
	case EC_CONFIG_TYPE_LIST:
		VP_ASSERT(ec_config_count(c) == s->n, "its length");
		k = ec_config_list_first(c);
		for (i = 0; i < s->n; i++) {
			content(k, s->kid[i]);
			if (k == NULL)
				return;
			k = ec_config_list_next(c, k);
		}
		VP_ASSERT(k == NULL, "no other element");
		break;
	default:
		d = c->dict;
		VP_ASSERT(d->n == s->n, "its keys");
		for (i = 0; i < s->n; i++) {
			content(ec_config_dict_get(c, s->key[i]), s->kid[i]);
			VP_ASSERT(!strcmp(d->e[i].key, s->key[i]),
				"in the order they were set");
		}
		VP_ASSERT(ec_config_dict_get(c, "z") == NULL, "no other key");
		break;
	}
}
static long refs(void)
{ return vp_node[0].refs + vp_node[1].refs + vp_node[2].refs; }

/* ---- P19 ----------------------------------------------------------------------- */
static void dup_case(const struct spec *s, uint64_t fail)
{
	struct ec_config *c, *d;
	long base, brefs;
	contents(0);
	c = build(s);
	content(c, s);
	base = vp_live;
	brefs = refs();
	vp_fail_at = vp_alloc_count + fail;
	d = ec_config_dup(c);
	vp_fail_at = UINT64_MAX;
	VP_ASSERT((d == NULL) == vp_alloc_failed, "failure is reported");
	if (d == NULL) {
		VP_ASSERT(vp_live == base && refs() == brefs, "nothing leaks");
		content(c, s);
		VP_COVER("failed");
	} else {
		VP_ASSERT(d != c && vp_live == 2 * base && refs() == 2 * brefs,
			"a copy of its own");
		VP_ASSERT(ec_config_cmp(c, d) == 0 && ec_config_cmp(d, c) == 0,
			"the copy is equal");
		ec_config_free(c);
		content(d, s);
		VP_ASSERT(vp_live == base && refs() == brefs, "released once");
		c = d;
		VP_COVER("copied");
	}
	ec_config_free(c);
	VP_ASSERT(vp_live == 0 && refs() == 0, "everything is released");
}
#ifndef VP_LO
#define VP_LO 0
#endif
#ifndef VP_HI
#define VP_HI NVAL
#endif
void h_dup(void)
{
	int v = vp_range(0, NVAL - 1), f = vp_range(0, 11), a, b;
	for (a = VP_LO; a < VP_HI; a++)
	for (b = 0; b <= 11; b++)
		if (a == v && b == f) {
			dup_case(vals[a], b);
			VP_END;
		}
}
static bool equal(const struct spec *a, const struct spec *b)
{
	int i, j;
	bool r = true;
	if (a->type != b->type)
		return false;
	switch (a->type) {
	case EC_CONFIG_TYPE_BOOL:
		return (num[a->var] & 1) == (num[b->var] & 1);
	case EC_CONFIG_TYPE_INT64:
	case EC_CONFIG_TYPE_UINT64:
		return num[a->var] == num[b->var];
	case EC_CONFIG_TYPE_STRING:
		return txt[a->var][0] == txt[b->var][0];
	case EC_CONFIG_TYPE_NODE:
		return a->var == b->var;
	default:
		break;
	}
	if (a->n != b->n)
		return false;
	for (i = 0; i < a->n; i++) {
		if (a->type == EC_CONFIG_TYPE_LIST) {
			r = equal(a->kid[i], b->kid[i]) && r;
			continue;
		}
		for (j = 0; j < b->n; j++)
			if (!strcmp(a->key[i], b->key[j]))
				break;
		if (j == b->n)
			return false;
		r = equal(a->kid[i], b->kid[j]) && r;
	}
	return r;
}
static void cmp_case(const struct spec *s, const struct spec *t, int same)
{
	struct ec_config *c, *d;
	int r;
	contents(same);
	c = build(s);
	d = build(t);
	r = ec_config_cmp(c, d);
	VP_ASSERT((r == 0) == equal(s, t), "equal iff the content is");
	if (r == 0)
		VP_COVER("equal");
	else
		VP_COVER("different");
}
void h_cmp(void)
{
	int v = vp_range(0, NVAL - 1), w = vp_range(0, NVAL - 1), a, b;
	bool same = vp_bool();
	VP_ASSERT(ec_config_cmp(NULL, NULL) != 0, "no value equals nothing");
	for (a = VP_LO; a < VP_HI; a++)
	for (b = 0; b < NVAL; b++)
		if (a == v && b == w) {
			if (same)
				cmp_case(vals[a], vals[b], 1);
			else
				cmp_case(vals[a], vals[b], 0);
			VP_END;
		}
}
/* any content of a scalar */
static void scalar_case(int i, int j)
{
	struct ec_config *c, *d, *e;
	int k;
	for (k = 0; k < 2; k++) {
		num[k] = vp_nd();
		txt[k][0] = vp_nd();
	}
	c = build(vals[i]);
	content(c, vals[i]);
	d = build(vals[j]);
	VP_ASSERT((ec_config_cmp(c, d) == 0) == equal(vals[i], vals[j]),
		"equal iff the content is");
	e = ec_config_dup(c);
	content(e, vals[i]);
	VP_COVER("end");
}
void h_scalar(void)
{
	int v = vp_range(0, 8), w = vp_range(0, 8), a, b;
	for (a = 0; a <= 8; a++)
	for (b = 0; b <= 8; b++)
		if (a == v && b == w) {
			scalar_case(a, b);
			VP_END;
		}
}
/* ownership of what is given to a container, also when refused */
static void own_case(int what, uint64_t fail)
{
	struct ec_config *c, *v, *w;
	int r;
	long base;
	contents(0);
	c = what == 5 ? ec_config_i64(1) : what == 6 ? NULL :
		what < 3 || what == 7 || what == 8 ? build(&DaSbN) : build(&LSS);
	base = vp_live;
	v = build(&LN);
	vp_fail_at = vp_alloc_count + fail;
	/* 0 new key, 1 replaced key, 2 absent key, 3 add, 4 dict_set on a list,
	 * 5 both on a scalar, 6 both on nothing, 7 list_add on a dict */
	r = what == 0 ? ec_config_dict_set(c, "c", v) :
		what == 1 ? ec_config_dict_set(c, "a", v) :
		what == 2 ? ec_config_dict_set(c, NULL, v) :
		what == 3 ? ec_config_list_add(c, v) :
		what == 4 || what == 5 ? ec_config_dict_set(c, "c", v) :
		what == 6 ? ec_config_dict_set(c, "c", v) :
		what == 7 ? ec_config_list_add(c, v) :
		ec_config_dict_set(c, "c", NULL);
	if (what == 8) {
		VP_ASSERT(r < 0, "no value is refused");
		ec_config_free(v);
	}
	vp_fail_at = UINT64_MAX;
	if (what == 0 || what == 1 || what == 3) {
		VP_ASSERT((r < 0) == vp_alloc_failed, "failure is reported");
		w = what == 3 ? ec_config_list_next(c, ec_config_list_next(c,
			ec_config_list_first(c))) : ec_config_dict_get(c, what ? "a" : "c");
		if (r == 0) {
			VP_ASSERT(w == v, "the value is found where it was put");
			content(v, &LN);
			VP_COVER("stored");
		} else if (what == 0) {
			VP_ASSERT(w == NULL, "nothing was stored");
		}
		if (what == 1 && r == 0)
			VP_ASSERT(vp_node[0].refs == 2 && vp_live == base + 2 - 2,
				"the previous value is released");
	} else {
		VP_ASSERT(r < 0, "refused");
	}
	if (r < 0) {
		VP_ASSERT(vp_live == base, "the value is released on failure");
		if (c != NULL && what != 5)
			content(c, what < 3 || what >= 7 ? &DaSbN : &LSS);
		VP_COVER("refused");
	}
	ec_config_free(c);
	VP_ASSERT(vp_live == 0 && refs() == 0, "everything is released");
}
void h_own(void)
{
	int w = vp_range(0, 8), f = vp_range(0, 1), a, b;
	for (a = 0; a <= 8; a++)
	for (b = 0; b <= 1; b++)
		if (a == w && b == f) {
			own_case(a, b ? 5 : 0);
			VP_END;
		}
}
/* list deletion, dictionary deletion and lookups on other types */
void h_del(void)
{
	int i, k = vp_range(0, 3);
	struct ec_config *c, *e[3];
	contents(0);
	for (i = 0; i < 3; i++) {
		if (i != k)
			continue;
		c = ec_config_list();
		e[0] = build(&S0);
		e[1] = build(&N1);
		e[2] = build(&LB);
		ec_config_list_add(c, e[0]);
		ec_config_list_add(c, e[1]);
		ec_config_list_add(c, e[2]);
		VP_ASSERT(ec_config_list_del(c, e[i]) == 0, "deleted");
		VP_ASSERT(ec_config_count(c) == 2 &&
			ec_config_list_first(c) == e[i == 0] &&
			ec_config_list_next(c, e[i == 0]) == e[i == 2 ? 1 : 2] &&
			ec_config_list_next(c, e[i == 2 ? 1 : 2]) == NULL,
			"only that element is removed");
		content(e[i == 0], i == 0 ? &N1 : &S0);
		VP_ASSERT(vp_node[1].refs == (i != 1), "released with it");
		e[i] = build(&I1);
		ec_config_list_add(c, e[i]);
		VP_ASSERT(ec_config_count(c) == 3 && ec_config_list_next(c,
			e[i == 2 ? 1 : 2]) == e[i], "added at the end");
		ec_config_free(c);
		VP_ASSERT(vp_live == 0 && refs() == 0, "everything is released");
		VP_COVER("list");
		VP_END;
	}
	c = build(&DaSbN);
	VP_ASSERT(ec_config_dict_del(c, "z") < 0 && ec_config_dict_del(c, NULL) < 0 &&
		ec_config_dict_del(NULL, "a") < 0, "no such key");
	content(c, &DaSbN);
	VP_ASSERT(ec_config_dict_del(c, "b") == 0 && refs() == 0, "deleted");
	VP_ASSERT(ec_config_dict_get(c, "b") == NULL, "no more there");
	content(ec_config_dict_get(c, "a"), &S0);
	VP_ASSERT(ec_config_list_first(c) == NULL && ec_config_list_first(NULL) == NULL
		&& ec_config_list_del(c, NULL) < 0 && ec_config_dict_get(NULL, "a") == NULL
		&& ec_config_count(c) < 0, "not a list");
	ec_config_free(c);
	VP_ASSERT(vp_live == 0 && refs() == 0, "everything is released");
	c = ec_config_list();
	VP_ASSERT(ec_config_dict_get(c, "a") == NULL && ec_config_dict_del(c, "a") < 0,
		"not a dictionary");
	ec_config_free(NULL);
	ec_config_free(c);
	VP_ASSERT(ec_config_dup(NULL) == NULL, "no copy of nothing");
	VP_COVER("dict");
}
/* creation under failing allocations */
void h_new(void)
{
	int k = vp_range(0, 6), f = vp_range(0, 2), a, b;
	static const struct spec *const sc[] = { &B0, &I0, &U0, &S0, &N0, &L0, &D0 };
	struct ec_config *c;
	contents(0);
	for (a = 0; a < 7; a++)
	for (b = 0; b <= 2; b++)
		if (a == k && b == f) {
			vp_fail_at = b;
			c = build(sc[a]);
			VP_ASSERT((c == NULL) == vp_alloc_failed, "failure is reported");
			if (c == NULL) {
				VP_ASSERT(vp_live == 0 && refs() == 0,
					"nothing leaks, the node is consumed");
				VP_COVER("failed");
			} else {
				content(c, sc[a]);
				ec_config_free(c);
				VP_ASSERT(vp_live == 0 && refs() == 0,
					"everything is released");
				VP_COVER("created");
			}
			VP_END;
		}
}
void h_new_null(void)
{
	VP_ASSERT(ec_config_string(NULL) == NULL && ec_config_node(NULL) == NULL &&
		vp_live == 0, "no content is refused");
	VP_COVER("end");
}

/* ---- P18: conformance ------------------------------------------------------------ */
#define E(k, t, s) { .key = k, .type = t, .subschema = s }
#define T_L EC_CONFIG_TYPE_LIST
#define T_D EC_CONFIG_TYPE_DICT
/* scalar types t0, t1 are any */
static struct ec_config_schema l0[2], d0[2], d1[2], ll0[2], ld1[2], ld0[2];
static struct ec_config_schema sx[9][3];
static enum ec_config_type t0, t1;
static void schemas(void)
{
	t0 = vp_range(EC_CONFIG_TYPE_BOOL, EC_CONFIG_TYPE_NODE);
	t1 = vp_range(EC_CONFIG_TYPE_BOOL, EC_CONFIG_TYPE_NODE);
	l0[0].type = t0;
	d0[0].key = "a"; d0[0].type = t0;
	d1[0].key = "b"; d1[0].type = t1;
	ll0[0].type = T_L; ll0[0].subschema = l0;
	ld1[0].type = T_D; ld1[0].subschema = d1;
	ld0[0].type = T_D; ld0[0].subschema = d0;
	sx[1][0].key = "a"; sx[1][0].type = t0;
	sx[2][0].key = "a"; sx[2][0].type = t0;
	sx[2][1].key = "b"; sx[2][1].type = t1;
	sx[3][0].key = "a"; sx[3][0].type = T_L; sx[3][0].subschema = l0;
	sx[4][0].key = "b"; sx[4][0].type = T_L; sx[4][0].subschema = l0;
	sx[5][0].key = "a"; sx[5][0].type = T_D; sx[5][0].subschema = d0;
	sx[6][0].key = "a"; sx[6][0].type = T_L; sx[6][0].subschema = ll0;
	sx[6][1].key = "b"; sx[6][1].type = T_L; sx[6][1].subschema = ld0;
	sx[7][0].key = "a"; sx[7][0].type = T_L; sx[7][0].subschema = ld1;
	sx[7][1].key = "b"; sx[7][1].type = T_D; sx[7][1].subschema = d0;
	sx[8][0].key = "b"; sx[8][0].type = t1;
	sx[8][1].key = "a"; sx[8][1].type = t0;
}
static bool conforms(const struct spec *s, const struct ec_config_schema *sch)
{
	int i, j;
	bool r = true;
	for (i = 0; i < s->n; i++) {
		const struct ec_config_schema *e = sch;
		if (s->type == EC_CONFIG_TYPE_DICT) {
			e = NULL;
			for (j = 0; j < 2; j++)
				if (sch[j].key != NULL && !strcmp(sch[j].key, s->key[i]))
					e = &sch[j];
			if (e == NULL)
				return false;
		}
		if (s->kid[i]->type >= EC_CONFIG_TYPE_LIST) {
			if (e->subschema == NULL || e->type != s->kid[i]->type)
				return false;
			r = conforms(s->kid[i], e->subschema) && r;
		} else if (e->type != s->kid[i]->type) {
			r = false;
		}
	}
	return r;
}
static void valid_case(int t, int x)
{
	struct ec_config *c;
	int r;
	contents(0);
	schemas();
	c = build(tops[t]);
	r = ec_config_validate(c, sx[x]);
	VP_ASSERT((r == 0) == (tops[t]->type == T_D && conforms(tops[t], sx[x])),
		"accepted iff it conforms");
	if (r == 0)
		VP_COVER("accepted");
	else
		VP_COVER("refused");
	if (x == 0)
		VP_ASSERT(ec_config_validate(c, NULL) < 0, "no schema, no configuration");
}
void h_valid(void)
{
	int t = vp_range(0, NTOP - 1), x = vp_range(0, 8), a, b;
	for (a = 0; a < NTOP; a++)
	for (b = 0; b < 9; b++)
		if (a == t && b == x) {
			valid_case(a, b);
			VP_END;
		}
}
/* well-formed schemas */
static const char *const keys[] = { "a", NULL, "id", "help", "attrs", "type", "b" };
#define NKEY 7
static const int tys[] = { EC_CONFIG_TYPE_BOOL, T_L, T_D, 8,
	EC_CONFIG_TYPE_INT64, EC_CONFIG_TYPE_UINT64, EC_CONFIG_TYPE_STRING,
	EC_CONFIG_TYPE_NODE };
#define NTY 8
static bool ok_key(const char *k)
{
	return k != NULL && strcmp(k, "id") && strcmp(k, "help") &&
		strcmp(k, "attrs") && strcmp(k, "type");
}
static struct ec_config_schema y[3], ysub[3], yleaf[2];
static bool y_wf(const struct ec_config_schema *s, bool list, int depth)
{
	size_t i, n = 0;
	while (s[n].type != EC_CONFIG_TYPE_NONE)
		n++;
	if (list && s[0].key != NULL)
		return false;
	for (i = 0; i < n; i++) {
		size_t m = 0;
		const struct ec_config_schema *sub = s[i].subschema;
		if (!list && !ok_key(s[i].key))
			return false;
		if (i > 0 && !strcmp(s[0].key, s[i].key))
			return false;
		if (s[i].type > T_D || (s[i].type < T_L) != (sub == NULL))
			return false;
		if (s[i].type < T_L)
			continue;
		while (sub[m].type != EC_CONFIG_TYPE_NONE)
			m++;
		if (m == 0 || (s[i].type == T_L && m != 1) || depth == 0 ||
		    !y_wf(sub, s[i].type == T_L, depth - 1))
			return false;
	}
	return true;
}
static void entry(struct ec_config_schema *s, int k, int t,
	const struct ec_config_schema *sub)
{
	s->key = keys[k];
	s->type = tys[t];
	s->subschema = sub;
}
static void schema_check(void)
{
	int r = ec_config_schema_validate(y);
	VP_ASSERT((r == 0) == y_wf(y, false, 2), "accepted iff it is well formed");
	if (r == 0)
		VP_COVER("accepted");
	else
		VP_COVER("refused");
}
/* one entry of any kind, before or after a good one, or alone */
void h_flat(void)
{
	int k = vp_range(0, NKEY - 1), t = vp_range(0, NTY - 1);
	int u = vp_range(0, 2), p = vp_range(0, 2), a, b, c, d;
	entry(&ysub[0], 1, 0, NULL);
	entry(&yleaf[0], 6, 5, NULL);
	if (vp_bool()) {
		VP_ASSERT(ec_config_schema_validate(y) == 0, "an empty schema is fine");
		VP_END;
	}
	for (a = 0; a < NKEY; a++)
	for (b = 0; b < NTY; b++)
	for (c = 0; c <= 2; c++)
	for (d = 0; d <= 2; d++)
		if (a == k && b == t && c == u && d == p) {
			entry(&y[d == 1], a, b, c == 0 ? NULL : c == 1 ? ysub : yleaf);
			if (d < 2)
				entry(&y[d == 0], 0, 4, NULL);
			schema_check();
			VP_END;
		}
}
/* one entry with a sub-schema of at most 2 entries, one with a sub-schema */
void h_nested(void)
{
	int t = vp_range(0, 2), m = vp_range(0, 3), k = vp_range(0, 2);
	int u = vp_range(0, 3), l = vp_range(0, 3), a, b, c, d, e;
	for (a = 0; a <= 2; a++)
	for (b = 0; b <= 3; b++)
	for (c = 0; c <= 2; c++)
	for (d = 0; d <= 3; d++)
	for (e = 0; e <= 3; e++)
		if (a == t && b == m && c == k && d == u && e == l) {
			entry(&y[0], 0, a, ysub);
			if (b > 0)
				entry(&ysub[0], c, d, e == 0 ? NULL : yleaf);
			if (b > 1)
				entry(&ysub[1], b == 2 ? 6 : 0, 0, NULL);
			if (e > 1)
				entry(&yleaf[0], e == 2 ? 0 : 1, 0, NULL);
			schema_check();
			VP_END;
		}
}
/* key lookup in a schema */
void h_lookup(void)
{
	const char *k;
	const struct ec_config_schema *e;
	schemas();
	k = vp_bool() ? "a" : vp_bool() ? "b" : "c";
	e = ec_config_schema_lookup(sx[2], k);
	VP_ASSERT(e == (k[0] == 'a' ? &sx[2][0] : k[0] == 'b' ? &sx[2][1] : NULL),
		"the entry of the key");
	if (e != NULL)
		VP_ASSERT(ec_config_schema_type(e) == e->type &&
			ec_config_schema_sub(e) == NULL, "its type");
	VP_ASSERT(ec_config_schema_sub(&sx[3][0]) == l0, "its sub-schema");
	VP_COVER("end");
}
