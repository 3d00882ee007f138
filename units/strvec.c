/* string vectors (src/ecoli_strvec.c) */
#define VP_OWN_STRDUP
#include "vp.h"
#include "vp_alloc.h"

/* ---- duplicated texts: the copy is known by its source --------------------- */
#define MAXDUP 4
static const char *g_dup_src[MAXDUP];
static char *g_dup[MAXDUP];
static size_t g_ndup;
char *__ec_strdup(const char *s, const char *file, unsigned int line)
{
	char *p = __ec_malloc(2, file, line);
	if (p == NULL)
		return NULL;
	VP_ASSERT(g_ndup < MAXDUP, "texts duplicated as often as needed only");
	p[0] = 'd';
	p[1] = 0;
	g_dup_src[g_ndup] = s;
	g_dup[g_ndup++] = p;
	return p;
}
static bool copy_of(const char *p, const char *s)
{
	size_t i;
	for (i = 0; i < MAXDUP; i++)
		if (i < g_ndup && g_dup[i] == p && g_dup_src[i] == s)
			return true;
	return false;
}

/* ---- attributes: released at most once, shared by nobody else ----------------- */
struct ec_dict { long live; };
static long g_dicts;
void ec_dict_free(struct ec_dict *dict)
{
	if (dict == NULL)
		return;
	VP_ASSERT(dict->live == 1, "attributes released once");
	dict->live = 0;
	g_dicts--;
}
static struct ec_dict *mkdict(struct ec_dict *d)
{
	d->live = 1;
	g_dicts++;
	return d;
}

#include "vp_env.h"
#include "repo/ecoli_strvec.c"

#ifndef VP_CBMC
#define VP_MAXLEN 64
#elif !defined(VP_MAXLEN)
#define VP_MAXLEN ((uint64_t)1 << 40)
#endif

/* a vector of any length: element a at index ia, another one b at ib */
static struct ec_strvec *g_vec;
static struct ec_strvec_elt *g_a, *g_b;
static size_t g_n, g_ia, g_ib;
static unsigned g_refa;
static char *g_stra;
static struct ec_dict g_da, g_db, g_dn;
static long g_base;

static void state(void)
{
	g_n = vp_range(0, VP_MAXLEN);
	g_ia = vp_nd();
	g_ib = vp_nd();
	VP_ASSUME(g_ia != g_ib || g_ia >= g_n);
	g_vec = __ec_calloc(1, sizeof(*g_vec), "", 0);
	g_vec->len = g_n;
	g_vec->vec = NULL;
	if (g_n > 0 || vp_bool())
		g_vec->vec = __ec_malloc(g_n * sizeof(g_vec->vec[0]), "", 0);
	g_a = __ec_malloc(sizeof(*g_a), "", 0);
	g_b = __ec_malloc(sizeof(*g_b), "", 0);
	g_a->refcnt = g_refa = (unsigned)vp_nd();
	VP_ASSUME(g_refa >= 1 && g_refa < UINT_MAX);
	g_stra = __ec_malloc(2, "", 0);
	g_stra[0] = 'a';
	g_stra[1] = 0;
	g_a->str = g_stra;
	g_a->attrs = vp_bool() ? mkdict(&g_da) : NULL;
	g_b->refcnt = 1;
	g_b->str = NULL;
	g_b->attrs = NULL;
	if (g_ia < g_n)
		g_vec->vec[g_ia] = g_a;
	if (g_ib < g_n)
		g_vec->vec[g_ib] = g_b;
	g_base = vp_live;
	vp_fail_at = vp_bool() ? vp_alloc_count + vp_range(0, 3) : UINT64_MAX;
}
/* the element a: dropped once by this vector */
static void dropped(void)
{
	if (g_refa == 1) {
		VP_ASSERT(vp_live == g_base - 2, "element released with its last reference");
		VP_ASSERT(g_dicts == 0 || g_dn.live, "attributes released with the element");
		VP_COVER("last reference");
	} else {
		VP_ASSERT(vp_live == g_base && g_a->refcnt == g_refa - 1 &&
			g_a->str == g_stra, "one reference dropped");
		VP_ASSERT(g_a->attrs == NULL || g_da.live, "attributes of others kept");
		VP_COVER("shared");
	}
}
static void others(size_t n)
{
	VP_ASSERT(g_vec->len == n, "length");
	if (g_ib < g_n && g_ib < n)
		VP_ASSERT(g_vec->vec[g_ib] == g_b && g_b->refcnt == 1 &&
			g_b->str == NULL && g_b->attrs == NULL, "no other element is touched");
}
static void same(void)
{
	others(g_n);
	if (g_ia < g_n)
		VP_ASSERT(g_vec->vec[g_ia] == g_a && g_a->refcnt == g_refa &&
			g_a->str == g_stra && (g_a->attrs == NULL || g_da.live),
			"unchanged on failure");
	VP_ASSERT(vp_live == g_base, "nothing leaks");
}
static const char g_text[] = "t";

void h_set(void)
{
	int r;
	const char *s = vp_bool() ? g_text : NULL;
	state();
	if (vp_bool() && g_ia < g_n && s)
		s = g_stra;		/* replace a text by itself */
	r = ec_strvec_set(g_vec, g_ia, s);
	if (g_ia >= g_n || s == NULL) {
		VP_ASSERT(r < 0, "refused");
		VP_COVER("refused");
	} else {
		VP_ASSERT((r < 0) == vp_alloc_failed, "fails iff memory lacks");
	}
	if (r < 0) {
		same();
		return;
	}
	g_base += 2;	/* the new element */
	others(g_n);
	VP_ASSERT(g_vec->vec[g_ia] != g_a && g_vec->vec[g_ia]->refcnt == 1 &&
		g_vec->vec[g_ia]->attrs == NULL &&
		copy_of(g_vec->vec[g_ia]->str, s), "a fresh element with the given text");
	dropped();
}
void h_add(void)
{
	int r;
	const char *s = vp_bool() ? g_text : NULL;
	state();
	if (g_vec->vec == NULL)
		g_base++;
	r = ec_strvec_add(g_vec, s);
	if (s == NULL)
		VP_ASSERT(r < 0, "refused");
	else
		VP_ASSERT((r < 0) == vp_alloc_failed, "fails iff memory lacks");
	if (r < 0) {
		if (g_vec->vec == NULL)
			g_base--;
		VP_COVER("failed");
		same();
		return;
	}
	g_base += 2;
	VP_ASSERT(vp_live == g_base, "one element allocated");
	others(g_n + 1);
	if (g_ia < g_n)
		VP_ASSERT(g_vec->vec[g_ia] == g_a && g_a->refcnt == g_refa,
			"no other element is touched");
	VP_ASSERT(g_vec->vec[g_n]->refcnt == 1 && g_vec->vec[g_n]->attrs == NULL &&
		copy_of(g_vec->vec[g_n]->str, s), "the given text is appended");
	VP_COVER("added");
}
void h_del_last(void)
{
	int r;
	state();
	VP_ASSUME(g_n == 0 || g_ia == g_n - 1);
	r = ec_strvec_del_last(g_vec);
	VP_ASSERT((r < 0) == (g_n == 0), "refused iff empty");
	if (r < 0) {
		same();
		VP_COVER("empty");
		return;
	}
	others(g_n - 1);
	dropped();
}
void h_get(void)
{
	state();
	VP_ASSERT(ec_strvec_len(g_vec) == g_n, "length");
	VP_ASSERT(ec_strvec_val(g_vec, g_ia) == (g_ia < g_n ? g_stra : NULL),
		"text of the element, or nothing out of range");
	VP_ASSERT(ec_strvec_get_attrs(g_vec, g_ia) ==
		(g_ia < g_n ? g_a->attrs : NULL), "attributes of the element");
	VP_ASSERT(ec_strvec_val(NULL, g_ia) == NULL, "no vector");
	VP_ASSERT(ec_strvec_get_attrs(NULL, g_ia) == NULL, "no vector");
	same();
	VP_COVER("end");
}
void h_set_attrs(void)
{
	int r;
	struct ec_dict *d, *old;
	struct ec_strvec_elt *e;
	state();
	old = g_a->attrs;
	d = vp_bool() ? mkdict(&g_dn) : NULL;
	r = ec_strvec_set_attrs(g_vec, g_ia, d);
	VP_ASSERT((r < 0) == (g_ia >= g_n || vp_alloc_failed),
		"fails iff out of range or memory lacks");
	if (r < 0) {
		VP_ASSERT(!g_dn.live, "attributes released on failure");
		same();
		VP_COVER("failed");
		return;
	}
	others(g_n);
	e = g_vec->vec[g_ia];
	VP_ASSERT(e->attrs == d && (d == NULL || g_dn.live) && e->refcnt == 1,
		"attributes attached to this element alone");
	if (g_refa == 1) {
		VP_ASSERT(e->str == g_stra, "text kept");
		VP_ASSERT(old == NULL || !g_da.live, "old attributes released");
		VP_ASSERT(vp_live == g_base, "nothing leaks");
		VP_COVER("alone");
	} else {
		VP_ASSERT(copy_of(e->str, g_stra), "text kept");
		VP_ASSERT(g_a->refcnt == g_refa - 1 && g_a->attrs == old &&
			(old == NULL || g_da.live), "other vectors keep their attributes");
		VP_ASSERT(vp_live == g_base + 2, "one element allocated");
		VP_COVER("shared");
	}
}

/* ---- whole-vector operations: up to VP_N elements --------------------------- */
#ifndef VP_N
#define VP_N 4
#endif
static struct ec_strvec *mk(struct ec_strvec_elt **e, unsigned *ref, size_t n)
{
	size_t i;
	struct ec_strvec *v = __ec_calloc(1, sizeof(*v), "", 0);
	v->vec = n > 0 ? __ec_malloc(n * sizeof(v->vec[0]), "", 0) : NULL;
	v->len = n;
	for (i = 0; i < VP_N; i++) {
		if (i >= n)
			break;
		e[i] = __ec_calloc(1, sizeof(*e[i]), "", 0);
		ref[i] = (unsigned)vp_nd();
		VP_ASSUME(ref[i] >= 1 && ref[i] < UINT_MAX);
		e[i]->refcnt = ref[i];
		e[i]->str = __ec_malloc(2, "", 0);
		e[i]->str[0] = (char)vp_nd();
		e[i]->str[1] = 0;
		v->vec[i] = e[i];
	}
	return v;
}
static struct ec_strvec_elt *el[VP_N], *el2[VP_N];
static unsigned rf[VP_N], rf2[VP_N];

static void dup_case(size_t n, size_t off, size_t len, bool whole,
	uint64_t fail)
{
	size_t i;
	struct ec_strvec *v = mk(el, rf, n), *c;
	g_base = vp_live;
	vp_fail_at = fail == UINT64_MAX ? fail : vp_alloc_count + fail;
	c = whole ? ec_strvec_dup(v) : ec_strvec_ndup(v, off, len);
	VP_ASSERT(v->len == n, "source unchanged");
	VP_ASSERT((c == NULL) == vp_alloc_failed, "fails iff memory lacks");
	if (c == NULL) {
		VP_ASSERT(vp_live == g_base, "nothing leaks");
		for (i = 0; i < VP_N; i++)
			if (i < n)
				VP_ASSERT(v->vec[i] == el[i] && el[i]->refcnt == rf[i],
					"no reference kept on failure");
		return;
	}
	VP_ASSERT(c != v && c->len == len && (len == 0 || c->vec != v->vec),
		"a vector of its own");
	for (i = 0; i < VP_N; i++) {
		if (i >= n)
			break;
		VP_ASSERT(v->vec[i] == el[i] && el[i]->refcnt == rf[i] +
			(i >= off && i - off < len), "one more reference on each element taken");
	}
	for (i = 0; i < VP_N; i++)
		if (i < len)
			VP_ASSERT(c->vec[i] == el[off + i], "exactly the elements of the range");
	ec_strvec_free(c);
	VP_ASSERT(vp_live == g_base, "freeing the copy releases exactly the copy");
	for (i = 0; i < VP_N; i++)
		if (i < n)
			VP_ASSERT(el[i]->refcnt == rf[i], "references given back");
	VP_COVER("copied");
}
/* a range outside a vector of any length */
void h_range(void)
{
	size_t off = vp_nd(), len = vp_nd();
	state();
	vp_fail_at = UINT64_MAX;
	VP_ASSUME(off > g_n || len > g_n - off);
	VP_ASSERT(ec_strvec_ndup(g_vec, off, len) == NULL,
		"a range outside the vector is refused");
	same();
	VP_COVER("refused");
}
void h_ndup(void)
{
	size_t n = vp_range(0, VP_N), off = vp_nd(), len = vp_nd();
	size_t i, j, k, f;
	bool whole = vp_bool();
	uint64_t fail = vp_range(0, 2);
	for (i = 0; i <= VP_N; i++)
	for (j = 0; j <= i; j++)
	for (k = 0; k <= i - j; k++)
	for (f = 0; f <= 2; f++)
		if (i == n && j == off && k == len && f == fail) {
			dup_case(i, j, k, whole && j == 0 && k == i,
				f == 2 ? UINT64_MAX : f);
			return;
		}
}
static void free_len(size_t n)
{
	size_t i;
	long keep = 0;
	struct ec_strvec *v = mk(el, rf, n);
	for (i = 0; i < VP_N; i++) {
		if (i >= n)
			break;
		if (rf[i] > 1)
			keep += 2;
	}
	ec_strvec_free(v);
	for (i = 0; i < VP_N; i++)
		if (i < n && rf[i] > 1)
			VP_ASSERT(el[i]->refcnt == rf[i] - 1, "shared elements survive");
	VP_ASSERT(vp_live == keep, "elements of this vector alone are released");
	ec_strvec_free(NULL);
}
void h_free(void)
{
	size_t n = vp_range(0, VP_N), i;
	for (i = 0; i <= VP_N; i++)
		if (i == n) {
			free_len(i);
			VP_COVER("end");
			return;
		}
}
void h_cmp(void)
{
	size_t n = vp_range(0, VP_N), m = vp_range(0, VP_N), i;
	struct ec_strvec *v, *w;
	bool eq = n == m;
	v = mk(el, rf, n);
	w = mk(el2, rf2, m);
	for (i = 0; i < VP_N; i++)
		if (i < n && i < m && el[i]->str[0] != el2[i]->str[0])
			eq = false;
	VP_ASSERT((ec_strvec_cmp(v, w) == 0) == eq, "equal iff same texts in the same order");
	VP_COVER("end");
	if (eq && n == VP_N)
		VP_COVER("equal");
}
/* from an array of texts: each added in order, all or nothing */
static const char *arr[3];
static char t[3][2];
static void array_case(size_t n, size_t nul, uint64_t fail)
{
	size_t i;
	struct ec_strvec *v;
	bool bad = nul < n;
	for (i = 0; i < 3; i++)
		arr[i] = i == nul ? NULL : t[i];
	vp_fail_at = fail;
	v = ec_strvec_from_array(arr, n);
	if (v == NULL) {
		VP_ASSERT(vp_alloc_failed || bad, "fails for a reason");
		VP_ASSERT(vp_live == 0, "nothing leaks");
		VP_COVER("failed");
		return;
	}
	VP_ASSERT(!vp_alloc_failed && !bad, "failure is reported");
	VP_ASSERT(ec_strvec_len(v) == n, "one element per text");
	for (i = 0; i < 3; i++)
		if (i < n)
			VP_ASSERT(copy_of(ec_strvec_val(v, i), t[i]), "in order");
	ec_strvec_free(v);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("ok");
}
void h_from_array(void)
{
	size_t n = vp_range(0, 3), nul = vp_range(0, 3), i, j, k;
	uint64_t fail = vp_range(0, 10);
	for (i = 0; i <= 3; i++)
	for (j = 0; j <= 3; j++)
	for (k = 0; k <= 10; k++)
		if (i == n && j == nul && k == fail) {
			array_case(i, j, k == 10 ? UINT64_MAX : k);
			return;
		}
}
