/* hash tables and dictionaries (src/ecoli_htable.c, src/ecoli_dict.c) */
#include "vp.h"
#include "vp_alloc.h"
#include "vp_env.h"
#include <ecoli_init.h>
void ec_init_register(struct ec_init *init) { (void)init; }

/* contract of the hash: any function of the content of the key */
#define NK 12
#ifndef VP_NS
#define VP_NS 3		/* keys used in histories */
#endif
#ifndef VP_NC
#define VP_NC VP_NS	/* keys looked up */
#endif
static uint32_t hv[NK];
static uint32_t g_seed;
static int key_of(const unsigned char *k, size_t len)
{
	/* keys: "a" "b" "ab" "0" "1" ... */
	if (len == 2)
		return 2;
	if (k[0] >= '0' && k[0] <= '9')
		return 3 + k[0] - '0';
	return k[0] == 'a' ? 0 : 1;
}
uint32_t ec_murmurhash3(const void *key, int len, uint32_t seed)
{
	VP_ASSERT(seed == g_seed, "one seed");
#ifdef VP_DICT
	len--;
	VP_ASSERT(((const unsigned char *)key)[len] == 0, "the terminator is part of the key");
#endif
	VP_ASSERT(len == 1 || len == 2, "length of a known key");
	return hv[key_of(key, len)];
}
#include "repo/ecoli_htable.c"
#ifdef VP_DICT
#define EC_LOG_TYPE_REGISTER_DONE
#undef EC_LOG_TYPE_REGISTER
#define EC_LOG_TYPE_REGISTER(x) struct ec_htable
#include "repo/ecoli_dict.c"
#define T struct ec_dict
#define R struct ec_dict_elt_ref
#define F(x) ec_dict##x
#define K(k) key[k]
#else
#define T struct ec_htable
#define R struct ec_htable_elt_ref
#define F(x) ec_htable##x
#define K(k) key[k], klen[k]
#endif

static const char *const key[NK] = { "a", "b", "ab", "0", "1", "2", "3", "4",
	"5", "6", "7", "8" };
static const size_t klen[NK] = { 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
static struct val { unsigned freed; } val[16];
static void cb(void *p)
{
	struct val *v = p;
	v->freed++;
	VP_ASSERT(v->freed == 1, "a value is released once");
}

/* the map: entries in insertion order */
struct model { size_t n; int k[12], v[12]; };
static void m_del(struct model *m, int k)
{
	size_t i, j = 0;
	for (i = 0; i < m->n; i++)
		if (m->k[i] != k) {
			m->k[j] = m->k[i];
			m->v[j] = m->v[i];
			j++;
		}
	m->n = j;
}
static bool m_has(struct model *m, int k, int *v)
{
	size_t i;
	for (i = 0; i < m->n; i++)
		if (m->k[i] == k) {
			*v = m->v[i];
			return true;
		}
	return false;
}
static void agree(T *h, struct model *m)
{
	size_t i;
	int k, v;
	R *it;
	VP_ASSERT(F(_len)(h) == m->n, "the length counts the keys");
	for (k = 0; k < VP_NC; k++) {
		if (m_has(m, k, &v)) {
			VP_ASSERT(F(_get)(h, K(k)) == &val[v], "the value last set for the key");
			VP_ASSERT(F(_has_key)(h, K(k)), "the key is there");
		} else {
			errno = 0;
			VP_ASSERT(F(_get)(h, K(k)) == NULL && errno == ENOENT,
				"no value without the key");
			VP_ASSERT(!F(_has_key)(h, K(k)), "the key is not there");
		}
	}
	it = F(_iter)(h);
	for (i = 0; i < m->n; i++) {
		VP_ASSERT(it != NULL, "iteration visits every entry");
		if (it == NULL)
			return;
		VP_ASSERT(F(_iter_get_val)(it) == &val[m->v[i]],
			"in insertion order");
#ifdef VP_DICT
		VP_ASSERT(!strcmp(F(_iter_get_key)(it), key[m->k[i]]), "with its key");
#else
		VP_ASSERT(F(_iter_get_key_len)(it) == klen[m->k[i]] &&
			!memcmp(F(_iter_get_key)(it), key[m->k[i]], klen[m->k[i]]),
			"with its key");
#endif
		it = F(_iter_next)(it);
	}
	VP_ASSERT(it == NULL, "and nothing else");
}
static struct model ma, mb;
static int nval;
static void op(T *h, struct model *m, int what, int k)
{
	int v, r;
	if (what == 0) {
		v = nval++;
		r = F(_set)(h, K(k), &val[v], cb);
		if (r < 0) {
			VP_ASSERT(vp_alloc_failed, "fails for lack of memory only");
			VP_ASSERT(val[v].freed == 1, "the value is released on failure");
			return;
		}
		m_del(m, k);
		m->k[m->n] = k;
		m->v[m->n] = v;
		m->n++;
	} else {
		bool had = m_has(m, k, &v);
		r = F(_del)(h, K(k));
		VP_ASSERT((r == 0) == had, "deletes iff the key is there");
		m_del(m, k);
	}
}
static void owned(bool two)
{
	int v, i;
	for (v = 0; v < nval; v++) {
		bool in = false;
		for (i = 0; i < (int)ma.n; i++)
			if (ma.v[i] == v)
				in = true;
		for (i = 0; two && i < (int)mb.n; i++)
			if (mb.v[i] == v)
				in = true;
		VP_ASSERT(val[v].freed == !in,
			"a value is released exactly when no table holds it any more");
	}
}

/* script: three operations, then one on either side of a duplicate */
static void script(int o0, int k0, int o1, int k1, int o2, int k2)
{
	T *h = F()();
	VP_ASSUME(h != NULL);
	op(h, &ma, o0, k0);
	op(h, &ma, o1, k1);
	op(h, &ma, o2, k2);
	agree(h, &ma);
	owned(false);
	F(_free)(h);
	ma.n = 0;
	owned(false);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
/* hash values: same hash, same bucket with another hash, another bucket */
static const uint32_t hval[3] = { 0, 0xfffffff8, 1 };
#ifndef VP_PAT
#define VP_PAT 0
#endif
static void hashes(void)
{
	int i;
	hv[0] = hval[VP_PAT % 3];
	hv[1] = hval[VP_PAT / 3 % 3];
	hv[2] = hval[VP_PAT / 9 % 3];
	/* other keys: collisions in tables of 8 and of 64 */
	for (i = 3; i < NK; i++)
		hv[i] = i % 2 ? i * 4 : i * 32;
}
void h_map(void)
{
	int a = vp_range(0, VP_NS - 1), b = vp_range(0, 2 * VP_NS - 1);
	int c = vp_range(0, 2 * VP_NS - 1), i, j, l;
	hashes();
	for (i = 0; i < VP_NS; i++)
	for (j = 0; j < 2 * VP_NS; j++)
	for (l = 0; l < 2 * VP_NS; l++)
		if (i == a && j == b && l == c) {
			script(i / VP_NS, i % VP_NS, j / VP_NS, j % VP_NS,
				l / VP_NS, l % VP_NS);
			return;
		}
}
/* two entries, a duplicate, one operation on one of the two tables */
static void dup_case(int n, int side, int o, int k)
{
	T *h = F()(), *d;
	int i;
	VP_ASSUME(h != NULL);
	for (i = 0; i < n; i++)
		op(h, &ma, 0, i);
	d = F(_dup)(h);
	VP_ASSUME(d != NULL);
	mb = ma;
	agree(d, &mb);
	op(side ? d : h, side ? &mb : &ma, o, k);
	agree(h, &ma);
	agree(d, &mb);
	owned(true);
	F(_free)(side ? h : d);
	if (side)
		ma.n = 0;
	else
		mb.n = 0;
	owned(true);
	agree(side ? d : h, side ? &mb : &ma);
	F(_free)(side ? d : h);
	ma.n = mb.n = 0;
	owned(true);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
void h_dup(void)
{
	int n = vp_range(0, 2), side = vp_range(0, 1), o = vp_range(0, 1);
	int k = vp_range(0, VP_NS - 1), a, b, c, e;
	hashes();
	for (a = 0; a <= 2; a++)
	for (b = 0; b <= 1; b++)
	for (c = 0; c <= 1; c++)
	for (e = 0; e < VP_NS; e++)
		if (a == n && b == side && c == o && e == k) {
			dup_case(a, b, c, e);
			return;
		}
}
/* allocation failures: n entries, then a set (new or replacing) or a dup */
static void fail_case(int n, int what, uint64_t fail)
{
	T *h = F()(), *d;
	int i;
	VP_ASSUME(h != NULL);
	for (i = 0; i < n; i++)
		op(h, &ma, 0, i);
	vp_fail_at = vp_alloc_count + fail;
	if (what < VP_NS) {
		op(h, &ma, 0, what);
	} else {
		d = F(_dup)(h);
		VP_ASSERT((d == NULL) == vp_alloc_failed, "failure is reported");
		if (d != NULL)
			F(_free)(d);
	}
	if (vp_alloc_failed)
		VP_COVER("failed");
	vp_fail_at = UINT64_MAX;
	agree(h, &ma);
	owned(false);
	F(_free)(h);
	ma.n = 0;
	owned(false);
	VP_ASSERT(vp_live == 0, "everything is released");
}
void h_fail(void)
{
	int n = vp_range(0, 2), w = vp_range(0, VP_NS), a, b;
	uint64_t f = vp_range(0, 5), c;
	T *h;
	hashes();
	for (a = 0; a <= 2; a++)
	for (b = 0; b <= VP_NS; b++)
	for (c = 0; c <= 5; c++)
		if (a == n && b == w && c == f) {
			fail_case(a, b, c);
			return;
		}
	(void)h;
}
/* growth: more entries than buckets, then a deletion and a duplicate */
static void grow(int n, int del)
{
	T *h = F()(), *d;
	int i;
	VP_ASSUME(h != NULL);
	for (i = 0; i < n; i++)
		op(h, &ma, 0, NK - 1 - i);
	agree(h, &ma);
	op(h, &ma, 1, NK - 1 - del);
	d = F(_dup)(h);
	VP_ASSUME(d != NULL);
	mb = ma;
	op(h, &ma, 0, NK - 1 - del);
	op(h, &ma, 0, NK - 1);
	agree(h, &ma);
	agree(d, &mb);
	owned(true);
	F(_free)(h);
	ma.n = 0;
	agree(d, &mb);
	owned(true);
	F(_free)(d);
	mb.n = 0;
	owned(true);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
void h_grow(void)
{
	hashes();
	if (vp_bool())
		grow(9, 4);
	else
		grow(10, 8);
}
/* refused arguments */
void h_args(void)
{
	T *h;
	unsigned how = vp_range(0, 5);
	hashes();
	if (how == 5) {
		vp_fail_at = 0;
		VP_ASSERT(F()() == NULL, "failure is reported");
		return;
	}
	h = F()();
	VP_ASSUME(h != NULL);
#ifdef VP_DICT
	if (how == 0) {
		VP_ASSERT(ec_dict_set(h, NULL, &val[0], cb) < 0, "refused");
		VP_ASSERT(val[0].freed == 1, "the value is released on failure");
	} else if (how == 1) {
		VP_ASSERT(ec_dict_get(h, NULL) == NULL && !ec_dict_has_key(h, NULL) &&
			ec_dict_del(h, NULL) < 0, "no key, no value");
	} else if (how == 2) {
		VP_ASSERT(ec_dict_set(h, "a", NULL, cb) == 0, "a NULL value can be stored");
		errno = ENOENT;
		VP_ASSERT(ec_dict_get(h, "a") == NULL && errno == 0 &&
			ec_dict_has_key(h, "a"), "and is told from a missing key");
		VP_ASSERT(ec_dict_len(h) == 1, "length");
		VP_COVER("end");
		return;
	}
#else
	if (how == 0) {
		VP_ASSERT(ec_htable_set(h, vp_bool() ? NULL : "a",
			0, &val[0], cb) < 0, "refused");
		VP_ASSERT(val[0].freed == 1, "the value is released on failure");
	} else if (how == 1) {
		VP_ASSERT(ec_htable_get(h, NULL, 1) == NULL &&
			!ec_htable_has_key(h, NULL, 1) &&
			ec_htable_del(h, NULL, 1) < 0, "no key, no value");
	} else if (how == 2) {
		VP_ASSERT(ec_htable_set(h, "a", 1, NULL, NULL) == 0, "a NULL value can be stored");
		errno = ENOENT;
		VP_ASSERT(ec_htable_get(h, "a", 1) == NULL && errno == 0 &&
			ec_htable_has_key(h, "a", 1), "and is told from a missing key");
		VP_COVER("end");
		return;
	} else if (how == 3) {
		VP_ASSERT(ec_htable_set(NULL, "a", 1, &val[0], cb) < 0, "refused");
		VP_ASSERT(val[0].freed == 1, "the value is released on failure");
		VP_ASSERT(ec_htable_get(NULL, "a", 1) == NULL &&
			!ec_htable_has_key(NULL, "a", 1) &&
			ec_htable_del(NULL, "a", 1) < 0 && ec_htable_iter(NULL) == NULL,
			"no table, no value");
		ec_htable_free(NULL);
	}
#endif
	VP_ASSERT(F(_len)(h) == 0 && F(_iter)(h) == NULL, "still empty");
	F(_free)(h);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("end");
}
