/* generic vectors (src/ecoli_vec.c) */
#include "vp.h"
#include "vp_alloc.h"
#include "vp_env.h"
#include <assert.h>
#ifdef VP_CBMC
#undef assert
#define assert(c) VP_ASSERT(c, "internal assertion of the library")
#endif
#include <ecoli_vec.h>
#include "repo/ecoli_vec.c"

#ifndef VP_CBMC
#define VP_MAXLEN 64
#elif !defined(VP_MAXLEN)
#define VP_MAXLEN ((uint64_t)1 << 40)
#endif
#ifndef VP_ES
#define VP_ES 8
#endif

/* ---- one operation on a vector of any length; elements of VP_ES bytes -------- */
static struct ec_vec *g_v;
static size_t g_n, g_k, g_room;
static unsigned char g_kv;
static long g_base;
static unsigned char elt[16];
/* a vector of g_n elements with room for g_room; byte g_k of it is g_kv */
static void state(void)
{
	g_n = vp_range(0, VP_MAXLEN);
	g_v = __ec_calloc(1, sizeof(*g_v), "", 0);
	g_v->elt_size = VP_ES;
	g_v->len = g_n;
	g_room = vp_range(0, VP_MAXLEN + 1);
	VP_ASSUME(g_room >= g_n);
	/* the recorded size is at most the real one */
	g_v->size = vp_nd();
	VP_ASSUME(g_v->size <= g_room);
	g_v->vec = g_room == 0 ? NULL : __ec_malloc(g_room * VP_ES, "", 0);
	g_k = vp_nd();
	g_kv = (unsigned char)vp_nd();
	if (g_k < g_n * VP_ES)
		((unsigned char *)g_v->vec)[g_k] = g_kv;
	g_base = vp_live;
	vp_fail_at = vp_bool() ? vp_alloc_count : UINT64_MAX;
}
static void kept(size_t n)
{
	VP_ASSERT(g_v->len == n, "length");
	VP_ASSERT(g_v->elt_size == VP_ES, "element size");
	if (g_k < g_n * VP_ES)
		VP_ASSERT(((unsigned char *)g_v->vec)[g_k] == g_kv,
			"no other element is touched");
}
static void added(int r, bool ok)
{
	size_t i;
	unsigned char out[16];
	if (!ok)
		VP_ASSERT(r < 0, "an element of another size is refused");
	else
		VP_ASSERT((r < 0) == vp_alloc_failed, "fails iff memory lacks");
	if (r < 0) {
		VP_ASSERT(vp_live == g_base, "nothing leaks");
		kept(g_n);
		VP_COVER("refused");
		return;
	}
	VP_ASSERT(vp_live == g_base + (g_room == 0), "one block at most");
	kept(g_n + 1);
	for (i = 0; i < VP_ES; i++)
		VP_ASSERT(((unsigned char *)g_v->vec)[g_n * VP_ES + i] == elt[i],
			"the given content is appended");
	r = ec_vec_get(out, g_v, g_n);
	VP_ASSERT(r == 0, "the new element can be read");
	for (i = 0; i < VP_ES; i++)
		VP_ASSERT(out[i] == elt[i], "the stored value is returned");
}
void h_add(void)
{
	int r;
	size_t i;
	uint64_t v = vp_nd();
	unsigned how = vp_range(0, 5);
	state();
	for (i = 0; i < 8; i++)
		elt[i] = v >> (8 * i);
	for (i = 8; i < 16; i++)
		elt[i] = (unsigned char)vp_nd();
	if (how == 0) {
		r = ec_vec_add_u8(g_v, v);
		added(r, VP_ES == 1);
	} else if (how == 1) {
		r = ec_vec_add_u16(g_v, v);
		added(r, VP_ES == 2);
	} else if (how == 2) {
		r = ec_vec_add_u32(g_v, v);
		added(r, VP_ES == 4);
	} else if (how == 3) {
		r = ec_vec_add_u64(g_v, v);
		added(r, VP_ES == 8);
	} else if (how == 4) {
		r = ec_vec_add_ptr(g_v, (void *)v);
		added(r, VP_ES == sizeof(void *));
	} else {
		r = ec_vec_add_by_ref(g_v, elt);
		added(r, true);
	}
	VP_COVER("end");
}
void h_get(void)
{
	unsigned char out[16];
	size_t idx = vp_nd(), i;
	int r;
	for (i = 0; i < 16; i++)
		out[i] = elt[i] = (unsigned char)vp_nd();
	state();
	r = ec_vec_get(out, g_v, idx);
	VP_ASSERT((r < 0) == (idx >= g_n), "refused iff out of range");
	if (r < 0) {
		for (i = 0; i < 16; i++)
			VP_ASSERT(out[i] == elt[i], "nothing is written on failure");
		VP_COVER("refused");
	} else {
		for (i = 0; i < VP_ES; i++)
			if (idx * VP_ES + i == g_k)
				VP_ASSERT(out[i] == g_kv, "the stored value is returned");
		for (i = VP_ES; i < 16; i++)
			VP_ASSERT(out[i] == elt[i], "only the element is written");
		VP_COVER("read");
	}
	VP_ASSERT(ec_vec_get(out, NULL, 0) < 0 && ec_vec_len(NULL) == 0, "no vector");
	VP_ASSERT(ec_vec_len(g_v) == g_n, "length");
	kept(g_n);
}
void h_range(void)
{
	size_t off = vp_nd(), len = vp_nd();
	state();
	VP_ASSUME(off > g_n || len > g_n - off);
	VP_ASSERT(ec_vec_ndup(g_v, off, len) == NULL,
		"a range outside the vector is refused");
	VP_ASSERT(vp_live == g_base, "nothing leaks");
	VP_COVER("refused");
}
/* creation */
static void nocopy(void *dst, void *src) { (void)dst; (void)src; }
static void nofree(void *p) { (void)p; }
void h_new(void)
{
	size_t es = vp_bool() ? 0 : VP_ES, size = vp_range(0, VP_MAXLEN);
	struct ec_vec *v;
	vp_fail_at = vp_bool() ? vp_range(0, 1) : UINT64_MAX;
	v = ec_vec(es, size, nocopy, nofree);
	if (es == 0)
		VP_ASSERT(v == NULL, "no element size is refused");
	else
		VP_ASSERT((v == NULL) == vp_alloc_failed, "fails iff memory lacks");
	if (v == NULL) {
		VP_ASSERT(vp_live == 0, "nothing leaks");
		VP_COVER("failed");
		return;
	}
	VP_ASSERT(ec_vec_len(v) == 0, "a new vector is empty");
	VP_ASSERT(v->elt_size == es && v->copy == nocopy && v->free == nofree,
		"with the given element size and callbacks");
	VP_ASSERT(v->size <= size, "no more room than allocated");
	ec_vec_free(v);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_COVER("made");
}

/* ---- whole vectors: up to VP_N elements of 2 bytes with callbacks ---------------- */
#ifndef VP_N
#define VP_N 4
#endif
struct e2 { unsigned char id, val; };
static unsigned ncopy, nfree, freed[VP_N + 1];
static void cp(void *dst, void *src)
{
	struct e2 *d = dst, *s = src;
	VP_ASSERT(s->val != 0xff, "a live element is copied");
	*d = *s;
	ncopy++;
}
static void fr(void *p)
{
	struct e2 *e = p;
	VP_ASSERT(e->id <= VP_N && e->val != 0xff, "a live element is released");
	freed[e->id]++;
	e->val = 0xff;
	nfree++;
}
static void dup_case(size_t n, size_t off, size_t len, bool cb, bool whole,
	size_t fail)
{
	struct e2 e[VP_N], o;
	struct ec_vec *v, *c;
	size_t i;
	v = ec_vec(sizeof(struct e2), 0, cb ? cp : NULL, cb ? fr : NULL);
	for (i = 0; i < n; i++) {
		e[i].id = i;
		e[i].val = (unsigned char)vp_nd();
		VP_ASSUME(e[i].val != 0xff);
		VP_ASSERT(ec_vec_add_by_ref(v, &e[i]) == 0, "added");
	}
	VP_ASSERT(ncopy == 0, "adding takes the element as it is");
	g_base = vp_live;
	vp_fail_at = fail == 2 ? UINT64_MAX : vp_alloc_count + fail;
	c = whole ? ec_vec_dup(v) : ec_vec_ndup(v, off, len);
	VP_ASSERT((c == NULL) == vp_alloc_failed, "fails iff memory lacks");
	VP_ASSERT(ec_vec_len(v) == n, "source unchanged");
	for (i = 0; i < n; i++) {
		VP_ASSERT(ec_vec_get(&o, v, i) == 0 && o.id == i &&
			o.val == e[i].val, "source unchanged");
	}
	if (c == NULL) {
		VP_ASSERT(vp_live == g_base && nfree == ncopy, "nothing leaks");
		VP_COVER("failed");
		return;
	}
	vp_fail_at = UINT64_MAX;
	VP_ASSERT(ec_vec_len(c) == len, "as many elements as asked");
	VP_ASSERT(ncopy == (cb ? len : 0) && nfree == 0, "one copy per element");
	for (i = 0; i < len; i++)
		VP_ASSERT(ec_vec_get(&o, c, i) == 0 && o.id == off + i &&
			o.val == e[off + i].val, "exactly the elements of the range");
	/* independent, and usable */
	o.id = VP_N;
	o.val = 1;
	VP_ASSERT(ec_vec_add_by_ref(c, &o) == 0 && ec_vec_len(v) == n,
		"the copy grows on its own");
	for (i = 0; i < len; i++)
		VP_ASSERT(ec_vec_get(&o, c, i) == 0 && o.id == off + i &&
			o.val == e[off + i].val, "content kept by growth");
	ec_vec_free(c);
	VP_ASSERT(vp_live == g_base && nfree == (cb ? len + 1 : 0),
		"each element of the copy released once");
	for (i = 0; i < n; i++) {
		VP_ASSERT(ec_vec_get(&o, v, i) == 0 && o.id == i &&
			o.val == e[i].val, "the source survives its copy");
	}
	ec_vec_free(v);
	VP_ASSERT(vp_live == 0, "everything is released");
	for (i = 0; i < n; i++)
		VP_ASSERT(freed[i] == (cb ? 1 + (i >= off && i - off < len) : 0),
			"each element released exactly once");
	VP_COVER("copied");
}
void h_ndup(void)
{
	size_t n = vp_range(0, VP_N), off = vp_nd(), len = vp_nd();
	size_t i, j, k, f;
	bool whole = vp_bool(), cb = vp_bool();
	uint64_t fail = vp_range(0, 2);
	for (i = 0; i <= VP_N; i++)
	for (j = 0; j <= i; j++)
	for (k = 0; k <= i - j; k++)
	for (f = 0; f <= 2; f++)
		if (i == n && j == off && k == len && f == fail) {
			if (whole && j == 0 && k == i) {
				if (cb)
					dup_case(i, j, k, true, true, f);
				else
					dup_case(i, j, k, false, true, f);
			} else {
				if (cb)
					dup_case(i, j, k, true, false, f);
				else
					dup_case(i, j, k, false, false, f);
			}
			return;
		}
}
