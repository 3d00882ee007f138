/* allocation layer (src/ecoli_malloc.c, include/ecoli_malloc.h) */
#include "vp.h"
#include "vp_env.h"
#include <ecoli_init.h>
#include <ecoli_malloc.h>
#undef EC_INIT_REGISTER
#define EC_INIT_REGISTER(t) struct ec_init

/* ---- a text of any length: vp_len characters, none of them NUL ------------------ */
static char *vp_s;
static size_t vp_len;
static size_t vp_strlen(const char *s)
{
	VP_ASSERT(s == vp_s, "length of the text given");
	return vp_len;
}
static size_t vp_strnlen(const char *s, size_t n)
{
	VP_ASSERT(s == vp_s, "length of the text given");
	return n < vp_len ? n : vp_len;
}
/* ---- the C allocator ------------------------------------------------------------ */
enum { NONE, MALLOC, FREE, REALLOC };
static int calls, what, by_user;
static void *arg, *ret;
static size_t sz;
static const char *gfile;
static unsigned int gline;
static bool nomem;
static void called(int w, int u, void *p, size_t s, const char *f, unsigned int l)
{
	calls++;
	what = w;
	by_user = u;
	arg = p;
	sz = s;
	gfile = f;
	gline = l;
}
static void *any_block(size_t size)
{
	ret = NULL;
#ifndef VP_CBMC
	VP_ASSUME(size < 1 << 20);
#endif
	if (size >= (size_t)1 << 46)
		nomem = true;    /* more than the address space */
	if (nomem)
		return NULL;
	ret = malloc(size);
	VP_ASSUME(ret != NULL);
	return ret;
}
static void *u_malloc(size_t size, const char *f, unsigned int l)
{
	called(MALLOC, 1, NULL, size, f, l);
	return any_block(size);
}
static void u_free(void *p, const char *f, unsigned int l)
{ called(FREE, 1, p, 0, f, l); }
static void *u_realloc(void *p, size_t size, const char *f, unsigned int l)
{
	called(REALLOC, 1, p, size, f, l);
	return any_block(size);
}
static void *u_malloc2(size_t size, const char *f, unsigned int l)
{ return u_malloc(size, f, l); }
static void u_free2(void *p, const char *f, unsigned int l)
{ u_free(p, f, l); }
static void *u_realloc2(void *p, size_t size, const char *f, unsigned int l)
{ return u_realloc(p, size, f, l); }
#define strlen vp_strlen
#define strnlen vp_strnlen
#include "repo/ecoli_malloc.c"
#undef strlen
#undef strnlen

static void setup(void)
{
	ec_malloc_handler.malloc = u_malloc;
	ec_malloc_handler.free = u_free;
	ec_malloc_handler.realloc = u_realloc;
	nomem = vp_bool();
}
/* requests reach the registered allocator, with the size and the place */
void h_forward(void)
{
	size_t n = vp_nd();
	char x, *p = &x;
	void *r;
	setup();
	switch (vp_range(0, 5)) {
	case 0:
		r = __ec_malloc(n, p, 7);
		VP_ASSERT(calls == 1 && what == MALLOC && sz == n && r == ret &&
			gfile == p && gline == 7, "allocation requested");
		VP_ASSERT((r == NULL) == nomem, "failure passed on");
		VP_COVER("malloc");
		break;
	case 1:
		__ec_free(p, p, 7);
		VP_ASSERT(calls == 1 && what == FREE && arg == p && gfile == p &&
			gline == 7, "release requested");
		break;
	case 2:
		r = __ec_realloc(p, n, p, 7);
		VP_ASSERT(calls == 1 && what == REALLOC && arg == p && sz == n &&
			r == ret && gfile == p && gline == 7, "resize requested");
		break;
	case 3:
		r = ec_malloc_func(n);
		VP_ASSERT(calls == 1 && what == MALLOC && sz == n && r == ret,
			"allocation requested");
		break;
	case 4:
		ec_free_func(p);
		VP_ASSERT(calls == 1 && what == FREE && arg == p, "release requested");
		break;
	case 5:
		r = ec_realloc_func(p, n);
		VP_ASSERT(calls == 1 && what == REALLOC && arg == p && sz == n &&
			r == ret, "resize requested");
		break;
	}
}
/* the macros, same */
void h_macros(void)
{
	size_t n = vp_nd();
	char x, *p = &x;
	void *r;
	setup();
	switch (vp_range(0, 2)) {
	case 0:
		r = ec_malloc(n);
		VP_ASSERT(calls == 1 && what == MALLOC && sz == n && r == ret &&
			gfile != NULL, "allocation requested");
		VP_COVER("malloc");
		break;
	case 1:
		ec_free(p);
		VP_ASSERT(calls == 1 && what == FREE && arg == p, "release requested");
		break;
	case 2:
		r = ec_realloc(p, n);
		VP_ASSERT(calls == 1 && what == REALLOC && arg == p && sz == n &&
			r == ret, "resize requested");
		break;
	}
}
/* without a registered allocator, the C library is used */
void h_libc(void)
{
	char *p;
	ec_malloc_handler.malloc = NULL;
	ec_malloc_handler.free = NULL;
	ec_malloc_handler.realloc = NULL;
	p = ec_malloc(3);
	VP_ASSUME(p != NULL);
	p[0] = 'a';
	p[2] = 0;
	p = ec_realloc(p, 5);
	VP_ASSUME(p != NULL);
	p[4] = 0;
	VP_ASSERT(p[0] == 'a', "content is kept");
	ec_free(p);
	p = ec_calloc(2, 2);
	VP_ASSUME(p != NULL);
	VP_ASSERT(p[0] == 0 && p[3] == 0, "zeroed");
	ec_free(p);
	p = ec_strdup("ab");
	VP_ASSUME(p != NULL);
	VP_ASSERT(p[0] == 'a' && p[1] == 'b' && p[2] == 0, "copied");
	ec_free(p);
	VP_ASSERT(calls == 0, "no other allocator is called");
	VP_COVER("libc");
}
#ifndef VP_LO
#define VP_LO 0
#define VP_HI 1
#endif
static void zeroed(size_t n)
{
	size_t size = vp_nd(), total = n * size, i = vp_nd();
	bool over = n != 0 && size > SIZE_MAX / n;
	char *r;
	setup();
	errno = 0;
	r = vp_bool() ? __ec_calloc(n, size, "", 0) : ec_calloc(n, size);
	if (over) {
		VP_ASSERT(r == NULL && calls == 0, "a size that overflows is refused");
		VP_ASSERT(errno == ENOMEM, "with the error");
		if (n > 1)
			VP_COVER("refused");
		return;
	}
	VP_ASSERT(calls == 1 && what == MALLOC && sz == total, "size requested");
	VP_ASSERT(r == ret && (r == NULL) == nomem, "the block, or failure passed on");
	if (r != NULL && i < total)
		VP_ASSERT(r[i] == 0, "every byte is zero");
}
void h_calloc(void)
{
	static const size_t ns[] = { 0, 1, 2, 3, 5, 8, 24, 40, 4096,
		(size_t)1 << 31, (size_t)1 << 32,
		((size_t)1 << 32) + 1, (size_t)1 << 63, SIZE_MAX / 3, SIZE_MAX };
	size_t n = vp_nd(), i;
	for (i = VP_LO; i < VP_HI && i < sizeof(ns) / sizeof(ns[0]); i++)
		if (n == ns[i]) {
			zeroed(ns[i]);
			VP_END;
		}
}
#ifdef VP_CBMC
#define ANYLEN(n) (n < (size_t)1 << 46)
#else
#define ANYLEN(n) (n < 1 << 20)
#endif
static void text(void)
{
	size_t k = vp_nd();
	vp_len = vp_nd();
	VP_ASSUME(ANYLEN(vp_len));
	vp_s = malloc(vp_len + 1);
	VP_ASSUME(vp_s != NULL);
#ifndef VP_CBMC
	memset(vp_s, 'x', vp_len);
#endif
	vp_s[vp_len] = 0;
	if (k < vp_len)
		vp_s[k] = (char)vp_range(1, 127);
}
/* duplicated texts, of any length */
void h_strdup(void)
{
	size_t i;
	char *r;
	text();
	setup();
	i = vp_nd();
	r = vp_bool() ? __ec_strdup(vp_s, "", 0) : ec_strdup(vp_s);
	VP_ASSERT(calls == 1 && what == MALLOC, "one block requested");
	VP_ASSERT(r == ret && (r == NULL) == nomem, "the block, or failure passed on");
	if (r == NULL) {
		VP_COVER("failed");
		return;
	}
	VP_ASSERT(sz >= vp_len + 1, "room for the text");
	if (i <= vp_len)
		VP_ASSERT(r[i] == vp_s[i], "same text");
	VP_COVER("copied");
}
void h_strndup(void)
{
	size_t i, n, l;
	char *r;
	text();
	setup();
	i = vp_nd();
	n = vp_nd();
	l = n < vp_len ? n : vp_len;
	r = vp_bool() ? __ec_strndup(vp_s, n, "", 0) : ec_strndup(vp_s, n);
	VP_ASSERT(calls == 1 && what == MALLOC, "one block requested");
	VP_ASSERT(r == ret && (r == NULL) == nomem, "the block, or failure passed on");
	if (r == NULL) {
		VP_COVER("failed");
		return;
	}
	VP_ASSERT(sz >= l + 1, "room for the text");
	if (i < l)
		VP_ASSERT(r[i] == vp_s[i], "same text");
	VP_ASSERT(r[l] == 0, "cut where asked");
	if (n < vp_len)
		VP_COVER("cut");
	else
		VP_COVER("whole");
}
/* registration of an allocator */
void h_register(void)
{
	struct ec_malloc_handler old;
	bool full, late = vp_bool();
	int r;
	ec_malloc_t m = vp_bool() ? u_malloc2 : NULL;
	ec_free_t f = vp_bool() ? u_free2 : NULL;
	ec_realloc_t re = vp_bool() ? u_realloc2 : NULL;
	if (vp_bool())
		setup();
	old = ec_malloc_handler;
	if (late)
		VP_ASSERT(ec_malloc_init.init() == 0, "initialised");
	full = m != NULL && f != NULL && re != NULL;
	r = ec_malloc_register(m, f, re);
	VP_ASSERT((r == 0) == (full && !late),
		"a complete allocator is accepted before initialisation only");
	if (r == 0) {
		VP_ASSERT(ec_malloc_handler.malloc == m && ec_malloc_handler.free == f &&
			ec_malloc_handler.realloc == re, "registered");
		VP_COVER("accepted");
	} else {
		VP_ASSERT(r == -1 && ec_malloc_handler.malloc == old.malloc &&
			ec_malloc_handler.free == old.free &&
			ec_malloc_handler.realloc == old.realloc,
			"a refused allocator changes nothing");
		VP_COVER("refused");
	}
}
