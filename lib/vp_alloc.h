/* Contract of the allocation layer, as stubs of the functions behind the
 * ec_malloc()/ec_free()/... macros: an allocation may fail (at most the
 * vp_fail_at-th one, or all from it on when vp_fail_sticky), otherwise returns
 * fresh memory; every free must be of a live block (checked by the verifier /
 * ASan); vp_live counts the live blocks (leak checks). */
#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include "vp.h"
#include <ecoli_malloc.h>

static uint64_t vp_alloc_count, vp_fail_at = UINT64_MAX;
static bool vp_fail_sticky;
static long vp_live;
static bool vp_alloc_failed;

static bool vp_fail_now(void)
{
	uint64_t n = vp_alloc_count++;
	if (vp_fail_at == UINT64_MAX)
		return false;
	if (n == vp_fail_at || (vp_fail_sticky && n > vp_fail_at)) {
		vp_alloc_failed = true;
		return true;
	}
	return false;
}

void *__ec_malloc(size_t size, const char *file, unsigned int line)
{
	void *p;
	(void)file; (void)line;
	if (vp_fail_now())
		return NULL;
#ifdef VP_MALLOC
	p = VP_MALLOC(size);
#else
	p = malloc(size);
#endif
	VP_ASSUME(p != NULL);
	vp_live++;
	return p;
}
void __ec_free(void *ptr, const char *file, unsigned int line)
{
	(void)file; (void)line;
	if (ptr != NULL)
		vp_live--;
	free(ptr);
}
void *__ec_calloc(size_t n, size_t size, const char *file, unsigned int line)
{
	void *p;
	(void)file; (void)line;
	if (vp_fail_now())
		return NULL;
#ifdef VP_CALLOC
	p = VP_CALLOC(n, size);
#else
	p = calloc(n, size);
#endif
	VP_ASSUME(p != NULL);
	vp_live++;
	return p;
}
void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
{
	void *p;
	(void)file; (void)line;
	if (vp_fail_now())
		return NULL;
#ifdef VP_REALLOC
	p = VP_REALLOC(ptr, size);
#else
	p = realloc(ptr, size);
#endif
	VP_ASSUME(p != NULL);
	if (ptr == NULL)
		vp_live++;
	return p;
}
#ifndef VP_OWN_STRDUP
char *__ec_strdup(const char *s, const char *file, unsigned int line)
{
	size_t n = strlen(s) + 1;
	char *p = __ec_malloc(n, file, line);
	if (p != NULL)
		memcpy(p, s, n);
	return p;
}
#endif
char *__ec_strndup(const char *s, size_t n, const char *file,
		unsigned int line)
{
	size_t l = strnlen(s, n);
	char *p = __ec_malloc(l + 1, file, line);
	if (p != NULL) {
		memcpy(p, s, l);
		p[l] = 0;
	}
	return p;
}
static void *vp_h_malloc(size_t s, const char *f, unsigned int l)
{ return __ec_malloc(s, f, l); }
static void vp_h_free(void *p, const char *f, unsigned int l)
{ __ec_free(p, f, l); }
static void *vp_h_realloc(void *p, size_t s, const char *f, unsigned int l)
{ return __ec_realloc(p, s, f, l); }
struct ec_malloc_handler ec_malloc_handler = {
	vp_h_malloc, vp_h_free, vp_h_realloc };
#endif
