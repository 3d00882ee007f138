/* Contracts of string vectors, attributes and grammar nodes as seen by the
 * parse and completion engines (src/ecoli_parse.c, src/ecoli_complete.c):
 *   string vector = a slice [off, off+len) of one list of tokens
 *   dictionary    = an object that is created, duplicated and freed
 *   grammar node  = its type and its identifier
 * The implementations are checked against these by the units strvec_*,
 * dict_*, node_*. */
#ifndef ABSMIN_H
#define ABSMIN_H
#include "vp.h"
#include "vp_alloc.h"
#include "vp_env.h"
#include <assert.h>
#ifdef VP_CBMC
#undef assert
#define assert(c) VP_ASSERT(c, "internal assertion of the library")
#endif
#include <ecoli_node.h>
#include <ecoli_strvec.h>
#include <ecoli_dict.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>

#ifndef VP_NNODE
#define VP_NNODE 6
#endif
/* ---- string vectors -------------------------------------------------------- */
struct ec_strvec {
	bool input;              /* the caller's vector */
	size_t off, len;
	const char *text;        /* its only token, when built here */
};
#ifndef VP_TOK
#define VP_TOK(off) ""
#endif
static long vp_sv_live;
size_t ec_strvec_len(const struct ec_strvec *strvec)
{
	VP_ASSERT(strvec != NULL, "length of an existing vector");
	return strvec->len;
}
const char *ec_strvec_val(const struct ec_strvec *strvec, size_t idx)
{
	if (strvec == NULL || idx >= strvec->len)
		return NULL;
	if (strvec->text != NULL)
		return strvec->text;
	return VP_TOK(strvec->off + idx);
}
static struct ec_strvec *vp_sv(size_t off, size_t len, const char *text)
{
	struct ec_strvec *v = malloc(sizeof(*v));
	VP_ASSUME(v != NULL);
	v->input = false;
	v->off = off;
	v->len = len;
	v->text = text;
	if (vp_fail_now()) {
		free(v);
		errno = ENOMEM;
		return NULL;
	}
	vp_live++;
	vp_sv_live++;
	return v;
}
struct ec_strvec *ec_strvec(void) { return vp_sv(0, 0, NULL); }
int ec_strvec_add(struct ec_strvec *strvec, const char *s)
{
	VP_ASSERT(!strvec->input && strvec->len == 0, "a vector of one text");
	if (s == NULL || vp_fail_now())
		return -1;
	strvec->text = s;
	strvec->len = 1;
	return 0;
}
struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
	size_t len)
{
	if (off > strvec->len || len > strvec->len - off) {
		errno = EINVAL;
		return NULL;
	}
	return vp_sv(strvec->off + off, len, strvec->text);
}
struct ec_strvec *ec_strvec_dup(const struct ec_strvec *strvec)
{ return ec_strvec_ndup(strvec, 0, strvec->len); }
void ec_strvec_free(struct ec_strvec *strvec)
{
	if (strvec == NULL)
		return;
	VP_ASSERT(!strvec->input, "the caller's vector is not freed");
	vp_sv_live--;
	__ec_free(strvec, "", 0);
}
void ec_strvec_dump(FILE *out, const struct ec_strvec *strvec)
{ (void)out; (void)strvec; }

/* ---- attributes -------------------------------------------------------------- */
struct ec_dict { int tag; };
struct ec_dict *ec_dict(void)
{
	struct ec_dict *d = malloc(sizeof(*d));
	VP_ASSUME(d != NULL);
	d->tag = 0;
	if (vp_fail_now()) {
		free(d);
		return NULL;
	}
	vp_live++;
	return d;
}
void ec_dict_free(struct ec_dict *dict)
{
	if (dict != NULL)
		__ec_free(dict, "", 0);
}
struct ec_dict *ec_dict_dup(const struct ec_dict *dict)
{
	struct ec_dict *d = ec_dict();
	VP_ASSERT(dict != NULL, "attributes exist");
	if (d != NULL)
		d->tag = dict->tag;
	return d;
}

/* ---- grammar nodes ------------------------------------------------------------- */
struct ec_node {
	int idx;
	const struct ec_node_type *type;
	char id[2];
};
static struct ec_node vp_node[VP_NNODE];
const struct ec_node_type *ec_node_type(const struct ec_node *node)
{ return node->type; }
const char *ec_node_id(const struct ec_node *node) { return node->id; }
char *ec_node_desc(const struct ec_node *node) { (void)node; return NULL; }
#endif
