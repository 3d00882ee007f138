/* lexer node types: VP_T 1: sh_lex, 2: re_lex */
#define VP_NNODE 2
#define VP_NTOK 1
#define VP_WORDS
#define VP_ONE
#define VP_ANYLEN
#define VP_OWN_COMP
#define VP_PARSED(sv) parsed(sv)
#if VP_T == 2
#define VP_SUBCFG subcfg
#define VP_CALLOC lex_calloc
#define VP_PRIV_NEW vp_priv_new
#endif
#include <stddef.h>
#include <stdint.h>
struct ec_strvec;
struct ec_config;
static void parsed(const struct ec_strvec *sv);
#include <stdbool.h>
static bool subcfg(const struct ec_config *c, const char *key, struct ec_config **r);
#include <sys/queue.h>
#include <sys/types.h>
#include <stdio.h>
/* the content of a configuration as separate members (cheaper): only the member
 * selected by its type is ever used */
#define union struct
#include <ecoli_config.h>
#undef union
#define VP_OWN_STRDUP
static void *lex_calloc(size_t n, size_t size);
static void *vp_priv_new(size_t size);
#include "abs.h"
#include <regex.h>
/* copied texts of constant length: cheaper for the solver */
char *__ec_strdup(const char *s, const char *file, unsigned int line)
{
	size_t i, n = 0;
	char *p;
	(void)file; (void)line;
	while (s[n] != 0)
		n++;
	p = malloc(n + 1);
	VP_ASSUME(p != NULL);
	for (i = 0; i <= n; i++)
		p[i] = s[i];
	if (vp_fail_now()) {
		free(p);
		return NULL;
	}
	vp_live++;
	return p;
}

#define TL 3                             /* characters of the token */
static unsigned n_parsed;

#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
/* ---- attributes ------------------------------------------------------------- */
struct ec_dict { const char *key; };
struct ec_dict *ec_dict(void)
{
	struct ec_dict *d = malloc(sizeof(*d));
	VP_ASSUME(d != NULL);
	d->key = NULL;
	if (vp_fail_now()) {
		free(d);
		errno = ENOMEM;
		return NULL;
	}
	vp_live++;
	return d;
}
void ec_dict_free(struct ec_dict *dict)
{
	if (dict != NULL)
		__ec_free(dict, "", 0);
}
int ec_dict_set(struct ec_dict *dict, const char *key, void *val,
	ec_dict_elt_free_t cb)
{
	VP_ASSERT(dict != NULL && key != NULL, "an attribute is set");
	VP_ASSERT(val == NULL && cb == NULL, "an attribute without value");
	if (vp_fail_now()) {
		errno = ENOMEM;
		return -1;
	}
	dict->key = key;
	return 0;
}

#if VP_T == 1
/* ---- shell-like splitting (units sh_split*) -------------------------------------- */
static char q_missing;                   /* of the token, 0: none */
static size_t n_words, n_words_tr;       /* without / with the trailing blank */
static const struct ec_strvec *split;
struct ec_strvec *ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
	char *missing)
{
	struct ec_strvec *v;
	VP_ASSERT(str == vp_in.w[0], "the first token is split");
	v = vp_sv_new();
	if (v == NULL)
		return NULL;
	if (q_missing && (flags & EC_STRVEC_STRICT)) {
		ec_strvec_free(v);
		errno = EBADMSG;
		return NULL;
	}
	if (missing != NULL)
		*missing = q_missing;
	v->len = flags & EC_STRVEC_TRAILSP ? n_words_tr : n_words;
	split = v;
	return v;
}

/* ---- completion items --------------------------------------------------------- */
#define NI 4
#define IL 2
struct ec_comp { struct ec_pnode *cur; };
static struct ec_comp vp_comp_st = { &vp_pstate_st };
struct ec_comp_item {
	int type;
	char str[IL + 3], comp[IL + 2];
};
static struct ec_comp_item item[NI], item0[NI];
static unsigned n_item, n_new;
static int comp_ret;
static bool comp_asked;
static struct ec_comp_item *next_item(unsigned i, int type)
{
	for (; i < n_item; i++)
		if (item[i].type & type)
			return &item[i];
	return NULL;
}
struct ec_comp_item *ec_comp_iter_first(const struct ec_comp *comp,
	enum ec_comp_type type)
{
	VP_ASSERT(comp == &vp_comp_st, "the completion being built");
	return next_item(0, type);
}
struct ec_comp_item *ec_comp_iter_next(struct ec_comp_item *it,
	enum ec_comp_type type)
{ return next_item((unsigned)(it - item) + 1, type); }
int ec_complete_child(const struct ec_node *node, struct ec_comp *comp,
		const struct ec_strvec *strvec)
{
	VP_ASSERT(comp == &vp_comp_st && node == &vp_node[0], "the child is completed");
	VP_ASSERT(strvec == split && strvec->len == n_words_tr && !comp_asked,
		"on the words of the token, an empty last word after a blank");
	comp_asked = true;
	if (comp_ret >= 0)
		n_item += n_new;
	return comp_ret;
}
static size_t len_of(const char *s)
{
	size_t i = 0;
	while (s[i] != 0)
		i++;
	return i;
}
const char *ec_comp_item_get_str(const struct ec_comp_item *it) { return it->str; }
const char *ec_comp_item_get_completion(const struct ec_comp_item *it) { return it->comp; }
static int set_text(char *d, const char *s, size_t size)
{
	size_t i, n = len_of(s);
	if (vp_fail_now())
		return -1;
	VP_ASSERT(n < size, "one quote around the text");
	for (i = 0; i < size && i <= n; i++)
		d[i] = s[i];
	return 0;
}
int ec_comp_item_set_str(struct ec_comp_item *it, const char *str)
{ return set_text(it->str, str, sizeof(it->str)); }
int ec_comp_item_set_completion(struct ec_comp_item *it, const char *str)
{ return set_text(it->comp, str, sizeof(it->comp)); }

/* ---- formatting (unit str_printf), %c and %s ------------------------------------- */
int ec_asprintf(char **buf, const char *fmt, ...)
{
	va_list ap;
	char *r;
	size_t n = 0, i, k;
	const char *s;
	r = malloc(16);
	VP_ASSUME(r != NULL);
	if (vp_fail_now()) {
		free(r);
		*buf = NULL;
		return -1;
	}
	vp_live++;
	va_start(ap, fmt);
	for (i = 0; fmt[i] != 0; i++) {
		if (fmt[i] != '%') {
			r[n++] = fmt[i];
		} else if (fmt[++i] == 'c') {
			r[n++] = (char)va_arg(ap, int);
		} else {
			VP_ASSERT(fmt[i] == 's', "format within the contract");
			s = va_arg(ap, const char *);
			for (k = 0; s[k] != 0; k++)
				r[n++] = s[k];
		}
	}
	va_end(ap);
	r[n] = 0;
	*buf = r;
	return (int)n;
}

/* ---- set of items (units htable_*) ------------------------------------------------ */
struct ec_htable { bool has[NI]; };
struct ec_htable *ec_htable(void)
{
	struct ec_htable *h = malloc(sizeof(*h));
	int i;
	VP_ASSUME(h != NULL);
	for (i = 0; i < NI; i++)
		h->has[i] = false;
	if (vp_fail_now()) {
		free(h);
		return NULL;
	}
	vp_live++;
	return h;
}
static int key_of(const void *key, size_t len)
{
	int i;
	struct ec_comp_item *const *p = key;
	VP_ASSERT(len == sizeof(*p), "an item is the key");
	for (i = 0; i < NI; i++)
		if (*p == &item[i])
			return i;
	VP_ASSERT(0, "an item is the key");
	return 0;
}
int ec_htable_set(struct ec_htable *h, const void *key, size_t len, void *val,
	ec_htable_elt_free_t cb)
{
	(void)val; (void)cb;
	if (vp_fail_now())
		return -1;
	h->has[key_of(key, len)] = true;
	return 0;
}
bool ec_htable_has_key(const struct ec_htable *h, const void *key, size_t len)
{ return h->has[key_of(key, len)]; }
void ec_htable_free(struct ec_htable *h)
{
	if (h != NULL)
		__ec_free(h, "", 0);
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
/* node creation (unit node_create) */
struct ec_node *ec_node_from_type(const struct ec_node_type *type, const char *id)
{
	(void)id;
	VP_ASSERT(type == vp_self.type, "a node of the type");
	return vp_fail_now() ? NULL : &vp_self;
}
#include "repo/ecoli_node_sh_lex.c"
#define TNAME "sh_lex"
static void parsed(const struct ec_strvec *sv)
{
	n_parsed++;
	if (vp_in.len > 0)
		VP_ASSERT(sv == split && sv->len == n_words,
			"the child parses the words of the token");
	else
		VP_ASSERT(sv->len == 0, "the child parses nothing");
}
static void setup(size_t len)
{
	struct ec_node *n;
	vp_setup(TNAME, len);
	vp_in.w[0][0] = 0;
	n = ec_node_sh_lex("id", &vp_node[0]);
	VP_ASSERT(n == &vp_self, "node created");
	VP_ASSERT(vp_node[0].refs == 1, "the reference on the child is kept");
	vp_live = 0;
}

void h_parse(void)
{
	int ret;

	vp_init_oracle();
	setup(vp_nd());
	q_missing = (char)vp_nd();
	n_words = vp_range(0, INT_MAX - 1);
	n_words_tr = vp_nd();
	if (vp_in.len == 0) {
		n_words = 0;
		q_missing = 0;
	}
	vp_fail_at = vp_pick_fail(3);
	errno = vp_bool() ? EBADMSG : 0;
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	VP_ASSERT(vp_live == 0, "nothing leaks");
	if (vp_alloc_failed) {
		VP_ASSERT(ret == -1 && VP_KIDS() == 0, "failed allocations are reported");
		VP_COVER("alloc failure");
	} else if (q_missing) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH && VP_KIDS() == 0 && !n_parsed,
			"unterminated quote: no match");
		VP_COVER("quote");
	} else if (vp_one < 0) {
		VP_ASSERT(ret == -1 && VP_KIDS() == 0, "child error is reported");
		VP_COVER("error");
	} else if (vp_one != (int)n_words) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH && VP_KIDS() == 0 &&
			vp_pnode_live == 0, "no match unless all words are matched");
		VP_COVER("nomatch");
	} else {
		VP_ASSERT(ret == (vp_in.len > 0), "matches its token");
		VP_ASSERT(VP_KIDS() == 1 && VP_KID_NODE(0) == 0, "subtree of the child");
		VP_COVER("match");
	}
}

static bool quoted(const char *s, const char *t, char a, char b)
{
	size_t i, k = 0;
	if (a && s[k++] != a)
		return false;
	for (i = 0; t[i] != 0; i++)
		if (s[k++] != t[i])
			return false;
	if (b && s[k++] != b)
		return false;
	return s[k] == 0;
}
/* o items, then n more by the child; types: bit i: item i is full */
static void complete(unsigned o, unsigned n, unsigned types, char q, int fail)
{
	unsigned i;
	int ret;
	bool full;

	n_item = o;
	n_new = n;
	for (i = 0; i < NI; i++)
		item[i].type = item0[i].type = (types >> i) & 1 ? EC_COMP_FULL :
			i & 1 ? EC_COMP_PARTIAL : EC_COMP_UNKNOWN;
	q_missing = q;
	if (fail >= 0)
		vp_fail_at = vp_alloc_count + (unsigned)fail;
	comp_ret = fail == 20 ? -1 : 0;
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	VP_ASSERT(vp_live == 0, "nothing leaks");
	vp_check_tree_restored(0);
	if (vp_alloc_failed || (comp_asked && comp_ret < 0)) {
		VP_ASSERT(ret == -1, "errors are reported");
		return;
	}
	VP_ASSERT(ret == 0 && comp_asked, "the child is completed");
	for (i = 0; i < NI; i++) {
		if (i >= o + n)
			break;
		full = i >= o && q_missing && item[i].type == EC_COMP_FULL;
		VP_ASSERT(quoted(item[i].str, item0[i].str, full ? q_missing : 0,
				full ? q_missing : 0),
			"a new full item is quoted like the word, others are untouched");
		VP_ASSERT(quoted(item[i].comp, item0[i].comp, 0, full ? q_missing : 0),
			"its completion gets the missing quote, others are untouched");
		VP_ASSERT(item[i].type == item0[i].type, "types are untouched");
	}
}
void h_complete(void)
{
	unsigned o, n, t, q, i, pick = (unsigned)vp_nd();
	int f;
	static const char quote[] = { 0, '\'', '"' };

	setup(1);
	n_words = vp_nd();
	n_words_tr = vp_nd();
	for (i = 0; i < NI; i++) {
		item[i].str[0] = item0[i].str[0] = (char)('a' + i);
		item[i].str[1] = item0[i].str[1] = i & 1 ? 'z' : 0;
		item[i].comp[0] = item0[i].comp[0] = i & 2 ? 'y' : 0;
	}
	for (o = 0; o <= 2; o++)
		for (n = 0; n <= 2; n++)
			for (t = 0; t < 1u << (o + n); t++)
				for (q = 0; q < 3; q++)
					if (pick == 1000 * o + 100 * n + 3 * t + q) {
						complete(o, n, t, quote[q], -1);
						VP_COVER("case");
						VP_END;
					}
	for (q = 0; q < 3; q++)
		for (f = 0; f <= 20; f++)
			if (pick == 5000 + 100 * q + (unsigned)f) {
				complete(1, 2, 7, quote[q], f);
				VP_COVER("failing case");
				VP_END;
			}
}
/* not the last word: nothing is done */
void h_elsewhere(void)
{
	int ret;
	setup(vp_nd());
	VP_ASSUME(vp_in.len != 1);
	ret = vp_self.type->complete(&vp_self, &vp_comp_st, &vp_in);
	VP_ASSERT(ret == 0 && !comp_asked && vp_live == 0 && n_item == 0,
		"only the last word is completed");
	vp_check_tree_restored(0);
	VP_COVER("other position");
}

void h_refs(void)
{
	struct ec_node *n, *c;
	unsigned int refs;
	int r;
	vp_setup(TNAME, 0);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 0, "no child yet");
	VP_ASSERT(ec_node_sh_lex("id", NULL) == NULL, "a child is needed");
	vp_fail_at = vp_pick_fail(1);
	n = ec_node_sh_lex("id", &vp_node[0]);
	if (n == NULL) {
		VP_ASSERT(vp_alloc_failed, "created unless an allocation fails");
		VP_ASSERT(vp_node[0].refs == 0, "the child is released on failure");
		VP_COVER("failed");
		return;
	}
	VP_ASSERT(!vp_alloc_failed && n == &vp_self, "failure is reported");
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 1, "one child");
	r = vp_self.type->get_child(&vp_self, 0, &c, &refs);
	VP_ASSERT(r == 0 && c == &vp_node[0] && refs == 1, "the child, held once");
	r = vp_self.type->get_child(&vp_self, vp_range(1, SIZE_MAX), &c, &refs);
	VP_ASSERT(r < 0, "no other child");
	vp_self.type->free_priv(&vp_self);
	VP_ASSERT(vp_node[0].refs == 0, "reference given back");
	VP_COVER("created");
}
#else
/* ---- regular expressions (POSIX contract) --------------------------------------- */
#ifndef NP
#define NP 2
#endif
struct pat { bool match; regoff_t so, eo; };
static struct pat M[NP][TL + 1];         /* what pattern p finds from offset o */
static size_t tlen;
static long re_live;
static int re_fail = -1, re_n;           /* number of the compilation that fails */
static char pat_text[NP][2];
static bool texts_checked = true;
static int vp_regcomp(regex_t *re, const char *s, int flags)
{
	int p = s[0] - 'a';
	VP_ASSERT(p >= 0 && p < NP && s[1] == 0, "a configured pattern is compiled");
	VP_ASSERT(flags == REG_EXTENDED, "extended syntax with match positions");
	if (re_n++ == re_fail) {
		vp_alloc_failed = true;
		return vp_bool() ? REG_ESPACE : REG_BADPAT;
	}
	re->re_nsub = 0x1230 + p;
	re_live++;
	return 0;
}
static int vp_regexec(const regex_t *re, const char *s, size_t n,
	regmatch_t pos[], int flags)
{
	size_t l = 0, o, k;
	int p, q = (int)re->re_nsub - 0x1230;
	VP_ASSERT(q >= 0 && q < NP, "compiled expression");
	VP_ASSERT(flags == 0, "plain match");
	while (l < tlen && s[l] != 0)
		l++;
	VP_ASSERT(s[l] == 0 && l <= tlen, "the rest of the token is matched");
	for (o = 0; o <= TL; o++) {
		if (o + l != tlen)
			continue;
		for (k = 0; k < TL; k++)
			if (k < l)
				VP_ASSERT(s[k] == vp_in.w[0][o + k],
					"the rest of the token is matched");
		for (p = 0; p < NP; p++) {
			if (p != q)
				continue;
			if (!M[p][o].match)
				return REG_NOMATCH;
			if (n > 0) {
				pos[0].rm_so = M[p][o].so;
				pos[0].rm_eo = M[p][o].eo;
			}
			return 0;
		}
	}
	return REG_NOMATCH;
}
static void vp_regfree(regex_t *re)
{
	VP_ASSERT(re->re_nsub >= 0x1230 && re->re_nsub < 0x1230 + NP,
		"compiled expression freed once");
	re->re_nsub = 0;
	re_live--;
}
#define regcomp vp_regcomp
#define regexec vp_regexec
#define regfree vp_regfree

/* ---- configuration: list of patterns --------------------------------------------- */
static struct ec_config cfg_child = { .type = EC_CONFIG_TYPE_NODE };
static struct ec_config cfg_elt[NP];
static struct ec_config cfg_none = { .type = EC_CONFIG_TYPE_LIST };
static struct ec_config cfg_some = { .type = EC_CONFIG_TYPE_LIST,
	.list = { .tqh_first = &cfg_elt[0], .tqh_last = NULL } };
static struct ec_config cfg_pat[NP], cfg_keep[NP], cfg_attr[NP];
static bool has_pat[NP], has_keep[NP], has_attr[NP];
static char attr_text[NP][2];
static bool subcfg(const struct ec_config *c, const char *key, struct ec_config **r)
{
	int i;
	*r = NULL;
	for (i = 0; i < NP; i++)
		if (c == &cfg_elt[i]) {
			if (!strcmp(key, "pattern") && has_pat[i])
				*r = &cfg_pat[i];
			if (!strcmp(key, "keep") && has_keep[i])
				*r = &cfg_keep[i];
			if (!strcmp(key, "attr") && has_attr[i])
				*r = &cfg_attr[i];
			return true;
		}
	return false;
}
static size_t n_pat;
ssize_t ec_config_count(const struct ec_config *config)
{
	VP_ASSERT(config == &cfg_none || config == &cfg_some, "number of patterns");
	return (ssize_t)n_pat;
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#include "repo/ecoli_node_re_lex.c"
#define TNAME "re_lex"

/* zeroed memory of the private types, typed (cheaper for the solver) */
static void *lex_calloc(size_t n, size_t size)
{
#ifdef VP_TAB_T
	if (size == sizeof(VP_TAB_T) && n > 0) {
		VP_TAB_T *t = malloc(n * sizeof(VP_TAB_T));
		static VP_TAB_T zt;
		size_t i;
		for (i = 0; t != NULL && i < n; i++)
			t[i] = zt;
		return t;
	}
#endif
	return calloc(n, size);
}
static void *vp_priv_new(size_t size)
{
#ifdef VP_PRIV_T
	if (size == sizeof(VP_PRIV_T)) {
		VP_PRIV_T *p = malloc(sizeof(*p));
		static VP_PRIV_T z;
		if (p != NULL)
			*p = z;
		return p;
	}
#endif
	return calloc(1, size);
}
static void mkconf(size_t n)
{
	size_t i;
	n_pat = n;
	for (i = 0; i < NP; i++) {
		if (i >= n)
			continue;
		cfg_elt[i].type = EC_CONFIG_TYPE_DICT;
		pat_text[i][0] = (char)('a' + i);
		cfg_pat[i].type = EC_CONFIG_TYPE_STRING;
		cfg_pat[i].string = pat_text[i];
		cfg_keep[i].type = EC_CONFIG_TYPE_BOOL;
		cfg_keep[i].boolean = vp_bool();
		attr_text[i][0] = (char)('A' + i);
		cfg_attr[i].type = EC_CONFIG_TYPE_STRING;
		cfg_attr[i].string = attr_text[i];
		has_pat[i] = has_keep[i] = true;
		has_attr[i] = vp_bool();
		cfg_elt[i].next.tqe_next = i + 1 < n ? &cfg_elt[i + 1] : NULL;
	}
	cfg_child.node = &vp_node[0];
	vp_cfg[0].key = "child";
	vp_cfg[0].val = &cfg_child;
	vp_cfg[1].key = "patterns";
	vp_cfg[1].val = n > 0 ? &cfg_some : &cfg_none;
}
/* the pieces that must be found */
static size_t e_n;
static size_t e_off[TL], e_len[TL];
static int e_pat[TL];
static bool e_ok;
static void expect(size_t n)
{
	size_t o = 0, i, k, step;
	int p, f, g;
	e_ok = true;
	e_n = 0;
	for (step = 0; step < TL; step++) {
		if (o >= tlen)
			break;
		f = -1;
		for (p = (int)n - 1; p >= 0; p--)
			for (i = 0; i < TL; i++)
				if (i == o && M[p][i].match && M[p][i].so == 0 &&
						M[p][i].eo > 0)
					f = p;
		if (f < 0) {
			e_ok = false;
			return;
		}
		g = 0;
		for (p = 0; p < NP; p++)
			for (i = 0; i < TL; i++)
				if (p == f && i == o)
					g = M[p][i].eo;
		if (cfg_keep[f].boolean) {
			for (k = 0; k < TL; k++)
				if (k == e_n) {
					e_off[k] = o;
					e_len[k] = (size_t)g;
					e_pat[k] = f;
				}
			e_n++;
		}
		o += (size_t)g;
	}
}
static void parsed(const struct ec_strvec *sv)
{
	size_t i, k;
	n_parsed++;
	VP_ASSERT(sv->len == e_n, "as many words as kept pieces");
	for (i = 0; i < TL; i++) {
		if (i >= e_n)
			break;
		for (k = 0; k < TL; k++)
			if (k < e_len[i])
				VP_ASSERT(sv->w[i][k] == vp_in.w[0][e_off[i] + k],
					"each word is the text of its piece");
		VP_ASSERT(sv->w[i][e_len[i]] == 0, "each word is the text of its piece");
		if (has_attr[e_pat[i]])
			VP_ASSERT(sv->a[i] != NULL && sv->a[i]->key != NULL &&
				!strcmp(sv->a[i]->key, attr_text[e_pat[i]]),
				"each word has the attribute of its pattern");
		else
			VP_ASSERT(sv->a[i] == NULL, "no attribute without request");
	}
}

#ifndef VP_N
#define VP_N 2
#define VP_L 2
#define VP_MOD 1
#define VP_REM 0
#endif
/* outcome number k of a pattern on what is left of the token: no match, a match
 * further on, an empty match, a match of 1.. characters */
static void outcome(struct pat *m, size_t k)
{
	m->match = k > 0;
	m->so = k == 1 ? 1 : 0;
	m->eo = k == 1 ? 1 : k < 2 ? 0 : (regoff_t)(k - 2);
}
/* number of outcomes for n patterns and a token of len characters */
static size_t n_cases(size_t n, size_t len)
{
	size_t c = 1, i, o;
	for (i = 0; i < n; i++)
		for (o = 0; o < len; o++)
			c *= 3 + len - o;
	return c;
}
/* a node with n patterns, kept or not and with an attribute or not by ka */
static void parse_setup(size_t n, size_t len, size_t ka)
{
	size_t o, i;
	int r;

	vp_setup(TNAME, 1 + (ka & 1) * 5);
	tlen = len;
	for (o = 0; o < len; o++)
		vp_in.w[0][o] = (char)('x' + o);
	vp_in.w[0][tlen] = 0;
	mkconf(n);
	for (i = 0; i < n; i++) {
		cfg_keep[i].boolean = ka & 1;
		has_attr[i] = (ka >> 1) & 1;
		ka >>= 2;
	}
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSERT(r == 0, "patterns are accepted");
	vp_live = 0;
}
static void parse(size_t n, size_t len, size_t cs, size_t child)
{
	size_t o, i;
	int ret;

	for (i = 0; i < n; i++)
		for (o = 0; o < len; o++) {
			outcome(&M[i][o], cs % (3 + len - o));
			cs /= 3 + len - o;
		}
	expect(n);
	/* the child: error, no match, matches everything or less */
	switch (child % 4) {
	case 0: vp_one = -1; break;
	case 1: vp_one = EC_PARSE_NOMATCH; break;
	case 2: vp_one = (int)e_n; break;
	default: vp_one = e_n > 0 ? (int)e_n - 1 : EC_PARSE_NOMATCH;
	}
	errno = child & 1 ? EBADMSG : 0;
#ifdef VP_FAIL
	errno = 0;
	vp_fail_at = vp_alloc_count + child;
#endif
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	VP_ASSERT(vp_live == 0, "nothing leaks");
	if (vp_alloc_failed) {
		VP_ASSERT(ret == -1 && VP_KIDS() == 0, "failed allocations are reported");
	} else if (!e_ok) {
		VP_ASSERT(ret == EC_PARSE_NOMATCH && VP_KIDS() == 0,
			"text that no pattern matches: no match");
	} else if (vp_one < 0) {
		VP_ASSERT(ret == -1 && VP_KIDS() == 0, "child error is reported");
	} else if (vp_one != (int)e_n) {
		VP_ASSERT(n_parsed == 1 && ret == EC_PARSE_NOMATCH && VP_KIDS() == 0 &&
			vp_pnode_live == 0, "no match unless all pieces are matched");
	} else {
		VP_ASSERT(n_parsed == 1 && ret == 1, "matches its token");
		VP_ASSERT(VP_KIDS() == 1 && VP_KID_NODE(0) == 0, "subtree of the child");
	}
}
#ifndef VP_CHILD
#define VP_CHILD 4                       /* outcomes of the child */
#endif
#ifndef VP_KA0
#define VP_KA0 0
#define VP_KA1 (1 << (2 * VP_N))
#endif
void h_parse(void)
{
	size_t ka, cs, ch, pka = vp_nd(), pick = vp_nd(), n = n_cases(VP_N, VP_L);
	for (ka = VP_KA0; ka < VP_KA1; ka++)
		if (pka == ka) {
			parse_setup(VP_N, VP_L, ka);
			for (cs = 0; cs < n; cs++)
				for (ch = 0; ch < VP_CHILD; ch++)
					if ((cs * 13 + ka * 7 + ch) % VP_MOD == VP_REM &&
							pick == cs * 100 + ch) {
						parse(VP_N, VP_L, cs, ch);
						VP_COVER("case");
						VP_END;
					}
			VP_END;
		}
}
/* nothing to cut: the child decides alone */
void h_none(void)
{
	int r, ret;

	vp_init_oracle();
	vp_setup(TNAME, 0);
	mkconf(1);
	has_attr[0] = true;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSERT(r == 0, "patterns are accepted");
	vp_live = 0;
	vp_fail_at = vp_pick_fail(2);
	errno = 0;
	ret = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
	VP_ASSERT(vp_live == 0, "nothing leaks");
	if (vp_alloc_failed || vp_one < 0)
		VP_ASSERT(ret == -1 && VP_KIDS() == 0, "errors are reported");
	else if (vp_one == 0)
		VP_ASSERT(ret == 0 && VP_KIDS() == 1, "empty input matched");
	else
		VP_ASSERT(ret == EC_PARSE_NOMATCH && VP_KIDS() == 0, "no match");
	VP_COVER("none");
}

static void check_state(int cur, size_t n, const bool *keep, const bool *attr)
{
	struct ec_node *c;
	unsigned int refs;
	size_t i, j;
	uint64_t f = vp_fail_at;
	int r;
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 1, "one child");
	r = vp_self.type->get_child(&vp_self, 0, &c, &refs);
	VP_ASSERT(r == 0 && c == &vp_node[cur] && refs == 2, "the child");
	VP_ASSERT(vp_node[cur].refs == 2 && vp_node[!cur].refs == 1,
		"one reference on the child");
	VP_ASSERT(re_live == (long)n, "number of patterns");
	/* what the node does with a token that only pattern i matches */
	vp_in.len = 1;
	vp_in.w[0][0] = 'x';
	vp_in.w[0][1] = 0;
	tlen = 1;
	vp_one = EC_PARSE_NOMATCH;
	vp_fail_at = UINT64_MAX;
	for (i = 0; i < NP; i++) {
		for (j = 0; j < NP; j++) {
			M[j][0].match = i == j;
			M[j][0].so = 0;
			M[j][0].eo = 1;
			cfg_keep[j].boolean = keep[j];
			has_attr[j] = attr[j];
		}
		expect(n);
		n_parsed = 0;
		r = vp_self.type->parse(&vp_self, &vp_pstate_st, &vp_in);
		VP_ASSERT(r == EC_PARSE_NOMATCH && n_parsed == (i < n),
			"the configured patterns are used");
	}
	vp_fail_at = f;
}
/* kind of the second configuration: 0 and 1 the child is wrong, 2 right, 3..8
 * element i is wrong, 9 its compilation fails, 10 allocation number i fails */
static void conf(size_t n0, size_t n1, int kind, size_t i)
{
	bool keep[NP], attr[NP], keep1[NP], attr1[NP];
	bool bad = false;
	size_t k;
	long live;
	int r;

	vp_setup(TNAME, 0);
	VP_ASSERT(vp_self.type->get_children_count(&vp_self) == 0, "no child yet");
	mkconf(n0);
	for (k = 0; k < NP; k++) {
		cfg_keep[k].boolean = keep[k] = (kind + k) & 1;
		has_attr[k] = attr[k] = (i + k) & 1;
	}
	if (n0 == 0 && (kind & 1))
		vp_cfg[1].key = NULL;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	VP_ASSERT(r == 0, "patterns are accepted");
	check_state(0, n0, keep, attr);
	mkconf(n1);
	for (k = 0; k < NP; k++) {
		cfg_keep[k].boolean = keep1[k] = (kind + k + 1) & 1;
		has_attr[k] = attr1[k] = ((kind >> 1) + k) & 1;
	}
	live = vp_live;
	cfg_child.node = &vp_node[1];
	bad = kind >= 3 && kind <= 8 && i < n1;
	if (kind == 0) {
		vp_cfg[0].key = NULL;
		bad = true;
	} else if (kind == 1) {
		cfg_child.type = EC_CONFIG_TYPE_STRING;
		bad = true;
	} else if (kind == 3) {
		cfg_elt[i].type = EC_CONFIG_TYPE_STRING;
	} else if (kind == 4) {
		has_pat[i] = false;
	} else if (kind == 5) {
		cfg_pat[i].type = EC_CONFIG_TYPE_INT64;
	} else if (kind == 6) {
		has_keep[i] = false;
	} else if (kind == 7) {
		cfg_keep[i].type = EC_CONFIG_TYPE_STRING;
	} else if (kind == 8) {
		has_attr[i] = true;
		cfg_attr[i].type = EC_CONFIG_TYPE_BOOL;
	} else if (kind == 9) {
		re_fail = re_n + (int)i;
	} else if (kind == 10) {
		vp_fail_at = vp_alloc_count + i;
	}
	vp_cfgrefs[0] = 1;
	vp_cfgrefs[1] = 1;
	vp_refcheck = true;
	r = vp_self.type->set_config(&vp_self, &vp_cfg_dict);
	vp_refcheck = false;
	if (bad || vp_alloc_failed) {
		VP_ASSERT(r < 0, "a wrong configuration is refused");
		VP_ASSERT(vp_live == live, "nothing leaks");
		check_state(0, n0, keep, attr);
	} else {
		VP_ASSERT(r == 0, "a right configuration is accepted");
		check_state(1, n1, keep1, attr1);
	}
	vp_self.type->free_priv(&vp_self);
	VP_ASSERT(vp_node[0].refs == 1 && vp_node[1].refs == 1, "references given back");
	VP_ASSERT(vp_live == 0 && re_live == 0, "everything released");
}
void h_conf(void)
{
	size_t n0, n1, i, pick = vp_nd();
	int kind;
#ifdef VP_N0
	n0 = VP_N0;
#else
	for (n0 = 0; n0 <= NP; n0++)
#endif
		for (n1 = 0; n1 <= NP; n1++)
			for (kind = 0; kind <= 10; kind++)
				for (i = 0; i < (kind < 3 ? 1 : kind < 10 ? NP : 2 + 2 * NP); i++) {
					if ((kind >= 3 && n1 == 0) || pick != 1000 * n0 +
							100 * n1 + 10 * kind + i ||
							(n0 != 2 && n1 != 2))
						continue;
					conf(n0, n1, kind, i);
					VP_COVER("case");
					VP_END;
				}
}
#endif
