/* shell-like splitting (ec_strvec_sh_lex_str): every line of at most VP_N
 * bytes, every flag combination; BUFSIZ reduced to VP_BUF so that the limit on
 * the length of a word is within the bound.  ec_strvec(), ec_strvec_add() and
 * ec_strvec_free() are replaced by their contracts (units strvec_*). */
#include "vp.h"
#include "vp_alloc.h"
#include "vp_env.h"
#include <stdio.h>
#ifndef VP_N
#define VP_N 6
#endif
#ifndef VP_BUF
#define VP_BUF 8
#endif
#undef BUFSIZ
#define BUFSIZ VP_BUF
struct ec_dict;
void ec_dict_free(struct ec_dict *d) { (void)d; }
#include "repo/ecoli_strvec.c"

/* ---- the documented syntax: reference splitting ------------------------------- */
#define NW (VP_N / 2 + 2)
static char line[VP_N + 1];
static char word[NW][VP_N + 1];
static size_t nword, wlen;
static bool open_, trailing, toolong;
static char oquote;
static bool blank(char c)
{
	return c == ' ' || (c >= '\t' && c <= '\r');
}
static void endword(void)
{
	size_t i, j;
	for (i = 0; i < NW; i++)
		if (i == nword)
			for (j = 0; j <= VP_N; j++)
				if (j >= wlen)
					word[i][j] = 0;
	nword++;
	wlen = 0;
}
static void put(char c)
{
	size_t i, j;
	for (i = 0; i < NW; i++)
		for (j = 0; j < VP_N; j++)
			if (i == nword && j == wlen)
				word[i][j] = c;
	wlen++;
	if (wlen >= VP_BUF)
		toolong = true;
}
static void reference(void)
{
	size_t i;
	bool in = false, esc = false, com = false;
	char q = 0;
	trailing = true;
	for (i = 0; i < VP_N; i++) {
		char c = line[i];
		if (c == 0)
			break;
		if (com) {
			if (c == '\n' || c == '\r')
				com = false;
		} else if (esc) {
			esc = false;
			put(c);
		} else if (q == '\'') {
			if (c == q)
				q = 0;
			else
				put(c);
		} else if (q == '"') {
			if (c == q)
				q = 0;
			else if (c == '\\')
				esc = true;
			else
				put(c);
		} else if (blank(c)) {
			if (in)
				endword();
			in = false;
			trailing = true;
		} else if (c == '#' && !in) {
			com = true;
			trailing = false;
		} else {
			in = true;
			trailing = false;
			if (c == '\'' || c == '"')
				q = c;
			else if (c == '\\')
				esc = true;
			else
				put(c);
		}
	}
	open_ = q != 0 || esc;
	oquote = q;
	if (in)
		endword();
}

/* ---- contracts ------------------------------------------------------------------ */
static struct ec_strvec g_v;
static bool g_made, g_freed, g_fail_new;
static size_t g_count, g_fail_add;
static bool g_failed;
struct ec_strvec *vp_new(void)
{
	VP_ASSERT(!g_made, "one vector");
	if (g_fail_new) {
		g_failed = true;
		errno = ENOMEM;
		return NULL;
	}
	g_made = true;
	return &g_v;
}
int vp_add(struct ec_strvec *v, const char *s)
{
	size_t i, j;
	bool end = false;
	VP_ASSERT(v == &g_v && g_made && !g_freed, "added to the result");
	if (g_count == g_fail_add) {
		g_failed = true;
		errno = ENOMEM;
		return -1;
	}
	VP_ASSERT(!g_failed, "stops at the first failure");
	if (g_count < nword) {
		for (i = 0; i < NW; i++)
			if (i == g_count)
				for (j = 0; j <= VP_N; j++) {
					if (!end)
						VP_ASSERT(s[j] == word[i][j], "exactly the word");
					if (word[i][j] == 0)
						end = true;
				}
	} else {
		VP_ASSERT(g_count == nword && s[0] == 0,
			"nothing but the mark of trailing blanks after the last word");
	}
	g_count++;
	return 0;
}
void vp_free(struct ec_strvec *v)
{
	if (v == NULL)
		return;
	VP_ASSERT(v == &g_v && g_made && !g_freed, "released once");
	g_freed = true;
}

void h_split(void)
{
	struct ec_strvec *r;
	char q0, q, *pq = NULL;
	int flags = vp_range(0, 3);
	bool bad;
	size_t expect;

	vp_str(line, VP_N);
	q = q0 = (char)vp_nd();
	if (vp_bool())
		pq = &q;
	g_fail_new = vp_bool();
	g_fail_add = vp_nd();
	reference();
	r = ec_strvec_sh_lex_str(line, flags, pq);
	bad = open_ && (flags & EC_STRVEC_STRICT);
	expect = nword + (trailing && (flags & EC_STRVEC_TRAILSP) ? 1 : 0);
	if (r == NULL) {
		VP_ASSERT(g_freed == g_made, "nothing leaks");
		VP_ASSERT(bad || g_failed || toolong, "refused only for a reason");
		if (bad && !g_failed && !toolong) {
			VP_ASSERT(errno == EBADMSG, "an unterminated line is reported as such");
			VP_ASSERT(pq == NULL || q == oquote, "the missing quote is reported");
			VP_COVER("unterminated");
		}
		VP_COVER("refused");
		return;
	}
	VP_ASSERT(r == &g_v && g_made && !g_freed, "the result is alive");
	VP_ASSERT(!bad, "an unterminated line is refused in strict mode");
	VP_ASSERT(!g_failed && !toolong, "failure is reported");
	VP_ASSERT(g_count == expect, "every word, and an empty one for trailing blanks iff asked");
	if (pq)
		VP_ASSERT(q == (open_ ? oquote : q0), "the missing quote is reported");
	VP_COVER("split");
	if (nword >= 2)
		VP_COVER("two words");
}
