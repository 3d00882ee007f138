/* Texts, and the contract of the pattern lexer (units re_lex_*) for the patterns
 * used by the command and condition parsers: at each position, the first pattern
 * that matches makes a token. */
#ifndef ABSLEX_H
#define ABSLEX_H
/* ---- texts -------------------------------------------------------------------- */
#ifndef TL
#define TL 24
#endif
char *__ec_strdup(const char *s, const char *file, unsigned int line)
{
	struct { char c[TL]; } *b;
	int i;
	(void)file; (void)line;
	b = malloc(sizeof(*b));
	VP_ASSUME(b != NULL);
	for (i = 0; i < TL && s[i] != 0; i++)
		b->c[i] = s[i];
	VP_ASSERT(i < TL, "harness: short texts");
	b->c[i] = 0;
	if (vp_fail_now()) {
		free(b);
		return NULL;
	}
	vp_live++;
	return b->c;
}
static bool same_text(const char *a, const char *b)
{
	int i;
	for (i = 0; i < TL; i++) {
		if (a[i] != b[i])
			return false;
		if (a[i] == 0)
			return true;
	}
	return false;
}
/* the longest prefix of s that the pattern matches, -1: none.  Patterns are
 * lists of characters and sets, each possibly repeated; with them, taking as
 * much as possible at each step is the longest match. */
static int in_set(const char *p, int *next, char c)
{
	int i = 1, neg = 0, r = 0;
	if (p[i] == '^') {
		neg = 1;
		i++;
	}
	for (; i < TL; i++) {
		if (p[i] == ']' && i > 1 + neg)
			break;
		VP_ASSERT(p[i] != 0, "well formed pattern");
		if (p[i + 1] == '-' && p[i + 2] != ']') {
			r |= c >= p[i] && c <= p[i + 2];
			i += 2;
		} else {
			r |= c == p[i];
		}
	}
	*next = i + 1;
	return c != 0 && r != neg;
}
static int re_match(const char *p, const char *s)
{
	int k = 0, n = 0, next, m, rep;
	for (; k < TL && p[k] != 0; k += next) {
		for (rep = 0; rep < TL; rep++) {
			next = 1;
			if (p[k] == '[') {
				m = in_set(p + k, &next, s[n]);
			} else if (p[k] == '\\') {
				next = 2;
				m = s[n] != 0 && s[n] == p[k + 1];
			} else {
				VP_ASSERT(p[k] != '(' && p[k] != '|' && p[k] != '.' &&
					p[k] != '{' && p[k] != '^' && p[k] != '$',
					"harness: known kind of pattern");
				m = s[n] != 0 && s[n] == p[k];
			}
			if (!m)
				break;
			n++;
			if (p[k + next] != '+' && p[k + next] != '*') {
				rep = 1;
				break;
			}
		}
		if (p[k + next] == '+') {
			if (rep == 0)
				return -1;
			next++;
		} else if (p[k + next] == '*' || p[k + next] == '?') {
			next++;
		} else if (rep == 0) {
			return -1;
		}
	}
	return n;
}
static char vp_tokbuf[16][TL];
static int vp_ntokbuf;
struct ec_node *ec_node_str(const char *id, const char *str)
{
	struct ec_node *n = vp_ctor(K_TOK, id);
	int i;
	(void)id;
	if (n != NULL) {
		/* a copy: the node outlives the text */
		VP_ASSERT(vp_ntokbuf < 16, "harness: enough texts");
		for (i = 0; i < TL - 1 && str[i] != 0; i++)
			vp_tokbuf[vp_ntokbuf][i] = str[i];
		vp_tokbuf[vp_ntokbuf][i] = 0;
		n->tok = vp_tokbuf[vp_ntokbuf++];
	}
	return n;
}
/* ---- lexer: first pattern that matches at each position ------------------------ */
#define NPAT 8
static const char *lx_pat[NPAT], *lx_attr[NPAT];
static int lx_keep[NPAT], lx_n;
static struct ec_node *lx_node;
struct ec_node *ec_node_re_lex(const char *id, struct ec_node *child)
{
	(void)id;
	lx_n = 0;
	lx_node = vp_ctor1(K_OPTION, id, child, 0, 0);
	return lx_node;
}
int ec_node_re_lex_add(struct ec_node *gen_node, const char *pattern, int keep,
	const char *attr_name)
{
	lx_attr[lx_n] = attr_name;
	VP_ASSERT(gen_node == lx_node && lx_n < NPAT, "harness: one lexer");
	if (vp_fail_now())
		return -1;
	lx_pat[lx_n] = pattern;
	lx_keep[lx_n++] = keep;
	return 0;
}
#ifndef NTOK
#define NTOK 16
#endif
static char vp_tk[NTOK][TL];
static const char *vp_tka[NTOK];     /* attribute */
static int vp_nin;
static bool vp_tokens(const char *s)
{
	int i = 0, j, k, n = 0;
	vp_nin = 0;
	for (k = 0; k < TL && s[i] != 0; k++) {
		for (j = 0; j < lx_n; j++) {
			n = re_match(lx_pat[j], s + i);
			if (n > 0)
				break;
		}
		if (j == lx_n)
			return false;
		if (lx_keep[j]) {
			VP_ASSERT(vp_nin < NTOK, "harness: few tokens");
			for (k = 0; k < n; k++)
				vp_tk[vp_nin][k] = s[i + k];
			vp_tk[vp_nin][n] = 0;
			vp_tka[vp_nin++] = lx_attr[j];
			k = 0;
		}
		i += n;
	}
	return true;
}
#endif
