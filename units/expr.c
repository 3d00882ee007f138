/* expressions (src/ecoli_node_expr.c): grammar, evaluation, configuration */
#define VP_REALLOC vp_arr_realloc
static void *vp_arr_realloc(void *ptr, unsigned long size);
#include "vp_alloc.h"
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_node.h>
#include <ecoli_strvec.h>
#include <ecoli_parse.h>
#include <ecoli_complete.h>
#include <ecoli_utils.h>
#include <ecoli_log.h>
#include <assert.h>
#undef assert
#define assert(c) VP_ASSERT(c, "internal assertion of the library")
#include "absgraph.h"
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
static struct ec_node_type *vp_type;
int ec_node_type_register(struct ec_node_type *type, bool override)
{ (void)override; vp_type = type; return 0; }
int ec_log_type_register(const char *name) { (void)name; return 0; }
int ec_log(int type, enum ec_log_level level, const char *format, ...)
{ (void)type; (void)level; (void)format; return 0; }
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }
void *ec_node_priv(const struct ec_node *node)
{
	VP_ASSERT(node == &vp_self, "private area of the right node");
	return node->priv;
}
int ec_node_check_type(const struct ec_node *node,
		const struct ec_node_type *type)
{
	if (node->type != type) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}
/* arrays of nodes, of exactly the size asked for */
static void *vp_arr_realloc(void *ptr, unsigned long size)
{
	struct ec_node **p = NULL, **o = ptr;
	unsigned long i, n = size / sizeof(*p);
	switch (n) {
	case 1: p = malloc(1 * sizeof(struct ec_node *)); break;
	case 2: p = malloc(2 * sizeof(struct ec_node *)); break;
	case 3: p = malloc(3 * sizeof(struct ec_node *)); break;
	default: VP_ASSERT(0, "array of a few nodes");
	}
	VP_ASSUME(p != NULL);
	/* grown one by one */
	for (i = 0; o != NULL && i + 1 < n; i++)
		p[i] = o[i];
	free(o);
	return p;
}

/* tokens are characters: letters are values */
static bool isval(char c) { return c >= 'a' && c <= 'z'; }
static const char *vp_in;            /* one character per token */
#define VP_TOKMATCH(g, pos) ((g)->kind == K_VAL ? isval(vp_in[pos]) : \
	vp_in[pos] == (g)->tok[0])
#include "abswalk.h"
static int vp_cfwd;
int ec_complete_child(const struct ec_node *node, struct ec_comp *comp,
	const struct ec_strvec *strvec)
{
	(void)comp; (void)strvec;
	vp_cfwd++;
	return node->idx;
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#include "repo/ecoli_node_expr.c"

/* ---- reference: terms -------------------------------------------------------- */
#define NT 32
enum tk { T_NONE, T_VAR, T_PRE, T_POST, T_BIN, T_PAREN };
enum ts { S_LIVE, S_USED, S_FREED };
struct term { enum tk k; int pos, a, b; enum ts st; };
static struct term tm[NT];
static int ntm;
static int mk(enum tk k, int pos, int a, int b)
{
	VP_ASSERT(ntm < NT, "each operation applied once");
	tm[ntm].k = k;
	tm[ntm].pos = pos;
	tm[ntm].a = a;
	tm[ntm].b = b;
	tm[ntm].st = S_LIVE;
	return ntm++;
}
static bool same(int x, int y)
{
	if (x < 0 || y < 0)
		return x == y;
	if (tm[x].k != tm[y].k || tm[x].pos != tm[y].pos)
		return false;
	if (tm[x].k == T_PAREN && tm[x].b != tm[y].b)
		return false;
	return same(tm[x].a, tm[y].a) && (tm[x].k == T_PAREN ||
		same(tm[x].b, tm[y].b));
}
/* operators in order of precedence; the empty binary operator is NUL */
static char r_bin[3], r_pre[2], r_post[2], r_open[2], r_close[2];
static int n_bin, n_pre, n_post, n_par;
static int rp;                       /* position */
static int ref_expr(int level);
static int ref_post(void)
{
	int i, v, save = rp;
	if (rp >= vp_nin)
		return -1;
	if (isval(vp_in[rp]))
		return mk(T_VAR, rp++, -1, -1);
	for (i = 0; i < n_pre; i++)
		if (vp_in[save] == r_pre[i]) {
			rp++;
			v = ref_expr(n_bin);
			if (v >= 0)
				return mk(T_PRE, save, v, -1);
			rp = save;
		}
	for (i = 0; i < n_par; i++)
		if (vp_in[save] == r_open[i]) {
			rp++;
			v = ref_expr(n_bin);
			if (v >= 0 && rp < vp_nin && vp_in[rp] == r_close[i]) {
				v = mk(T_PAREN, save, v, rp);
				rp++;
				return v;
			}
			rp = save;
		}
	return -1;
}
static int ref_term(void)
{
	int i, k, v = ref_post();
	for (k = 0; v >= 0 && k < 9 && rp < vp_nin; k++) {
		for (i = 0; i < n_post; i++)
			if (vp_in[rp] == r_post[i])
				break;
		if (i == n_post)
			break;
		v = mk(T_POST, rp++, v, -1);
	}
	return v;
}
static int ref_expr(int level)
{
	int k, v, w, save;
	if (level == 0)
		return ref_term();
	v = ref_expr(level - 1);
	for (k = 0; v >= 0 && k < 9; k++) {
		save = rp;
		if (r_bin[level - 1] != 0) {
			if (rp >= vp_nin || vp_in[rp] != r_bin[level - 1])
				break;
			rp++;
		}
		w = ref_expr(level - 1);
		if (w < 0) {
			rp = save;
			break;
		}
		v = mk(T_BIN, save, v, w);
	}
	return v;
}

/* ---- user operations ---------------------------------------------------------- */
static int op_count, op_fail, op_bad;
static char vp_ctx, vp_junk;
#define VALUE(t) ((void *)&tm[t])
static int value(const void *p)
{
	int i = (int)((const struct term *)p - tm);
	VP_ASSERT(p != NULL && i >= 0 && i < NT, "operand is an earlier result");
	VP_ASSERT(tm[i].st == S_LIVE, "operand neither used nor released before");
	return i;
}
static bool op_fails(void **result)
{
	if (++op_count != op_fail)
		return false;
	*result = &vp_junk;              /* undefined on error */
	op_bad = 1;
	return true;
}
#define CTX(c) VP_ASSERT((c) == &vp_ctx && op_bad == 0, \
	"user context given, nothing evaluated after an error")
static int u_var(void **result, void *ctx, const struct ec_pnode *var)
{
	CTX(ctx);
	if (op_fails(result))
		return -1;
	*result = VALUE(mk(T_VAR, var->vec.pos, -1, -1));
	return 0;
}
static int u_pre(void **result, void *ctx, void *x, const struct ec_pnode *op)
{
	int a = value(x);
	CTX(ctx);
	if (op_fails(result))
		return -1;
	tm[a].st = S_USED;
	*result = VALUE(mk(T_PRE, op->vec.pos, a, -1));
	return 0;
}
static int u_post(void **result, void *ctx, void *x, const struct ec_pnode *op)
{
	int a = value(x);
	CTX(ctx);
	if (op_fails(result))
		return -1;
	tm[a].st = S_USED;
	*result = VALUE(mk(T_POST, op->vec.pos, a, -1));
	return 0;
}
static int u_bin(void **result, void *ctx, void *x, const struct ec_pnode *op,
	void *y)
{
	int a = value(x), b = value(y);
	CTX(ctx);
	VP_ASSERT(a != b, "two operands");
	if (op_fails(result))
		return -1;
	tm[a].st = S_USED;
	tm[b].st = S_USED;
	*result = VALUE(mk(T_BIN, op->vec.pos, a, b));
	return 0;
}
static int u_paren(void **result, void *ctx, const struct ec_pnode *open,
	const struct ec_pnode *close, void *x)
{
	int a = value(x);
	CTX(ctx);
	if (op_fails(result))
		return -1;
	tm[a].st = S_USED;
	*result = VALUE(mk(T_PAREN, open->vec.pos, a, close->vec.pos));
	return 0;
}
static void u_free(void *x, void *ctx)
{
	int a = value(x);
	VP_ASSERT(ctx == &vp_ctx, "user context given");
	VP_ASSERT(op_bad, "results are released on error only");
	tm[a].st = S_FREED;
}
static const struct ec_node_expr_eval_ops u_ops = {
	.eval_var = u_var, .eval_pre_op = u_pre, .eval_post_op = u_post,
	.eval_bin_op = u_bin, .eval_parenthesis = u_paren, .eval_free = u_free,
};

/* ---- harnesses ---------------------------------------------------------------- */
static void self_new(void)
{
#ifdef VP_PRIV_T
	VP_PRIV_T *p = malloc(sizeof(*p));
	static VP_PRIV_T z;
	VP_ASSUME(p != NULL);
	*p = z;
	vp_self.priv = p;
#else
	vp_self.priv = calloc(1, ec_node_expr_type.size);
#endif
	vp_self.type = &ec_node_expr_type;
	vp_self.refs = 1;
}
static const char *const TK[] = { "+", "*", "!", "~", "^", "?", "(", ")", "[", "]" };
/* one configuration step; each keeps the tables of the reference in step */
static int step(char c)
{
	int r = 0;
	switch (c) {
	case 'v': r = ec_node_expr_set_val_node(&vp_self, vp_leaf(K_VAL, "")); break;
	case '+':
		r = ec_node_expr_add_bin_op(&vp_self, vp_leaf(K_TOK, TK[0]));
		if (r == 0) r_bin[n_bin++] = '+';
		break;
	case '*':
		r = ec_node_expr_add_bin_op(&vp_self, vp_leaf(K_TOK, TK[1]));
		if (r == 0) r_bin[n_bin++] = '*';
		break;
	case 'e':
		r = ec_node_expr_add_bin_op(&vp_self, vp_leaf(K_EMPTY, ""));
		if (r == 0) r_bin[n_bin++] = 0;
		break;
	case '!':
		r = ec_node_expr_add_pre_op(&vp_self, vp_leaf(K_TOK, TK[2]));
		if (r == 0) r_pre[n_pre++] = '!';
		break;
	case '~':
		r = ec_node_expr_add_pre_op(&vp_self, vp_leaf(K_TOK, TK[3]));
		if (r == 0) r_pre[n_pre++] = '~';
		break;
	case '^':
		r = ec_node_expr_add_post_op(&vp_self, vp_leaf(K_TOK, TK[4]));
		if (r == 0) r_post[n_post++] = '^';
		break;
	case '?':
		r = ec_node_expr_add_post_op(&vp_self, vp_leaf(K_TOK, TK[5]));
		if (r == 0) r_post[n_post++] = '?';
		break;
	case '(':
		r = ec_node_expr_add_parenthesis(&vp_self, vp_leaf(K_TOK, TK[6]),
			vp_leaf(K_TOK, TK[7]));
		if (r == 0) { r_open[n_par] = '('; r_close[n_par++] = ')'; }
		break;
	case '[':
		r = ec_node_expr_add_parenthesis(&vp_self, vp_leaf(K_TOK, TK[8]),
			vp_leaf(K_TOK, TK[9]));
		if (r == 0) { r_open[n_par] = '['; r_close[n_par++] = ']'; }
		break;
	}
	return r;
}
static void steps(const char *s)
{
	int i;
	for (i = 0; i < 12 && s[i] != 0; i++)
		VP_ASSERT(step(s[i]) == 0, "accepted");
}

#ifndef VP_GRAMMAR
#define VP_GRAMMAR "+*!^(v"
#endif
#ifndef VP_INPUTS
#define VP_INPUTS "a", "a^", "a^^", "a+b+c"
#endif
static const char *const inputs[] = { VP_INPUTS };
#define NIN ((int)(sizeof(inputs) / sizeof(inputs[0])))

/* parsing matches the documented grammar, evaluation follows it */
void h_eval(void)
{
	int pick = (int)vp_nd(), pickf = (int)vp_nd(), i, f, want, n, ret;
	struct ec_pnode *top;
	self_new();
	steps(VP_GRAMMAR);
	for (i = 0; i < NIN; i++) {
		if (pick != i)
			continue;
		vp_in = inputs[i];
		for (vp_nin = 0; vp_in[vp_nin] != 0; vp_nin++)
			;
		ntm = rp = 0;
		want = ref_expr(n_bin);
		top = vp_pnew(&vp_self, 0);
		vp_pfwd = 0;
		ret = ec_node_expr_type.parse(&vp_self, top, NULL);
		if (want < 0) {
			VP_ASSERT(ret == EC_PARSE_NOMATCH, "not an expression: no match");
			VP_COVER("no expression");
			VP_END;
		}
		VP_ASSERT(ret == rp, "matches the longest expression of the grammar");
		VP_ASSERT(vp_pfwd == 1, "parsed once");
		vp_match = true;
		n = want + 1;            /* operations of the reference */
		for (f = 0; f <= n; f++) {
			void *res = &vp_junk;
			int k;
			if (pickf != f)
				continue;
			ntm = n;
			op_fail = f;
			op_count = op_bad = 0;
			ret = ec_node_expr_eval(&res, &vp_self, top, &u_ops,
				&vp_ctx);
			if (f == 0) {
				VP_ASSERT(ret == 0, "evaluated");
				VP_ASSERT(op_count == n, "each operation applied once");
				VP_ASSERT(same(value(res), want),
					"operations applied along the structure of the expression");
				for (k = n; k < ntm; k++)
					VP_ASSERT(tm[k].st == (VALUE(k) == res ?
						S_LIVE : S_USED),
						"only the result is left");
			} else {
				VP_ASSERT(ret < 0 && op_bad, "error reported");
				for (k = n; k < ntm; k++)
					VP_ASSERT(tm[k].st != S_LIVE,
						"every partial result released on error");
			}
			VP_COVER("evaluated");
			VP_END;
		}
		VP_END;
	}
}
/* wrong arguments */
void h_args(void)
{
	struct ec_node_expr_eval_ops ops = u_ops;
	int pick = (int)vp_nd();
	void *res = &vp_junk;
	struct ec_pnode *top = vp_pnew(&vp_self, 0);
	self_new();
	VP_ASSERT(ec_node_expr_type.parse(&vp_self, top, NULL) == -1 &&
		vp_pfwd == 0, "unconfigured: error");
	VP_ASSERT(ec_node_expr_type.complete(&vp_self, NULL, NULL) == -1 &&
		vp_cfwd == 0, "unconfigured: error");
	steps("v+");
	VP_ASSERT(ec_node_expr_type.complete(&vp_self, NULL, NULL) >= 0 &&
		vp_cfwd == 1, "completion of the grammar");
	vp_in = "a";
	vp_nin = 1;
	VP_ASSERT(ec_node_expr_type.parse(&vp_self, top, NULL) == 1, "matches");
	vp_match = true;
	errno = 0;
	switch (pick) {
	case 0: ops.eval_var = NULL; break;
	case 1: ops.eval_pre_op = NULL; break;
	case 2: ops.eval_post_op = NULL; break;
	case 3: ops.eval_bin_op = NULL; break;
	case 4: ops.eval_parenthesis = NULL; break;
	case 5: ops.eval_free = NULL; break;
	case 6: vp_match = false; break;
	default:
		VP_ASSERT(ec_node_expr_eval(&res, &vp_self, top, NULL,
			&vp_ctx) == -1 && errno == EINVAL, "no operations: refused");
		VP_COVER("no operations");
		return;
	}
	VP_ASSERT(ec_node_expr_eval(&res, &vp_self, top, &ops, &vp_ctx) == -1 &&
		errno == EINVAL && op_count == 0, "incomplete operations: refused");
	VP_COVER("incomplete");
}
/* configuration steps with any failure: nothing leaked, nothing changed */
#ifndef VP_STEPS
#define VP_STEPS "v", "v"
#endif
static const char *const confs[] = { VP_STEPS };
#define NCONF ((int)(sizeof(confs) / sizeof(confs[0])))
#ifndef VP_MAXF
#define VP_MAXF 30
#endif
static struct ec_node *kids0[16];
static unsigned refs0[16];
void h_conf(void)
{
	int pick = (int)vp_nd(), pickf = (int)vp_nd(), i, f, r, l;
	size_t k, n;
	self_new();
	for (i = 0; i < NCONF; i++) {
		if (pick != i)
			continue;
		for (l = 0; l < 12 && confs[i][l + 1] != 0; l++)
			VP_ASSERT(step(confs[i][l]) == 0, "accepted");
		vp_balance();
		n = ec_node_expr_type.get_children_count(&vp_self);
		VP_ASSERT(n <= 16, "reported children");
		for (k = 0; k < n; k++)
			ec_node_expr_type.get_child(&vp_self, k, &kids0[k], &refs0[k]);
		for (f = 0; f < VP_MAXF; f++) {
			if (pickf != f)
				continue;
			vp_alloc_failed = false;
			vp_fail_at = vp_alloc_count + f;
			r = step(confs[i][l]);
			vp_balance();
			if (!vp_alloc_failed) {
				VP_ASSERT(r == 0, "accepted");
				VP_COVER("accepted");
			} else {
				VP_ASSERT(r == -1, "failure reported");
				VP_ASSERT(n == ec_node_expr_type.get_children_count(&vp_self),
					"failure: unchanged");
				for (k = 0; k < n; k++) {
					struct ec_node *c = NULL;
					unsigned rf = 0;
					ec_node_expr_type.get_child(&vp_self, k, &c, &rf);
					VP_ASSERT(c == kids0[k] && rf == refs0[k],
						"failure: unchanged");
				}
				VP_COVER("refused");
			}
			/* release */
			ec_node_expr_type.free_priv(&vp_self);
			VP_ASSERT(vp_live == 0, "no memory left");
			free(vp_self.priv);
			vp_self.priv = NULL;
			vp_balance();
			VP_END;
		}
		VP_END;
	}
}
/* refused arguments are consumed */
void h_refuse(void)
{
	unsigned pick = (unsigned)vp_nd();
	struct ec_node *a = vp_leaf(K_TOK, "("), *b = vp_leaf(K_TOK, ")");
	static struct ec_node_type other;
	self_new();
	steps("v+");
	if (pick >= 6) {
		vp_self.type = &other;
		a->refs++;               /* kept by the harness */
		a->user = 1;
	}
	errno = 0;
	switch (pick) {
	case 0: VP_ASSERT(ec_node_expr_set_val_node(&vp_self, NULL) == -1, "refused"); break;
	case 1: VP_ASSERT(ec_node_expr_add_bin_op(&vp_self, NULL) == -1, "refused"); break;
	case 2: VP_ASSERT(ec_node_expr_add_pre_op(&vp_self, NULL) == -1, "refused"); break;
	case 3: VP_ASSERT(ec_node_expr_add_post_op(&vp_self, NULL) == -1, "refused"); break;
	case 4: VP_ASSERT(ec_node_expr_add_parenthesis(&vp_self, NULL, b) == -1, "refused"); break;
	case 5: VP_ASSERT(ec_node_expr_add_parenthesis(&vp_self, a, NULL) == -1, "refused"); break;
	case 6: VP_ASSERT(ec_node_expr_set_val_node(&vp_self, a) == -1, "refused"); break;
	case 7: VP_ASSERT(ec_node_expr_add_bin_op(&vp_self, a) == -1, "refused"); break;
	case 8: VP_ASSERT(ec_node_expr_add_pre_op(&vp_self, a) == -1, "refused"); break;
	case 9: VP_ASSERT(ec_node_expr_add_post_op(&vp_self, a) == -1, "refused"); break;
	default: VP_ASSERT(ec_node_expr_add_parenthesis(&vp_self, a, b) == -1, "refused"); break;
	}
	VP_ASSERT(errno == EINVAL, "reported as invalid");
	if (pick > 9)
		VP_ASSERT(b->refs == 0, "consumed");
	if (pick == 4)
		VP_ASSERT(b->refs == 0, "consumed");
	if (pick == 5)
		VP_ASSERT(a->refs == 0, "consumed");
	if (pick >= 6)
		VP_ASSERT(a->refs == 1, "consumed");
	VP_COVER("refused");
}
