/* Contract of string vectors (src/ecoli_strvec.c) with the text and the
 * attributes of their elements, for the lexer node types.  Checked against the
 * implementation by the units strvec_* and sh_split. */
#ifndef VP_NW
#define VP_NW 3
#endif
#ifndef VP_WLEN
#define VP_WLEN 3
#endif
struct ec_strvec {
	bool live, input;        /* input: the caller vector */
	size_t off, len;
	char w[VP_NW][VP_WLEN + 1];
	struct ec_dict *a[VP_NW];
};
size_t ec_strvec_len(const struct ec_strvec *strvec)
{
	VP_ASSERT(strvec != NULL, "length of an existing vector");
	return strvec->len;
}
const char *ec_strvec_val(const struct ec_strvec *strvec, size_t idx)
{
	if (strvec == NULL || idx >= strvec->len)
		return NULL;
#ifdef VP_ANYLEN
	return strvec->w[idx > 0];
#else
	return strvec->w[idx];
#endif
}
static struct ec_strvec *vp_sv_new(void)
{
	struct ec_strvec *v;
	int i;
	v = malloc(sizeof(*v));
	VP_ASSUME(v != NULL);
	v->input = false;
	v->off = 0;
	v->len = 0;
	for (i = 0; i < VP_NW; i++)
		v->a[i] = NULL;
	if (vp_fail_now()) {
		free(v);
		errno = ENOMEM;
		return NULL;
	}
	vp_live++;
	return v;
}
struct ec_strvec *ec_strvec(void) { return vp_sv_new(); }
int ec_strvec_add(struct ec_strvec *strvec, const char *s)
{
	size_t i;
	int k;
	VP_ASSERT(strvec != NULL && !strvec->input, "the caller's vector is not modified");
	if (s == NULL || vp_fail_now()) {
		errno = s == NULL ? EINVAL : ENOMEM;
		return -1;
	}
	VP_ASSERT(strvec->len < VP_NW, "no more words than characters");
	VP_ASSUME(strvec->len < VP_NW);
	for (i = 0; i < VP_NW; i++)
		if (i == strvec->len)
			for (k = 0; k <= VP_WLEN; k++) {
				strvec->w[i][k] = s[k];
				if (s[k] == 0)
					break;
			}
	strvec->len++;
	return 0;
}
void ec_dict_free(struct ec_dict *dict);
/* the attributes given belong to the vector, also on failure */
int ec_strvec_set_attrs(struct ec_strvec *strvec, size_t idx,
	struct ec_dict *attrs)
{
	size_t i;
	VP_ASSERT(strvec != NULL && !strvec->input, "the caller's vector is not modified");
	if (idx >= strvec->len || vp_fail_now()) {
		errno = idx >= strvec->len ? EINVAL : ENOMEM;
		ec_dict_free(attrs);
		return -1;
	}
	for (i = 0; i < VP_NW; i++)
		if (i == idx) {
			ec_dict_free(strvec->a[i]);
			strvec->a[i] = attrs;
		}
	return 0;
}
void ec_strvec_free(struct ec_strvec *strvec)
{
	int i;
	if (strvec == NULL)
		return;
	VP_ASSERT(!strvec->input, "the caller's vector is not freed");
	for (i = 0; i < VP_NW; i++)
		ec_dict_free(strvec->a[i]);
	__ec_free(strvec, "", 0);
}
