/* Contract of dictionaries (src/ecoli_dict.c): insertion-ordered map of at most
 * VP_DN entries that owns its values.  Checked against the implementation by
 * the units dict_*. */
#ifndef ABSDICT_H
#define ABSDICT_H
#include <ecoli_dict.h>
#ifndef VP_DN
#define VP_DN 3
#endif
#ifndef VP_DKEY
#define VP_DKEY 4
#endif
struct ec_dict_elt_ref {
	char key[VP_DKEY];
	void *val;
	ec_dict_elt_free_t cb;
	struct ec_dict *d;
};
struct ec_dict {
	int n;
	struct ec_dict_elt_ref e[VP_DN];
};
struct ec_dict *ec_dict(void)
{
	struct ec_dict *d = malloc(sizeof(*d));
	VP_ASSUME(d != NULL);
	d->n = 0;
	if (vp_fail_now()) {
		free(d);
		return NULL;
	}
	vp_live++;
	return d;
}
static int vp_dict_find(const struct ec_dict *d, const char *key)
{
	int i;
	for (i = 0; i < d->n; i++)
		if (!strcmp(d->e[i].key, key))
			return i;
	return -1;
}
static void vp_dict_drop(struct ec_dict *d, int i)
{
	void *v = d->e[i].val;
	ec_dict_elt_free_t cb = d->e[i].cb;
	for (d->n--; i < d->n; i++)
		d->e[i] = d->e[i + 1];
	if (cb != NULL)
		cb(v);
}
void ec_dict_free(struct ec_dict *dict)
{
	int i;
	if (dict == NULL)
		return;
	for (i = 0; i < dict->n; i++)
		if (dict->e[i].cb != NULL)
			dict->e[i].cb(dict->e[i].val);
	__ec_free(dict, "", 0);
}
int ec_dict_set(struct ec_dict *dict, const char *key, void *val,
	ec_dict_elt_free_t free_cb)
{
	int i, k;
	if (dict == NULL || key == NULL || vp_fail_now()) {
		if (free_cb != NULL)
			free_cb(val);
		return -1;
	}
	i = vp_dict_find(dict, key);
	if (i >= 0)
		vp_dict_drop(dict, i);
	i = dict->n;
	VP_ASSERT(i < VP_DN && strlen(key) < VP_DKEY, "within the bounds of the unit");
	for (k = 0; key[k] != 0; k++)
		dict->e[i].key[k] = key[k];
	dict->e[i].key[k] = 0;
	dict->e[i].val = val;
	dict->e[i].cb = free_cb;
	dict->e[i].d = dict;
	dict->n++;
	return 0;
}
void *ec_dict_get(const struct ec_dict *dict, const char *key)
{
	int i;
	if (dict == NULL || key == NULL) {
		errno = EINVAL;
		return NULL;
	}
	i = vp_dict_find(dict, key);
	errno = i < 0 ? ENOENT : 0;
	return i < 0 ? NULL : dict->e[i].val;
}
bool ec_dict_has_key(const struct ec_dict *dict, const char *key)
{ return dict != NULL && key != NULL && vp_dict_find(dict, key) >= 0; }
int ec_dict_del(struct ec_dict *dict, const char *key)
{
	int i;
	if (dict == NULL || key == NULL || (i = vp_dict_find(dict, key)) < 0) {
		errno = ENOENT;
		return -1;
	}
	vp_dict_drop(dict, i);
	return 0;
}
size_t ec_dict_len(const struct ec_dict *dict) { return dict->n; }
struct ec_dict_elt_ref *ec_dict_iter(const struct ec_dict *dict)
{
	return dict == NULL || dict->n == 0 ? NULL :
		(struct ec_dict_elt_ref *)&dict->e[0];
}
struct ec_dict_elt_ref *ec_dict_iter_next(struct ec_dict_elt_ref *iter)
{ return iter + 1 == &iter->d->e[iter->d->n] ? NULL : iter + 1; }
const char *ec_dict_iter_get_key(const struct ec_dict_elt_ref *iter)
{ return iter->key; }
void *ec_dict_iter_get_val(const struct ec_dict_elt_ref *iter)
{ return iter->val; }
#endif
