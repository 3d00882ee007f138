From 073acc3761654f83065608e59e0f6d3a877cab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:04 +0000
Subject: [PATCH 01/38] fix: do not recurse forever when completing a repeated
 node that matches nothing

---
 src/ecoli_node_many.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..b3c0e43 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,8 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest (a match that consumes nothing is not repeated) */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From c3d9afab5b458539441ce34f5293cd9f24899b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:34 +0000
Subject: [PATCH 02/38] fix: keep only the best match of a subset in the parse
 tree

---
 src/ecoli_node_subset.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..a488864 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,6 +33,20 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
+/* move the n last children of a parse node to another one, in reverse order */
+static void
+ec_node_subset_move_children(struct ec_pnode *dst, struct ec_pnode *src,
+			size_t n)
+{
+	struct ec_pnode *child;
+
+	for (; n > 0; n--) {
+		child = ec_pnode_get_last_child(src);
+		ec_pnode_unlink_child(child);
+		ec_pnode_link_child(dst, child);
+	}
+}
+
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
 static int
@@ -44,7 +58,7 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	struct ec_strvec *childvec = NULL;
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
-	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode *best_parse = NULL; /* temporary parent of best nodes */
 	int ret;
 
 	if (table_len == 0)
@@ -90,15 +104,19 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
+			for (j = 0; j < result.parse_len + 1; j++)
+				ec_pnode_del_last_child(pstate);
 			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
 			continue;
 		}
 
 		/* replace the previous best result */
 		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		best_parse = ec_pnode(NULL);
+		if (best_parse == NULL)
+			goto fail;
+		ec_node_subset_move_children(best_parse, pstate,
+					result.parse_len + 1);
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
@@ -108,8 +126,11 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	if (best_parse != NULL) {
+		ec_node_subset_move_children(pstate, best_parse,
+					best_result.parse_len);
+		ec_pnode_free(best_parse);
+	}
 
 	return 0;
 
-- 
2.43.0


From ee1531359f0f8e4a320c3ce5a26b0ebac5246294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:34 +0000
Subject: [PATCH 03/38] fix: do not free a child twice when it cannot be added
 to a subset

---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index a488864..dd5337e 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -347,10 +347,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed on error */
 		}
 	}
 
-- 
2.43.0


From ee4839449e0e2a04b56751dcaa82bfd2242e22ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:34 +0000
Subject: [PATCH 04/38] fix: do not free a child twice when adding it to a seq
 or or node fails

---
 src/ecoli_node_or.c  | 1 +
 src/ecoli_node_seq.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..85d8988 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -194,6 +194,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* now owned by the configuration */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..59c0d17 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -280,6 +280,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* now owned by the configuration */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From 84e69cd71852a80c182b41d06ce4664ae89efe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:56 +0000
Subject: [PATCH 05/38] fix: do not accept an empty text as the number 0

---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..7d6b717 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -146,7 +146,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 	if (*val > max)
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From d85a0179400382463a4ccb8267ea4b3b3d3dfd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 06/38] fix: honour the minimum of an integer node configured
 without maximum

---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From 1f0a07d1dfa308e85e5d54b0eb41023b5dea6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:17 +0000
Subject: [PATCH 07/38] fix: release a formatted string with the library
 allocator

---
 src/ecoli_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 7d6b717..5fd5bef 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -60,7 +60,7 @@ int ec_vasprintf(char **buf, const char *fmt, va_list ap)
 
 	ec_assert_print(ret < buflen, "invalid return value for vsnprintf");
 	if (ret < 0) {
-		free(*buf);
+		ec_free(*buf);
 		*buf = NULL;
 		return -1;
 	}
-- 
2.43.0


From 45a6a4c8d3f040c134f756bb23b5754ef8355baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:41 +0000
Subject: [PATCH 08/38] fix: refuse an overflowing range when duplicating a
 string vector

---
 src/ecoli_strvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..123e8b1 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
-- 
2.43.0


From 7cc0a3073564bdcf685a39c747e0a78d454569b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:05 +0000
Subject: [PATCH 09/38] fix: report the quote left open inside a word

---
 src/ecoli_strvec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 123e8b1..d19bdd1 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -394,9 +394,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -418,6 +420,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -431,6 +434,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From f9dd7df77b4978941f9f491fcbc4bd9959f5ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:38 +0000
Subject: [PATCH 10/38] fix: keep an empty quoted word at the end of a line

---
 src/ecoli_strvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index d19bdd1..09ab1b5 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -466,7 +466,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From 00ba901cbba024b225d73fe58dcdfd4713345378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 11/38] fix: refuse an overflowing range when duplicating a
 vector

---
 src/ecoli_vec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 80faed3135ff7accbe8675089fc20c887c0b42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:29 +0000
Subject: [PATCH 12/38] fix: check the table before using it in a hash table
 lookup

---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..c05bdd9 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From 775e1a1a48432732899178ee0457f0282325e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:29 +0000
Subject: [PATCH 13/38] fix: release the value when setting it in a table is
 refused

---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index c05bdd9..5700f57 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -189,7 +189,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From 42b365ccfecc9a0a580912b3ee6198b4d6d735d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:37 +0000
Subject: [PATCH 14/38] fix: tell a NULL value from a missing key in a table
 lookup

---
 src/ecoli_htable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 5700f57..5d4f893 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -98,6 +98,9 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	if (ref->elt->val == NULL)
+		errno = 0;
+
 	return ref->elt->val;
 }
 
-- 
2.43.0


From 704181005f297e061a223b93f5e985639070fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 15/38] fix: iterate over groups without matching completion
 item

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From 26f1a341739b816357aa7e655a516a34ee6e584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:14 +0000
Subject: [PATCH 16/38] fix: do not count a completion item that could not be
 added

---
 src/ecoli_complete.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..5e177d7 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -373,6 +373,8 @@ static int
 ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		struct ec_comp_item *item)
 {
+	size_t *count;
+
 	if (comp == NULL || item == NULL) {
 		errno = EINVAL;
 		return -1;
@@ -380,13 +382,13 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 
 	switch (item->type) {
 	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
+		count = &comp->count_unknown;
 		break;
 	case EC_COMP_FULL:
-		comp->count_full++;
+		count = &comp->count_full;
 		break;
 	case EC_COMP_PARTIAL:
-		comp->count_partial++;
+		count = &comp->count_partial;
 		break;
 	default:
 		errno = EINVAL;
@@ -404,6 +406,7 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 	}
 
 	comp->count++;
+	(*count)++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
 
-- 
2.43.0


From cbdd78b5c135a39b245a1df20601dacc7cadc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:37 +0000
Subject: [PATCH 17/38] fix: keep nodes that are still in use when freeing a
 graph

A node marked as not freeable could be marked as freeable again when
reached through another path: its content was then released while still
in use. On some graphs with loops, the marking never ended.
---
 src/ecoli_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..6a1a8f7 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -184,7 +184,8 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	size_t i, n;
 	int ret;
 
-	if (mark == node->free.state)
+	if (mark == node->free.state ||
+			node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
 		return;
 
 	if (node->refcnt > node->free.refcnt)
-- 
2.43.0


From 89a422d56bf9e81e8bcdeca28f9bff82c4bf902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:55 +0000
Subject: [PATCH 18/38] fix: report both references of the condition node to
 its child

The child is referenced by the node and by its configuration: with only
one reference reported, a loop through the node was never freed.
---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..c1049bc 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -827,7 +827,7 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	*refs = 2;
 	return 0;
 }
 
-- 
2.43.0


From ba59bc50b30a0ae127f59a8e3b595a4ddae6ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 19/38] fix: release the previous children of a node after
 replacing them

A node that was released while still reported as a child of the node being
configured had this reference counted twice: when the graph has a loop, the
library aborted on an assertion.
---
 src/ecoli_node_bypass.c |  5 +++--
 src/ecoli_node_cmd.c    | 17 ++++++++++-------
 src/ecoli_node_cond.c   |  4 +++-
 src/ecoli_node_expr.c   |  5 ++++-
 src/ecoli_node_many.c   |  5 +++--
 src/ecoli_node_once.c   |  5 +++--
 src/ecoli_node_option.c |  5 +++--
 src/ecoli_node_or.c     | 11 ++++++-----
 src/ecoli_node_re_lex.c |  5 +++--
 src/ecoli_node_seq.c    | 11 ++++++-----
 10 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..0b1db88 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -90,6 +90,7 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_bypass *priv = ec_node_priv(node);
+	struct ec_node *old_child = priv->child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -100,9 +101,9 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* the child is released once it is not reported anymore */
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..d43355c 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -457,9 +457,10 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 	struct ec_node_cmd *priv = ec_node_priv(node);
 	const struct ec_config *expr = NULL;
 	struct ec_node *cmd = NULL;
-	struct ec_node **table = NULL;
+	struct ec_node **table = NULL, **old_table = priv->table;
+	struct ec_node *old_cmd = priv->cmd;
 	char *cmd_str = NULL;
-	size_t len = 0, i;
+	size_t len = 0, old_len = priv->len, i;
 
 	/* retrieve config locally */
 	expr = ec_config_dict_get(config, "expr");
@@ -483,16 +484,18 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 		goto fail;
 
 	/* ok, store the config */
-	ec_node_free(priv->cmd);
-	priv->cmd = cmd;
 	ec_free(priv->cmd_str);
 	priv->cmd_str = cmd_str;
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	priv->cmd = cmd;
 	priv->table = table;
 	priv->len = len;
 
+	/* children are released once they are not reported anymore */
+	ec_node_free(old_cmd);
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index c1049bc..36b60ba 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -767,6 +767,7 @@ static int ec_node_cond_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_cond *priv = ec_node_priv(node);
+	struct ec_node *old_child = priv->child;
 	const struct ec_config *cond = NULL;
 	struct ec_pnode *parsed_cond = NULL;
 	const struct ec_config *child;
@@ -796,8 +797,9 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	priv->parsed_cond = parsed_cond;
 	ec_free(priv->cond_str);
 	priv->cond_str = cond_str;
-	ec_node_free(priv->child);
+	/* the child is released once it is not reported anymore */
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..6514a96 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,8 +101,11 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	ec_node_free(priv->child);
+	/* the node is released once it is not reported anymore */
+	expr = priv->child;
 	priv->child = NULL;
+	ec_node_free(expr);
+	expr = NULL;
 
 	if (priv->val_node == NULL) {
 		errno = EINVAL;
diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index b3c0e43..6c3aba9 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -209,6 +209,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_many *priv = ec_node_priv(node);
+	struct ec_node *old_child = priv->child;
 	const struct ec_config *child, *min, *max;
 
 	child = ec_config_dict_get(config, "child");
@@ -231,9 +232,9 @@ static int ec_node_many_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* the child is released once it is not reported anymore */
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	if (min == NULL)
 		priv->min = 0;
 	else
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..1773217 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -132,6 +132,7 @@ static int ec_node_once_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_once *priv = ec_node_priv(node);
+	struct ec_node *old_child = priv->child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -142,9 +143,9 @@ static int ec_node_once_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* the child is released once it is not reported anymore */
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..6968264 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -98,6 +98,7 @@ static int ec_node_option_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_option *priv = ec_node_priv(node);
+	struct ec_node *old_child = priv->child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -108,9 +109,9 @@ static int ec_node_option_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* the child is released once it is not reported anymore */
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index 85d8988..424df4a 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -105,19 +105,20 @@ static int ec_node_or_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_or *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table = priv->table;
+	size_t i, len = 0, old_len = priv->len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* children are released once they are not reported anymore */
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..55c7efd 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -255,6 +255,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_re_lex *priv = ec_node_priv(node);
+	struct ec_node *old_child = priv->child;
 	struct regexp_pattern *table = NULL;
 	const struct ec_config *patterns, *child, *elt, *pattern, *keep, *attr;
 	char *pattern_str = NULL, *attr_name = NULL;
@@ -339,9 +340,9 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 		}
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* the child is released once it is not reported anymore */
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	for (i = 0; i < (ssize_t)priv->len; i++) {
 		ec_free(priv->table[i].pattern);
 		ec_free(priv->table[i].attr_name);
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 59c0d17..694eba4 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -191,19 +191,20 @@ static int ec_node_seq_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_seq *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table = priv->table;
+	size_t i, len = 0, old_len = priv->len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* children are released once they are not reported anymore */
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
-- 
2.43.0


From 923d3f75892f864a88ac153ab5608aae322e3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:43 +0000
Subject: [PATCH 20/38] fix: report all the children of the cmd and expr nodes

The nodes referenced by these nodes but not reported as their children
prevented the loops that go through them from being freed.
---
 src/ecoli_node_cmd.c  | 14 ++++++++----
 src/ecoli_node_expr.c | 51 +++++++++++++++++++++++++++++++++++--------
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index d43355c..2fff83e 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -516,7 +516,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -525,11 +525,17 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (priv->cmd == NULL || i > priv->len)
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+	} else {
+		/* referenced by the table and by the configuration */
+		*child = priv->table[i - 1];
+		*refs = 2;
+	}
 	return 0;
 }
 
diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 6514a96..df08f01 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -231,9 +231,9 @@ ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (priv->child)
-		return 1;
-	return 0;
+	return (priv->child != NULL) + (priv->val_node != NULL) +
+		priv->bin_ops_len + priv->pre_ops_len + priv->post_ops_len +
+		2 * priv->paren_len;
 }
 
 static int
@@ -242,12 +242,43 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (i >= 1)
-		return -1;
-
-	*child = priv->child;
 	*refs = 1;
-	return 0;
+
+	if (priv->child != NULL && i-- == 0) {
+		*child = priv->child;
+		return 0;
+	}
+	if (priv->val_node != NULL && i-- == 0) {
+		*child = priv->val_node;
+		return 0;
+	}
+	if (i < priv->bin_ops_len) {
+		*child = priv->bin_ops[i];
+		return 0;
+	}
+	i -= priv->bin_ops_len;
+	if (i < priv->pre_ops_len) {
+		*child = priv->pre_ops[i];
+		return 0;
+	}
+	i -= priv->pre_ops_len;
+	if (i < priv->post_ops_len) {
+		*child = priv->post_ops[i];
+		return 0;
+	}
+	i -= priv->post_ops_len;
+	if (i < priv->paren_len) {
+		*child = priv->open_ops[i];
+		return 0;
+	}
+	i -= priv->paren_len;
+	if (i < priv->paren_len) {
+		*child = priv->close_ops[i];
+		return 0;
+	}
+
+	*refs = 0;
+	return -1;
 }
 
 static struct ec_node_type ec_node_expr_type = {
@@ -265,6 +296,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *old_val_node;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -274,8 +306,9 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	ec_node_free(old_val_node);
 	ec_node_expr_build(priv);
 
 	return 0;
-- 
2.43.0


From 3321eac44f4846180c0b4d1b2ce02092bdf8b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:43 +0000
Subject: [PATCH 21/38] fix: do not keep a released table when parentheses
 cannot be added

---
 src/ecoli_node_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index df08f01..c81467a 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -430,12 +430,12 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
-- 
2.43.0


From 2cf0ea1b815677cc5d8b411049d66be8cb685a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 22/38] fix: report allocation failures when building an
 expression node

The failure was ignored, leaving a node that cannot parse anything. The
previous expression is now kept, and the call fails.
---
 src/ecoli_node_expr.c | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index c81467a..dee7207 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,22 +101,13 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	/* the node is released once it is not reported anymore */
-	expr = priv->child;
-	priv->child = NULL;
-	ec_node_free(expr);
-	expr = NULL;
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
+	/* not complete yet, nothing to build */
+	if (priv->val_node == NULL)
+		return 0;
 
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -211,7 +202,10 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	/* the node is released once it is not reported anymore */
+	next = priv->child;
 	priv->child = expr;
+	ec_node_free(next);
 
 	return 0;
 
@@ -308,8 +302,11 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 
 	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = old_val_node;
+		goto fail;
+	}
 	ec_node_free(old_val_node);
-	ec_node_expr_build(priv);
 
 	return 0;
 
@@ -340,7 +337,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -371,7 +371,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -402,7 +405,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -440,7 +446,10 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From 97ddbb672bfa42ec7fd951630a474630b1b571d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:39 +0000
Subject: [PATCH 23/38] fix: return the resized memory area in
 ec_realloc_func()

The area may be moved: without its new address, it was lost.
---
 include/ecoli_malloc.h | 2 +-
 src/ecoli_malloc.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ecoli_malloc.h b/include/ecoli_malloc.h
index 7b94e5b..f9ae3ea 100644
--- a/include/ecoli_malloc.h
+++ b/include/ecoli_malloc.h
@@ -182,7 +182,7 @@ void ec_free_func(void *ptr);
  * Use this function when the macro ec_realloc() cannot be used,
  * for instance when it is passed as a callback pointer.
  */
-void ec_realloc_func(void *ptr, size_t size);
+void *ec_realloc_func(void *ptr, size_t size);
 
 /**
  * Allocate and initialize an array of elements.
diff --git a/src/ecoli_malloc.c b/src/ecoli_malloc.c
index 8b1c68e..da77e78 100644
--- a/src/ecoli_malloc.c
+++ b/src/ecoli_malloc.c
@@ -83,9 +83,9 @@ void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
 	return ec_malloc_handler.realloc(ptr, size, file, line);
 }
 
-void ec_realloc_func(void *ptr, size_t size)
+void *ec_realloc_func(void *ptr, size_t size)
 {
-	ec_realloc(ptr, size);
+	return ec_realloc(ptr, size);
 }
 
 char *__ec_strdup(const char *s, const char *file, unsigned int line)
-- 
2.43.0


From d9334dfbfe19923ea1f771e4474614111204f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 24/38] fix: re_lex does not match a text that no pattern
 matches

The lexer looped forever if the pattern list was empty, and reported an
error if no pattern matched the text at the current position.
---
 src/ecoli_node_re_lex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 55c7efd..575ec6a 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
@@ -99,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			errno = EBADMSG; /* no pattern matches */
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
@@ -136,6 +139,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		str = ec_strvec_val(strvec, 0);
 		new_vec = tokenize(priv->table, priv->len, str);
 	}
+	if (new_vec == NULL && errno == EBADMSG) /* cannot be tokenized */
+		return EC_PARSE_NOMATCH;
 	if (new_vec == NULL)
 		goto fail;
 
-- 
2.43.0


From 75e45724a2512e283638ffcedbc478aa11dea7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 25/38] fix: do not leak the attributes when re_lex fails to
 set them

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 575ec6a..b1406d3 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -113,6 +113,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 fail:
 	ec_free(dup);
+	ec_dict_free(attrs);
 	ec_strvec_free(strvec);
 	return NULL;
 }
-- 
2.43.0


From df07b9f9594b98ea748373b70e048c4b5e1e24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 26/38] fix: lexer nodes do not consume more than an empty
 input

When the input is an empty string vector and the child matches it, sh_lex
and re_lex returned 1, and the parse failed.
---
 src/ecoli_node_re_lex.c | 2 +-
 src/ecoli_node_sh_lex.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index b1406d3..4841a25 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -150,7 +150,7 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..fcc0189 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,7 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From b8d04e490a392452b049315e0d665fdfd7ca651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 27/38] fix: evaluate repeated operators of expressions from
 left to right

Operators that follow each other are matched by a 'many' node, whose
children were merged together before being applied: '1 ^ ^' failed on
an assertion and '8 - 4 - 2 - 1' was evaluated as '8 - ((4 - 2) - 1)'.
---
 src/ecoli_node_expr.c | 71 ++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index dee7207..edb83d3 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -563,27 +563,20 @@ static int eval_expression(struct result *result,
 	void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	const struct ec_node *expr_node,
-	const struct ec_pnode *parse)
+	const struct ec_pnode *parse);
 
+/* evaluate the children of a parse node, and merge them in result */
+static int eval_children(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
 {
 	struct ec_pnode *open = NULL, *close = NULL;
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
 
-	memset(result, 0, sizeof(*result));
-	memset(&child_result, 0, sizeof(child_result));
-
-	type = get_node_type(expr_node, ec_pnode_get_node(parse));
-	if (type == VAL) {
-		if (ops->eval_var(&result->val, userctx, parse) < 0)
-			goto fail;
-		result->has_val = 1;
-	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
-		result->op = parse;
-		result->op_type = type;
-	}
-
 	EC_PNODE_FOREACH_CHILD(child, parse) {
 
 		type = get_node_type(expr_node, ec_pnode_get_node(child));
@@ -595,29 +588,65 @@ static int eval_expression(struct result *result,
 			continue;
 		}
 
+		/* operators that follow each other are repeated in a "many"
+		 * node: apply them one by one, from left to right */
+		if (type == NONE && !strcmp(ec_node_get_type_name(
+				ec_pnode_get_node(child)), "many")) {
+			if (eval_children(result, userctx, ops,
+					expr_node, child) < 0)
+				return -1;
+			continue;
+		}
+
 		if (eval_expression(&child_result, userctx, ops,
 			expr_node, child) < 0)
-			goto fail;
-
-		if (merge_results(userctx, ops, result, &child_result) < 0)
-			goto fail;
+			return -1;
 
-		memset(&child_result, 0, sizeof(child_result));
+		if (merge_results(userctx, ops, result, &child_result) < 0) {
+			if (child_result.has_val)
+				ops->eval_free(child_result.val, userctx);
+			return -1;
+		}
 	}
 
 	if (open != NULL && close != NULL) {
 		if (ops->eval_parenthesis(&result->val, userctx, open, close,
 			result->val) < 0)
+			return -1;
+	}
+
+	return 0;
+}
+
+static int eval_expression(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+
+{
+	enum expr_node_type type;
+
+	memset(result, 0, sizeof(*result));
+
+	type = get_node_type(expr_node, ec_pnode_get_node(parse));
+	if (type == VAL) {
+		if (ops->eval_var(&result->val, userctx, parse) < 0)
 			goto fail;
+		result->has_val = 1;
+	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
+		result->op = parse;
+		result->op_type = type;
 	}
 
+	if (eval_children(result, userctx, ops, expr_node, parse) < 0)
+		goto fail;
+
 	return 0;
 
 fail:
 	if (result->has_val)
 		ops->eval_free(result->val, userctx);
-	if (child_result.has_val)
-		ops->eval_free(child_result.val, userctx);
 	memset(result, 0, sizeof(*result));
 
 	return -1;
-- 
2.43.0


From db0685ba5e0600af05818e28d71fe202af099aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:07 +0000
Subject: [PATCH 28/38] fix: keep the operand when the evaluation of an
 operator fails

The callbacks leave their result undefined on error, and the operand is
not freed: do not use the operand as the location of the result.
---
 src/ecoli_node_expr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index edb83d3..32bd508 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -515,6 +515,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val; /* undefined if the evaluation fails */
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -524,10 +526,11 @@ static int merge_results(void *userctx,
 
 	if (x->has_val && y->has_val && y->op != NULL) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
+			if (ops->eval_bin_op(&val, userctx, x->val,
 					y->op, y->val) < 0)
 				return -1;
 
+			x->val = val;
 			return 0;
 		}
 	}
@@ -549,9 +552,10 @@ static int merge_results(void *userctx,
 	}
 
 	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
+		if (ops->eval_post_op(&val, userctx, x->val, y->op) < 0)
 			return -1;
 
+		x->val = val;
 		return 0;
 	}
 
@@ -576,6 +580,7 @@ static int eval_children(struct result *result,
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
+	void *val;
 
 	EC_PNODE_FOREACH_CHILD(child, parse) {
 
@@ -610,9 +615,10 @@ static int eval_children(struct result *result,
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
 			return -1;
+		result->val = val;
 	}
 
 	return 0;
-- 
2.43.0


From ebccceb3af93eaf297da5dfed7f342c24e0eb1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 29/38] fix: release the nodes when the build of a command
 fails

The intermediate results are nodes: the memory of the node was freed,
but not its private data and its children.
---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 2fff83e..2e1d750 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -260,7 +260,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
-- 
2.43.0


From a9749cd6679e1e200b350657c213db6215b1a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 30/38] fix: check the result of the last operator of the
 command parser

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 2e1d750..03958c6 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -305,7 +305,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 2adbc77de2959c1861afe828dec98a21da8bc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 31/38] fix: do not modify the nodes referenced by a command

A sequence, choice or subset provided by the user was extended in place
by the operators of the command: '(a (n|b)) | (c n)' matched 'c b'. The
choices 'a|(b|c)' were also reordered as 'b|c|a'.
---
 src/ecoli_node_cmd.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 03958c6..dbe01e3 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -5,6 +5,7 @@
 #include <sys/queue.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdbool.h>
 #include <string.h>
 #include <stdarg.h>
 #include <errno.h>
@@ -137,18 +138,33 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* Return true if other nodes can be added to the evaluated node. The nodes
+ * provided by the user can be referenced elsewhere, they are not modified. */
+static bool
+ec_node_cmd_is_extendable(const struct ec_node_cmd_ctx *ctx,
+	const struct ec_node *node, const char *type_name)
+{
+	unsigned int i;
+
+	for (i = 0; i < ctx->len; i++) {
+		if (ctx->table[i] == node)
+			return false;
+	}
+
+	return !strcmp(ec_node_get_type_name(node), type_name);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
 
 {
 	const struct ec_strvec *vec;
+	struct ec_node_cmd_ctx *ctx = userctx;
 	struct ec_node *out = NULL;
 	struct ec_node *in1 = operand1;
 	struct ec_node *in2 = operand2;
 
-	(void)userctx;
-
 	/* get parsed string vector, it should contain only one str */
 	vec = ec_pnode_get_strvec(operator);
 	if (ec_strvec_len(vec) > 1) {
@@ -157,7 +173,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (ec_node_cmd_is_extendable(ctx, in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -172,12 +188,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		if (ec_node_cmd_is_extendable(ctx, in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -192,12 +203,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
-			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		if (ec_node_cmd_is_extendable(ctx, in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From dfa8590ae63b36dae165d6c04b7420d7b1b5089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 32/38] fix: support the documented operator '+' of commands

It was registered in the grammar, but neither known by the lexer nor
evaluated.
---
 src/ecoli_node_cmd.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index dbe01e3..e7acbc2 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -123,7 +123,14 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 		return -1;
 	}
 
-	if (!strcmp(ec_strvec_val(vec, 0), "*")) {
+	if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "*")) {
 		out = ec_node_many(EC_NO_ID,
 				ec_node_clone(in), 0, 0);
 		if (out == NULL)
@@ -337,7 +344,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[+*|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From 3b3ac2ae1484e0b3550fb77b38ae5eb93d0d74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 33/38] fix: evaluate the condition exactly when the child of a
 cond node matches

An empty match of the child was accepted without evaluating the
condition. When the child did not match, the condition was evaluated,
and if false, the absent parse node of the child was dereferenced.
---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 36b60ba..cf3ad30 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From 02e82b5224b95434beffc7a3e254166c4a03c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 34/38] fix: compare node sets in conditions

The values of the hash tables are NULL, so that two non-empty sets were
never equal.
---
 src/ecoli_node_cond.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index cf3ad30..db97d92 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From 88101f1f94e92d54c338f6b586798da81471acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 35/38] fix: check the allocation of the arguments of a
 condition

---
 src/ecoli_node_cond.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index db97d92..3d990ed 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,11 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args,
+					(n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From 5f01be79dc473884318fbad0f99c5c25f033b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 36/38] fix: report a failure to set the child of option,
 bypass and once nodes

The constructors ignored it and returned a node without child, which
crashes when it is parsed.
---
 src/ecoli_node_bypass.c | 6 +++++-
 src/ecoli_node_once.c   | 6 +++++-
 src/ecoli_node_option.c | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 0b1db88..aef475d 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -173,12 +173,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 1773217..c71f63e 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -215,12 +215,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index 6968264..b69bd1e 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -181,12 +181,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From c3b01dc7e004c26a3d3c8d29588e298adaaf5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 37/38] fix: do not free twice a node that cannot be added to a
 list

The node is consumed by ec_config_node(), also on failure.
---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From ae86602177fdae2f921e7888523948b2a8e89899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 38/38] fix: accept a missing attribute in ec_node_any()

It is documented as optional, but it was always refused.
---
 src/ecoli_node_any.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_any.c b/src/ecoli_node_any.c
index 06e92f4..c325cc7 100644
--- a/src/ecoli_node_any.c
+++ b/src/ecoli_node_any.c
@@ -111,9 +111,12 @@ ec_node_any(const char *id, const char *attr)
 	if (config == NULL)
 		goto fail;
 
-	ret = ec_config_dict_set(config, "attr", ec_config_string(attr));
-	if (ret < 0)
-		goto fail;
+	if (attr != NULL) {
+		ret = ec_config_dict_set(config, "attr",
+					ec_config_string(attr));
+		if (ret < 0)
+			goto fail;
+	}
 
 	ret = ec_node_set_config(node, config);
 	config = NULL;
-- 
2.43.0

