From 13d1bf1f63a5341db06f5adb6c7d2902df20a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 01/31] fix: advance through the input buffer when reading it
 in chunks

---
 lib/src/parser.c       | 1 +
 lib/src/quick_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..e6cb8b2 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -77,6 +77,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..a19077d 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -51,6 +51,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
-- 
2.43.0


From e03f52305516c8b4ea430469775429ca1a1f38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 02/31] fix: terminate the search for the index of a child when
 cloning

---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..6bcc683 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        ++i;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From 624c4e0094a755664b0632525cca6362a6b73f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 03/31] fix: check every element of a list argument is one of
 the children

---
 lib/src/astnode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 6bcc683..cea5fc3 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -96,8 +96,8 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS_ALL(collection, size, vals, nvals, res) \
     do { \
         REQUIRE(size >= nvals, res); \
-        unsigned int j = size; \
-        while (j < size) { \
+        unsigned int j = nvals; \
+        while (j-- > 0) { \
             REQUIRE_CONTAINS(collection, size, vals[j], res); \
         } \
     } while(0)
-- 
2.43.0


From 4b8a71fc0332274f5d4463ec30de3263e78751e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 04/31] fix: free the temporary array of children after cloning
 a node

---
 lib/src/ast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..8660cea 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -559,6 +559,8 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    // the clone takes a copy of the array
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From c416a7df7dc78ad838e2b314d0b077bac0b731fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 05/31] fix: register the comment node type in the type table

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 8660cea..5595484 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -244,6 +244,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From 745b5bf5705adf4cf891bdadef69f23dd728198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 06/31] fix: define cypher_parse_segment_get_root as declared
 in the header

---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From 441a0f0cb0d531fcd4d408a0717e13b538e6811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 07/31] fix: pass the annotated node to the annotation release
 handler

---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From 7ea7d4fe68eb490a853b3cc112ed880a9e14929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 08/31] fix: detect allocation failure when growing a vector

---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 82d713ad087f40c23520528592f90806e535c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 09/31] fix: do not release the top-most block twice when
 parsing fails

---
 lib/src/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index e6cb8b2..770e6af 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -762,10 +762,10 @@ int parse_one(yycontext *yy, yyrule rule)
 failure:
     errsv = errno;
     offsets_clear(&(yy->line_start_offsets));
-    struct block *block;
-    while ((block = blocks_pop(&(yy->blocks))) != NULL)
+    // the top-most block is released by the caller
+    while (blocks_size(&(yy->blocks)) > 1)
     {
-        block_free(block);
+        block_free(blocks_pop(&(yy->blocks)));
     }
     block_free(yy->prev_block);
     yy->prev_block = NULL;
-- 
2.43.0


From 627e152815392676e68c4fa570101874238b44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 10/31] fix: do not free a node still owned by its block when
 adding to a sequence fails

---
 lib/src/parser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 770e6af..489d1d6 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1062,9 +1062,7 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
     assert(block != NULL);
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
+        // the node remains owned by the block it is a child of
         abort_parse(yy);
     }
 }
-- 
2.43.0


From 23b5e747e6682bc0c9f6e30b8c9e621532b6d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 11/31] fix: keep a single owner of the children when merging
 blocks fails

---
 lib/src/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 489d1d6..76dfc89 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -974,6 +974,7 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                astnodes_npop(&(pblock->children), i);
                 abort_parse(yy);
             }
         }
-- 
2.43.0


From 799b37c3285de557b7e86732f259f5dc9cc76ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 12/31] fix: grow the output buffer when there is no room for
 the terminator

---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 5595484..e54a866 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -608,7 +608,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From bce3871272278c9003da80eec5dab84b01b1f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 13/31] fix: release the array of children when creating a node
 fails

---
 lib/src/ast_call.c       | 1 +
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..92ad796 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..3143105 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -83,6 +83,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
 cleanup:
     errsv = errno;
     free(node->ops);
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..fedaa79 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
-- 
2.43.0


From a5a728258799db408561c96bcde3cd7431bc3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 14/31] fix: clone the predicate of a pattern comprehension

---
 lib/src/ast_pattern_comprehension.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
-- 
2.43.0


From 7612641cc51aa2187a121b6bb835455580da8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 15/31] fix: free the first temporary array when cloning a node
 fails

---
 lib/src/ast_call.c  | 3 +++
 lib/src/ast_query.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 92ad796..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -129,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index fedaa79..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -108,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From 85c4727eeabf1327b9f29555dbd8dbf3d97627e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 16/31] fix: clone the optional children of none, start, return
 and with nodes

---
 lib/src/ast_none.c   | 2 +-
 lib/src/ast_return.c | 4 ++--
 lib/src/ast_start.c  | 2 +-
 lib/src/ast_with.c   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From 7bc8eadd6c80eb6a5cfae516acdf884cbc99a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 17/31] fix: clone a relationship property constraint drop as
 the same type

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From 25ab5039cad1c937df581f41be73be6d268a6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 18/31] fix: clone both the key and the value of every map
 entry

---
 lib/src/ast_map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..3000f53 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
+    cypher_astnode_t **pairs = calloc(node->nentries * 2,
             sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From 0ca8f60f7521ebba3ba9337a9528dacc97a4c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 19/31] fix: validate and clone both the predicate and the
 value of every case alternative

---
 lib/src/ast_case.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..5d4d247 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -55,7 +55,7 @@ cypher_astnode_t *cypher_ast_case(const cypher_astnode_t *expression,
 {
     REQUIRE_CHILD_OPTIONAL(children, nchildren, expression,
             CYPHER_AST_EXPRESSION, NULL);
-    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives,
+    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives * 2,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, deflt,
             CYPHER_AST_EXPRESSION, NULL);
@@ -96,13 +96,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    cypher_astnode_t **alternatives = calloc(node->nalternatives * 2,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
-- 
2.43.0


From ceeae4affa05a102f145f0f865edc7057b78bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 20/31] fix: validate the predicate of a with clause

---
 lib/src/ast_with.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index 573531a..310a24c 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -67,6 +67,8 @@ cypher_astnode_t *cypher_ast_with(bool distinct, bool include_existing,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, limit,
             CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_OPTIONAL(children, nchildren, predicate,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct with_clause *node = calloc(1, sizeof(struct with_clause) +
             nprojections * sizeof(cypher_astnode_t *));
-- 
2.43.0


From 01e9f2d7b53c47f30117450edc11f5015e9b89fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 21/31] fix: require the keys and values of a map to be among
 its children

---
 lib/src/ast_map.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 3000f53..568b154 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -77,8 +77,10 @@ cypher_astnode_t *cypher_ast_map(cypher_astnode_t * const *keys,
         cypher_astnode_t **children, unsigned int nchildren,
         struct cypher_input_range range)
 {
-    REQUIRE_TYPE_ALL(keys, nentries, CYPHER_AST_PROP_NAME, NULL);
-    REQUIRE_TYPE_ALL(values, nentries, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, keys, nentries,
+            CYPHER_AST_PROP_NAME, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, values, nentries,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct map *node = map_init(nentries, children, nchildren, range);
     if (node == NULL)
@@ -99,10 +101,13 @@ cypher_astnode_t *cypher_ast_pair_map(cypher_astnode_t * const *pairs,
         unsigned int nentries, cypher_astnode_t **children,
         unsigned int nchildren, struct cypher_input_range range)
 {
+    REQUIRE(nentries == 0 || pairs != NULL, NULL);
     for (unsigned int i = 0; i < nentries; ++i)
     {
-        REQUIRE_TYPE(pairs[i*2], CYPHER_AST_PROP_NAME, NULL);
-        REQUIRE_TYPE(pairs[i*2 + 1], CYPHER_AST_EXPRESSION, NULL);
+        const cypher_astnode_t *key = pairs[i*2];
+        const cypher_astnode_t *value = pairs[i*2 + 1];
+        REQUIRE_CHILD(children, nchildren, key, CYPHER_AST_PROP_NAME, NULL);
+        REQUIRE_CHILD(children, nchildren, value, CYPHER_AST_EXPRESSION, NULL);
     }
 
     struct map *node = map_init(nentries, children, nchildren, range);
-- 
2.43.0


From c499cd9ba63eec491761abcc15a0634529c45c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 22/31] fix: report a failure to read from the input stream

---
 lib/src/parser.c       | 10 +++++++++-
 lib/src/quick_parser.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 76dfc89..0b587e4 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream) ? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -537,6 +537,14 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        abort_parse(yy);
+    }
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index a19077d..893d6f5 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream) ? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -132,6 +132,14 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        abort_parse(yy);
+    }
 }
 
 
-- 
2.43.0


From ccc515532c6d7f4f13570bcd434b4d3e439c24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 23/31] fix: count the lines spanned by an escaped symbolic
 name

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..6f047c6 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -857,7 +857,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From 4237d7b1a4df7b42b2b968b644cf4c96cdc75afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 24/31] fix: correct the name of a relationship in error
 messages

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 6f047c6..e60684a 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -998,7 +998,7 @@ UNION = [Uu]([Nn][Ii][Oo][Nn] WB -) ~{ERR("UNION")}
 
 node = ([Nn][Oo][Dd][Ee] WB -) ~{ERR("node")}
 relationship = ([Rr][Ee][Ll][Aa][Tt][Ii][Oo][Nn][Ss][Hh][Ii][Pp] WB -)
-    ~{ERR("relatioinship")}
+    ~{ERR("relationship")}
 rel = ([Rr][Ee][Ll] WB -) ~{ERR("rel")}
 
 USING-INDEX = ([Uu][Ss][Ii][Nn][Gg] WB - [Ii][Nn][Dd][Ee][Xx] WB -)
-- 
2.43.0


From faa99a13ef99d55bca9a1bf077c34331034be2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 25/31] fix: do not take the logarithm of zero when formatting
 an AST

---
 lib/src/ast.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index e54a866..9bc0854 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -19,7 +19,6 @@
 #include "astnode.h"
 #include "util.h"
 #include <assert.h>
-#include <math.h>
 
 
 struct cypher_astnode_vts
@@ -807,6 +806,17 @@ static int _cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
 }
 
 
+static unsigned int decimal_width(size_t n)
+{
+    unsigned int width = 1;
+    for (; n >= 10; n /= 10)
+    {
+        ++width;
+    }
+    return width;
+}
+
+
 int cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
         unsigned int width,
         const struct cypher_parser_colorization *colorization,
@@ -822,9 +832,9 @@ int cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
     size_t max_start = 0, max_end = 0;
     ast_fprint_field_widths(ast, &max_ordinal, &max_start, &max_end,
             &name_width, 0);
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_width(max_ordinal)+1;
+    unsigned int start_width = decimal_width(max_start);
+    unsigned int end_width = decimal_width(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
@@ -857,9 +867,9 @@ int cypher_ast_fprintv(cypher_astnode_t * const *asts, unsigned int n,
         ast_fprint_field_widths(asts[i], &max_ordinal, &max_start, &max_end,
                 &name_width, 0);
     }
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_width(max_ordinal)+1;
+    unsigned int start_width = decimal_width(max_start);
+    unsigned int end_width = decimal_width(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
-- 
2.43.0


From 421f73378cfc5bd0673bced650561516f630c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 26/31] fix: require every element of a pattern path to be
 among its children

---
 lib/src/ast_pattern_path.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/ast_pattern_path.c b/lib/src/ast_pattern_path.c
index b97608c..be51608 100644
--- a/lib/src/ast_pattern_path.c
+++ b/lib/src/ast_pattern_path.c
@@ -76,9 +76,10 @@ cypher_astnode_t *cypher_ast_pattern_path(cypher_astnode_t * const *elements,
     REQUIRE(elements != NULL, NULL);
     for (unsigned int i = 0; i < nelements; ++i)
     {
-        REQUIRE_CHILD(children, nchildren, elements[i],
-                (i%2 == 0)? CYPHER_AST_NODE_PATTERN : CYPHER_AST_REL_PATTERN,
-                NULL);
+        const cypher_astnode_t *element = elements[i];
+        const cypher_astnode_type_t type = (i%2 == 0)?
+                CYPHER_AST_NODE_PATTERN : CYPHER_AST_REL_PATTERN;
+        REQUIRE_CHILD(children, nchildren, element, type, NULL);
     }
 
     struct pattern_path *node = calloc(1, sizeof(struct pattern_path) +
-- 
2.43.0


From d63fc66459f26f4c4b382c1830ec12a9bb6f69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 27/31] fix: validate the selectors of a map projection

---
 lib/src/ast_map_projection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast_map_projection.c b/lib/src/ast_map_projection.c
index 2af4e32..aaa6fa0 100644
--- a/lib/src/ast_map_projection.c
+++ b/lib/src/ast_map_projection.c
@@ -54,6 +54,8 @@ cypher_astnode_t *cypher_ast_map_projection(
         struct cypher_input_range range)
 {
     REQUIRE_CHILD(children, nchildren, expression, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, selectors, nselectors,
+            CYPHER_AST_MAP_PROJECTION_SELECTOR, NULL);
 
     struct map_projection *node = calloc(1, sizeof(struct map_projection) +
             nselectors * sizeof(cypher_astnode_t *));
-- 
2.43.0


From f692df51043544343aacd55b09a6fcb7aea52195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 28/31] fix: keep the comments within a qualified function or
 procedure name

---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index e60684a..ed83e99 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From 46f79c751f289aeef007bf422a219191a1e3998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 29/31] fix: quick parser splits statements at a semicolon
 within a backquoted name

---
 lib/src/quick_parser.leg | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..a521e8e 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -34,10 +34,13 @@ statement-body =
     ( comment
     | quoted
     | unclosed-block-comment
+    | escaped-name
     | escaped-char
     | !(- ';') .
     )*
 
+escaped-name = '`' (EOL | !'`' .)* ('`' | EOF)
+
 quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
 double-quoted = '"' (escaped-char | EOL | !'"' .)* ('"' | EOF)
-- 
2.43.0


From 70274ee28df44022e76225aabcd86eaec7ff6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 30/31] fix: quick parser keeps trailing comments and white
 space out of the text of a segment

---
 lib/src/quick_parser.leg | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index a521e8e..99e57a9 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -19,24 +19,28 @@ directive = (client-command | statement)
 client-command = - < ':' command-body > -- (';' | line-end)
                                        { segment(false, yy); }
 command-body =
-    ( escaped-char
-    | '\\;'
-    | '\\' -- line-end
-    | block-comment
-    | unclosed-block-comment
-    | quoted
-    | !(';' | -- line-end) .
+    ( !(';' | -- line-end)
+      ( escaped-char
+      | '\\;'
+      | '\\' -- line-end
+      | block-comment
+      | unclosed-block-comment
+      | quoted
+      | .
+      )
     )*
 
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
 statement-body =
-    ( comment
-    | quoted
-    | unclosed-block-comment
-    | escaped-name
-    | escaped-char
-    | !(- ';') .
+    ( !(- (';' | EOF))
+      ( comment
+      | quoted
+      | unclosed-block-comment
+      | escaped-name
+      | escaped-char
+      | .
+      )
     )*
 
 escaped-name = '`' (EOL | !'`' .)* ('`' | EOF)
-- 
2.43.0


From 64561b9c5a146ddea292890ba046f3d1d23876cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 31/31] fix: read inputs of 2 GiB and more from memory

---
 lib/src/parser.c       | 2 +-
 lib/src/quick_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0b587e4..a1f3ac5 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,7 +70,7 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
+    size_t len = minzu(input->length, n);
     input->length -= len;
     if (len == 0)
     {
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 893d6f5..111938b 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,7 +44,7 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
+    size_t len = minzu(input->length, n);
     input->length -= len;
     if (len == 0)
     {
-- 
2.43.0

