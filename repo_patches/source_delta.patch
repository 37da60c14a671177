From 2ba418381c4e8277bca2482125ac8777f4e9c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 01/29] fix: advance through the buffer when parsing input
 longer than one read

---
 lib/src/parser.c       | 9 +++++----
 lib/src/quick_parser.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..9596737 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,14 +70,15 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    size_t len = minzu(input->length, (size_t)n);
     if (len == 0)
     {
-        return len;
+        return 0;
     }
     memcpy(buf, input->buffer, len);
-    return len;
+    input->buffer += len;
+    input->length -= len;
+    return (int)len;
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..caec0fa 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,14 +44,15 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    size_t len = minzu(input->length, (size_t)n);
     if (len == 0)
     {
-        return len;
+        return 0;
     }
     memcpy(buf, input->buffer, len);
-    return len;
+    input->buffer += len;
+    input->length -= len;
+    return (int)len;
 }
 
 
-- 
2.43.0


From 42e1d311ed39c5bd7ba636e7c8d66ac696ce22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 02/29] fix: advance through the children when cloning an AST
 node

---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..1fab1ff 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        i++;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From 259faab925de01eafbe13e4d2696bbe407c78b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 03/29] fix: do not leak the list of cloned children in
 cypher_ast_clone

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..8f50a96 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -559,6 +559,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From a0b8e87085994652cf636ac745d5bd477c02bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 04/29] fix: clone both members of each pair of a CASE
 expression or map literal

---
 lib/src/ast_case.c | 4 ++--
 lib/src/ast_map.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..acf5785 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -96,13 +96,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    cypher_astnode_t **alternatives = calloc(node->nalternatives * 2,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..3000f53 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
+    cypher_astnode_t **pairs = calloc(node->nentries * 2,
             sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From 0f847ff8e707891105b8bc8da49b3e79a8d9ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 05/29] fix: check the result of realloc when growing a vector

---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 1bd81323af270d2c31bd3c10118920fec1bc19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 06/29] fix: allow for the terminator when sizing the AST print
 buffer

---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 8f50a96..48929ce 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -606,7 +606,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From e67eebe4f9e280a0360f2347f81684d6e4ff9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 07/29] fix: pass the annotated node to the annotation release
 handler

---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From b206d380d65254af88c0365ee926805fa3e2dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 08/29] fix: define cypher_parse_segment_get_root as declared
 in the public header

---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From 0e2ade3b71e4af4688ad01cfd13ab850ff2da8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 09/29] fix: register the abstract comment type in the AST type
 table

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 48929ce..9ecfaba 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -244,6 +244,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From b880b69d98fdc58d1ca220d93af619bf2aabcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 10/29] fix: accept comments within dotted function and
 procedure names

---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..490d647 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From 24f528d8d940a7a812856975a1f72fe5b1892ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 11/29] fix: do not parse each atom of an expression twice

Every level of nesting doubled the time taken, as an atom that was not followed
by an operator was discarded and parsed again.
---
 lib/src/parser.leg | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 490d647..e8fdcaa 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -446,8 +446,7 @@ _expression =
         | ( &{OP(LABEL)} &{PREC_CHK()} n:label
                                        { sequence_add(n); }
           )+ _block_replace_           { l = labels_operator(l); }
-        )+ _block_merge_               { $$ = l; }
-    | _atom
+        )* _block_merge_               { $$ = l; }
 _atom =
       _block_start_ PREFIX-OP - r:_prec_expression _block_end_
                                        { $$ = unary_operator(op_pop(), r); }
-- 
2.43.0


From 95444b7c357c3a7a25e6332670b6f9b0259d3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 12/29] fix: release the top-most block only once when a parse
 fails

---
 lib/src/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 9596737..9d041dc 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -762,10 +762,10 @@ int parse_one(yycontext *yy, yyrule rule)
 failure:
     errsv = errno;
     offsets_clear(&(yy->line_start_offsets));
-    struct block *block;
-    while ((block = blocks_pop(&(yy->blocks))) != NULL)
+    // the top-most block is released by the caller
+    while (blocks_size(&(yy->blocks)) > 1)
     {
-        block_free(block);
+        block_free(blocks_pop(&(yy->blocks)));
     }
     block_free(yy->prev_block);
     yy->prev_block = NULL;
-- 
2.43.0


From 24b767268d36802d3c254ac7a067c01a85fdd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 13/29] fix: free each AST node only once when adding it to a
 block fails

---
 lib/src/parser.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 9d041dc..fa25115 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -974,6 +974,11 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                // leave the children with the block they are still owned by
+                while (i-- > 0)
+                {
+                    astnodes_pop(&(pblock->children));
+                }
                 abort_parse(yy);
             }
         }
@@ -1060,11 +1065,9 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
 {
     struct block *block = blocks_last(&(yy->blocks));
     assert(block != NULL);
+    // the node is owned by the block it was added to as a child
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
         abort_parse(yy);
     }
 }
-- 
2.43.0


From f9bc0e4a0bfcf97f85a6303282e697671e3f3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 14/29] fix: report a failure to read the input stream instead
 of taking it for its end

---
 lib/src/parser.c       | 10 ++++++++++
 lib/src/quick_parser.c |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index fa25115..e78a133 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -26,6 +26,7 @@
 #include "util.h"
 #include "vector.h"
 #include <assert.h>
+#include <errno.h>
 #include <ctype.h>
 #include <setjmp.h>
 
@@ -111,6 +112,11 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
+        if (ferror(stream))
+        {
+            errno = (errno != 0)? errno : EIO;
+            return -1;
+        }
         return 0;
     }
     *buf = c;
@@ -537,6 +543,10 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        abort_parse(yy);
+    }
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index caec0fa..504c75e 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,6 +62,11 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
+        if (ferror(stream))
+        {
+            errno = (errno != 0)? errno : EIO;
+            return -1;
+        }
         return 0;
     }
     *buf = c;
@@ -132,6 +137,10 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        abort_parse(yy);
+    }
 }
 
 
-- 
2.43.0


From 4de192fddfbc4b18d9ab29208e1f1bff347d7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 15/29] fix: track line starts within backtick escaped names

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index e8fdcaa..7bd61fd 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -856,7 +856,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From 226e7c44d7cbf27e8490ac8fee9174e0b5de6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 16/29] fix: do not split statements within backtick escaped
 names in the quick parser

---
 lib/src/quick_parser.leg | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..3d41272 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -33,6 +33,7 @@ statement = - < statement-body > - ( ';' | EOF )
 statement-body =
     ( comment
     | quoted
+    | escaped-name
     | unclosed-block-comment
     | escaped-char
     | !(- ';') .
@@ -42,6 +43,8 @@ quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
 double-quoted = '"' (escaped-char | EOL | !'"' .)* ('"' | EOF)
 
+escaped-name = '`' (EOL | !'`' .)* ('`' | EOF)
+
 escaped-char = '\\' [abfnrtv"'?\\]
 
 - = (WS | comment)*
-- 
2.43.0


From 0f1237c01400797ccdecc7be34424048dde499e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 17/29] fix: spell relationship correctly in the list of
 expected tokens

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 7bd61fd..00a6edf 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -997,7 +997,7 @@ UNION = [Uu]([Nn][Ii][Oo][Nn] WB -) ~{ERR("UNION")}
 
 node = ([Nn][Oo][Dd][Ee] WB -) ~{ERR("node")}
 relationship = ([Rr][Ee][Ll][Aa][Tt][Ii][Oo][Nn][Ss][Hh][Ii][Pp] WB -)
-    ~{ERR("relatioinship")}
+    ~{ERR("relationship")}
 rel = ([Rr][Ee][Ll] WB -) ~{ERR("rel")}
 
 USING-INDEX = ([Uu][Ss][Ii][Nn][Gg] WB - [Ii][Nn][Dd][Ee][Xx] WB -)
-- 
2.43.0


From 34c422c7fd3ff64f72bb37dadf79a8cdd87ca6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 18/29] fix: do not drop errors of later statements after
 speculation past a separator

---
 lib/src/errors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..d3c27dd 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,10 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position.line = 0;
+    et->last_position.column = 0;
+    et->last_position.offset = 0;
+    et->last_char = 0;
     et->nlabels = 0;
 }
 
-- 
2.43.0


From af3a162b561e3e570a1438cd8d842df79ab66af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 19/29] fix: do not parse the subscript of a slice twice

---
 lib/src/parser.leg | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 00a6edf..a9869e0 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -430,12 +430,17 @@ _expression =
         | POSTFIX-OP &{PREC_CHK()} _block_replace_
                                        { l = unary_operator(op_pop(), l); }
         | LEFT-SQ-PAREN &{OP(SUBSCRIPT)} &{PREC_CHK()} -
-          r:expression RIGHT-SQ-PAREN - _block_replace_
-                                       { l = subscript_operator(l, r); }
-        | LEFT-SQ-PAREN &{OP(SUBSCRIPT)} &{PREC_CHK()} -
-          (s:expression | s:_null_) ELLIPSIS - (e:expression | e:_null_)
-          RIGHT-SQ-PAREN - _block_replace_
+          ( s:expression
+            ( RIGHT-SQ-PAREN - _block_replace_
+                                       { l = subscript_operator(l, s); }
+            | ELLIPSIS - (e:expression | e:_null_)
+              RIGHT-SQ-PAREN - _block_replace_
                                        { l = slice_operator(l, s, e); }
+            )
+          | ELLIPSIS - (e:expression | e:_null_)
+            RIGHT-SQ-PAREN - _block_replace_
+                                       { l = slice_operator(l, NULL, e); }
+          )
         | LEFT-CURLY &{OP(MAP_PROJECTION)} &{PREC_CHK()} -
           ( m:map_projection_element   { sequence_add(m); }
             ( COMMA - m:map_projection_element
-- 
2.43.0


From 154fb075a21accdb93419e81d25605cf177643ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 20/29] fix: do not mark the ends of a line that fits the error
 context exactly

---
 lib/src/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/util.c b/lib/src/util.c
index c80f74e..7748b2c 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -111,6 +111,11 @@ char *line_context(const char *buf, size_t bufsize, size_t *offset,
         }
     }
 
+    // the limit may be reached exactly at the start or end of the line
+    found_start = found_start || startp == buf ||
+            *(startp-1) == '\n' || *(startp-1) == '\r';
+    found_end = found_end || endp == buf_end || *endp == '\n' || *endp == '\r';
+
     assert((unsigned int)(endp - startp) == n);
     assert(n <= max_length);
     char *context = malloc(n + 1);
-- 
2.43.0


From 08b8350892ede96b368612eeaa3573c1d56fa15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 21/29] fix: leave trailing whitespace and comments out of
 quick parser statements

---
 lib/src/quick_parser.leg | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index 3d41272..2339957 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -31,12 +31,14 @@ command-body =
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
 statement-body =
-    ( comment
-    | quoted
-    | escaped-name
-    | unclosed-block-comment
-    | escaped-char
-    | !(- ';') .
+    ( !(- (';' | EOF))
+      ( comment
+      | quoted
+      | escaped-name
+      | unclosed-block-comment
+      | escaped-char
+      | .
+      )
     )*
 
 quoted = single-quoted | double-quoted
-- 
2.43.0


From bb7f0e507a0222bc85cca758b1988939edc0256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 22/29] fix: do not take the logarithm of zero when sizing AST
 print columns

---
 lib/src/ast.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ecfaba..f476f8b 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -648,6 +648,12 @@ static void ast_fprint_field_widths(const cypher_astnode_t *ast,
 }
 
 
+static unsigned int decimal_digits(size_t n)
+{
+    return (n > 0)? (unsigned int)log10(n)+1 : 1;
+}
+
+
 #define CYPHER_AST_FPRINT_MIN_DETAIL_WIDTH 10
 
 static int ast_fprint_detail(FILE *stream, const cypher_astnode_t *node,
@@ -821,9 +827,9 @@ int cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
     size_t max_start = 0, max_end = 0;
     ast_fprint_field_widths(ast, &max_ordinal, &max_start, &max_end,
             &name_width, 0);
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_digits(max_ordinal)+1;
+    unsigned int start_width = decimal_digits(max_start);
+    unsigned int end_width = decimal_digits(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
@@ -856,9 +862,9 @@ int cypher_ast_fprintv(cypher_astnode_t * const *asts, unsigned int n,
         ast_fprint_field_widths(asts[i], &max_ordinal, &max_start, &max_end,
                 &name_width, 0);
     }
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_digits(max_ordinal)+1;
+    unsigned int start_width = decimal_digits(max_start);
+    unsigned int end_width = decimal_digits(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
-- 
2.43.0


From b9a6feb6aafdb7b8cdcc9500d9ea50f88f80a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 23/29] fix: render node numbers of five operands as unsigned,
 as everywhere else

---
 lib/src/ast_create.c        | 2 +-
 lib/src/ast_match.c         | 2 +-
 lib/src/ast_merge.c         | 2 +-
 lib/src/ast_named_path.c    | 2 +-
 lib/src/ast_shortest_path.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_create.c b/lib/src/ast_create.c
index 391bdb7..d46bf26 100644
--- a/lib/src/ast_create.c
+++ b/lib/src/ast_create.c
@@ -102,6 +102,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
 {
     REQUIRE_TYPE(self, CYPHER_AST_CREATE, -1);
     struct create *node = container_of(self, struct create, _astnode);
-    return snprintf(str, size, "%spattern=@%d", node->unique? "UNIQUE, " : "",
+    return snprintf(str, size, "%spattern=@%u", node->unique? "UNIQUE, " : "",
             node->pattern->ordinal);
 }
diff --git a/lib/src/ast_match.c b/lib/src/ast_match.c
index 8d3f6e6..75d6d46 100644
--- a/lib/src/ast_match.c
+++ b/lib/src/ast_match.c
@@ -170,7 +170,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct match *node = container_of(self, struct match, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "%spattern=@%d",
+    ssize_t r = snprintf(str, size, "%spattern=@%u",
             node->optional? "OPTIONAL, " : "", node->pattern->ordinal);
     if (r < 0)
     {
diff --git a/lib/src/ast_merge.c b/lib/src/ast_merge.c
index 668be11..d003c80 100644
--- a/lib/src/ast_merge.c
+++ b/lib/src/ast_merge.c
@@ -143,7 +143,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct merge *node = container_of(self, struct merge, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "path=@%d", node->path->ordinal);
+    ssize_t r = snprintf(str, size, "path=@%u", node->path->ordinal);
     if (r < 0)
     {
         return -1;
diff --git a/lib/src/ast_named_path.c b/lib/src/ast_named_path.c
index b2b63ee..85ca8b2 100644
--- a/lib/src/ast_named_path.c
+++ b/lib/src/ast_named_path.c
@@ -141,6 +141,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct named_path *node =
             container_of(ppnode, struct named_path, _pattern_path_astnode);
-    return snprintf(str, size, "@%d = @%d", node->identifier->ordinal,
+    return snprintf(str, size, "@%u = @%u", node->identifier->ordinal,
             node->path->ordinal);
 }
diff --git a/lib/src/ast_shortest_path.c b/lib/src/ast_shortest_path.c
index 04c1d37..f64e0a0 100644
--- a/lib/src/ast_shortest_path.c
+++ b/lib/src/ast_shortest_path.c
@@ -138,7 +138,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct shortest_path *node =
             container_of(ppnode, struct shortest_path, _pattern_path_astnode);
-    return snprintf(str, size, "single=%s, path=@%d",
+    return snprintf(str, size, "single=%s, path=@%u",
             node->single? "true" : "false",
             node->path->ordinal);
 }
-- 
2.43.0


From 32892b8d66351c04379c37673cfa1396dde5953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 24/29] fix: clone the predicate of a START clause

---
 lib/src/ast_start.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
-- 
2.43.0


From 1fa76aecbaa244885d0fbb2a2f0b7ac3f8921b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 25/29] fix: check the elements of a pattern path, not its
 children, when constructing one

---
 lib/src/astnode.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 1fab1ff..8d5b89b 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -80,10 +80,10 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS(collection, size, val, res) \
     do { \
         REQUIRE((size > 0) && (collection != NULL), res); \
-        unsigned int i = 0; \
-        while (i < size && collection[i] != val) \
-            i++; \
-        REQUIRE(i < size, res); \
+        unsigned int i_ = 0; \
+        while (i_ < size && collection[i_] != val) \
+            i_++; \
+        REQUIRE(i_ < size, res); \
     } while(0)
 
 #define REQUIRE_CONTAINS_OPTIONAL(collection, size, val, res) \
-- 
2.43.0


From 366cfd213a3a86b4df339739eaab92707a2738d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 26/29] fix: clone a DROP CONSTRAINT ON a relationship as such

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From 11c6c3b44129d3e052ead8bf213d17022a46bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 27/29] fix: clone SKIP and LIMIT of WITH and RETURN clauses

---
 lib/src/ast_return.c | 4 ++--
 lib/src/ast_with.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From 690b4ad9871df46fe9f17d7ce4f3f1a538347ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 28/29] fix: clone the predicate of none() and of pattern
 comprehensions

---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
-- 
2.43.0


From a1752f2d85a7e4839910aff3093dbdeb3c5041e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 29/29] fix: release operands when cloning or building runs out
 of memory

---
 lib/src/ast_call.c       | 4 ++++
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
@@ -128,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..3143105 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -83,6 +83,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
 cleanup:
     errsv = errno;
     free(node->ops);
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
@@ -107,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0

