From 29643e9b9d6d73445cd5ac06e582fa4b61203d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 01/40] fix: core containers and tree stay consistent and
 release storage when an allocation fails

---
 source/core/block_tree.c |  1 +
 source/core/hashtree.c   |  1 +
 source/core/tree.c       |  7 ++++++-
 source/core/vector.c     | 11 ++++-------
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/core/block_tree.c b/source/core/block_tree.c
index 93f46ef..6c69669 100644
--- a/source/core/block_tree.c
+++ b/source/core/block_tree.c
@@ -107,6 +107,7 @@ kefir_result_t kefir_block_tree_block(struct kefir_mem *mem, struct kefir_block_
     kefir_result_t res = kefir_block_tree_get_block(tree, block_id, block_ptr);
     if (res == KEFIR_NOT_FOUND) {
         void *block = KEFIR_MALLOC(mem, tree->block_size);
+        REQUIRE(block != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate block"));
 
         if (tree->on_block_init.callback != NULL) {
             res = tree->on_block_init.callback(mem, tree, block_id, block, tree->on_block_init.payload);
diff --git a/source/core/hashtree.c b/source/core/hashtree.c
index 67512ea..af2f983 100644
--- a/source/core/hashtree.c
+++ b/source/core/hashtree.c
@@ -143,6 +143,7 @@ kefir_result_t kefir_hashtree_insert(struct kefir_mem *mem, struct kefir_hashtre
     kefir_hashtree_hash_t hash = tree->ops->hash(key, tree->ops->data);
     if (tree->root == NULL) {
         tree->root = node_alloc(mem, hash, NULL, key, value);
+        REQUIRE(tree->root != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate hash tree node"));
         return KEFIR_OK;
     } else {
         return node_insert(mem, tree, tree->root, hash, key, value, NULL, false);
diff --git a/source/core/tree.c b/source/core/tree.c
index a00bf79..2738746 100644
--- a/source/core/tree.c
+++ b/source/core/tree.c
@@ -86,7 +86,12 @@ kefir_result_t kefir_tree_insert_child(struct kefir_mem *mem, struct kefir_tree_
         return res;
     });
     struct kefir_list_entry *last_child = kefir_list_tail(&node->children);
-    REQUIRE_OK(kefir_list_insert_after(mem, &node->children, last_child, child));
+    res = kefir_list_insert_after(mem, &node->children, last_child, child);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(mem, &child->children);
+        KEFIR_FREE(mem, child);
+        return res;
+    });
     child->prev_sibling = last_child != NULL ? (struct kefir_tree_node *) last_child->value : NULL;
     child->next_sibling = NULL;
     if (child->prev_sibling != NULL) {
diff --git a/source/core/vector.c b/source/core/vector.c
index 099395a..b47955d 100644
--- a/source/core/vector.c
+++ b/source/core/vector.c
@@ -112,13 +112,10 @@ kefir_result_t kefir_vector_realloc(struct kefir_mem *mem, kefir_size_t new_capa
             KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Expected valid vector content pointer"));
     REQUIRE(vector->length <= new_capacity,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Expected new capacity to fit current vector length"));
-    vector->content = KEFIR_REALLOC(mem, vector->content, vector->element_size * new_capacity);
-    if (vector->content == NULL) {
-        vector->length = 0;
-        vector->capacity = 0;
-        vector->element_size = 0;
-        return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate vector");
-    }
+    void *new_content = KEFIR_REALLOC(mem, vector->content, vector->element_size * new_capacity);
+    REQUIRE(new_content != NULL || new_capacity == 0,
+            KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate vector"));
+    vector->content = new_content;
     vector->capacity = new_capacity;
     return KEFIR_OK;
 }
-- 
2.43.0


From 7516dba34d6b2b4723969140e4fc91ae7903fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 02/40] fix: include lookup reports file-system errors and
 frees realpath() results with free()

---
 source/cli/filesystem_source.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cli/filesystem_source.c b/source/cli/filesystem_source.c
index 6fb14c5..61e77a5 100644
--- a/source/cli/filesystem_source.c
+++ b/source/cli/filesystem_source.c
@@ -52,7 +52,12 @@ static kefir_result_t open_file(struct kefir_mem *mem, const char *filepath, kef
     filepath = kefir_symbol_table_insert(mem, symbols, filepath, NULL);
     REQUIRE(filepath != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert file path into symbol table"));
 
-    REQUIRE(access(filepath, R_OK) == 0, KEFIR_SET_ERROR(KEFIR_NOT_FOUND, "Cannot find requested file"));
+    REQUIRE_ELSE(access(filepath, R_OK) == 0, {
+        if (errno == ENOENT || errno == ENOTDIR || errno == EACCES) {
+            return KEFIR_SET_ERROR(KEFIR_NOT_FOUND, "Cannot find requested file");
+        }
+        return KEFIR_SET_OS_ERROR("Failed to access requested file");
+    });
 
     struct kefir_cli_input *input = KEFIR_MALLOC(mem, sizeof(struct kefir_cli_input));
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate file reader"));
@@ -95,13 +100,13 @@ static kefir_result_t try_open_file(struct kefir_mem *mem, const char *root, con
     }
     char *resolved_path = realpath(path, NULL);
     KEFIR_FREE(mem, path);
-    if (resolved_path == NULL && errno == ENOENT) {
+    if (resolved_path == NULL && (errno == ENOENT || errno == ENOTDIR)) {
         return KEFIR_SET_ERROR(KEFIR_NOT_FOUND, "Cannot find requested file");
     } else if (resolved_path == NULL) {
         return KEFIR_SET_OS_ERROR("Failed to determine real path");
     }
     kefir_result_t res = open_file(mem, resolved_path, system, source_file, locator->symbols);
-    KEFIR_FREE(mem, resolved_path);
+    free(resolved_path);
     if (res != KEFIR_NOT_FOUND) {
         REQUIRE_OK(res);
         return KEFIR_OK;
-- 
2.43.0


From 889e3f40092f58a2972c9ab8c9b62ac6da774f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 03/40] fix: preprocessor directives release tokens and
 parameters on error paths

---
 source/preprocessor/directives.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index f535102..aff563e 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -107,7 +107,11 @@ static kefir_result_t scan_pp_tokens(struct kefir_mem *mem,
             scan_tokens = false;
             REQUIRE_OK(kefir_token_free(mem, &next_token));
         } else {
-            REQUIRE_OK(kefir_token_buffer_emplace(mem, buffer, &next_token));
+            kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &next_token);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, &next_token);
+                return res;
+            });
         }
     }
     directive_scanner->newline_flag = true;
@@ -361,9 +365,11 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
             if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
                 scan_params = false;
             } else {
-                REQUIRE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_COMMA,
-                        KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
-                                               "Expected either comma or right parenthese"));
+                REQUIRE_ELSE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_COMMA, {
+                    kefir_token_free(mem, token);
+                    return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
+                                                  "Expected either comma or right parenthese");
+                });
             }
         } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_ELLIPSIS) {
             directive->define_directive.vararg = true;
@@ -371,6 +377,7 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
         } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
             scan_params = false;
         } else {
+            kefir_token_free(mem, token);
             return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
                                           "Expected either parameter or ellipsis");
         }
@@ -378,8 +385,10 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
     if (token->klass != KEFIR_TOKEN_PUNCTUATOR || token->punctuator != KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
         REQUIRE_OK(skip_whitespaces(mem, directive_scanner, token));
     }
-    REQUIRE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE,
-            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location, "Expected right parenthese"));
+    REQUIRE_ELSE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE, {
+        kefir_token_free(mem, token);
+        return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location, "Expected right parenthese");
+    });
     REQUIRE_OK(skip_whitespaces(mem, directive_scanner, token));
     return KEFIR_OK;
 }
@@ -404,8 +413,10 @@ static kefir_result_t next_define(struct kefir_mem *mem, struct kefir_preprocess
 
     struct kefir_token token;
     REQUIRE_OK(skip_whitespaces(mem, directive_scanner, &token));
-    REQUIRE(token.klass == KEFIR_TOKEN_IDENTIFIER,
-            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token.source_location, "Expected identifier"));
+    REQUIRE_ELSE(token.klass == KEFIR_TOKEN_IDENTIFIER, {
+        kefir_token_free(mem, &token);
+        return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token.source_location, "Expected identifier");
+    });
     directive->define_directive.identifier =
         kefir_symbol_table_insert(mem, directive_scanner->lexer->symbols, token.identifier, NULL);
     REQUIRE(directive->define_directive.identifier != NULL,
-- 
2.43.0


From 8e014b817d8be8743277c594f8f88b8e43e3b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 04/40] fix: parser reports builder failures and releases
 half-built nodes

---
 source/parser/builder.c                     | 15 +++++++++++----
 source/parser/rules/declaration_specifier.c |  9 ++++++++-
 source/parser/rules/declarator.c            | 14 ++++++++++++--
 source/parser/rules/initializer_list.c      |  5 +++--
 4 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/source/parser/builder.c b/source/parser/builder.c
index 76c32e2..6c7691c 100644
--- a/source/parser/builder.c
+++ b/source/parser/builder.c
@@ -97,7 +97,7 @@ kefir_result_t kefir_parser_ast_builder_scan(struct kefir_mem *mem, struct kefir
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, node);
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, node);
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
@@ -156,7 +156,7 @@ kefir_result_t kefir_parser_ast_builder_array_subscript(struct kefir_mem *mem,
     kefir_result_t res = kefir_parser_ast_builder_pop(mem, builder, &array);
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, subscript);
-        return KEFIR_OK;
+        return res;
     });
 
     struct kefir_ast_array_subscript *result = kefir_ast_new_array_subscript(mem, array, subscript);
@@ -662,6 +662,8 @@ kefir_result_t kefir_parser_ast_builder_compound_literal(struct kefir_mem *mem,
 
     res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(compound));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        // Upon failure initializer remains owned by the caller
+        compound->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(compound));
         return res;
     });
@@ -716,6 +718,9 @@ kefir_result_t kefir_parser_ast_builder_init_declarator(struct kefir_mem *mem, s
         kefir_list_insert_after(mem, &decl_list->init_declarators, kefir_list_tail(&decl_list->init_declarators),
                                 KEFIR_AST_NODE_BASE(init_declarator));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        // Upon failure declarator and initializer remain owned by the caller
+        init_declarator->declarator = NULL;
+        init_declarator->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(init_declarator));
         KEFIR_AST_NODE_FREE(mem, declaration);
         return res;
@@ -723,6 +728,8 @@ kefir_result_t kefir_parser_ast_builder_init_declarator(struct kefir_mem *mem, s
 
     res = kefir_parser_ast_builder_push(mem, builder, declaration);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        init_declarator->declarator = NULL;
+        init_declarator->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, declaration);
         return res;
     });
@@ -741,7 +748,7 @@ kefir_result_t kefir_parser_ast_builder_compound_statement(struct kefir_mem *mem
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(stmt));
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(stmt));
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
@@ -1300,7 +1307,7 @@ kefir_result_t kefir_parser_ast_builder_statement_expression(struct kefir_mem *m
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(expr));
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(expr));
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
diff --git a/source/parser/rules/declaration_specifier.c b/source/parser/rules/declaration_specifier.c
index 04edf9b..af7bccb 100644
--- a/source/parser/rules/declaration_specifier.c
+++ b/source/parser/rules/declaration_specifier.c
@@ -113,6 +113,7 @@ static kefir_result_t scan_struct_field_declaration(struct kefir_mem *mem, struc
                                              "Expected integral constant expression");
             }
             REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_ast_declarator_free(mem, declarator);
                 kefir_ast_structure_declaration_entry_free(mem, entry);
                 return res;
             });
@@ -120,6 +121,10 @@ static kefir_result_t scan_struct_field_declaration(struct kefir_mem *mem, struc
 
         res = kefir_ast_structure_declaration_entry_append(mem, entry, declarator, bitwidth);
         REQUIRE_ELSE(res == KEFIR_OK, {
+            if (bitwidth != NULL) {
+                KEFIR_AST_NODE_FREE(mem, bitwidth);
+            }
+            kefir_ast_declarator_free(mem, declarator);
             kefir_ast_structure_declaration_entry_free(mem, entry);
             return res;
         });
@@ -290,7 +295,9 @@ static kefir_result_t scan_enum_field_declaration(struct kefir_mem *mem, struct
 
     res = kefir_ast_enum_specifier_append(mem, specifier, parser->symbols, identifier, value);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_AST_NODE_FREE(mem, value);
+        if (value != NULL) {
+            KEFIR_AST_NODE_FREE(mem, value);
+        }
         return res;
     });
 
diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index 9168937..95a7dec 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -387,6 +387,8 @@ static kefir_result_t scan_function(struct kefir_mem *mem, struct kefir_parser *
                                     struct kefir_ast_declarator **declarator_ptr) {
     struct kefir_source_location source_location = *PARSER_TOKEN_LOCATION(parser, 0);
     struct kefir_ast_declarator *declarator = kefir_ast_declarator_function(mem, *declarator_ptr);
+    REQUIRE(declarator != NULL,
+            KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST function declarator"));
     kefir_result_t res = scan_function_impl(mem, parser, abstract, declarator);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_free(mem, declarator);
@@ -457,7 +459,11 @@ kefir_result_t kefir_parser_scan_declarator(struct kefir_mem *mem, struct kefir_
     } else {
         REQUIRE_OK(res);
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_free(mem, *declarator_ptr);
+            *declarator_ptr = NULL;
+            return res;
+        });
     }
     return res;
 }
@@ -556,7 +562,11 @@ kefir_result_t kefir_parser_scan_abstract_declarator(struct kefir_mem *mem, stru
     } else {
         REQUIRE_OK(res);
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_free(mem, *declarator_ptr);
+            *declarator_ptr = NULL;
+            return res;
+        });
     }
 
     return res;
diff --git a/source/parser/rules/initializer_list.c b/source/parser/rules/initializer_list.c
index 803742c..a084e16 100644
--- a/source/parser/rules/initializer_list.c
+++ b/source/parser/rules/initializer_list.c
@@ -55,7 +55,7 @@ static kefir_result_t scan_initializer_list(struct kefir_mem *mem, struct kefir_
     REQUIRE(PARSER_TOKEN_IS_LEFT_BRACE(parser, 0), KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match initializer list"));
     REQUIRE_OK(PARSER_SHIFT(parser));
     *initializer = kefir_ast_new_list_initializer(mem);
-    REQUIRE(initializer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocae AST initializer list"));
+    REQUIRE(*initializer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST initializer list"));
     (*initializer)->source_location = *PARSER_TOKEN_LOCATION(parser, 0);
 
     kefir_bool_t scan_initializers = !PARSER_TOKEN_IS_RIGHT_BRACE(parser, 0);
@@ -63,6 +63,7 @@ static kefir_result_t scan_initializer_list(struct kefir_mem *mem, struct kefir_
         kefir_result_t res = scan_initializer(mem, parser, *initializer);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_initializer_free(mem, *initializer);
+            *initializer = NULL;
             return res;
         });
         if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_COMMA)) {
@@ -84,7 +85,7 @@ static kefir_result_t scan_initializer_list(struct kefir_mem *mem, struct kefir_
         KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0), "Expected right brace"));
     REQUIRE_CHAIN(&res, PARSER_SHIFT(parser));
     REQUIRE_ELSE(res == KEFIR_OK, {
-        *initializer = NULL;
+        kefir_ast_initializer_free(mem, *initializer);
         *initializer = NULL;
         return res;
     });
-- 
2.43.0


From 9ef080e2006686b0d20a2931abe669bc39a0be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 05/40] fix: AST types release or keep ownership of members on
 allocation failure

---
 source/ast/type/array.c     | 32 ++++++++++---
 source/ast/type/function.c  |  6 ++-
 source/ast/type/qualified.c |  1 +
 source/ast/type/struct.c    | 91 ++++++++++++++++++++++++-------------
 source/ast/type_conv.c      |  6 ++-
 source/ast/type_layout.c    |  2 +-
 6 files changed, 95 insertions(+), 43 deletions(-)

diff --git a/source/ast/type/array.c b/source/ast/type/array.c
index 90f135e..ce845b8 100644
--- a/source/ast/type/array.c
+++ b/source/ast/type/array.c
@@ -75,18 +75,34 @@ const struct kefir_ast_type *composite_array_types(struct kefir_mem *mem, struct
     REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, type1, type2), NULL);
     if (type1->array_type.boundary == KEFIR_AST_ARRAY_BOUNDED_STATIC ||
         type1->array_type.boundary == KEFIR_AST_ARRAY_BOUNDED) {
-        return kefir_ast_type_array(
+        struct kefir_ast_constant_expression *length =
+            kefir_ast_constant_expression_integer(mem, type1->array_type.const_length->value.integer);
+        REQUIRE(length != NULL, NULL);
+        const struct kefir_ast_type *composite_type = kefir_ast_type_array(
             mem, type_bundle,
             KEFIR_AST_TYPE_COMPOSITE(mem, type_bundle, type_traits, type1->array_type.element_type,
                                      type2->array_type.element_type),
-            kefir_ast_constant_expression_integer(mem, type1->array_type.const_length->value.integer), NULL);
+            length, NULL);
+        REQUIRE_ELSE(composite_type != NULL, {
+            kefir_ast_constant_expression_free(mem, length);
+            return NULL;
+        });
+        return composite_type;
     } else if (type2->array_type.boundary == KEFIR_AST_ARRAY_BOUNDED_STATIC ||
                type2->array_type.boundary == KEFIR_AST_ARRAY_BOUNDED) {
-        return kefir_ast_type_array(
+        struct kefir_ast_constant_expression *length =
+            kefir_ast_constant_expression_integer(mem, type2->array_type.const_length->value.integer);
+        REQUIRE(length != NULL, NULL);
+        const struct kefir_ast_type *composite_type = kefir_ast_type_array(
             mem, type_bundle,
             KEFIR_AST_TYPE_COMPOSITE(mem, type_bundle, type_traits, type1->array_type.element_type,
                                      type2->array_type.element_type),
-            kefir_ast_constant_expression_integer(mem, type2->array_type.const_length->value.integer), NULL);
+            length, NULL);
+        REQUIRE_ELSE(composite_type != NULL, {
+            kefir_ast_constant_expression_free(mem, length);
+            return NULL;
+        });
+        return composite_type;
     } else if (type1->array_type.boundary == KEFIR_AST_ARRAY_VLA_STATIC ||
                type1->array_type.boundary == KEFIR_AST_ARRAY_VLA) {
         struct kefir_ast_node_base *vlen = KEFIR_AST_NODE_CLONE(mem, type1->array_type.vla_length);
@@ -99,7 +115,9 @@ const struct kefir_ast_type *composite_array_types(struct kefir_mem *mem, struct
                                      type2->array_type.element_type),
             vlen, NULL);
         REQUIRE_ELSE(composite_type != NULL, {
-            KEFIR_AST_NODE_FREE(mem, vlen);
+            if (vlen != NULL) {
+                KEFIR_AST_NODE_FREE(mem, vlen);
+            }
             return NULL;
         });
         return composite_type;
@@ -115,7 +133,9 @@ const struct kefir_ast_type *composite_array_types(struct kefir_mem *mem, struct
                                      type2->array_type.element_type),
             vlen, NULL);
         REQUIRE_ELSE(composite_type != NULL, {
-            KEFIR_AST_NODE_FREE(mem, vlen);
+            if (vlen != NULL) {
+                KEFIR_AST_NODE_FREE(mem, vlen);
+            }
             return NULL;
         });
         return composite_type;
diff --git a/source/ast/type/function.c b/source/ast/type/function.c
index c8b7085..1591254 100644
--- a/source/ast/type/function.c
+++ b/source/ast/type/function.c
@@ -73,8 +73,10 @@ kefir_result_t kefir_ast_type_function_parameter(struct kefir_mem *mem, struct k
     param->type = type;
     if (type) {
         param->adjusted_type = kefir_ast_type_conv_adjust_function_parameter(mem, type_bundle, type);
-        REQUIRE(param->adjusted_type != NULL,
-                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to adjust AST function parameter type"));
+        REQUIRE_ELSE(param->adjusted_type != NULL, {
+            KEFIR_FREE(mem, param);
+            return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to adjust AST function parameter type");
+        });
     } else {
         param->adjusted_type = NULL;
     }
diff --git a/source/ast/type/qualified.c b/source/ast/type/qualified.c
index 91765a4..3e203f7 100644
--- a/source/ast/type/qualified.c
+++ b/source/ast/type/qualified.c
@@ -65,6 +65,7 @@ const struct kefir_ast_type *composite_qualified_types(struct kefir_mem *mem, st
     REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, type1, type2), NULL);
     const struct kefir_ast_type *composite_unqualified = KEFIR_AST_TYPE_COMPOSITE(
         mem, type_bundle, type_traits, kefir_ast_unqualified_type(type1), kefir_ast_unqualified_type(type2));
+    REQUIRE(composite_unqualified != NULL, NULL);
     if (KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&type1->qualified_type.qualification)) {
         return composite_unqualified;
     } else {
diff --git a/source/ast/type/struct.c b/source/ast/type/struct.c
index 27f171b..d9d5bef 100644
--- a/source/ast/type/struct.c
+++ b/source/ast/type/struct.c
@@ -81,6 +81,43 @@ static kefir_bool_t compatible_structure_types(const struct kefir_ast_type_trait
     return true;
 }
 
+static kefir_result_t composite_field(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
+                                      struct kefir_ast_struct_type *composite,
+                                      const struct kefir_ast_struct_field *field, const struct kefir_ast_type *type) {
+    struct kefir_ast_constant_expression *alignment_expr =
+        kefir_ast_constant_expression_integer(mem, field->alignment->value);
+    REQUIRE(alignment_expr != NULL,
+            KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST constant expression"));
+    struct kefir_ast_alignment *alignment = kefir_ast_alignment_const_expression(mem, alignment_expr);
+    REQUIRE_ELSE(alignment != NULL, {
+        kefir_ast_constant_expression_free(mem, alignment_expr);
+        return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST alignment");
+    });
+
+    kefir_result_t res = KEFIR_OK;
+    if (field->bitfield) {
+        struct kefir_ast_constant_expression *bitwidth =
+            kefir_ast_constant_expression_integer(mem, field->bitwidth->value.integer);
+        REQUIRE_ELSE(bitwidth != NULL, {
+            kefir_ast_alignment_free(mem, alignment);
+            return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST constant expression");
+        });
+        res = kefir_ast_struct_type_bitfield(mem, symbols, composite, field->identifier, type, alignment, bitwidth);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_constant_expression_free(mem, bitwidth);
+            kefir_ast_alignment_free(mem, alignment);
+            return res;
+        });
+    } else {
+        res = kefir_ast_struct_type_field(mem, symbols, composite, field->identifier, type, alignment);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_alignment_free(mem, alignment);
+            return res;
+        });
+    }
+    return KEFIR_OK;
+}
+
 const struct kefir_ast_type *composite_struct_types(struct kefir_mem *mem, struct kefir_ast_type_bundle *type_bundle,
                                                     const struct kefir_ast_type_traits *type_traits,
                                                     const struct kefir_ast_type *type1,
@@ -109,19 +146,7 @@ const struct kefir_ast_type *composite_struct_types(struct kefir_mem *mem, struc
             const struct kefir_ast_type *composite_field_type =
                 KEFIR_AST_TYPE_COMPOSITE(mem, type_bundle, type_traits, field1->type, field2->type);
             REQUIRE(composite_field_type != NULL, NULL);
-            kefir_result_t res = KEFIR_OK;
-            if (field1->bitfield) {
-                res = kefir_ast_struct_type_bitfield(
-                    mem, symbols, composite_struct, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)),
-                    kefir_ast_constant_expression_integer(mem, field1->bitwidth->value.integer));
-            } else {
-                res = kefir_ast_struct_type_field(
-                    mem, symbols, composite_struct, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)));
-            }
+            kefir_result_t res = composite_field(mem, symbols, composite_struct, field1, composite_field_type);
             REQUIRE(res == KEFIR_OK, NULL);
         }
     } else {
@@ -257,18 +282,7 @@ const struct kefir_ast_type *composite_union_types(struct kefir_mem *mem, struct
             const struct kefir_ast_type *composite_field_type =
                 KEFIR_AST_TYPE_COMPOSITE(mem, type_bundle, type_traits, field1->type, field2->type);
             REQUIRE(composite_field_type != NULL, NULL);
-            if (field1->bitfield) {
-                res = kefir_ast_struct_type_bitfield(
-                    mem, symbols, composite_union, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)),
-                    kefir_ast_constant_expression_integer(mem, field1->bitwidth->value.integer));
-            } else {
-                res = kefir_ast_struct_type_field(
-                    mem, symbols, composite_union, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)));
-            }
+            res = composite_field(mem, symbols, composite_union, field1, composite_field_type);
             REQUIRE(res == KEFIR_OK, NULL);
         }
     } else {
@@ -395,30 +409,43 @@ static kefir_result_t kefir_ast_struct_type_field_impl(struct kefir_mem *mem, st
     field->bitfield = bitfield;
     field->bitwidth = bitwidth;
     if (field->bitwidth != NULL) {
-        REQUIRE(
-            field->bitwidth->value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_NONE ||
-                field->bitwidth->value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
-            KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Structure/union field alignment should be an integer constant"));
+        REQUIRE_ELSE(field->bitwidth->value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_NONE ||
+                         field->bitwidth->value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
+                     {
+                         KEFIR_FREE(mem, field);
+                         return KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER,
+                                                "Structure/union field alignment should be an integer constant");
+                     });
     }
     if (alignment != NULL) {
         field->alignment = alignment;
     } else {
         field->alignment = kefir_ast_alignment_default(mem);
-        REQUIRE(field->alignment != NULL,
-                KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate default AST alignment"));
+        REQUIRE_ELSE(field->alignment != NULL, {
+            KEFIR_FREE(mem, field);
+            return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate default AST alignment");
+        });
     }
     kefir_result_t res = KEFIR_OK;
     if (identifier != NULL) {
         res = kefir_hashtree_insert(mem, &struct_type->field_index, (kefir_hashtree_key_t) identifier,
                                     (kefir_hashtree_value_t) field);
         REQUIRE_ELSE(res == KEFIR_OK, {
+            if (alignment == NULL) {
+                kefir_ast_alignment_free(mem, field->alignment);
+            }
             KEFIR_FREE(mem, field);
             return res;
         });
     }
     res = kefir_list_insert_after(mem, &struct_type->fields, kefir_list_tail(&struct_type->fields), field);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_hashtree_delete(mem, &struct_type->field_index, (kefir_hashtree_key_t) identifier);
+        if (identifier != NULL) {
+            kefir_hashtree_delete(mem, &struct_type->field_index, (kefir_hashtree_key_t) identifier);
+        }
+        if (alignment == NULL) {
+            kefir_ast_alignment_free(mem, field->alignment);
+        }
         KEFIR_FREE(mem, field);
         return res;
     });
diff --git a/source/ast/type_conv.c b/source/ast/type_conv.c
index db14f74..7baee3f 100644
--- a/source/ast/type_conv.c
+++ b/source/ast/type_conv.c
@@ -141,8 +141,10 @@ const struct kefir_ast_type *kefir_ast_type_function_default_argument_convertion
     REQUIRE(type_traits != NULL, NULL);
     REQUIRE(original != NULL, NULL);
 
-    const struct kefir_ast_type *param_type = kefir_ast_type_conv_unwrap_enumeration(
-        kefir_ast_unqualified_type(KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, type_bundle, original)));
+    const struct kefir_ast_type *converted_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, type_bundle, original);
+    REQUIRE(converted_type != NULL, NULL);
+    const struct kefir_ast_type *param_type =
+        kefir_ast_type_conv_unwrap_enumeration(kefir_ast_unqualified_type(converted_type));
     return kefir_ast_type_function_default_argument_promotion(type_traits, param_type);
 }
 
diff --git a/source/ast/type_layout.c b/source/ast/type_layout.c
index 09534ad..30febe7 100644
--- a/source/ast/type_layout.c
+++ b/source/ast/type_layout.c
@@ -126,7 +126,7 @@ kefir_result_t kefir_ast_type_layout_free(struct kefir_mem *mem, struct kefir_as
                 break;
 
             case KEFIR_AST_TYPE_ARRAY:
-                if (!KEFIR_AST_TYPE_IS_VL_ARRAY(type_layout->type)) {
+                if (!KEFIR_AST_TYPE_IS_VL_ARRAY(type_layout->type) && type_layout->array_layout.element_type != NULL) {
                     REQUIRE_OK(kefir_ast_type_layout_free(mem, type_layout->array_layout.element_type));
                 }
                 break;
-- 
2.43.0


From db24f569d256f91245cc4f993422b0dbb11dde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 06/40] fix: AST nodes are cloned and destroyed correctly on
 error paths

---
 source/ast/declarator.c                | 38 +++++++++----
 source/ast/declarator_specifier.c      | 79 +++++++++++++++++++-------
 source/ast/nodes/compound_literal.c    |  5 +-
 source/ast/nodes/declaration.c         |  4 ++
 source/ast/nodes/function_call.c       |  1 +
 source/ast/nodes/function_definition.c | 11 +++-
 source/ast/nodes/generic_selection.c   | 10 ++--
 source/ast/nodes/init_declarator.c     |  4 +-
 source/ast/nodes/struct_member.c       |  4 +-
 9 files changed, 114 insertions(+), 42 deletions(-)

diff --git a/source/ast/declarator.c b/source/ast/declarator.c
index c2308d8..7592df1 100644
--- a/source/ast/declarator.c
+++ b/source/ast/declarator.c
@@ -161,9 +161,13 @@ struct kefir_ast_declarator *kefir_ast_declarator_clone(struct kefir_mem *mem,
             break;
 
         case KEFIR_AST_DECLARATOR_POINTER: {
-            struct kefir_ast_declarator *decl =
-                kefir_ast_declarator_pointer(mem, kefir_ast_declarator_clone(mem, declarator->pointer.declarator));
-            REQUIRE(decl != NULL, NULL);
+            struct kefir_ast_declarator *direct = kefir_ast_declarator_clone(mem, declarator->pointer.declarator);
+            REQUIRE(direct != NULL, NULL);
+            struct kefir_ast_declarator *decl = kefir_ast_declarator_pointer(mem, direct);
+            REQUIRE_ELSE(decl != NULL, {
+                kefir_ast_declarator_free(mem, direct);
+                return NULL;
+            });
 
             kefir_result_t res = kefir_ast_type_qualifier_list_clone(mem, &decl->pointer.type_qualifiers,
                                                                      &declarator->pointer.type_qualifiers);
@@ -175,10 +179,20 @@ struct kefir_ast_declarator *kefir_ast_declarator_clone(struct kefir_mem *mem,
         } break;
 
         case KEFIR_AST_DECLARATOR_ARRAY: {
-            struct kefir_ast_declarator *decl = kefir_ast_declarator_array(
-                mem, declarator->array.type, KEFIR_AST_NODE_CLONE(mem, declarator->array.length),
-                kefir_ast_declarator_clone(mem, declarator->array.declarator));
-            REQUIRE(decl != NULL, NULL);
+            struct kefir_ast_node_base *length = KEFIR_AST_NODE_CLONE(mem, declarator->array.length);
+            REQUIRE(declarator->array.length == NULL || length != NULL, NULL);
+            struct kefir_ast_declarator *direct = kefir_ast_declarator_clone(mem, declarator->array.declarator);
+            struct kefir_ast_declarator *decl =
+                direct != NULL ? kefir_ast_declarator_array(mem, declarator->array.type, length, direct) : NULL;
+            REQUIRE_ELSE(decl != NULL, {
+                if (direct != NULL) {
+                    kefir_ast_declarator_free(mem, direct);
+                }
+                if (length != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, length);
+                }
+                return NULL;
+            });
 
             decl->array.static_array = declarator->array.static_array;
             kefir_result_t res = kefir_ast_type_qualifier_list_clone(mem, &decl->array.type_qualifiers,
@@ -191,9 +205,13 @@ struct kefir_ast_declarator *kefir_ast_declarator_clone(struct kefir_mem *mem,
         } break;
 
         case KEFIR_AST_DECLARATOR_FUNCTION: {
-            struct kefir_ast_declarator *decl =
-                kefir_ast_declarator_function(mem, kefir_ast_declarator_clone(mem, declarator->function.declarator));
-            REQUIRE(decl != NULL, NULL);
+            struct kefir_ast_declarator *direct = kefir_ast_declarator_clone(mem, declarator->function.declarator);
+            REQUIRE(direct != NULL, NULL);
+            struct kefir_ast_declarator *decl = kefir_ast_declarator_function(mem, direct);
+            REQUIRE_ELSE(decl != NULL, {
+                kefir_ast_declarator_free(mem, direct);
+                return NULL;
+            });
 
             decl->function.ellipsis = declarator->function.ellipsis;
             for (const struct kefir_list_entry *iter = kefir_list_head(&declarator->function.parameters); iter != NULL;
diff --git a/source/ast/declarator_specifier.c b/source/ast/declarator_specifier.c
index 9dd88ee..dce04aa 100644
--- a/source/ast/declarator_specifier.c
+++ b/source/ast/declarator_specifier.c
@@ -233,6 +233,10 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                 });
             } else {
                 entry_clone = kefir_ast_structure_declaration_entry_alloc(mem);
+                REQUIRE_ELSE(entry_clone != NULL, {
+                    kefir_ast_structure_specifier_free(mem, clone);
+                    return NULL;
+                });
 
                 struct kefir_ast_declarator_specifier *entry_specifier = NULL;
                 for (struct kefir_list_entry *iter =
@@ -260,6 +264,11 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                     ASSIGN_DECL_CAST(struct kefir_ast_structure_entry_declarator *, entry_declarator, iter->value);
                     struct kefir_ast_declarator *declarator_clone =
                         kefir_ast_declarator_clone(mem, entry_declarator->declarator);
+                    REQUIRE_ELSE(entry_declarator->declarator == NULL || declarator_clone != NULL, {
+                        kefir_ast_structure_declaration_entry_free(mem, entry_clone);
+                        kefir_ast_structure_specifier_free(mem, clone);
+                        return NULL;
+                    });
                     struct kefir_ast_node_base *bitwidth_clone = KEFIR_AST_NODE_CLONE(mem, entry_declarator->bitwidth);
                     REQUIRE_ELSE(entry_declarator->bitwidth == NULL || bitwidth_clone != NULL, {
                         kefir_ast_declarator_free(mem, declarator_clone);
@@ -271,7 +280,9 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                                                                        bitwidth_clone);
                     REQUIRE_ELSE(res == KEFIR_OK, {
                         kefir_ast_declarator_free(mem, declarator_clone);
-                        KEFIR_AST_NODE_FREE(mem, bitwidth_clone);
+                        if (bitwidth_clone != NULL) {
+                            KEFIR_AST_NODE_FREE(mem, bitwidth_clone);
+                        }
                         kefir_ast_structure_declaration_entry_free(mem, entry_clone);
                         kefir_ast_structure_specifier_free(mem, clone);
                         return NULL;
@@ -484,7 +495,9 @@ struct kefir_ast_enum_specifier *kefir_ast_enum_specifier_clone(struct kefir_mem
 
             kefir_result_t res = kefir_ast_enum_specifier_append(mem, clone, NULL, entry->constant, value);
             REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_AST_NODE_FREE(mem, value);
+                if (value != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, value);
+                }
                 kefir_ast_enum_specifier_free(mem, clone);
                 return NULL;
             });
@@ -797,25 +810,41 @@ struct kefir_ast_declarator_specifier *kefir_ast_declarator_specifier_clone(
                     clone = kefir_ast_type_specifier_complex(mem);
                     break;
 
-                case KEFIR_AST_TYPE_SPECIFIER_ATOMIC:
-                    clone = kefir_ast_type_specifier_atomic(
-                        mem, KEFIR_AST_NODE_CLONE(mem, specifier->type_specifier.value.atomic_type));
-                    break;
+                case KEFIR_AST_TYPE_SPECIFIER_ATOMIC: {
+                    struct kefir_ast_node_base *atomic_type =
+                        KEFIR_AST_NODE_CLONE(mem, specifier->type_specifier.value.atomic_type);
+                    REQUIRE(atomic_type != NULL, NULL);
+                    clone = kefir_ast_type_specifier_atomic(mem, atomic_type);
+                    REQUIRE_ELSE(clone != NULL, {
+                        KEFIR_AST_NODE_FREE(mem, atomic_type);
+                        return NULL;
+                    });
+                } break;
 
                 case KEFIR_AST_TYPE_SPECIFIER_STRUCT:
-                    clone = kefir_ast_type_specifier_struct(
-                        mem, kefir_ast_structure_specifier_clone(mem, specifier->type_specifier.value.structure));
-                    break;
-
-                case KEFIR_AST_TYPE_SPECIFIER_UNION:
-                    clone = kefir_ast_type_specifier_union(
-                        mem, kefir_ast_structure_specifier_clone(mem, specifier->type_specifier.value.structure));
-                    break;
-
-                case KEFIR_AST_TYPE_SPECIFIER_ENUM:
-                    clone = kefir_ast_type_specifier_enum(
-                        mem, kefir_ast_enum_specifier_clone(mem, specifier->type_specifier.value.enumeration));
-                    break;
+                case KEFIR_AST_TYPE_SPECIFIER_UNION: {
+                    struct kefir_ast_structure_specifier *structure =
+                        kefir_ast_structure_specifier_clone(mem, specifier->type_specifier.value.structure);
+                    REQUIRE(structure != NULL, NULL);
+                    clone = specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT
+                                ? kefir_ast_type_specifier_struct(mem, structure)
+                                : kefir_ast_type_specifier_union(mem, structure);
+                    REQUIRE_ELSE(clone != NULL, {
+                        kefir_ast_structure_specifier_free(mem, structure);
+                        return NULL;
+                    });
+                } break;
+
+                case KEFIR_AST_TYPE_SPECIFIER_ENUM: {
+                    struct kefir_ast_enum_specifier *enumeration =
+                        kefir_ast_enum_specifier_clone(mem, specifier->type_specifier.value.enumeration);
+                    REQUIRE(enumeration != NULL, NULL);
+                    clone = kefir_ast_type_specifier_enum(mem, enumeration);
+                    REQUIRE_ELSE(clone != NULL, {
+                        kefir_ast_enum_specifier_free(mem, enumeration);
+                        return NULL;
+                    });
+                } break;
 
                 case KEFIR_AST_TYPE_SPECIFIER_TYPEDEF:
                     clone = kefir_ast_type_specifier_typedef(mem, NULL, specifier->type_specifier.value.type_name);
@@ -903,9 +932,15 @@ struct kefir_ast_declarator_specifier *kefir_ast_declarator_specifier_clone(
             }
         } break;
 
-        case KEFIR_AST_ALIGNMENT_SPECIFIER:
-            clone = kefir_ast_alignment_specifier(mem, KEFIR_AST_NODE_CLONE(mem, specifier->alignment_specifier));
-            break;
+        case KEFIR_AST_ALIGNMENT_SPECIFIER: {
+            struct kefir_ast_node_base *alignment = KEFIR_AST_NODE_CLONE(mem, specifier->alignment_specifier);
+            REQUIRE(alignment != NULL, NULL);
+            clone = kefir_ast_alignment_specifier(mem, alignment);
+            REQUIRE_ELSE(clone != NULL, {
+                KEFIR_AST_NODE_FREE(mem, alignment);
+                return NULL;
+            });
+        } break;
     }
 
     if (clone != NULL) {
diff --git a/source/ast/nodes/compound_literal.c b/source/ast/nodes/compound_literal.c
index b3e8c6b..f06137e 100644
--- a/source/ast/nodes/compound_literal.c
+++ b/source/ast/nodes/compound_literal.c
@@ -33,7 +33,10 @@ kefir_result_t ast_compound_literal_free(struct kefir_mem *mem, struct kefir_ast
     REQUIRE(base != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST node base"));
     ASSIGN_DECL_CAST(struct kefir_ast_compound_literal *, node, base->self);
     REQUIRE_OK(KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(node->type_name)));
-    REQUIRE_OK(kefir_ast_initializer_free(mem, node->initializer));
+    if (node->initializer != NULL) {
+        REQUIRE_OK(kefir_ast_initializer_free(mem, node->initializer));
+        node->initializer = NULL;
+    }
     KEFIR_FREE(mem, node);
     return KEFIR_OK;
 }
diff --git a/source/ast/nodes/declaration.c b/source/ast/nodes/declaration.c
index b8cde02..e448b64 100644
--- a/source/ast/nodes/declaration.c
+++ b/source/ast/nodes/declaration.c
@@ -111,6 +111,7 @@ struct kefir_ast_node_base *ast_declaration_clone(struct kefir_mem *mem, struct
         REQUIRE_CHAIN(&res, kefir_list_insert_after(mem, &clone->init_declarators,
                                                     kefir_list_tail(&clone->init_declarators), declaration_clone));
         REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, declaration_clone);
             kefir_list_free(mem, &clone->init_declarators);
             kefir_ast_declarator_specifier_list_free(mem, &clone->specifiers);
             KEFIR_FREE(mem, clone);
@@ -172,6 +173,9 @@ struct kefir_ast_declaration *kefir_ast_new_single_declaration(struct kefir_mem
         kefir_list_insert_after(mem, &decl_list->init_declarators, kefir_list_tail(&decl_list->init_declarators),
                                 KEFIR_AST_NODE_BASE(declaration));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        // Upon failure declarator and initializer remain owned by the caller
+        declaration->declarator = NULL;
+        declaration->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(decl_list));
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(declaration));
         return NULL;
diff --git a/source/ast/nodes/function_call.c b/source/ast/nodes/function_call.c
index 01ece1c..88b1859 100644
--- a/source/ast/nodes/function_call.c
+++ b/source/ast/nodes/function_call.c
@@ -94,6 +94,7 @@ struct kefir_ast_node_base *ast_function_call_clone(struct kefir_mem *mem, struc
         });
         res = kefir_list_insert_after(mem, &clone->arguments, kefir_list_tail(&clone->arguments), arg_clone);
         REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, arg_clone);
             KEFIR_AST_NODE_FREE(mem, clone->function);
             kefir_list_free(mem, &clone->arguments);
             KEFIR_FREE(mem, clone);
diff --git a/source/ast/nodes/function_definition.c b/source/ast/nodes/function_definition.c
index 9244015..c5f3fe4 100644
--- a/source/ast/nodes/function_definition.c
+++ b/source/ast/nodes/function_definition.c
@@ -73,8 +73,15 @@ struct kefir_ast_node_base *ast_function_definition_clone(struct kefir_mem *mem,
         return NULL;
     });
 
+    res = kefir_ast_declarator_specifier_list_init(&clone->specifiers);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_FREE(mem, clone);
+        return NULL;
+    });
+
     res = kefir_ast_declarator_specifier_list_clone(mem, &clone->specifiers, &node->specifiers);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_declarator_specifier_list_free(mem, &clone->specifiers);
         KEFIR_FREE(mem, clone);
         return NULL;
     });
@@ -86,8 +93,8 @@ struct kefir_ast_node_base *ast_function_definition_clone(struct kefir_mem *mem,
         return NULL;
     });
 
-    res = kefir_list_init(&node->declarations);
-    REQUIRE_CHAIN(&res, kefir_list_on_remove(&node->declarations, declaration_entry_free, NULL));
+    res = kefir_list_init(&clone->declarations);
+    REQUIRE_CHAIN(&res, kefir_list_on_remove(&clone->declarations, declaration_entry_free, NULL));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_free(mem, clone->declarator);
         kefir_ast_declarator_specifier_list_free(mem, &clone->specifiers);
diff --git a/source/ast/nodes/generic_selection.c b/source/ast/nodes/generic_selection.c
index 4d48aa8..076e16a 100644
--- a/source/ast/nodes/generic_selection.c
+++ b/source/ast/nodes/generic_selection.c
@@ -95,8 +95,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
         struct kefir_ast_generic_selection_assoc *clone_assoc =
-            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc *));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc));
+        REQUIRE_ELSE(clone_assoc != NULL, {
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -104,7 +104,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
         });
 
         struct kefir_ast_node_base *clone_type_name = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(assoc->type_name));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+        REQUIRE_ELSE(clone_type_name != NULL, {
+            KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -132,7 +133,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
             return NULL;
         });
         res = kefir_list_insert_after(mem, &clone->associations, kefir_list_tail(&clone->associations), clone_assoc);
-        REQUIRE_ELSE(clone_assoc->expr != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, clone_assoc->expr);
             KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(clone_assoc->type_name));
             KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
diff --git a/source/ast/nodes/init_declarator.c b/source/ast/nodes/init_declarator.c
index e875ba5..423b005 100644
--- a/source/ast/nodes/init_declarator.c
+++ b/source/ast/nodes/init_declarator.c
@@ -76,7 +76,9 @@ struct kefir_ast_node_base *ast_init_declarator_clone(struct kefir_mem *mem, str
     if (node->initializer != NULL) {
         clone->initializer = kefir_ast_initializer_clone(mem, node->initializer);
         REQUIRE_ELSE(clone->initializer != NULL, {
-            kefir_ast_declarator_free(mem, clone->declarator);
+            if (clone->declarator != NULL) {
+                kefir_ast_declarator_free(mem, clone->declarator);
+            }
             KEFIR_FREE(mem, clone);
             return NULL;
         });
diff --git a/source/ast/nodes/struct_member.c b/source/ast/nodes/struct_member.c
index 0568c05..0ce33a3 100644
--- a/source/ast/nodes/struct_member.c
+++ b/source/ast/nodes/struct_member.c
@@ -77,7 +77,7 @@ struct kefir_ast_struct_member *kefir_ast_new_struct_member(struct kefir_mem *me
     REQUIRE(structure != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     const char *member_copy = kefir_symbol_table_insert(mem, symbols, member, NULL);
-    REQUIRE(member != NULL, NULL);
+    REQUIRE(member_copy != NULL, NULL);
     struct kefir_ast_struct_member *struct_member = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_member));
     REQUIRE(struct_member != NULL, NULL);
     struct_member->base.klass = &AST_STRUCT_MEMBER_CLASS;
@@ -106,7 +106,7 @@ struct kefir_ast_struct_member *kefir_ast_new_struct_indirect_member(struct kefi
     REQUIRE(structure != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     const char *member_copy = kefir_symbol_table_insert(mem, symbols, member, NULL);
-    REQUIRE(member != NULL, NULL);
+    REQUIRE(member_copy != NULL, NULL);
     struct kefir_ast_struct_member *struct_member = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_member));
     REQUIRE(struct_member != NULL, NULL);
     struct_member->base.klass = &AST_STRUCT_INDIRECT_MEMBER_CLASS;
-- 
2.43.0


From d9d5a5b6a743dad638d044ed07abe39844189679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 07/40] fix: AST contexts and flow control release entries on
 error paths

---
 source/ast/context_impl.c                 | 12 ++++-
 source/ast/flow_control.c                 |  5 +-
 source/ast/function_declaration_context.c | 34 ++++++++-----
 source/ast/global_context.c               | 59 ++++++++++++++++------
 source/ast/local_context.c                | 60 +++++++++++++++++------
 5 files changed, 123 insertions(+), 47 deletions(-)

diff --git a/source/ast/context_impl.c b/source/ast/context_impl.c
index 75c91dc..3cc0434 100644
--- a/source/ast/context_impl.c
+++ b/source/ast/context_impl.c
@@ -41,7 +41,9 @@ kefir_result_t kefir_ast_context_free_scoped_identifier(struct kefir_mem *mem,
             break;
 
         case KEFIR_AST_SCOPE_IDENTIFIER_ENUM_CONSTANT:
-            REQUIRE_OK(kefir_ast_constant_expression_free(mem, scoped_id->enum_constant.value));
+            if (scoped_id->enum_constant.value != NULL) {
+                REQUIRE_OK(kefir_ast_constant_expression_free(mem, scoped_id->enum_constant.value));
+            }
             break;
 
         case KEFIR_AST_SCOPE_IDENTIFIER_LABEL:
@@ -63,6 +65,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_object_ide
     struct kefir_ast_alignment *alignment, kefir_ast_scoped_identifier_linkage_t linkage, kefir_bool_t external,
     struct kefir_ast_initializer *initializer) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_OBJECT;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -89,6 +92,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_object_ide
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_constant(
     struct kefir_mem *mem, struct kefir_ast_constant_expression *value, const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_ENUM_CONSTANT;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -103,6 +107,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_constant(
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_tag(struct kefir_mem *mem,
                                                                                const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_TYPE_TAG;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -116,6 +121,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_tag(s
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_definition(
     struct kefir_mem *mem, const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_TYPE_DEFINITION;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -179,6 +185,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_function_i
     struct kefir_mem *mem, const struct kefir_ast_type *type, kefir_ast_function_specifier_t specifier,
     kefir_ast_scoped_identifier_storage_t storage, kefir_bool_t external, kefir_bool_t defined) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -198,6 +205,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_function_i
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_label(
     struct kefir_mem *mem, struct kefir_ast_flow_control_structure *parent) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_LABEL;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -219,7 +227,7 @@ kefir_result_t kefir_ast_context_merge_alignment(struct kefir_mem *mem, struct k
     REQUIRE(alignment != NULL, KEFIR_OK);
     if (*original == NULL) {
         *original = alignment;
-    } else if (alignment->value > (*original)->value) {
+    } else if ((*original)->klass == KEFIR_AST_ALIGNMENT_DEFAULT || alignment->value > (*original)->value) {
         REQUIRE_OK(kefir_ast_alignment_free(mem, *original));
         *original = alignment;
     } else {
diff --git a/source/ast/flow_control.c b/source/ast/flow_control.c
index cd7f4c5..83ef6e8 100644
--- a/source/ast/flow_control.c
+++ b/source/ast/flow_control.c
@@ -334,10 +334,7 @@ kefir_result_t kefir_ast_flow_control_tree_push(struct kefir_mem *mem, struct ke
 
     kefir_result_t res = kefir_tree_insert_child(mem, tree->current, stmt, &tree->current);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        if (type == KEFIR_AST_FLOW_CONTROL_STRUCTURE_SWITCH) {
-            kefir_hashtree_free(mem, &stmt->value.switchStatement.cases);
-        }
-        KEFIR_FREE(mem, stmt);
+        flow_control_statement_free(mem, stmt, NULL);
         return res;
     });
     ASSIGN_PTR(statement, stmt);
diff --git a/source/ast/function_declaration_context.c b/source/ast/function_declaration_context.c
index 5f0d4f9..4c3240d 100644
--- a/source/ast/function_declaration_context.c
+++ b/source/ast/function_declaration_context.c
@@ -89,15 +89,19 @@ static kefir_result_t scoped_context_define_identifier(struct kefir_mem *mem,
                                           "Redeclaration of the same identifier with no linkage is not permitted");
         } else {
             REQUIRE(res == KEFIR_NOT_FOUND, res);
+            const char *id = kefir_symbol_table_insert(mem, context->parent->symbols, identifier, NULL);
+            REQUIRE(id != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert identifier into symbol table"));
             scoped_id = kefir_ast_context_allocate_scoped_object_identifier(
                 mem, type, storage_class, NULL, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE, false, NULL);
             REQUIRE(scoped_id != NULL,
                     KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
 
-            const char *id = kefir_symbol_table_insert(mem, context->parent->symbols, identifier, NULL);
-            REQUIRE(id != NULL,
-                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert identifier into symbol table"));
-            REQUIRE_OK(kefir_ast_identifier_flat_scope_insert(mem, &context->ordinary_scope, id, scoped_id));
+            res = kefir_ast_identifier_flat_scope_insert(mem, &context->ordinary_scope, id, scoped_id);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_ast_context_free_scoped_identifier(mem, scoped_id, NULL);
+                return res;
+            });
         }
         ASSIGN_PTR(scoped_id_ptr, scoped_id);
     }
@@ -126,14 +130,19 @@ static kefir_result_t scoped_context_define_constant(struct kefir_mem *mem,
             return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Cannot redefine constant");
         } else {
             REQUIRE(res == KEFIR_NOT_FOUND, res);
-            scoped_id = kefir_ast_context_allocate_scoped_constant(mem, value, type);
-            REQUIRE(scoped_id != NULL,
-                    KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
-
             const char *id = kefir_symbol_table_insert(mem, context->parent->symbols, identifier, NULL);
             REQUIRE(id != NULL,
                     KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert identifier into symbol table"));
-            REQUIRE_OK(kefir_ast_identifier_flat_scope_insert(mem, &context->ordinary_scope, id, scoped_id));
+            scoped_id = kefir_ast_context_allocate_scoped_constant(mem, NULL, type);
+            REQUIRE(scoped_id != NULL,
+                    KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
+
+            res = kefir_ast_identifier_flat_scope_insert(mem, &context->ordinary_scope, id, scoped_id);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_ast_context_free_scoped_identifier(mem, scoped_id, NULL);
+                return res;
+            });
+            scoped_id->enum_constant.value = value;
         }
     }
     return KEFIR_OK;
@@ -162,12 +171,12 @@ static kefir_result_t scoped_context_define_tag(struct kefir_mem *mem,
             REQUIRE_OK(kefir_ast_context_update_existing_scoped_type_tag(scoped_id, type));
         } else {
             REQUIRE(res == KEFIR_NOT_FOUND, res);
-            scoped_id = kefir_ast_context_allocate_scoped_type_tag(mem, type);
-            REQUIRE(scoped_id != NULL,
-                    KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
             const char *id = kefir_symbol_table_insert(mem, context->parent->symbols, identifier, NULL);
             REQUIRE(id != NULL,
                     KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert identifier into symbol table"));
+            scoped_id = kefir_ast_context_allocate_scoped_type_tag(mem, type);
+            REQUIRE(scoped_id != NULL,
+                    KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
             res = kefir_ast_identifier_flat_scope_insert(mem, &context->tag_scope, id, scoped_id);
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_ast_context_free_scoped_identifier(mem, scoped_id, NULL);
@@ -268,6 +277,7 @@ static kefir_result_t context_define_identifier(
 
     const struct kefir_ast_type *adjusted_type =
         kefir_ast_type_conv_adjust_function_parameter(mem, context->type_bundle, unqualified_type);
+    REQUIRE(adjusted_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(
         !KEFIR_AST_TYPE_IS_INCOMPLETE(adjusted_type),
         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Identifier with no linkage shall have complete type"));
diff --git a/source/ast/global_context.c b/source/ast/global_context.c
index eab8d4c..bc403ca 100644
--- a/source/ast/global_context.c
+++ b/source/ast/global_context.c
@@ -450,14 +450,16 @@ kefir_result_t kefir_ast_global_context_declare_external(struct kefir_mem *mem,
         REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, ordinary_id->object.type, type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                        "All declarations of the same identifier shall have compatible types"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, true, NULL);
+        REQUIRE(ordinary_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -466,6 +468,7 @@ kefir_result_t kefir_ast_global_context_declare_external(struct kefir_mem *mem,
     }
 
     REQUIRE_OK(insert_ordinary_identifier(mem, context, identifier, ordinary_id));
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id, ordinary_id);
     return KEFIR_OK;
 }
@@ -499,14 +502,16 @@ kefir_result_t kefir_ast_global_context_declare_external_thread_local(
         REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, ordinary_id->object.type, type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                        "All declarations of the same identifier shall have compatible types"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, true, NULL);
+        REQUIRE(ordinary_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -515,6 +520,7 @@ kefir_result_t kefir_ast_global_context_declare_external_thread_local(
     }
 
     REQUIRE_OK(insert_ordinary_identifier(mem, context, identifier, ordinary_id));
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id, ordinary_id);
     return KEFIR_OK;
 }
@@ -551,15 +557,17 @@ kefir_result_t kefir_ast_global_context_define_external(struct kefir_mem *mem, s
                                        "All declarations of the same identifier shall have compatible types"));
         REQUIRE(initializer == NULL || ordinary_id->object.initializer == NULL,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Redefinition of identifier is not permitted"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->object.external = false;
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -581,11 +589,13 @@ kefir_result_t kefir_ast_global_context_define_external(struct kefir_mem *mem, s
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id, ordinary_id);
     return KEFIR_OK;
 }
@@ -620,15 +630,17 @@ kefir_result_t kefir_ast_global_context_define_external_thread_local(
                                        "All declarations of the same identifier shall have compatible types"));
         REQUIRE(initializer == NULL || ordinary_id->object.initializer == NULL,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Redefinition of identifier is not permitted"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->object.external = false;
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -650,10 +662,12 @@ kefir_result_t kefir_ast_global_context_define_external_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id, ordinary_id);
     return KEFIR_OK;
 }
@@ -692,9 +706,10 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Identifier with static storage duration cannot be external"));
         REQUIRE(initializer == NULL || ordinary_id->object.initializer == NULL,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Redefinition of identifier is not permitted"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         if (initializer == NULL) {
@@ -703,8 +718,9 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
                                            "Tentative definition with internal linkage shall have complete type"));
         }
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_INTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -726,10 +742,12 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id, ordinary_id);
     return KEFIR_OK;
 }
@@ -766,9 +784,10 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Identifier with static storage duration cannot be external"));
         REQUIRE(initializer == NULL || ordinary_id->object.initializer == NULL,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Redefinition of identifier is not permitted"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         if (initializer == NULL) {
@@ -777,8 +796,9 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
                                            "Tentative definition with internal linkage shall have complete type"));
         }
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_INTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -800,10 +820,12 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id, ordinary_id);
     return KEFIR_OK;
 }
@@ -832,7 +854,7 @@ kefir_result_t kefir_ast_global_context_define_constant(struct kefir_mem *mem, s
         return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Cannot redefine constant");
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
-        scoped_id = kefir_ast_context_allocate_scoped_constant(mem, value, type);
+        scoped_id = kefir_ast_context_allocate_scoped_constant(mem, NULL, type);
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->constant_identifiers, identifier, scoped_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
@@ -841,6 +863,7 @@ kefir_result_t kefir_ast_global_context_define_constant(struct kefir_mem *mem, s
         });
         REQUIRE_OK(kefir_ast_identifier_flat_scope_insert(mem, &context->ordinary_scope, identifier, scoped_id));
     }
+    scoped_id->enum_constant.value = value;
     ASSIGN_PTR(scoped_id_ptr, scoped_id);
     return KEFIR_OK;
 }
@@ -867,10 +890,10 @@ kefir_result_t kefir_ast_global_context_define_tag(struct kefir_mem *mem, struct
         REQUIRE_OK(kefir_ast_context_update_existing_scoped_type_tag(scoped_id, type));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
-        scoped_id = kefir_ast_context_allocate_scoped_type_tag(mem, type);
-        REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         const char *id = kefir_symbol_table_insert(mem, &context->symbols, identifier, NULL);
         REQUIRE(id != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert identifier into symbol table"));
+        scoped_id = kefir_ast_context_allocate_scoped_type_tag(mem, type);
+        REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->tag_scope, id, scoped_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, scoped_id, NULL);
@@ -956,6 +979,8 @@ kefir_result_t kefir_ast_global_context_declare_function(struct kefir_mem *mem,
                                        "All declarations of the same identifier shall have compatible types"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits,
                                                               ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
     } else {
@@ -1009,6 +1034,8 @@ kefir_result_t kefir_ast_global_context_define_function(struct kefir_mem *mem, s
                                        "Cannot redefine function with the same identifier"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits,
                                                               ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
         ordinary_id->function.external = false;
@@ -1065,6 +1092,8 @@ kefir_result_t kefir_ast_global_context_define_static_function(
                                        "Cannot redefine function with the same identifier"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits,
                                                               ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
         ordinary_id->function.defined = ordinary_id->function.defined || !declaration;
diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 7719f7c..47b8180 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -352,7 +352,11 @@ kefir_result_t kefir_ast_local_context_init(struct kefir_mem *mem, struct kefir_
     REQUIRE_OK(kefir_list_init(&context->identifiers));
     REQUIRE_OK(kefir_list_on_remove(&context->identifiers, free_scoped_identifier, NULL));
     REQUIRE_OK(kefir_ast_identifier_block_scope_init(mem, &context->ordinary_scope));
-    REQUIRE_OK(kefir_ast_identifier_block_scope_init(mem, &context->tag_scope));
+    kefir_result_t res = kefir_ast_identifier_block_scope_init(mem, &context->tag_scope);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_identifier_block_scope_free(mem, &context->ordinary_scope);
+        return res;
+    });
     REQUIRE_OK(kefir_ast_identifier_block_scope_on_removal(&context->tag_scope,
                                                            kefir_ast_context_free_scoped_identifier, NULL));
     REQUIRE_OK(kefir_ast_identifier_flat_scope_init(&context->label_scope));
@@ -388,9 +392,14 @@ kefir_result_t kefir_ast_local_context_init(struct kefir_mem *mem, struct kefir_
 
     context->context.extensions = global->context.extensions;
     context->context.extensions_payload = NULL;
-    kefir_result_t res;
     KEFIR_RUN_EXTENSION0(&res, mem, &context->context, on_init);
-    REQUIRE_OK(res);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_flow_control_tree_free(mem, &context->flow_control_tree);
+        kefir_ast_identifier_flat_scope_free(mem, &context->label_scope);
+        kefir_ast_identifier_block_scope_free(mem, &context->tag_scope);
+        kefir_ast_identifier_block_scope_free(mem, &context->ordinary_scope);
+        return res;
+    });
     return KEFIR_OK;
 }
 
@@ -525,22 +534,26 @@ kefir_result_t kefir_ast_local_context_declare_external(struct kefir_mem *mem, s
         REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->global->type_traits, ordinary_id->object.type, type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                        "All declarations of the same identifier shall have compatible types"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ASSIGN_PTR(scoped_id, ordinary_id);
     } else if (global_ordinary_id != NULL) {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         REQUIRE_OK(
             kefir_ast_identifier_block_scope_insert(mem, &context->ordinary_scope, identifier, global_ordinary_id));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &global_ordinary_id->object.alignment, alignment));
         global_ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, global_ordinary_id->object.type, type);
+        REQUIRE(global_ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &global_ordinary_id->object.alignment, alignment));
         ASSIGN_PTR(scoped_id, global_ordinary_id);
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         struct kefir_ast_scoped_identifier *ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, true, NULL);
         REQUIRE(ordinary_id != NULL,
                 KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
@@ -551,6 +564,7 @@ kefir_result_t kefir_ast_local_context_declare_external(struct kefir_mem *mem, s
             return res;
         });
         REQUIRE_OK(kefir_ast_identifier_block_scope_insert(mem, &context->ordinary_scope, identifier, ordinary_id));
+        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ASSIGN_PTR(scoped_id, ordinary_id);
     }
 
@@ -586,22 +600,26 @@ kefir_result_t kefir_ast_local_context_declare_external_thread_local(
         REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->global->type_traits, ordinary_id->object.type, type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                        "All declarations of the same identifier shall have compatible types"));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ASSIGN_PTR(scoped_id, ordinary_id);
     } else if (global_ordinary_id != NULL) {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         REQUIRE_OK(
             kefir_ast_identifier_block_scope_insert(mem, &context->ordinary_scope, identifier, global_ordinary_id));
-        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &global_ordinary_id->object.alignment, alignment));
         global_ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, global_ordinary_id->object.type, type);
+        REQUIRE(global_ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &global_ordinary_id->object.alignment, alignment));
         ASSIGN_PTR(scoped_id, global_ordinary_id);
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         struct kefir_ast_scoped_identifier *ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, true, NULL);
         REQUIRE(ordinary_id != NULL,
                 KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
@@ -612,6 +630,7 @@ kefir_result_t kefir_ast_local_context_declare_external_thread_local(
             return res;
         });
         REQUIRE_OK(kefir_ast_identifier_block_scope_insert(mem, &context->ordinary_scope, identifier, ordinary_id));
+        REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ASSIGN_PTR(scoped_id, ordinary_id);
     }
     return KEFIR_OK;
@@ -651,7 +670,7 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         scoped_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC, alignment, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC, NULL, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE,
             false, initializer);
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_list_insert_after(mem, &context->identifiers, kefir_list_tail(&context->identifiers), scoped_id);
@@ -673,6 +692,7 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
@@ -680,6 +700,7 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
                                        "Identifier with no linkage shall have complete type"));
         scoped_id->type = type;
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &scoped_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id_ptr, scoped_id);
     return KEFIR_OK;
 }
@@ -717,7 +738,7 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         scoped_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL, alignment,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL, NULL,
             KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE, false, initializer);
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_list_insert_after(mem, &context->identifiers, kefir_list_tail(&context->identifiers), scoped_id);
@@ -739,6 +760,7 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
@@ -746,6 +768,7 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
                                        "Identifier with no linkage shall have complete type"));
         scoped_id->type = type;
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &scoped_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id_ptr, scoped_id);
     return KEFIR_OK;
 }
@@ -817,7 +840,7 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         scoped_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_AUTO, alignment, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_AUTO, NULL, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE,
             false, initializer);
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_list_insert_after(mem, &context->identifiers, kefir_list_tail(&context->identifiers), scoped_id);
@@ -839,6 +862,7 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
@@ -850,6 +874,7 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
         REQUIRE_OK(register_vla(mem, context, scoped_id));
     }
 
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &scoped_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id_ptr, scoped_id);
     return KEFIR_OK;
 }
@@ -883,7 +908,7 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         scoped_id = kefir_ast_context_allocate_scoped_object_identifier(
-            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_REGISTER, alignment, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE,
+            mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_REGISTER, NULL, KEFIR_AST_SCOPED_IDENTIFIER_NONE_LINKAGE,
             false, initializer);
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_list_insert_after(mem, &context->identifiers, kefir_list_tail(&context->identifiers), scoped_id);
@@ -905,6 +930,7 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
@@ -915,6 +941,7 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
     if (KEFIR_AST_TYPE_IS_VL_ARRAY(type)) {
         REQUIRE_OK(register_vla(mem, context, scoped_id));
     }
+    REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &scoped_id->object.alignment, alignment));
     ASSIGN_PTR(scoped_id_ptr, scoped_id);
     return KEFIR_OK;
 }
@@ -940,7 +967,7 @@ kefir_result_t kefir_ast_local_context_define_constant(struct kefir_mem *mem, st
         return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Cannot redefine constant");
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
-        scoped_id = kefir_ast_context_allocate_scoped_constant(mem, value, type);
+        scoped_id = kefir_ast_context_allocate_scoped_constant(mem, NULL, type);
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocted AST scoped identifier"));
         res = kefir_list_insert_after(mem, &context->identifiers, kefir_list_tail(&context->identifiers), scoped_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
@@ -951,6 +978,7 @@ kefir_result_t kefir_ast_local_context_define_constant(struct kefir_mem *mem, st
         REQUIRE(id != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to insert identifier into symbol table"));
         REQUIRE_OK(kefir_ast_identifier_block_scope_insert(mem, &context->ordinary_scope, id, scoped_id));
     }
+    scoped_id->enum_constant.value = value;
     ASSIGN_PTR(scoped_id_ptr, scoped_id);
     return KEFIR_OK;
 }
@@ -1074,6 +1102,8 @@ kefir_result_t kefir_ast_local_context_declare_function(struct kefir_mem *mem, s
                                        "All declarations of the same identifier shall have compatible types"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
         ASSIGN_PTR(scoped_id_ptr, ordinary_id);
@@ -1084,6 +1114,8 @@ kefir_result_t kefir_ast_local_context_declare_function(struct kefir_mem *mem, s
         global_ordinary_id->function.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->global->type_bundle, context->global->type_traits,
                                      global_ordinary_id->function.type, function);
+        REQUIRE(global_ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         global_ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(global_ordinary_id->function.specifier, specifier);
         ASSIGN_PTR(scoped_id_ptr, global_ordinary_id);
-- 
2.43.0


From 648de5ceaefdbaffcd863a006d141effdcfdaf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 08/40] fix: analyzer and constant expressions release
 resources and propagate failures

---
 source/ast/analyzer/assignable.c              |  1 +
 source/ast/analyzer/declarator.c              | 65 ++++++++++++++-----
 source/ast/analyzer/initializer.c             | 11 +++-
 source/ast/analyzer/nodes/array_subscript.c   |  2 +
 .../ast/analyzer/nodes/assignment_operator.c  |  4 ++
 source/ast/analyzer/nodes/binary_operation.c  |  2 +
 source/ast/analyzer/nodes/builtin.c           |  6 ++
 source/ast/analyzer/nodes/cast_operator.c     |  1 +
 source/ast/analyzer/nodes/comma_operator.c    |  1 +
 .../ast/analyzer/nodes/conditional_operator.c | 12 ++++
 .../analyzer/nodes/conditional_statement.c    |  1 +
 .../ast/analyzer/nodes/do_while_statement.c   |  1 +
 source/ast/analyzer/nodes/for_statement.c     |  1 +
 source/ast/analyzer/nodes/function_call.c     |  1 +
 .../ast/analyzer/nodes/function_definition.c  |  1 +
 source/ast/analyzer/nodes/generic_selection.c |  1 +
 source/ast/analyzer/nodes/goto_statement.c    |  1 +
 source/ast/analyzer/nodes/init_declarator.c   | 12 +++-
 source/ast/analyzer/nodes/label_address.c     |  1 +
 source/ast/analyzer/nodes/return_statement.c  |  1 +
 .../ast/analyzer/nodes/statement_expression.c |  1 +
 source/ast/analyzer/nodes/string_literal.c    | 10 ++-
 source/ast/analyzer/nodes/struct_member.c     |  2 +
 source/ast/analyzer/nodes/switch_statement.c  |  2 +
 source/ast/analyzer/nodes/unary_operation.c   |  6 ++
 source/ast/analyzer/nodes/while_statement.c   |  1 +
 source/ast/analyzer/type_traversal.c          | 23 +++++++
 .../constant_expression/generic_selection.c   |  1 +
 .../lvalue_constant_reference.c               |  1 +
 29 files changed, 150 insertions(+), 23 deletions(-)

diff --git a/source/ast/analyzer/assignable.c b/source/ast/analyzer/assignable.c
index be381db..ee988d1 100644
--- a/source/ast/analyzer/assignable.c
+++ b/source/ast/analyzer/assignable.c
@@ -88,6 +88,7 @@ kefir_result_t kefir_ast_node_assignable(struct kefir_mem *mem, const struct kef
 
     const struct kefir_ast_type *value_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->properties.type);
+    REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_type_assignable(mem, context, value_type,
                                          node->properties.expression_props.constant_expression, target_type));
     return KEFIR_OK;
diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 3da449b..5550f01 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -40,7 +40,14 @@ static kefir_result_t analyze_declaration_specifiers_impl(struct kefir_mem *, co
 
 static struct kefir_ast_alignment *wrap_alignment(struct kefir_mem *mem, kefir_size_t alignment) {
     if (alignment > 0) {
-        return kefir_ast_alignment_const_expression(mem, kefir_ast_constant_expression_integer(mem, alignment));
+        struct kefir_ast_constant_expression *const_expr = kefir_ast_constant_expression_integer(mem, alignment);
+        REQUIRE(const_expr != NULL, NULL);
+        struct kefir_ast_alignment *ast_alignment = kefir_ast_alignment_const_expression(mem, const_expr);
+        REQUIRE_ELSE(ast_alignment != NULL, {
+            kefir_ast_constant_expression_free(mem, const_expr);
+            return NULL;
+        });
+        return ast_alignment;
     } else {
         return NULL;
     }
@@ -246,18 +253,33 @@ static kefir_result_t resolve_enum_type(struct kefir_mem *mem, const struct kefi
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
                                                "Enumeration constant value shall be an integer constant expression"));
                 constant_value = value.integer;
-                REQUIRE_OK(
-                    kefir_ast_enumeration_type_constant(mem, context->symbols, enum_type, entry->constant,
-                                                        kefir_ast_constant_expression_integer(mem, constant_value)));
+                struct kefir_ast_constant_expression *enum_value =
+                    kefir_ast_constant_expression_integer(mem, constant_value);
+                REQUIRE(enum_value != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST constant expression"));
+                kefir_result_t res = kefir_ast_enumeration_type_constant(mem, context->symbols, enum_type,
+                                                                         entry->constant, enum_value);
+                REQUIRE_ELSE(res == KEFIR_OK, {
+                    kefir_ast_constant_expression_free(mem, enum_value);
+                    return res;
+                });
             } else {
                 REQUIRE_OK(kefir_ast_enumeration_type_constant_auto(mem, context->symbols, enum_type, entry->constant));
             }
 
             min_constant = MIN(min_constant, constant_value);
             max_constant = MAX(max_constant, constant_value);
-            REQUIRE_OK(context->define_constant(
-                mem, context, entry->constant, kefir_ast_constant_expression_integer(mem, constant_value++),
-                context->type_traits->underlying_enumeration_type, &decl_specifier->source_location));
+            struct kefir_ast_constant_expression *constant_expr =
+                kefir_ast_constant_expression_integer(mem, constant_value++);
+            REQUIRE(constant_expr != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST constant expression"));
+            kefir_result_t res = context->define_constant(mem, context, entry->constant, constant_expr,
+                                                          context->type_traits->underlying_enumeration_type,
+                                                          &decl_specifier->source_location);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_ast_constant_expression_free(mem, constant_expr);
+                return res;
+            });
         }
 
         if (!context->configuration->analysis.fixed_enum_type && kefir_list_length(&specifier->entries) > 0) {
@@ -795,29 +817,39 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(declarator->array.length->properties.type),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
                                                "Variable-length array declaration length shall have integral type"));
+                struct kefir_ast_node_base *vla_length = KEFIR_AST_NODE_CLONE(mem, declarator->array.length);
+                REQUIRE(vla_length != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to clone AST node"));
                 if (declarator->array.static_array) {
-                    *base_type = kefir_ast_type_vlen_array_static(mem, context->type_bundle, *base_type,
-                                                                  KEFIR_AST_NODE_CLONE(mem, declarator->array.length),
+                    *base_type = kefir_ast_type_vlen_array_static(mem, context->type_bundle, *base_type, vla_length,
                                                                   &qualification);
                 } else {
-                    *base_type =
-                        kefir_ast_type_vlen_array(mem, context->type_bundle, *base_type,
-                                                  KEFIR_AST_NODE_CLONE(mem, declarator->array.length), &qualification);
+                    *base_type = kefir_ast_type_vlen_array(mem, context->type_bundle, *base_type, vla_length,
+                                                           &qualification);
                 }
+                REQUIRE_ELSE(*base_type != NULL, {
+                    KEFIR_AST_NODE_FREE(mem, vla_length);
+                    return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST array type");
+                });
             } else {
                 REQUIRE_OK(res);
                 REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
                                                "Constant length of AST array declaration shall have integral type"));
+                struct kefir_ast_constant_expression *const_length =
+                    kefir_ast_constant_expression_integer(mem, value.integer);
+                REQUIRE(const_length != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST constant expression"));
                 if (declarator->array.static_array) {
-                    *base_type = kefir_ast_type_array_static(mem, context->type_bundle, *base_type,
-                                                             kefir_ast_constant_expression_integer(mem, value.integer),
+                    *base_type = kefir_ast_type_array_static(mem, context->type_bundle, *base_type, const_length,
                                                              &qualification);
                 } else {
                     *base_type =
-                        kefir_ast_type_array(mem, context->type_bundle, *base_type,
-                                             kefir_ast_constant_expression_integer(mem, value.integer), &qualification);
+                        kefir_ast_type_array(mem, context->type_bundle, *base_type, const_length, &qualification);
                 }
+                REQUIRE_ELSE(*base_type != NULL, {
+                    kefir_ast_constant_expression_free(mem, const_length);
+                    return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST array type");
+                });
             }
         } break;
     }
@@ -990,6 +1022,7 @@ static kefir_result_t analyze_declaration_specifiers_impl(
                                      kefir_ast_declarator_specifier_list_source_location(specifiers), &base_type));
     if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualification)) {
         base_type = kefir_ast_type_qualified(mem, context->type_bundle, base_type, qualification);
+        REQUIRE(base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     ASSIGN_PTR(type, base_type);
diff --git a/source/ast/analyzer/initializer.c b/source/ast/analyzer/initializer.c
index f2e8acf..5c2df9d 100644
--- a/source/ast/analyzer/initializer.c
+++ b/source/ast/analyzer/initializer.c
@@ -270,9 +270,16 @@ static kefir_result_t analyze_array(struct kefir_mem *mem, const struct kefir_as
     }
     if (properties != NULL) {
         if (type->array_type.boundary == KEFIR_AST_ARRAY_UNBOUNDED) {
+            struct kefir_ast_constant_expression *const_length =
+                kefir_ast_constant_expression_integer(mem, array_length);
+            REQUIRE(const_length != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST array length constant"));
             properties->type = kefir_ast_type_array(mem, context->type_bundle, type->array_type.element_type,
-                                                    kefir_ast_constant_expression_integer(mem, array_length),
-                                                    &type->array_type.qualifications);
+                                                    const_length, &type->array_type.qualifications);
+            REQUIRE_ELSE(properties->type != NULL, {
+                kefir_ast_constant_expression_free(mem, const_length);
+                return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type");
+            });
         } else {
             properties->type = type;
         }
diff --git a/source/ast/analyzer/nodes/array_subscript.c b/source/ast/analyzer/nodes/array_subscript.c
index f785d13..20c979f 100644
--- a/source/ast/analyzer/nodes/array_subscript.c
+++ b/source/ast/analyzer/nodes/array_subscript.c
@@ -45,8 +45,10 @@ kefir_result_t kefir_ast_analyze_array_subscript_node(struct kefir_mem *mem, con
 
     const struct kefir_ast_type *array_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->array->properties.type);
+    REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *subcript_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->subscript->properties.type);
+    REQUIRE(subcript_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type = NULL;
     if (array_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(subcript_type),
diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index 5e7a063..606110b 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -29,6 +29,7 @@ static kefir_result_t validate_simple_assignment(struct kefir_mem *mem, const st
                                                  const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(target_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     kefir_result_t res;
     REQUIRE_MATCH_OK(&res, kefir_ast_node_assignable(mem, context, node->value, target_type),
@@ -42,8 +43,10 @@ static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const
                                                    const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(target_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->value->properties.type);
+    REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     switch (node->operation) {
         case KEFIR_AST_ASSIGNMENT_MULTIPLY:
         case KEFIR_AST_ASSIGNMENT_DIVIDE:
@@ -136,5 +139,6 @@ kefir_result_t kefir_ast_analyze_assignment_operator_node(struct kefir_mem *mem,
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 76f3759..788ea0e 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -244,8 +244,10 @@ kefir_result_t kefir_ast_analyze_binary_operation_node(struct kefir_mem *mem, co
 
     const struct kefir_ast_type *type1 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg1->properties.type);
+    REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type2 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg2->properties.type);
+    REQUIRE(type2 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.expression_props.constant_expression =
diff --git a/source/ast/analyzer/nodes/builtin.c b/source/ast/analyzer/nodes/builtin.c
index aabad3a..17cf177 100644
--- a/source/ast/analyzer/nodes/builtin.c
+++ b/source/ast/analyzer/nodes/builtin.c
@@ -121,6 +121,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &size->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_BUILTIN_ALLOCA_WITH_ALIGN: {
@@ -140,6 +142,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &alignment->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_BUILTIN_ALLOCA_WITH_ALIGN_AND_MAX: {
@@ -160,6 +164,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &alignment->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
     }
     return KEFIR_OK;
diff --git a/source/ast/analyzer/nodes/cast_operator.c b/source/ast/analyzer/nodes/cast_operator.c
index e713dac..ef7945a 100644
--- a/source/ast/analyzer/nodes/cast_operator.c
+++ b/source/ast/analyzer/nodes/cast_operator.c
@@ -42,6 +42,7 @@ kefir_result_t kefir_ast_analyze_cast_operator_node(struct kefir_mem *mem, const
 
     const struct kefir_ast_type *expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, cast->expr->properties.type);
+    REQUIRE(expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *cast_type = kefir_ast_unqualified_type(cast->type_name->base.properties.type);
     REQUIRE((KEFIR_AST_TYPE_IS_SCALAR_TYPE(expr_type) && KEFIR_AST_TYPE_IS_SCALAR_TYPE(cast_type)) ||
                 cast->type_name->base.properties.type->tag == KEFIR_AST_TYPE_VOID,
diff --git a/source/ast/analyzer/nodes/comma_operator.c b/source/ast/analyzer/nodes/comma_operator.c
index 53cd551..6d17923 100644
--- a/source/ast/analyzer/nodes/comma_operator.c
+++ b/source/ast/analyzer/nodes/comma_operator.c
@@ -49,6 +49,7 @@ kefir_result_t kefir_ast_analyze_comma_operator_node(struct kefir_mem *mem, cons
                                        "All comma operands shall be expressions"));
 
         base->properties.type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr->properties.type);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     return KEFIR_OK;
diff --git a/source/ast/analyzer/nodes/conditional_operator.c b/source/ast/analyzer/nodes/conditional_operator.c
index 2f7943b..c651f1d 100644
--- a/source/ast/analyzer/nodes/conditional_operator.c
+++ b/source/ast/analyzer/nodes/conditional_operator.c
@@ -57,10 +57,13 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
 
     const struct kefir_ast_type *cond_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->condition->properties.type);
+    REQUIRE(cond_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type1 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, left_expr->properties.type);
+    REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type2 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expr2->properties.type);
+    REQUIRE(type2 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
@@ -113,19 +116,28 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
                 if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&total_qualifications)) {
                     result_type =
                         kefir_ast_type_qualified(mem, context->type_bundle, result_type, total_qualifications);
+                    REQUIRE(result_type != NULL,
+                            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
                 base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, result_type);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             } else {
                 REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, unqualified1, unqualified2),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &left_expr->source_location,
                                                "Both conditional expressions shall have compatible types"));
                 const struct kefir_ast_type *result_type = KEFIR_AST_TYPE_COMPOSITE(
                     mem, context->type_bundle, context->type_traits, unqualified1, unqualified2);
+                REQUIRE(result_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&total_qualifications)) {
                     result_type =
                         kefir_ast_type_qualified(mem, context->type_bundle, result_type, total_qualifications);
+                    REQUIRE(result_type != NULL,
+                            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
                 base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, result_type);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             }
         }
     }
diff --git a/source/ast/analyzer/nodes/conditional_statement.c b/source/ast/analyzer/nodes/conditional_statement.c
index ed8180d..aa25856 100644
--- a/source/ast/analyzer/nodes/conditional_statement.c
+++ b/source/ast/analyzer/nodes/conditional_statement.c
@@ -68,6 +68,7 @@ kefir_result_t kefir_ast_analyze_conditional_statement_node(struct kefir_mem *me
 
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->condition->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->condition->source_location,
                                    "Expected if statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/do_while_statement.c b/source/ast/analyzer/nodes/do_while_statement.c
index da179cc..ba03ec5 100644
--- a/source/ast/analyzer/nodes/do_while_statement.c
+++ b/source/ast/analyzer/nodes/do_while_statement.c
@@ -64,6 +64,7 @@ kefir_result_t kefir_ast_analyze_do_while_statement_node(struct kefir_mem *mem,
                                    "Expected do while statement controlling expression to be scalar expression"));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                    "Expected do while statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/for_statement.c b/source/ast/analyzer/nodes/for_statement.c
index 34c2cc7..4eb2162 100644
--- a/source/ast/analyzer/nodes/for_statement.c
+++ b/source/ast/analyzer/nodes/for_statement.c
@@ -97,6 +97,7 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
                                        "Expected the second clause of for statement to be an expression"));
         const struct kefir_ast_type *condition_type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+        REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                        "Expected for statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/function_call.c b/source/ast/analyzer/nodes/function_call.c
index 2f6d30e..b6788c8 100644
--- a/source/ast/analyzer/nodes/function_call.c
+++ b/source/ast/analyzer/nodes/function_call.c
@@ -72,6 +72,7 @@ kefir_result_t kefir_ast_analyze_function_call_node(struct kefir_mem *mem, const
 
     const struct kefir_ast_type *func_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->function->properties.type);
+    REQUIRE(func_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(
         func_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER && func_type->referenced_type->tag == KEFIR_AST_TYPE_FUNCTION,
         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->function->source_location,
diff --git a/source/ast/analyzer/nodes/function_definition.c b/source/ast/analyzer/nodes/function_definition.c
index d242b0d..eb94edc 100644
--- a/source/ast/analyzer/nodes/function_definition.c
+++ b/source/ast/analyzer/nodes/function_definition.c
@@ -98,6 +98,7 @@ static kefir_result_t analyze_function_parameter_identifiers_impl(struct kefir_m
             }
 
             type = kefir_ast_type_conv_adjust_function_parameter(mem, context->type_bundle, original_type);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
             REQUIRE(kefir_hashtree_has(argtree, (kefir_hashtree_key_t) identifier),
                     KEFIR_SET_SOURCE_ERROR(
diff --git a/source/ast/analyzer/nodes/generic_selection.c b/source/ast/analyzer/nodes/generic_selection.c
index f043c43..fe6695a 100644
--- a/source/ast/analyzer/nodes/generic_selection.c
+++ b/source/ast/analyzer/nodes/generic_selection.c
@@ -36,6 +36,7 @@ kefir_result_t kefir_ast_analyze_generic_selection_node(struct kefir_mem *mem, c
     REQUIRE_OK(kefir_ast_analyze_node(mem, context, node->control));
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     kefir_bool_t matched = false;
diff --git a/source/ast/analyzer/nodes/goto_statement.c b/source/ast/analyzer/nodes/goto_statement.c
index 5402151..fabc533 100644
--- a/source/ast/analyzer/nodes/goto_statement.c
+++ b/source/ast/analyzer/nodes/goto_statement.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_goto_statement_node(struct kefir_mem *mem, cons
 
         const struct kefir_ast_type *type1 =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+        REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                        "Goto operand shall be derefenced pointer"));
diff --git a/source/ast/analyzer/nodes/init_declarator.c b/source/ast/analyzer/nodes/init_declarator.c
index 94f22e3..f5b7a11 100644
--- a/source/ast/analyzer/nodes/init_declarator.c
+++ b/source/ast/analyzer/nodes/init_declarator.c
@@ -57,9 +57,15 @@ kefir_result_t kefir_ast_analyze_init_declarator_node(struct kefir_mem *mem, con
     if (base->properties.declaration_props.identifier != NULL) {
         struct kefir_ast_alignment *alignment = NULL;
         if (base->properties.declaration_props.alignment != 0) {
-            alignment = kefir_ast_alignment_const_expression(
-                mem, kefir_ast_constant_expression_integer(mem, base->properties.declaration_props.alignment));
-            REQUIRE(alignment != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST alignment"));
+            struct kefir_ast_constant_expression *alignment_expr =
+                kefir_ast_constant_expression_integer(mem, base->properties.declaration_props.alignment);
+            REQUIRE(alignment_expr != NULL,
+                    KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST constant expression"));
+            alignment = kefir_ast_alignment_const_expression(mem, alignment_expr);
+            REQUIRE_ELSE(alignment != NULL, {
+                kefir_ast_constant_expression_free(mem, alignment_expr);
+                return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST alignment");
+            });
         }
 
         const struct kefir_ast_scoped_identifier *scoped_id = NULL;
diff --git a/source/ast/analyzer/nodes/label_address.c b/source/ast/analyzer/nodes/label_address.c
index 9cc3b1b..b11daaf 100644
--- a/source/ast/analyzer/nodes/label_address.c
+++ b/source/ast/analyzer/nodes/label_address.c
@@ -43,6 +43,7 @@ kefir_result_t kefir_ast_analyze_label_address_node(struct kefir_mem *mem, const
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     base->properties.expression_props.scoped_id = scoped_id;
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/return_statement.c b/source/ast/analyzer/nodes/return_statement.c
index 531d312..c777816 100644
--- a/source/ast/analyzer/nodes/return_statement.c
+++ b/source/ast/analyzer/nodes/return_statement.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_return_statement_node(struct kefir_mem *mem, co
                                        "Return statement with no expression shall appear only in void function"));
         const struct kefir_ast_type *value_type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expression->properties.type);
+        REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
         kefir_result_t res;
         REQUIRE_MATCH_OK(&res,
diff --git a/source/ast/analyzer/nodes/statement_expression.c b/source/ast/analyzer/nodes/statement_expression.c
index 3ba059a..5c46dba 100644
--- a/source/ast/analyzer/nodes/statement_expression.c
+++ b/source/ast/analyzer/nodes/statement_expression.c
@@ -71,6 +71,7 @@ kefir_result_t kefir_ast_analyze_statement_expression_node(struct kefir_mem *mem
 
         base->properties.type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr_statement->expression->properties.type);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         base->properties.type = kefir_ast_type_void();
     }
diff --git a/source/ast/analyzer/nodes/string_literal.c b/source/ast/analyzer/nodes/string_literal.c
index d4c028c..9031e74 100644
--- a/source/ast/analyzer/nodes/string_literal.c
+++ b/source/ast/analyzer/nodes/string_literal.c
@@ -58,8 +58,14 @@ kefir_result_t kefir_ast_analyze_string_literal_node(struct kefir_mem *mem, cons
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
-    base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type,
-                                                 kefir_ast_constant_expression_integer(mem, node->length), NULL);
+    struct kefir_ast_constant_expression *length = kefir_ast_constant_expression_integer(mem, node->length);
+    REQUIRE(length != NULL,
+            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST array length constant"));
+    base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type, length, NULL);
+    REQUIRE_ELSE(base->properties.type != NULL, {
+        kefir_ast_constant_expression_free(mem, length);
+        return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type");
+    });
     base->properties.expression_props.constant_expression = true;
     base->properties.expression_props.string_literal.type = node->type;
     base->properties.expression_props.string_literal.content = node->literal;
diff --git a/source/ast/analyzer/nodes/struct_member.c b/source/ast/analyzer/nodes/struct_member.c
index e929665..9b60a99 100644
--- a/source/ast/analyzer/nodes/struct_member.c
+++ b/source/ast/analyzer/nodes/struct_member.c
@@ -45,6 +45,7 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     const struct kefir_ast_type_qualification *qualification = NULL;
     if (base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER) {
         struct_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, struct_type);
+        REQUIRE(struct_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(struct_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->structure->source_location,
                                        "Expected pointer type on the left side of arrow operator"));
@@ -75,6 +76,7 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     REQUIRE_OK(kefir_ast_type_completion(mem, context, &type, field->type));
     if (qualification != NULL) {
         type = kefir_ast_type_qualified(mem, context->type_bundle, type, *qualification);
+        REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
diff --git a/source/ast/analyzer/nodes/switch_statement.c b/source/ast/analyzer/nodes/switch_statement.c
index a7ae5aa..d2330d1 100644
--- a/source/ast/analyzer/nodes/switch_statement.c
+++ b/source/ast/analyzer/nodes/switch_statement.c
@@ -53,6 +53,8 @@ kefir_result_t kefir_ast_analyze_switch_statement_node(struct kefir_mem *mem, co
 
     const struct kefir_ast_type *normalized_controlling_expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expression->properties.type);
+    REQUIRE(normalized_controlling_expr_type != NULL,
+            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_controlling_expr_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                    "Expected switch controlling expression to be an integral expression"));
diff --git a/source/ast/analyzer/nodes/unary_operation.c b/source/ast/analyzer/nodes/unary_operation.c
index 1119f91..d3d7ec6 100644
--- a/source/ast/analyzer/nodes/unary_operation.c
+++ b/source/ast/analyzer/nodes/unary_operation.c
@@ -44,6 +44,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Unary operator operand shall be an arithmetic expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Unary operator operand shall be an arithmetic expression"));
@@ -63,6 +64,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Inversion operand shall be an integral expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Inversion operand shall be an integral expression"));
@@ -78,6 +80,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Logical negation operand shall be a scalar expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Logical negation operand shall be a scalar expression"));
@@ -121,6 +124,8 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                 context, node->arg, &base->properties.expression_props.constant_expression));
             const struct kefir_ast_type *type = node->arg->properties.type;
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, type);
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_OPERATION_INDIRECTION: {
@@ -129,6 +134,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Indirection operator operand shall be a pointer"));
             const struct kefir_ast_type *type =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(type->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Indirection operator operand shall be a pointer"));
diff --git a/source/ast/analyzer/nodes/while_statement.c b/source/ast/analyzer/nodes/while_statement.c
index e7dd32f..34addbe 100644
--- a/source/ast/analyzer/nodes/while_statement.c
+++ b/source/ast/analyzer/nodes/while_statement.c
@@ -66,6 +66,7 @@ kefir_result_t kefir_ast_analyze_while_statement_node(struct kefir_mem *mem, con
 
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                    "Expected while statement controlling expression to be scalar expression"));
diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index cc63891..f9edaad 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -23,6 +23,7 @@
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
+#include <string.h>
 
 static kefir_bool_t is_array_finished(const struct kefir_ast_type *type, kefir_size_t index) {
     return type->array_type.boundary != KEFIR_AST_ARRAY_UNBOUNDED &&
@@ -455,12 +456,31 @@ kefir_bool_t kefir_ast_type_traversal_empty(struct kefir_ast_type_traversal *tra
     return true;
 }
 
+static kefir_bool_t layer_has_designator(const struct kefir_ast_type_traversal_layer *layer) {
+    REQUIRE(layer != NULL, false);
+    switch (layer->type) {
+        case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
+        case KEFIR_AST_TYPE_TRAVERSAL_UNION: {
+            ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field, layer->structure.iterator->value);
+            return field != NULL && field->identifier != NULL && strlen(field->identifier) > 0;
+        }
+
+        case KEFIR_AST_TYPE_TRAVERSAL_ARRAY:
+            return true;
+
+        case KEFIR_AST_TYPE_TRAVERSAL_SCALAR:
+            return false;
+    }
+    return false;
+}
+
 struct kefir_ast_designator *kefir_ast_type_traversal_layer_designator(
     struct kefir_mem *mem, struct kefir_symbol_table *symbols, const struct kefir_ast_type_traversal_layer *layer) {
     REQUIRE(mem != NULL, NULL);
     REQUIRE(layer != NULL, NULL);
 
     struct kefir_ast_designator *base = kefir_ast_type_traversal_layer_designator(mem, symbols, layer->parent);
+    REQUIRE(base != NULL || !layer_has_designator(layer->parent), NULL);
     struct kefir_ast_designator *designator = NULL;
     switch (layer->type) {
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
@@ -479,5 +499,8 @@ struct kefir_ast_designator *kefir_ast_type_traversal_layer_designator(
             // Intentionally left blank
             break;
     }
+    if (designator == NULL && base != NULL) {
+        kefir_ast_designator_free(mem, base);
+    }
     return designator;
 }
diff --git a/source/ast/constant_expression/generic_selection.c b/source/ast/constant_expression/generic_selection.c
index 7d96793..3109f93 100644
--- a/source/ast/constant_expression/generic_selection.c
+++ b/source/ast/constant_expression/generic_selection.c
@@ -41,6 +41,7 @@ kefir_result_t kefir_ast_evaluate_generic_selection_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     for (const struct kefir_list_entry *iter = kefir_list_head(&node->associations); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
diff --git a/source/ast/constant_expression/lvalue_constant_reference.c b/source/ast/constant_expression/lvalue_constant_reference.c
index fea97db..e9c7f15 100644
--- a/source/ast/constant_expression/lvalue_constant_reference.c
+++ b/source/ast/constant_expression/lvalue_constant_reference.c
@@ -142,6 +142,7 @@ static kefir_result_t visit_array_subscript(const struct kefir_ast_visitor *visi
 
         array_type =
             kefir_ast_type_unbounded_array(param->mem, param->context->type_bundle, array_type->referenced_type, NULL);
+        REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     struct kefir_ast_constant_expression_value subscript_value;
-- 
2.43.0


From 06b6e2e4b9169a1ae5a2f811b712374fce9ec8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 09/40] fix: AST translator releases resources and propagates
 failures

---
 source/ast-translator/environment.c           |  5 +++
 source/ast-translator/function_declaration.c  | 14 +++++--
 source/ast-translator/function_translator.c   |  1 +
 source/ast-translator/initializer.c           | 13 ++++--
 source/ast-translator/lvalue.c                |  5 +++
 source/ast-translator/misc.c                  | 12 +++++-
 .../nodes/assignment_operator.c               |  2 +
 .../ast-translator/nodes/binary_operation.c   |  5 +++
 source/ast-translator/nodes/builtin.c         |  1 +
 source/ast-translator/nodes/cast_operator.c   |  1 +
 .../nodes/conditional_statement.c             |  1 +
 source/ast-translator/nodes/for_statement.c   |  1 +
 source/ast-translator/nodes/function_call.c   | 15 ++++---
 .../ast-translator/nodes/generic_selection.c  |  1 +
 source/ast-translator/nodes/while_statement.c |  1 +
 .../ast-translator/scope/local_scope_layout.c | 41 +++++++++++--------
 .../ast-translator/scope/scope_layout_impl.c  |  7 +++-
 source/ast-translator/type.c                  |  4 ++
 source/ast-translator/type_translate.c        | 24 +++++++----
 source/ast-translator/value.c                 |  1 +
 20 files changed, 115 insertions(+), 40 deletions(-)

diff --git a/source/ast-translator/environment.c b/source/ast-translator/environment.c
index 8590621..830e1de 100644
--- a/source/ast-translator/environment.c
+++ b/source/ast-translator/environment.c
@@ -65,6 +65,7 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
     });
     res = KEFIR_IRBUILDER_TYPE_FREE(&builder);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
@@ -72,6 +73,7 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
 
     res = kefir_ast_translator_evaluate_type_layout(mem, env, env_type->layout, &env_type->type);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
@@ -79,6 +81,7 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
 
     res = KEFIR_IR_TARGET_PLATFORM_GET_TYPE(mem, env->target_platform, &env_type->type, &env_type->target_type);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
@@ -87,6 +90,8 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
     struct kefir_ir_target_type_info ir_type_info;
     res = KEFIR_IR_TARGET_PLATFORM_TYPE_INFO(mem, env->target_platform, env_type->target_type, 0, &ir_type_info);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_IR_TARGET_PLATFORM_FREE_TYPE(mem, env->target_platform, env_type->target_type);
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
diff --git a/source/ast-translator/function_declaration.c b/source/ast-translator/function_declaration.c
index b442638..4997a66 100644
--- a/source/ast-translator/function_declaration.c
+++ b/source/ast-translator/function_declaration.c
@@ -55,8 +55,11 @@ static kefir_result_t kefir_ast_translator_function_declaration_alloc_args(
                                        "Function declaration parameter shall be either expression, or declaration"));
             param_type = kefir_ast_type_function_default_argument_convertion_promotion(mem, type_bundle, type_traits,
                                                                                        param->properties.type);
-            REQUIRE(param_type != NULL,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to perform default function argument promotions"));
+            REQUIRE_ELSE(param_type != NULL, {
+                KEFIR_IRBUILDER_TYPE_FREE(&builder);
+                return KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER,
+                                       "Unable to perform default function argument promotions");
+            });
         }
 
         if (param_type != NULL) {
@@ -90,8 +93,10 @@ static kefir_result_t kefir_ast_translator_function_declaration_alloc_args(
 
         const struct kefir_ast_type *param_type = kefir_ast_type_function_default_argument_convertion_promotion(
             mem, type_bundle, type_traits, param->properties.type);
-        REQUIRE(param_type != NULL,
-                KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to perform default function argument promotions"));
+        REQUIRE_ELSE(param_type != NULL, {
+            KEFIR_IRBUILDER_TYPE_FREE(&builder);
+            return KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to perform default function argument promotions");
+        });
 
         struct kefir_ast_type_layout *parameter_layout = NULL;
         kefir_result_t res = kefir_ast_translate_object_type(mem, param_type, 0, env, &builder, &parameter_layout);
@@ -183,6 +188,7 @@ static kefir_result_t kefir_ast_translator_function_declaration_alloc(
         mem, module, identifier, func_decl->ir_argument_type_id,
         func_type->function_type.ellipsis || actual_parameters_exceed_declared, func_decl->ir_return_type_id);
     REQUIRE_ELSE(func_decl->ir_function_decl != NULL, {
+        kefir_ast_type_layout_free(mem, func_decl->return_layout);
         kefir_list_free(mem, &func_decl->argument_layouts);
         return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate IR function declaration");
     });
diff --git a/source/ast-translator/function_translator.c b/source/ast-translator/function_translator.c
index 6b33bc4..2fd687d 100644
--- a/source/ast-translator/function_translator.c
+++ b/source/ast-translator/function_translator.c
@@ -325,6 +325,7 @@ kefir_result_t kefir_ast_translator_function_context_translate(
             const struct kefir_ast_type *default_promotion =
                 kefir_ast_type_function_default_argument_convertion_promotion(
                     mem, context->ast_context->type_bundle, context->ast_context->type_traits, scoped_id->object.type);
+            REQUIRE(default_promotion != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(default_promotion)) {
                 REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, default_promotion,
                                                         scoped_id->object.type));
diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index 9d51b24..19a9036 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -158,9 +158,16 @@ static kefir_result_t traverse_string_literal(const struct kefir_ast_designator
 
     REQUIRE_OK(translate_address(param->translator_type, designator, param->builder));
     REQUIRE_OK(zero_type(param->builder, param->translator_type->object.ir_type_id, type_layout));
-    const struct kefir_ast_type *array_type = kefir_ast_type_array(
-        param->mem, param->context->ast_context->type_bundle, type_layout->type->array_type.element_type,
-        kefir_ast_constant_expression_integer(param->mem, length), NULL);
+    struct kefir_ast_constant_expression *array_length = kefir_ast_constant_expression_integer(param->mem, length);
+    REQUIRE(array_length != NULL,
+            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST array length constant"));
+    const struct kefir_ast_type *array_type =
+        kefir_ast_type_array(param->mem, param->context->ast_context->type_bundle,
+                             type_layout->type->array_type.element_type, array_length, NULL);
+    REQUIRE_ELSE(array_type != NULL, {
+        kefir_ast_constant_expression_free(param->mem, array_length);
+        return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type");
+    });
     REQUIRE_OK(kefir_ast_translate_expression(param->mem, expression, param->builder, param->context));
 
     REQUIRE_OK(kefir_ast_translator_store_value(
diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 06e2034..a2e1f25 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -157,6 +157,10 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
     kefir_result_t res = KEFIR_OK;
     const struct kefir_ast_type *array_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->array->properties.type);
+    REQUIRE_ELSE(array_type != NULL, {
+        kefir_ast_translator_type_free(mem, translator_type);
+        return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type");
+    });
     if (array_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->subscript, builder, context));
@@ -187,6 +191,7 @@ kefir_result_t kefir_ast_translate_struct_member_lvalue(struct kefir_mem *mem,
 
     const struct kefir_ast_type *structure_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->structure->properties.type);
+    REQUIRE(structure_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (structure_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         structure_type = kefir_ast_unqualified_type(structure_type->referenced_type);
     }
diff --git a/source/ast-translator/misc.c b/source/ast-translator/misc.c
index b38df10..5c33af2 100644
--- a/source/ast-translator/misc.c
+++ b/source/ast-translator/misc.c
@@ -37,7 +37,11 @@ static kefir_result_t sizeof_nonvla_type(struct kefir_mem *mem, struct kefir_ast
         return res;
     });
 
-    REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, type_info.size));
+    res = KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, type_info.size);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type);
+        return res;
+    });
     REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type));
     return KEFIR_OK;
 }
@@ -106,7 +110,11 @@ kefir_result_t kefir_ast_translate_alignof(struct kefir_mem *mem, struct kefir_a
         return res;
     });
 
-    REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, type_info.alignment));
+    res = KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, type_info.alignment);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type);
+        return res;
+    });
     REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type));
     return KEFIR_OK;
 }
diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 5f5b76c..fe94916 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -305,6 +305,7 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                                     const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->target->properties.type);
+    REQUIRE(target_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_init_normalized_type =
         kefir_ast_translator_normalize_type(node->value->properties.type);
     const struct kefir_ast_type *value_normalized_type =
@@ -389,6 +390,7 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                                          const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->target->properties.type);
+    REQUIRE(target_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_init_normalized_type =
         kefir_ast_translator_normalize_type(node->value->properties.type);
     const struct kefir_ast_type *value_normalized_type =
diff --git a/source/ast-translator/nodes/binary_operation.c b/source/ast-translator/nodes/binary_operation.c
index 205c9c5..09a6e59 100644
--- a/source/ast-translator/nodes/binary_operation.c
+++ b/source/ast-translator/nodes/binary_operation.c
@@ -70,8 +70,10 @@ static kefir_result_t translate_addition(struct kefir_mem *mem, struct kefir_ast
                                          const struct kefir_ast_binary_operation *node) {
     const struct kefir_ast_type *arg1_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg1->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg2->properties.type);
+    REQUIRE(arg2_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -134,8 +136,10 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
                                             const struct kefir_ast_binary_operation *node) {
     const struct kefir_ast_type *arg1_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg1->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg2->properties.type);
+    REQUIRE(arg2_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -580,6 +584,7 @@ static kefir_result_t truncate_value(struct kefir_mem *mem, struct kefir_ast_tra
                                      struct kefir_irbuilder_block *builder, const struct kefir_ast_type *type) {
     const struct kefir_ast_type *normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, type);
+    REQUIRE(normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(normalized_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     } else {
diff --git a/source/ast-translator/nodes/builtin.c b/source/ast-translator/nodes/builtin.c
index 8b34fdd..f277cef 100644
--- a/source/ast-translator/nodes/builtin.c
+++ b/source/ast-translator/nodes/builtin.c
@@ -71,6 +71,7 @@ kefir_result_t kefir_ast_translate_builtin_node(struct kefir_mem *mem, struct ke
             struct kefir_ast_type_layout *type_layout;
 
             struct kefir_ir_type *va_type = kefir_ir_module_new_type(mem, context->module, 0, &va_type_id);
+            REQUIRE(va_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate IR type"));
             REQUIRE_OK(kefir_irbuilder_type_init(mem, &type_builder, va_type));
             kefir_result_t res = kefir_ast_translate_object_type(mem, type_arg->properties.type, 0,
                                                                  context->environment, &type_builder, &type_layout);
diff --git a/source/ast-translator/nodes/cast_operator.c b/source/ast-translator/nodes/cast_operator.c
index fea9698..0aedff8 100644
--- a/source/ast-translator/nodes/cast_operator.c
+++ b/source/ast-translator/nodes/cast_operator.c
@@ -37,6 +37,7 @@ kefir_result_t kefir_ast_translate_cast_operator_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->expr->properties.type);
+    REQUIRE(expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     const struct kefir_ast_type *arg_init_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index e63eebc..26b28fa 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -38,6 +38,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     }
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 5a152f9..6f5fbde 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -65,6 +65,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
+        REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
         }
diff --git a/source/ast-translator/nodes/function_call.c b/source/ast-translator/nodes/function_call.c
index 5316b90..3e917f6 100644
--- a/source/ast-translator/nodes/function_call.c
+++ b/source/ast-translator/nodes/function_call.c
@@ -88,10 +88,11 @@ kefir_result_t kefir_ast_translate_function_call_node(struct kefir_mem *mem,
                 mem, context->environment, context->ast_context->type_bundle, context->ast_context->type_traits,
                 context->module, function_name, function_type, &node->arguments, &func_decl));
             ir_decl = func_decl->ir_function_decl;
+            kefir_result_t res = KEFIR_OK;
             if (ir_decl->name == NULL) {
-                REQUIRE_OK(kefir_ast_translate_expression(mem, node->function, builder, context));
+                res = kefir_ast_translate_expression(mem, node->function, builder, context);
             }
-            kefir_result_t res = translate_parameters(mem, context, builder, node, func_decl);
+            REQUIRE_CHAIN(&res, translate_parameters(mem, context, builder, node, func_decl));
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_ast_translator_function_declaration_free(mem, func_decl);
                 return res;
@@ -105,10 +106,11 @@ kefir_result_t kefir_ast_translate_function_call_node(struct kefir_mem *mem,
                 mem, context->environment, context->ast_context->type_bundle, context->ast_context->type_traits,
                 context->module, function_name, function_type, &node->arguments, &func_decl));
             ir_decl = func_decl->ir_function_decl;
+            kefir_result_t res = KEFIR_OK;
             if (ir_decl->name == NULL) {
-                REQUIRE_OK(kefir_ast_translate_expression(mem, node->function, builder, context));
+                res = kefir_ast_translate_expression(mem, node->function, builder, context);
             }
-            kefir_result_t res = translate_parameters(mem, context, builder, node, func_decl);
+            REQUIRE_CHAIN(&res, translate_parameters(mem, context, builder, node, func_decl));
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_ast_translator_function_declaration_free(mem, func_decl);
                 return res;
@@ -122,10 +124,11 @@ kefir_result_t kefir_ast_translate_function_call_node(struct kefir_mem *mem,
                 mem, context->environment, context->ast_context->type_bundle, context->ast_context->type_traits,
                 context->module, function_name, function_type, &node->arguments, &func_decl));
             ir_decl = func_decl->ir_function_decl;
+            kefir_result_t res = KEFIR_OK;
             if (ir_decl->name == NULL) {
-                REQUIRE_OK(kefir_ast_translate_expression(mem, node->function, builder, context));
+                res = kefir_ast_translate_expression(mem, node->function, builder, context);
             }
-            kefir_result_t res = translate_parameters(mem, context, builder, node, func_decl);
+            REQUIRE_CHAIN(&res, translate_parameters(mem, context, builder, node, func_decl));
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_ast_translator_function_declaration_free(mem, func_decl);
                 return res;
diff --git a/source/ast-translator/nodes/generic_selection.c b/source/ast-translator/nodes/generic_selection.c
index dfa2a5b..9dce045 100644
--- a/source/ast-translator/nodes/generic_selection.c
+++ b/source/ast-translator/nodes/generic_selection.c
@@ -36,6 +36,7 @@ kefir_result_t kefir_ast_translate_generic_selection_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     for (const struct kefir_list_entry *iter = kefir_list_head(&node->associations); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index df6a92d..1d44ebd 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -43,6 +43,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     }
diff --git a/source/ast-translator/scope/local_scope_layout.c b/source/ast-translator/scope/local_scope_layout.c
index 9dcc629..34948c9 100644
--- a/source/ast-translator/scope/local_scope_layout.c
+++ b/source/ast-translator/scope/local_scope_layout.c
@@ -298,6 +298,24 @@ static kefir_result_t local_scope_empty(struct kefir_mem *mem, const struct kefi
     return KEFIR_OK;
 }
 
+static kefir_result_t new_scope_type_layout(struct kefir_mem *mem, kefir_size_t index,
+                                            struct kefir_ast_type_layout *parent,
+                                            struct kefir_ast_type_layout **layout_ptr) {
+    struct kefir_ast_type_layout *layout = kefir_ast_new_type_layout(mem, NULL, 0, index);
+    REQUIRE(layout != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type layout"));
+    if (parent != NULL) {
+        kefir_result_t res = kefir_list_insert_after(mem, &parent->custom_layout.sublayouts,
+                                                     kefir_list_tail(&parent->custom_layout.sublayouts), layout);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_type_layout_free(mem, layout);
+            return res;
+        });
+        layout->parent = parent;
+    }
+    *layout_ptr = layout;
+    return KEFIR_OK;
+}
+
 static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                            const struct kefir_tree_node *root, struct kefir_irbuilder_type *builder,
                                            const struct kefir_ast_translator_environment *env,
@@ -305,13 +323,14 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
                                            const struct kefir_ast_type_traits *type_traits,
                                            struct kefir_ir_module *module,
                                            struct kefir_ast_translator_local_scope_layout *local_layout,
+                                           struct kefir_ast_type_layout *parent_type_layout,
                                            struct kefir_ast_type_layout **scope_type_layout) {
     ASSIGN_DECL_CAST(struct kefir_ast_identifier_flat_scope *, scope, root->value);
     kefir_bool_t empty_scope = true;
     REQUIRE_OK(local_scope_empty(mem, root, &empty_scope));
     const kefir_size_t begin = kefir_ir_type_total_length(builder->type);
     if (!empty_scope) {
-        *scope_type_layout = kefir_ast_new_type_layout(mem, NULL, 0, begin);
+        REQUIRE_OK(new_scope_type_layout(mem, begin, parent_type_layout, scope_type_layout));
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_STRUCT, 0, 0));
     }
     struct kefir_ast_identifier_flat_scope_iterator iter;
@@ -335,8 +354,8 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
     }
     if (!empty_children) {
         const kefir_size_t children_begin = kefir_ir_type_total_length(builder->type);
-        struct kefir_ast_type_layout *sublocal_scopes_type_layout =
-            kefir_ast_new_type_layout(mem, NULL, 0, children_begin);
+        struct kefir_ast_type_layout *sublocal_scopes_type_layout = NULL;
+        REQUIRE_OK(new_scope_type_layout(mem, children_begin, *scope_type_layout, &sublocal_scopes_type_layout));
         struct kefir_ir_typeentry *typeentry = kefir_ir_type_at(builder->type, begin);
         typeentry->param++;
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_UNION, 0, 0));
@@ -346,24 +365,14 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
             struct kefir_ir_typeentry *child_typeentry = kefir_ir_type_at(builder->type, children_begin);
             child_typeentry->param++;
             REQUIRE_OK(traverse_local_scope(mem, context, child, builder, env, type_bundle, type_traits, module,
-                                            local_layout, &sublocal_type_layout));
-            if (sublocal_type_layout != NULL) {
-                REQUIRE_OK(kefir_list_insert_after(
-                    mem, &sublocal_scopes_type_layout->custom_layout.sublayouts,
-                    kefir_list_tail(&sublocal_scopes_type_layout->custom_layout.sublayouts), sublocal_type_layout));
-                sublocal_type_layout->parent = sublocal_scopes_type_layout;
-            }
+                                            local_layout, sublocal_scopes_type_layout, &sublocal_type_layout));
         }
-        REQUIRE_OK(kefir_list_insert_after(mem, &(*scope_type_layout)->custom_layout.sublayouts,
-                                           kefir_list_tail(&(*scope_type_layout)->custom_layout.sublayouts),
-                                           sublocal_scopes_type_layout));
-        sublocal_scopes_type_layout->parent = *scope_type_layout;
     } else {
         for (struct kefir_tree_node *child = kefir_tree_first_child(root); child != NULL;
              child = kefir_tree_next_sibling(child)) {
             struct kefir_ast_type_layout *sublocal_type_layout = NULL;
             REQUIRE_OK(traverse_local_scope(mem, context, child, builder, env, type_bundle, type_traits, module,
-                                            local_layout, &sublocal_type_layout));
+                                            local_layout, NULL, &sublocal_type_layout));
         }
     }
     return KEFIR_OK;
@@ -387,7 +396,7 @@ kefir_result_t kefir_ast_translator_build_local_scope_layout(struct kefir_mem *m
         REQUIRE_OK(kefir_irbuilder_type_init(mem, &builder, layout->local_layout));
         REQUIRE_OK(traverse_local_scope(mem, &context->context, &context->ordinary_scope.root, &builder, env,
                                         context->context.type_bundle, context->context.type_traits, module, layout,
-                                        &layout->local_type_layout));
+                                        NULL, &layout->local_type_layout));
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_FREE(&builder));
 
         if (layout->local_type_layout != NULL) {
diff --git a/source/ast-translator/scope/scope_layout_impl.c b/source/ast-translator/scope/scope_layout_impl.c
index 10221c3..05a3fec 100644
--- a/source/ast-translator/scope/scope_layout_impl.c
+++ b/source/ast-translator/scope/scope_layout_impl.c
@@ -44,8 +44,11 @@ kefir_result_t kefir_ast_translator_scoped_identifer_payload_free(struct kefir_m
             case KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION: {
                 ASSIGN_DECL_CAST(struct kefir_ast_translator_scoped_identifier_function *, scoped_identifier_payload,
                                  scoped_identifier->payload.ptr);
-                REQUIRE_OK(kefir_ast_translator_function_declaration_free(mem, scoped_identifier_payload->declaration));
-                scoped_identifier_payload->declaration = NULL;
+                if (scoped_identifier_payload->declaration != NULL) {
+                    REQUIRE_OK(
+                        kefir_ast_translator_function_declaration_free(mem, scoped_identifier_payload->declaration));
+                    scoped_identifier_payload->declaration = NULL;
+                }
             } break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_ENUM_CONSTANT:
diff --git a/source/ast-translator/type.c b/source/ast-translator/type.c
index 5ee0b38..0ec049f 100644
--- a/source/ast-translator/type.c
+++ b/source/ast-translator/type.c
@@ -41,6 +41,10 @@ kefir_result_t kefir_ast_translator_type_new(struct kefir_mem *mem, const struct
     tr_type->type = type;
 
     tr_type->object.ir_type = kefir_ir_module_new_type(mem, module, 0, &tr_type->object.ir_type_id);
+    REQUIRE_ELSE(tr_type->object.ir_type != NULL, {
+        KEFIR_FREE(mem, tr_type);
+        return KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate IR type");
+    });
     struct kefir_irbuilder_type type_builder;
     res = kefir_irbuilder_type_init(mem, &type_builder, tr_type->object.ir_type);
     REQUIRE_ELSE(res == KEFIR_OK, {
diff --git a/source/ast-translator/type_translate.c b/source/ast-translator/type_translate.c
index 638c176..1c29a05 100644
--- a/source/ast-translator/type_translate.c
+++ b/source/ast-translator/type_translate.c
@@ -120,8 +120,10 @@ static kefir_result_t translate_array_type(struct kefir_mem *mem, const struct k
                                                        env, builder, layout_ptr != NULL ? &element_layout : NULL));
             if (layout_ptr != NULL) {
                 *layout_ptr = kefir_ast_new_type_layout(mem, type, alignment, type_index);
-                REQUIRE(*layout_ptr != NULL,
-                        KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type layout"));
+                REQUIRE_ELSE(*layout_ptr != NULL, {
+                    kefir_ast_type_layout_free(mem, element_layout);
+                    return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type layout");
+                });
                 (*layout_ptr)->array_layout.element_type = element_layout;
             }
         } break;
@@ -133,8 +135,10 @@ static kefir_result_t translate_array_type(struct kefir_mem *mem, const struct k
                                                        env, builder, layout_ptr != NULL ? &element_layout : NULL));
             if (layout_ptr != NULL) {
                 *layout_ptr = kefir_ast_new_type_layout(mem, type, alignment, type_index);
-                REQUIRE(*layout_ptr != NULL,
-                        KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type layout"));
+                REQUIRE_ELSE(*layout_ptr != NULL, {
+                    kefir_ast_type_layout_free(mem, element_layout);
+                    return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type layout");
+                });
                 (*layout_ptr)->array_layout.element_type = element_layout;
             }
             break;
@@ -297,12 +301,18 @@ static kefir_result_t translate_struct_type(struct kefir_mem *mem, const struct
     }
 
     struct bitfield_manager bitfield_mgr;
-    REQUIRE_OK(
-        KEFIR_IR_TARGET_PLATFORM_BITFIELD_ALLOCATOR(mem, env->target_platform, builder->type, &bitfield_mgr.allocator));
+    kefir_result_t res =
+        KEFIR_IR_TARGET_PLATFORM_BITFIELD_ALLOCATOR(mem, env->target_platform, builder->type, &bitfield_mgr.allocator);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        if (allocated) {
+            kefir_ast_type_layout_free(mem, layout);
+            *layout_ptr = NULL;
+        }
+        return res;
+    });
     bitfield_mgr.last_bitfield_layout = NULL;
     bitfield_mgr.last_bitfield_storage = 0;
 
-    kefir_result_t res = KEFIR_OK;
     for (const struct kefir_list_entry *iter = kefir_list_head(&type->structure_type.fields);
          iter != NULL && res == KEFIR_OK; kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_struct_field *, field, iter->value);
diff --git a/source/ast-translator/value.c b/source/ast-translator/value.c
index e8139b1..700896e 100644
--- a/source/ast-translator/value.c
+++ b/source/ast-translator/value.c
@@ -70,6 +70,7 @@ static kefir_result_t resolve_bitfield_layout(struct kefir_mem *mem, struct kefi
                                               struct kefir_ast_type_layout **member_layout) {
     const struct kefir_ast_type *structure_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->structure->properties.type);
+    REQUIRE(structure_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (structure_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         structure_type = kefir_ast_unqualified_type(structure_type->referenced_type);
     } else if (KEFIR_AST_TYPE_IS_INCOMPLETE(structure_type)) {
-- 
2.43.0


From 594c0b5cddba88e74f01a0d74506813c395bd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 10/40] fix: IR module and type tree release entries on
 allocation failure

---
 source/ir/module.c    | 4 ++--
 source/ir/type_tree.c | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/ir/module.c b/source/ir/module.c
index be53c7b..d3f3e06 100644
--- a/source/ir/module.c
+++ b/source/ir/module.c
@@ -189,6 +189,7 @@ struct kefir_ir_type *kefir_ir_module_new_type(struct kefir_mem *mem, struct kef
     REQUIRE(mem != NULL, NULL);
     REQUIRE(module != NULL, NULL);
     struct kefir_ir_type *type = KEFIR_MALLOC(mem, sizeof(struct kefir_ir_type));
+    REQUIRE(type != NULL, NULL);
     kefir_result_t result = kefir_ir_type_alloc(mem, size, type);
     REQUIRE_ELSE(result == KEFIR_OK, {
         KEFIR_FREE(mem, type);
@@ -206,8 +207,6 @@ struct kefir_ir_type *kefir_ir_module_new_type(struct kefir_mem *mem, struct kef
                                        (kefir_hashtree_value_t) type);
         REQUIRE_ELSE(result == KEFIR_OK, {
             kefir_list_pop(mem, &module->types, kefir_list_tail(&module->types));
-            kefir_ir_type_free(mem, type);
-            KEFIR_FREE(mem, type);
             return NULL;
         });
     }
@@ -235,6 +234,7 @@ struct kefir_ir_function_decl *kefir_ir_module_new_function_declaration(struct k
     }
 
     const char *symbol = kefir_ir_module_symbol(mem, module, name, NULL);
+    REQUIRE(symbol != NULL || name == NULL, NULL);
     kefir_id_t func_decl_id = module->next_function_decl_id;
     struct kefir_ir_function_decl *decl = KEFIR_MALLOC(mem, sizeof(struct kefir_ir_function_decl));
     REQUIRE(decl != NULL, NULL);
diff --git a/source/ir/type_tree.c b/source/ir/type_tree.c
index f8cb074..ab371d8 100644
--- a/source/ir/type_tree.c
+++ b/source/ir/type_tree.c
@@ -78,8 +78,6 @@ static struct kefir_ir_type_tree_node *alloc_node(struct kefir_mem *mem, struct
     }
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_hashtree_delete(mem, &tree->index, (kefir_hashtree_key_t) index);
-        kefir_list_free(mem, &node->subtypes);
-        KEFIR_FREE(mem, node);
         return NULL;
     });
 
@@ -139,7 +137,7 @@ kefir_result_t kefir_ir_type_tree_init(struct kefir_mem *mem, const struct kefir
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_hashtree_free(mem, &tree->index);
         kefir_list_free(mem, &tree->roots);
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
-- 
2.43.0


From b761dad3a9019ad039bb10621c3b8c9676819eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 11/40] fix: amd64 code generator releases resources on
 allocation failure

---
 source/codegen/amd64/amd64-sysv.c             | 30 ++++++++++++------
 source/codegen/amd64/system-v/abi/function.c  | 18 ++++++++---
 source/codegen/amd64/system-v/abi/registers.c | 31 +++++++------------
 source/codegen/amd64/system-v/abi/vararg.c    | 18 +++++++----
 4 files changed, 56 insertions(+), 41 deletions(-)

diff --git a/source/codegen/amd64/amd64-sysv.c b/source/codegen/amd64/amd64-sysv.c
index ce3af10..8876b04 100644
--- a/source/codegen/amd64/amd64-sysv.c
+++ b/source/codegen/amd64/amd64-sysv.c
@@ -274,6 +274,21 @@ static kefir_result_t cg_translate_data(struct kefir_mem *mem, struct kefir_code
     return KEFIR_OK;
 }
 
+static kefir_result_t cg_translate_module(struct kefir_mem *mem, struct kefir_codegen_amd64 *codegen,
+                                          struct kefir_codegen_amd64_sysv_module *sysv_module) {
+    REQUIRE_OK(cg_module_prologue(sysv_module, codegen));
+    struct kefir_hashtree_node_iterator iter;
+    for (const struct kefir_ir_function *func = kefir_ir_module_function_iter(sysv_module->module, &iter); func != NULL;
+         func = kefir_ir_module_function_next(&iter)) {
+        REQUIRE_OK(cg_translate_function(mem, func, sysv_module, codegen));
+    }
+    REQUIRE_OK(cg_translate_function_gates(codegen, &sysv_module->function_gates, false));
+    REQUIRE_OK(cg_translate_function_gates(codegen, &sysv_module->function_vgates, true));
+    REQUIRE_OK(cg_translate_tls_entries(codegen, &sysv_module->tls_entries, sysv_module->module));
+    REQUIRE_OK(cg_translate_data(mem, codegen, sysv_module));
+    return KEFIR_OK;
+}
+
 static kefir_result_t cg_translate(struct kefir_mem *mem, struct kefir_codegen *cg_iface,
                                    struct kefir_ir_module *module) {
     REQUIRE(cg_iface != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid code generator interface"));
@@ -281,16 +296,11 @@ static kefir_result_t cg_translate(struct kefir_mem *mem, struct kefir_codegen *
     struct kefir_codegen_amd64 *codegen = (struct kefir_codegen_amd64 *) cg_iface->data;
     struct kefir_codegen_amd64_sysv_module sysv_module;
     REQUIRE_OK(kefir_codegen_amd64_sysv_module_alloc(mem, &sysv_module, module));
-    REQUIRE_OK(cg_module_prologue(&sysv_module, codegen));
-    struct kefir_hashtree_node_iterator iter;
-    for (const struct kefir_ir_function *func = kefir_ir_module_function_iter(sysv_module.module, &iter); func != NULL;
-         func = kefir_ir_module_function_next(&iter)) {
-        REQUIRE_OK(cg_translate_function(mem, func, &sysv_module, codegen));
-    }
-    REQUIRE_OK(cg_translate_function_gates(codegen, &sysv_module.function_gates, false));
-    REQUIRE_OK(cg_translate_function_gates(codegen, &sysv_module.function_vgates, true));
-    REQUIRE_OK(cg_translate_tls_entries(codegen, &sysv_module.tls_entries, sysv_module.module));
-    REQUIRE_OK(cg_translate_data(mem, codegen, &sysv_module));
+    kefir_result_t res = cg_translate_module(mem, codegen, &sysv_module);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_codegen_amd64_sysv_module_free(mem, &sysv_module);
+        return res;
+    });
     REQUIRE_OK(kefir_codegen_amd64_sysv_module_free(mem, &sysv_module));
     return KEFIR_OK;
 }
diff --git a/source/codegen/amd64/system-v/abi/function.c b/source/codegen/amd64/system-v/abi/function.c
index 44b4c54..6e57189 100644
--- a/source/codegen/amd64/system-v/abi/function.c
+++ b/source/codegen/amd64/system-v/abi/function.c
@@ -126,12 +126,16 @@ static kefir_result_t calculate_frame_temporaries(struct kefir_mem *mem,
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, false);
+            REQUIRE(decl != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AMD64 System-V function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_INVOKEV) {
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, true);
+            REQUIRE(decl != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AMD64 System-V function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_VARARG_GET) {
@@ -267,14 +271,18 @@ kefir_result_t kefir_amd64_sysv_function_alloc(struct kefir_mem *mem,
     REQUIRE_OK(kefir_hashtree_init(&sysv_func->appendix, &kefir_hashtree_str_ops));
     REQUIRE_OK(kefir_hashtree_on_removal(&sysv_func->appendix, appendix_removal, NULL));
     if (func->locals != NULL) {
-        REQUIRE_OK(kefir_amd64_sysv_type_layout(func->locals, mem, &sysv_func->local_layout));
+        kefir_result_t res = kefir_amd64_sysv_type_layout(func->locals, mem, &sysv_func->local_layout);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_amd64_sysv_function_decl_free(mem, &sysv_func->decl);
+            return res;
+        });
     }
     kefir_result_t res = calculate_frame(mem, sysv_module, sysv_func);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_amd64_sysv_parameter_free(mem, &sysv_func->decl.returns.allocation);
-        kefir_vector_free(mem, &sysv_func->decl.returns.layout);
-        kefir_amd64_sysv_parameter_free(mem, &sysv_func->decl.parameters.allocation);
-        kefir_vector_free(mem, &sysv_func->decl.parameters.layout);
+        if (func->locals != NULL) {
+            kefir_vector_free(mem, &sysv_func->local_layout);
+        }
+        kefir_amd64_sysv_function_decl_free(mem, &sysv_func->decl);
         return res;
     });
     return KEFIR_OK;
diff --git a/source/codegen/amd64/system-v/abi/registers.c b/source/codegen/amd64/system-v/abi/registers.c
index 766885d..c489e11 100644
--- a/source/codegen/amd64/system-v/abi/registers.c
+++ b/source/codegen/amd64/system-v/abi/registers.c
@@ -372,11 +372,11 @@ static kefir_result_t immediate_struct_unwrap(struct kefir_mem *mem, const struc
     if (top_layout->size % KEFIR_AMD64_SYSV_ABI_QWORD != 0) {
         qword_count++;
     }
-    top_allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_OWNING_CONTAINER;
     top_allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     struct kefir_ir_type_visitor visitor;
     REQUIRE_OK(nested_visitor_init(&visitor));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_alloc(&top_allocation->container, mem, qword_count));
+    top_allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_OWNING_CONTAINER;
     struct recursive_aggregate_allocation info = {.type = type,
                                                   .layout = layout,
                                                   .allocation = allocation,
@@ -385,10 +385,7 @@ static kefir_result_t immediate_struct_unwrap(struct kefir_mem *mem, const struc
                                                   .slot = slot,
                                                   .nested = 0};
     kefir_result_t res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, index + 1, typeentry->param);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_amd64_sysv_abi_qwords_free(&top_allocation->container, mem);
-        return res;
-    });
+    REQUIRE_OK(res);
     return aggregate_postmerger(mem, top_allocation);
 }
 
@@ -470,11 +467,11 @@ static kefir_result_t immediate_array_unwrap(struct kefir_mem *mem, const struct
     if (top_layout->size % KEFIR_AMD64_SYSV_ABI_QWORD != 0) {
         qword_count++;
     }
-    top_allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_OWNING_CONTAINER;
     top_allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     struct kefir_ir_type_visitor visitor;
     REQUIRE_OK(nested_visitor_init(&visitor));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_alloc(&top_allocation->container, mem, qword_count));
+    top_allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_OWNING_CONTAINER;
     struct recursive_aggregate_allocation info = {.type = type,
                                                   .layout = layout,
                                                   .allocation = allocation,
@@ -484,10 +481,7 @@ static kefir_result_t immediate_array_unwrap(struct kefir_mem *mem, const struct
                                                   .nested = 0};
     for (kefir_size_t i = 0; i < (kefir_size_t) typeentry->param; i++) {
         kefir_result_t res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, index + 1, 1);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_amd64_sysv_abi_qwords_free(&top_allocation->container, mem);
-            return res;
-        });
+        REQUIRE_OK(res);
     }
     return aggregate_postmerger(mem, top_allocation);
 }
@@ -505,8 +499,8 @@ static kefir_result_t assign_immediate_array(const struct kefir_ir_type *type, k
         allocation->klass = KEFIR_AMD64_SYSV_PARAM_MEMORY;
         info->slot += kefir_ir_type_node_slots(type, index) - 1;
     } else {
-        immediate_array_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation, &info->slot,
-                               allocation);
+        REQUIRE_OK(immediate_array_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation,
+                                          &info->slot, allocation));
     }
     return calculate_qword_requirements(allocation, layout);
 }
@@ -522,12 +516,12 @@ static kefir_result_t immediate_union_unwrap(struct kefir_mem *mem, const struct
     if (top_layout->size % KEFIR_AMD64_SYSV_ABI_QWORD != 0) {
         qword_count++;
     }
-    top_allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_OWNING_CONTAINER;
     top_allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     struct kefir_ir_type_visitor visitor;
     REQUIRE_OK(nested_visitor_init(&visitor));
     visitor.posthook = union_reset_hook;
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_alloc(&top_allocation->container, mem, qword_count));
+    top_allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_OWNING_CONTAINER;
     struct recursive_aggregate_allocation info = {.type = type,
                                                   .layout = layout,
                                                   .allocation = allocation,
@@ -538,10 +532,7 @@ static kefir_result_t immediate_union_unwrap(struct kefir_mem *mem, const struct
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&top_allocation->container, &info.init_position));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&top_allocation->container, &info.max_position));
     kefir_result_t res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, index + 1, typeentry->param);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_amd64_sysv_abi_qwords_free(&top_allocation->container, mem);
-        return res;
-    });
+    REQUIRE_OK(res);
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_restore_position(&top_allocation->container, &info.max_position));
     return aggregate_postmerger(mem, top_allocation);
 }
@@ -559,8 +550,8 @@ static kefir_result_t assign_immediate_union(const struct kefir_ir_type *type, k
         allocation->klass = KEFIR_AMD64_SYSV_PARAM_MEMORY;
         info->slot += kefir_ir_type_node_slots(type, index) - 1;
     } else {
-        immediate_union_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation, &info->slot,
-                               allocation);
+        REQUIRE_OK(immediate_union_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation,
+                                          &info->slot, allocation));
     }
     return calculate_qword_requirements(allocation, layout);
 }
@@ -617,7 +608,7 @@ kefir_result_t kefir_amd64_sysv_parameter_classify(struct kefir_mem *mem, const
     struct input_allocation info = {.mem = mem, .layout = layout, .allocation = allocation};
     res = kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &info, 0, kefir_ir_type_nodes(type));
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_vector_free(mem, allocation);
+        kefir_amd64_sysv_parameter_free(mem, allocation);
         return res;
     });
     return KEFIR_OK;
diff --git a/source/codegen/amd64/system-v/abi/vararg.c b/source/codegen/amd64/system-v/abi/vararg.c
index a384156..32b23f5 100644
--- a/source/codegen/amd64/system-v/abi/vararg.c
+++ b/source/codegen/amd64/system-v/abi/vararg.c
@@ -650,8 +650,12 @@ static kefir_result_t vararg_visit_aggregate(const struct kefir_ir_type *type, k
     REQUIRE(info != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate memory aggregate vararg info"));
     *info = (struct vararg_aggregate_info){0};
 
-    REQUIRE_OK(kefir_amd64_sysv_type_layout(type, param->mem, &info->layout));
-    kefir_result_t res = kefir_amd64_sysv_parameter_classify(param->mem, type, &info->layout, &info->allocation);
+    kefir_result_t res = kefir_amd64_sysv_type_layout(type, param->mem, &info->layout);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_FREE(param->mem, info);
+        return res;
+    });
+    res = kefir_amd64_sysv_parameter_classify(param->mem, type, &info->layout, &info->allocation);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_vector_free(param->mem, &info->layout);
         KEFIR_FREE(param->mem, info);
@@ -660,7 +664,7 @@ static kefir_result_t vararg_visit_aggregate(const struct kefir_ir_type *type, k
 
     res = kefir_amd64_sysv_parameter_allocate(param->mem, type, &info->layout, &info->allocation, &info->location);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_vector_free(param->mem, &info->allocation);
+        kefir_amd64_sysv_parameter_free(param->mem, &info->allocation);
         kefir_vector_free(param->mem, &info->layout);
         KEFIR_FREE(param->mem, info);
         return res;
@@ -670,7 +674,7 @@ static kefir_result_t vararg_visit_aggregate(const struct kefir_ir_type *type, k
     info->arg_alloc = (struct kefir_amd64_sysv_parameter_allocation *) kefir_vector_at(&info->allocation, iter.slot);
     REQUIRE_ELSE(info->arg_layout != NULL && info->arg_alloc != NULL, {
         kefir_amd64_sysv_parameter_free(param->mem, &info->allocation);
-        KEFIR_FREE(param->mem, &info->layout);
+        kefir_vector_free(param->mem, &info->layout);
         KEFIR_FREE(param->mem, info);
         return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected to have layout and allocation info for slot");
     });
@@ -682,9 +686,11 @@ static kefir_result_t vararg_visit_aggregate(const struct kefir_ir_type *type, k
     }
     if (res == KEFIR_ALREADY_EXISTS) {
         return free_vararg_aggregate_info(param->mem, info);
-    } else {
-        REQUIRE_OK(res);
     }
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        free_vararg_aggregate_info(param->mem, info);
+        return res;
+    });
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 367c5aede1046f7f43bcba437fb701035ece7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:03 +0000
Subject: [PATCH 12/40] fix: date and time macros use a private tm and report
 unrepresentable timestamps

---
 source/preprocessor/predefined_macro.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/preprocessor/predefined_macro.c b/source/preprocessor/predefined_macro.c
index 8eb0649..8ac0e52 100644
--- a/source/preprocessor/predefined_macro.c
+++ b/source/preprocessor/predefined_macro.c
@@ -18,10 +18,16 @@
     along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include "kefir/core/platform.h"
+#ifdef KEFIR_LINUX_HOST_PLATFORM
+#define _POSIX_C_SOURCE 200809L
+#endif
+
 #include "kefir/preprocessor/predefined_macro.h"
 #include "kefir/preprocessor/preprocessor.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include "kefir/core/os_error.h"
 
 static kefir_result_t predefined_macro_argc(const struct kefir_preprocessor_macro *macro, kefir_size_t *argc_ptr,
                                             kefir_bool_t *vararg_ptr) {
@@ -91,9 +97,11 @@ static kefir_result_t macro_date_apply(struct kefir_mem *mem, const struct kefir
     REQUIRE(source_location != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source location"));
     ASSIGN_DECL_CAST(struct kefir_preprocessor_predefined_macro_scope *, predefined_scope, macro->payload);
 
-    struct tm *tm = localtime(&predefined_scope->preprocessor->context->environment.timestamp);
+    struct tm tm;
+    REQUIRE(localtime_r(&predefined_scope->preprocessor->context->environment.timestamp, &tm) != NULL,
+            KEFIR_SET_OS_ERROR("Failed to convert timestamp to local time"));
     char strbuf[256] = {0};
-    size_t count = strftime(strbuf, sizeof(strbuf), "%b %e %Y", tm);
+    size_t count = strftime(strbuf, sizeof(strbuf), "%b %e %Y", &tm);
     REQUIRE(count != 0, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Failed to format current date"));
 
     struct kefir_token token;
@@ -119,9 +127,11 @@ static kefir_result_t macro_time_apply(struct kefir_mem *mem, const struct kefir
     REQUIRE(source_location != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source location"));
     ASSIGN_DECL_CAST(struct kefir_preprocessor_predefined_macro_scope *, predefined_scope, macro->payload);
 
-    struct tm *tm = localtime(&predefined_scope->preprocessor->context->environment.timestamp);
+    struct tm tm;
+    REQUIRE(localtime_r(&predefined_scope->preprocessor->context->environment.timestamp, &tm) != NULL,
+            KEFIR_SET_OS_ERROR("Failed to convert timestamp to local time"));
     char strbuf[256] = {0};
-    size_t count = strftime(strbuf, sizeof(strbuf), "%H:%M:%S", tm);
+    size_t count = strftime(strbuf, sizeof(strbuf), "%H:%M:%S", &tm);
     REQUIRE(count != 0, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Failed to format current time"));
 
     struct kefir_token token;
-- 
2.43.0


From 24cb8bbc860ad59f4ea35e9c1e82bede65726a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:03 +0000
Subject: [PATCH 13/40] fix: input is read completely or reported as failed;
 descriptors are closed on every path

---
 headers/kefir/cli/input.h |  1 +
 source/cli/input.c        | 93 ++++++++++++++++++++++++---------------
 2 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/headers/kefir/cli/input.h b/headers/kefir/cli/input.h
index 6e6295e..e08dad1 100644
--- a/headers/kefir/cli/input.h
+++ b/headers/kefir/cli/input.h
@@ -29,6 +29,7 @@ typedef struct kefir_cli_input {
 
     kefir_size_t length;
     void *content;
+    kefir_bool_t mapped;
 } kefir_cli_input_t;
 
 kefir_result_t kefir_cli_input_open(struct kefir_mem *, struct kefir_cli_input *, const char *);
diff --git a/source/cli/input.c b/source/cli/input.c
index b327e8d..7fd34f0 100644
--- a/source/cli/input.c
+++ b/source/cli/input.c
@@ -24,51 +24,73 @@
 #include "kefir/core/os_error.h"
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 
+static kefir_result_t read_content(struct kefir_mem *mem, struct kefir_cli_input *input, int fd) {
+    kefir_size_t buffer_capacity = 0;
+    char chunk[256];
+    ssize_t sz;
+    while ((sz = read(fd, chunk, sizeof chunk)) != 0) {
+        if (sz < 0 && errno == EINTR) {
+            continue;
+        }
+        REQUIRE(sz > 0, KEFIR_SET_OS_ERROR("Failed to read input"));
+        if (input->length + sz >= buffer_capacity) {
+            buffer_capacity = input->length + sz + 1024;
+            void *new_content = KEFIR_REALLOC(mem, input->content, buffer_capacity);
+            REQUIRE(new_content != NULL,
+                    KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate input buffer"));
+            input->content = new_content;
+        }
+        memcpy(((char *) input->content) + input->length, chunk, sz);
+        input->length += sz;
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t open_content(struct kefir_mem *mem, struct kefir_cli_input *input, int fd) {
+    if (input->filepath != NULL) {
+        struct stat statbuf;
+        REQUIRE(fstat(fd, &statbuf) >= 0, KEFIR_SET_OS_ERROR("Failed to fstat file"));
+
+        if (S_ISREG(statbuf.st_mode) && statbuf.st_size > 0) {
+            void *content = mmap(NULL, statbuf.st_size, PROT_READ, MAP_SHARED, fd, 0);
+            REQUIRE(content != MAP_FAILED, KEFIR_SET_OS_ERROR("Failed to mmap file"));
+            input->content = content;
+            input->length = statbuf.st_size;
+            input->mapped = true;
+            return KEFIR_OK;
+        }
+    }
+    return read_content(mem, input, fd);
+}
+
 kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_input *input, const char *filepath) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid CLI input"));
 
     input->filepath = filepath;
-    int fd;
+    input->content = NULL;
+    input->length = 0;
+    input->mapped = false;
+
+    int fd = STDIN_FILENO;
     if (filepath != NULL) {
         fd = open(filepath, O_RDONLY);
         REQUIRE(fd >= 0, KEFIR_SET_OS_ERROR("Failed to open file"));
-
-        struct stat statbuf;
-        REQUIRE(fstat(fd, &statbuf) >= 0, KEFIR_SET_OS_ERROR("Failed to fstat file"));
-
-        if (statbuf.st_size > 0) {
-            input->content = mmap(NULL, statbuf.st_size, PROT_READ, MAP_SHARED, fd, 0);
-            REQUIRE(input->content != MAP_FAILED, KEFIR_SET_OS_ERROR("Failed to mmap file"));
-        } else {
-            input->content = "";
-        }
-        input->length = statbuf.st_size;
-    } else {
-        fd = STDIN_FILENO;
-        input->content = NULL;
-        input->length = 0;
-
-        kefir_size_t buffer_capacity = 0;
-        char chunk[256];
-        ssize_t sz;
-        while ((sz = read(fd, chunk, sizeof chunk)) > 0) {
-            if (input->length + sz >= buffer_capacity) {
-                buffer_capacity = input->length + sz + 1024;
-                input->content = KEFIR_REALLOC(mem, input->content, buffer_capacity);
-                REQUIRE(input->content != NULL,
-                        KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate input buffer"));
-            }
-            memcpy(((char *) input->content) + input->length, chunk, sz);
-            input->length += sz;
-        }
     }
+
+    kefir_result_t res = open_content(mem, input, fd);
     close(fd);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_FREE(mem, input->content);
+        input->content = NULL;
+        return res;
+    });
     return KEFIR_OK;
 }
 
@@ -76,17 +98,16 @@ kefir_result_t kefir_cli_input_close(struct kefir_mem *mem, struct kefir_cli_inp
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid CLI input"));
 
-    if (input->filepath != NULL) {
-        if (input->length > 0) {
-            int err = munmap(input->content, input->length);
-            REQUIRE(err == 0, KEFIR_SET_OS_ERROR("Failed to unmap file"));
-        }
+    if (input->mapped) {
+        int err = munmap(input->content, input->length);
+        REQUIRE(err == 0, KEFIR_SET_OS_ERROR("Failed to unmap file"));
     } else {
         KEFIR_FREE(mem, input->content);
     }
     input->filepath = NULL;
     input->content = NULL;
     input->length = 0;
+    input->mapped = false;
     return KEFIR_OK;
 }
 
@@ -94,7 +115,7 @@ kefir_result_t kefir_cli_input_get(const struct kefir_cli_input *input, const ch
                                    kefir_size_t *length_ptr) {
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid CLI input"));
 
-    ASSIGN_PTR(content_ptr, input->content);
+    ASSIGN_PTR(content_ptr, input->content != NULL ? (const char *) input->content : "");
     ASSIGN_PTR(length_ptr, input->length);
     return KEFIR_OK;
 }
-- 
2.43.0


From 07418328dc8f0e05f0196e7c543ee06cd460ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:03 +0000
Subject: [PATCH 14/40] fix: output is opened once and write, flush and close
 failures fail the run; -p honours --pp-timestamp

---
 source/main/main.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/source/main/main.c b/source/main/main.c
index 4aef7b9..c3045c8 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -60,6 +60,17 @@ static kefir_result_t open_output(const char *filepath, FILE **output) {
     return KEFIR_OK;
 }
 
+static kefir_result_t close_output(FILE *output) {
+    const kefir_bool_t failed = ferror(output) != 0;
+    REQUIRE(fclose(output) == 0 && !failed, KEFIR_SET_OS_ERROR("Failed to write output"));
+    return KEFIR_OK;
+}
+
+static kefir_result_t print_output(const char *content) {
+    REQUIRE(fputs(content, stdout) >= 0 && fflush(stdout) == 0, KEFIR_SET_OS_ERROR("Failed to write output"));
+    return KEFIR_OK;
+}
+
 static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_options *options,
                                        kefir_result_t (*action)(struct kefir_mem *, struct kefir_cli_options *,
                                                                 struct kefir_compiler_context *, const char *,
@@ -110,8 +121,11 @@ static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_o
 
     compiler.translator_configuration.empty_structs = options->features.empty_structs;
 
-    REQUIRE_OK(action(mem, options, &compiler, source_id, input.content, input.length, output));
-    fclose(output);
+    const char *content = NULL;
+    kefir_size_t length = 0;
+    REQUIRE_OK(kefir_cli_input_get(&input, &content, &length));
+    REQUIRE_OK(action(mem, options, &compiler, source_id, content, length, output));
+    REQUIRE_OK(close_output(output));
     REQUIRE_OK(kefir_compiler_context_free(mem, &compiler));
     REQUIRE_OK(kefir_preprocessor_filesystem_source_locator_free(mem, &source_locator));
     REQUIRE_OK(kefir_cli_input_close(mem, &input));
@@ -180,9 +194,11 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     struct kefir_token_buffer tokens;
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
     REQUIRE_OK(build_predefined_macros(mem, options, compiler));
+    if (!options->default_pp_timestamp) {
+        compiler->preprocessor_context.environment.timestamp = options->pp_timestamp;
+    }
     REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_preprocessor_format(output, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
     REQUIRE_OK(kefir_token_buffer_free(mem, &tokens));
     return KEFIR_OK;
@@ -202,7 +218,6 @@ static kefir_result_t dump_tokens_impl(struct kefir_mem *mem, struct kefir_cli_o
     REQUIRE_OK(lex_file(mem, options, compiler, source_id, source, length, &tokens));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_token_buffer_format(&json, &tokens, options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -228,7 +243,6 @@ static kefir_result_t dump_ast_impl(struct kefir_mem *mem, struct kefir_cli_opti
     REQUIRE_OK(kefir_compiler_analyze(mem, compiler, KEFIR_AST_NODE_BASE(unit)));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_ast_format(&json, KEFIR_AST_NODE_BASE(unit), options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -304,23 +318,22 @@ static kefir_result_t action_dump_runtime_code(struct kefir_mem *mem, struct kef
     REQUIRE_OK(kefir_compiler_profile(&profile, options->target_profile));
     REQUIRE(profile.runtime_code != NULL,
             KEFIR_SET_ERROR(KEFIR_NOT_SUPPORTED, "Runtime code is not available for specified profile"));
-    printf("%s", profile.runtime_code);
-    return KEFIR_OK;
+    return print_output(profile.runtime_code);
 }
 
 static kefir_result_t action_help(struct kefir_mem *mem, struct kefir_cli_options *options) {
     UNUSED(mem);
     UNUSED(options);
     extern const char KefirHelpContent[];
-    printf("%s", KefirHelpContent);
-    return KEFIR_OK;
+    return print_output(KefirHelpContent);
 }
 
 static kefir_result_t action_version(struct kefir_mem *mem, struct kefir_cli_options *options) {
     UNUSED(mem);
     UNUSED(options);
-    printf("%u.%u.%u\n", KEFIR_VERSION_MAJOR, KEFIR_VERSION_MINOR, KEFIR_VERSION_PATCH);
-    return KEFIR_OK;
+    char version[64];
+    snprintf(version, sizeof(version), "%u.%u.%u\n", KEFIR_VERSION_MAJOR, KEFIR_VERSION_MINOR, KEFIR_VERSION_PATCH);
+    return print_output(version);
 }
 
 static kefir_result_t (*Actions[])(struct kefir_mem *, struct kefir_cli_options *) = {
-- 
2.43.0


From 2767e6f2fff5d2d9cbe9119009b8707605b31371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 15/40] fix: pass the path of the forced include file to the
 preprocessor

---
 source/compiler/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compiler/compiler.c b/source/compiler/compiler.c
index 8937a8a..f7d38b1 100644
--- a/source/compiler/compiler.c
+++ b/source/compiler/compiler.c
@@ -257,7 +257,7 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
                                                                   filepath, false, NULL, &source_file));
 
     res = kefir_compiler_preprocess_lex(mem, context, buffer, source_file.cursor.content, source_file.cursor.length,
-                                        source_id, filepath);
+                                        source_id, source_file.filepath);
     REQUIRE_ELSE(res == KEFIR_OK, {
         source_file.close(mem, &source_file);
         return res;
-- 
2.43.0


From a9193c51a6b262e2adf3671cda99dd863db9410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 16/40] fix: format char16_t/char32_t constants without
 uninitialised conversion state

---
 source/preprocessor/format.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index ab29f7b..23a60af 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -238,23 +238,13 @@ static kefir_result_t format_constant(FILE *out, const struct kefir_token *token
             fprintf(out, "'");
             break;
 
-        case KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR: {
-            char buffer[MB_LEN_MAX];
-            mbstate_t mbstate;
-            int sz = (int) c16rtomb(buffer, token->constant.unicode16_char, &mbstate);
-            REQUIRE(sz >= 0,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert Unicode16 character to multibyte"));
-            fprintf(out, "%*s", sz, buffer);
-        } break;
-
-        case KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR: {
-            char buffer[MB_LEN_MAX];
-            mbstate_t mbstate;
-            int sz = (int) c32rtomb(buffer, token->constant.unicode32_char, &mbstate);
-            REQUIRE(sz >= 0,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert Unicode32 character to multibyte"));
-            fprintf(out, "%*s", sz, buffer);
-        } break;
+        case KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR:
+            fprintf(out, "u'\\x%x'", (unsigned int) token->constant.unicode16_char);
+            break;
+
+        case KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR:
+            fprintf(out, "U'\\x%x'", (unsigned int) token->constant.unicode32_char);
+            break;
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From b63dc3a661de6f3685844f5787de6693c65242fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 17/40] fix: end of source terminates character constants and
 header names

---
 source/lexer/tokens/character_constant.c | 4 ++--
 source/lexer/tokens/pp_header_name.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/lexer/tokens/character_constant.c b/source/lexer/tokens/character_constant.c
index acef28f..336ec6c 100644
--- a/source/lexer/tokens/character_constant.c
+++ b/source/lexer/tokens/character_constant.c
@@ -34,7 +34,7 @@ static kefir_result_t next_character(struct kefir_lexer_source_cursor *cursor, k
         *continueScan = true;
         hex_oct_escape = next_chr == U'x' || kefir_isoctdigit32(next_chr) || kefir_ishexdigit32(next_chr);
         REQUIRE_OK(kefir_lexer_cursor_next_escape_sequence(cursor, &chr));
-    } else if (chr == U'\'') {
+    } else if (chr == U'\'' || chr == U'\0') {
         *continueScan = false;
     } else {
         *continueScan = true;
@@ -68,7 +68,7 @@ static kefir_result_t next_wide_character(struct kefir_lexer_source_cursor *curs
     if (chr == U'\\') {
         *continueScan = true;
         REQUIRE_OK(kefir_lexer_cursor_next_escape_sequence(cursor, value));
-    } else if (chr == U'\'') {
+    } else if (chr == U'\'' || chr == U'\0') {
         *continueScan = false;
     } else {
         *continueScan = true;
diff --git a/source/lexer/tokens/pp_header_name.c b/source/lexer/tokens/pp_header_name.c
index 2963165..79e5b83 100644
--- a/source/lexer/tokens/pp_header_name.c
+++ b/source/lexer/tokens/pp_header_name.c
@@ -42,9 +42,9 @@ static kefir_result_t match_header_name(struct kefir_mem *mem, struct kefir_lexe
     kefir_bool_t scan_pp_header_name = true;
     while (scan_pp_header_name) {
         chr = kefir_lexer_source_cursor_at(lexer->cursor, 0);
-        REQUIRE(chr != lexer->context->newline,
+        REQUIRE(chr != lexer->context->newline && chr != U'\0',
                 KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &lexer->cursor->location,
-                                       "Unexpected newline in preprocessor header name"));
+                                       "Unexpected newline or end of source in preprocessor header name"));
         scan_pp_header_name = chr != terminator;
         if (scan_pp_header_name) {
             REQUIRE_OK(kefir_lexer_source_cursor_next(lexer->cursor, 1));
-- 
2.43.0


From 3f7ea4eb66e4b477285faba6f78670cd2409d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 18/40] fix: release partially parsed nodes on parser errors

---
 source/parser/rules/declaration_specifier.c | 16 ++++++++++------
 source/parser/rules/primary_expression.c    | 14 +++++++++++---
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/source/parser/rules/declaration_specifier.c b/source/parser/rules/declaration_specifier.c
index af7bccb..eadd107 100644
--- a/source/parser/rules/declaration_specifier.c
+++ b/source/parser/rules/declaration_specifier.c
@@ -259,13 +259,15 @@ static kefir_result_t scan_struct_specifier(struct kefir_mem *mem, struct kefir_
         return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST declarator specifier");
     });
 
-    *specifier_ptr = decl_specifier;
-
     if (complete) {
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_specifier_free(mem, decl_specifier);
+            return res;
+        });
     }
 
+    *specifier_ptr = decl_specifier;
     return KEFIR_OK;
 }
 
@@ -369,13 +371,15 @@ static kefir_result_t scan_enum_specifier(struct kefir_mem *mem, struct kefir_pa
         return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST declarator specifier");
     });
 
-    *specifier_ptr = decl_specifier;
-
     if (complete) {
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_specifier_free(mem, decl_specifier);
+            return res;
+        });
     }
 
+    *specifier_ptr = decl_specifier;
     return KEFIR_OK;
 }
 
diff --git a/source/parser/rules/primary_expression.c b/source/parser/rules/primary_expression.c
index b7019a2..01d29b9 100644
--- a/source/parser/rules/primary_expression.c
+++ b/source/parser/rules/primary_expression.c
@@ -38,8 +38,16 @@ kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(primary_expression)(struct kefir_mem
             KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match primary expression"));
     REQUIRE_OK(PARSER_SHIFT(parser));
     REQUIRE_OK(KEFIR_PARSER_RULE_APPLY(mem, parser, expression, result));
-    REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE),
-            KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match primary expression"));
-    REQUIRE_OK(PARSER_SHIFT(parser));
+    REQUIRE_ELSE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE), {
+        KEFIR_AST_NODE_FREE(mem, *result);
+        *result = NULL;
+        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match primary expression");
+    });
+    res = PARSER_SHIFT(parser);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_AST_NODE_FREE(mem, *result);
+        *result = NULL;
+        return res;
+    });
     return KEFIR_OK;
 }
-- 
2.43.0


From c225649136fc71385c347ab9448981d941992129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 19/40] fix: initializers of empty structures and unnamed
 bit-fields

---
 source/ast/analyzer/initializer.c    | 10 +++++++
 source/ast/analyzer/type_traversal.c | 44 ++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/source/ast/analyzer/initializer.c b/source/ast/analyzer/initializer.c
index 5c2df9d..f1a9f28 100644
--- a/source/ast/analyzer/initializer.c
+++ b/source/ast/analyzer/initializer.c
@@ -123,6 +123,8 @@ static kefir_result_t traverse_aggregate_union_string_literal(struct kefir_mem *
     REQUIRE_OK(string_literal_stop_fn(entry->value->expression, context->type_traits, &stop_fn, &stop_payload));
 
     REQUIRE_OK(kefir_ast_type_traversal_next_recursive2(mem, traversal, stop_fn, stop_payload, &type, NULL));
+    REQUIRE(type != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
+                                                 "Initializer does not correspond to any field or element"));
     if (!stop_fn(type, stop_payload)) {
         kefir_result_t res;
         REQUIRE_MATCH_OK(
@@ -149,12 +151,16 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
         if (entry->value->type == KEFIR_AST_INITIALIZER_LIST) {
             const struct kefir_ast_type *type = NULL;
             REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &type, NULL));
+            REQUIRE(type != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
+                                                         "Initializer does not correspond to any field or element"));
             REQUIRE_OK(kefir_ast_analyze_initializer(mem, context, type, entry->value, NULL));
         } else if (entry->value->expression->properties.expression_props.string_literal.content != NULL) {
             REQUIRE_OK(traverse_aggregate_union_string_literal(mem, context, traversal, entry));
         } else if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(entry->value->expression->properties.type)) {
             const struct kefir_ast_type *type = NULL;
             REQUIRE_OK(kefir_ast_type_traversal_next_recursive(mem, traversal, &type, NULL));
+            REQUIRE(type != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
+                                                         "Initializer does not correspond to any field or element"));
 
             kefir_result_t res;
             REQUIRE_MATCH_OK(
@@ -166,11 +172,15 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
         } else {
             const struct kefir_ast_type *type = NULL;
             REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &type, NULL));
+            REQUIRE(type != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
+                                                         "Initializer does not correspond to any field or element"));
             kefir_result_t res =
                 kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type));
             while (res == KEFIR_NO_MATCH) {
                 REQUIRE_OK(kefir_ast_type_traversal_step(mem, traversal));
                 REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &type, NULL));
+                REQUIRE(type != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
+                                                             "Initializer does not correspond to any field or element"));
                 res =
                     kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type));
             }
diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index f9edaad..a7613f3 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -132,10 +132,9 @@ static struct kefir_ast_struct_field *skip_unnamed_bitfields(struct kefir_ast_ty
     REQUIRE(layer->structure.iterator != NULL, NULL);
 
     struct kefir_ast_struct_field *field = NULL;
-    for (field = layer->structure.iterator->value;
-         layer->structure.iterator != NULL && field->identifier == NULL && field->bitfield;) {
+    for (field = layer->structure.iterator->value; field != NULL && field->identifier == NULL && field->bitfield;) {
         kefir_list_next(&layer->structure.iterator);
-        field = layer->structure.iterator->value;
+        field = layer->structure.iterator != NULL ? layer->structure.iterator->value : NULL;
     }
     return field;
 }
@@ -214,6 +213,27 @@ kefir_result_t kefir_ast_type_traversal_next(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
+static kefir_bool_t has_elements(const struct kefir_ast_type *type) {
+    switch (type->tag) {
+        case KEFIR_AST_TYPE_STRUCTURE:
+        case KEFIR_AST_TYPE_UNION:
+            for (const struct kefir_list_entry *iter = kefir_list_head(&type->structure_type.fields); iter != NULL;
+                 kefir_list_next(&iter)) {
+                ASSIGN_DECL_CAST(struct kefir_ast_struct_field *, field, iter->value);
+                if ((field->identifier != NULL || !field->bitfield) && has_elements(field->type)) {
+                    return true;
+                }
+            }
+            return false;
+
+        case KEFIR_AST_TYPE_ARRAY:
+            return has_elements(type->array_type.element_type);
+
+        default:
+            return true;
+    }
+}
+
 kefir_result_t kefir_ast_type_traversal_next_recursive(struct kefir_mem *mem,
                                                        struct kefir_ast_type_traversal *traversal,
                                                        const struct kefir_ast_type **type,
@@ -238,7 +258,8 @@ kefir_result_t kefir_ast_type_traversal_next_recursive2(struct kefir_mem *mem,
             case KEFIR_AST_TYPE_STRUCTURE:
             case KEFIR_AST_TYPE_UNION:
             case KEFIR_AST_TYPE_ARRAY:
-                if (stop == NULL || !stop(top_type, stop_payload)) {
+                if ((stop == NULL || !stop(top_type, stop_payload)) &&
+                    (top_layer->type != KEFIR_AST_TYPE_TRAVERSAL_ARRAY || has_elements(top_type))) {
                     REQUIRE_OK(push_layer(mem, traversal, top_type, top_layer));
                     return kefir_ast_type_traversal_next_recursive2(mem, traversal, stop, stop_payload, type,
                                                                     layer_ptr);
@@ -265,6 +286,7 @@ kefir_result_t kefir_ast_type_traversal_step(struct kefir_mem *mem, struct kefir
         return KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "Type traversal is empty");
     }
 
+    const kefir_size_t depth = kefir_list_length(&traversal->stack);
     struct kefir_ast_type_traversal_layer *layer = NULL;
     REQUIRE_OK(kefir_linked_stack_peek(&traversal->stack, (void **) &layer));
     switch (layer->type) {
@@ -281,13 +303,21 @@ kefir_result_t kefir_ast_type_traversal_step(struct kefir_mem *mem, struct kefir
         case KEFIR_AST_TYPE_TRAVERSAL_SCALAR:
             return KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "Type traversal is unable to step into scalar");
     }
+    REQUIRE(kefir_list_length(&traversal->stack) > depth,
+            KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "Type traversal is unable to step into empty type"));
     return KEFIR_OK;
 }
 
+static kefir_bool_t is_nonempty_aggregate(const struct kefir_ast_type *type) {
+    return (type->tag == KEFIR_AST_TYPE_STRUCTURE || type->tag == KEFIR_AST_TYPE_UNION) &&
+           kefir_list_head(&type->structure_type.fields) != NULL;
+}
+
 static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_type_traversal *traversal,
                                       const char *member, kefir_bool_t push) {
     struct kefir_ast_type_traversal_layer *layer = NULL;
     REQUIRE_OK(kefir_linked_stack_peek(&traversal->stack, (void **) &layer));
+    REQUIRE(layer != NULL, KEFIR_SET_ERROR(KEFIR_NOT_FOUND, "Unable to find specified member in empty type"));
     switch (layer->type) {
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE: {
             for (const struct kefir_list_entry *iter = kefir_list_head(&layer->object_type->structure_type.fields);
@@ -309,7 +339,7 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         }
                         return KEFIR_OK;
                     }
-                } else if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(field->type)) {
+                } else if (is_nonempty_aggregate(field->type)) {
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
@@ -338,7 +368,7 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         }
                         return KEFIR_OK;
                     }
-                } else {
+                } else if (is_nonempty_aggregate(field->type)) {
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
@@ -365,6 +395,8 @@ static kefir_result_t navigate_index(struct kefir_mem *mem, struct kefir_ast_typ
                                      kefir_size_t index, kefir_bool_t push) {
     struct kefir_ast_type_traversal_layer *layer = NULL;
     REQUIRE_OK(kefir_linked_stack_peek(&traversal->stack, (void **) &layer));
+    REQUIRE(layer != NULL,
+            KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "Indexed access is not supported for structure/union types"));
     switch (layer->type) {
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
         case KEFIR_AST_TYPE_TRAVERSAL_UNION:
-- 
2.43.0


From fc2fd5fb4ed90e5cb8bcdbe7aaf36851c6c81b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 20/40] fix: terminate on self-referential and mutually
 recursive macros

---
 headers/kefir/preprocessor/token_sequence.h |  6 +++
 source/preprocessor/substitutions.c         | 50 +++++++++++++++------
 source/preprocessor/token_sequence.c        | 26 +++++++++++
 3 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/headers/kefir/preprocessor/token_sequence.h b/headers/kefir/preprocessor/token_sequence.h
index 0957e01..2944d61 100644
--- a/headers/kefir/preprocessor/token_sequence.h
+++ b/headers/kefir/preprocessor/token_sequence.h
@@ -26,6 +26,7 @@
 
 typedef struct kefir_preprocessor_token_sequence {
     struct kefir_list buffer_stack;
+    const struct kefir_preprocessor_token_sequence *parent;
 } kefir_preprocessor_token_sequence_t;
 
 kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_token_sequence *);
@@ -33,6 +34,11 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *, struct
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *,
                                                             struct kefir_preprocessor_token_sequence *,
                                                             struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *,
+                                                            struct kefir_preprocessor_token_sequence *,
+                                                            struct kefir_token_buffer *, const char *);
+kefir_bool_t kefir_preprocessor_token_sequence_macro_active(const struct kefir_preprocessor_token_sequence *,
+                                                            const char *);
 kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
                                                       struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_sequence_shift(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
diff --git a/source/preprocessor/substitutions.c b/source/preprocessor/substitutions.c
index 19bec05..47016a6 100644
--- a/source/preprocessor/substitutions.c
+++ b/source/preprocessor/substitutions.c
@@ -31,7 +31,7 @@ static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefi
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, NULL, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -96,9 +96,15 @@ static kefir_result_t function_macro_arguments_push(struct kefir_mem *mem, struc
     return KEFIR_OK;
 }
 
+static kefir_result_t run_nested_substitutions(struct kefir_mem *, struct kefir_preprocessor *,
+                                               struct kefir_token_buffer *,
+                                               const struct kefir_preprocessor_token_sequence *,
+                                               kefir_preprocessor_substitution_context_t);
+
 static kefir_result_t prepare_function_macro_argument(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                      const struct kefir_preprocessor_token_sequence *seq,
                                                       struct kefir_token_buffer *buffer) {
-    REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, buffer, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
+    REQUIRE_OK(run_nested_substitutions(mem, preprocessor, buffer, seq, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
     while (buffer->length > 0 && buffer->tokens[buffer->length - 1].klass == KEFIR_TOKEN_PP_WHITESPACE) {
         REQUIRE_OK(kefir_token_buffer_pop(mem, buffer));
     }
@@ -168,7 +174,7 @@ static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struc
 
     for (const struct kefir_list_entry *iter = kefir_list_head(args); iter != NULL; kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_token_buffer *, arg_buffer, iter->value);
-        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, arg_buffer));
+        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, seq, arg_buffer));
     }
     return KEFIR_OK;
 }
@@ -180,7 +186,7 @@ static kefir_result_t apply_function_macro(struct kefir_mem *mem, struct kefir_p
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, args, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -367,12 +373,21 @@ static kefir_result_t run_substitutions(struct kefir_mem *mem, struct kefir_prep
         } else {
             REQUIRE_OK(res);
 
+            if (token.klass == KEFIR_TOKEN_IDENTIFIER &&
+                kefir_preprocessor_token_sequence_macro_active(seq, token.identifier)) {
+                token.preprocessor_props.skip_identifier_subst = true;
+            }
+
             kefir_result_t res = KEFIR_NO_MATCH;
             if (token.klass == KEFIR_TOKEN_IDENTIFIER &&
                 (!token.preprocessor_props.skip_identifier_subst ||
                  subst_context == KEFIR_PREPROCESSOR_SUBSTITUTION_IF_CONDITION)) {
-                res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
-                                            &token.source_location);
+                if (!token.preprocessor_props.skip_identifier_subst) {
+                    res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
+                                                &token.source_location);
+                } else {
+                    res = substitute_unknown_identifier(mem, seq, subst_context, &token.source_location);
+                }
                 REQUIRE_CHAIN(&res, kefir_token_free(mem, &token));
             }
 
@@ -449,15 +464,13 @@ static kefir_result_t run_substitutions_impl(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
-                                                    struct kefir_token_buffer *buffer,
-                                                    kefir_preprocessor_substitution_context_t subst_context) {
-    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
-    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
-    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
-
+static kefir_result_t run_nested_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                               struct kefir_token_buffer *buffer,
+                                               const struct kefir_preprocessor_token_sequence *parent,
+                                               kefir_preprocessor_substitution_context_t subst_context) {
     struct kefir_preprocessor_token_sequence seq;
     REQUIRE_OK(kefir_preprocessor_token_sequence_init(&seq));
+    seq.parent = parent;
     kefir_result_t res = run_substitutions_impl(mem, preprocessor, buffer, &seq, subst_context);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_preprocessor_token_sequence_free(mem, &seq);
@@ -466,3 +479,14 @@ kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struc
     REQUIRE_OK(kefir_preprocessor_token_sequence_free(mem, &seq));
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                    struct kefir_token_buffer *buffer,
+                                                    kefir_preprocessor_substitution_context_t subst_context) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
+    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
+
+    REQUIRE_OK(run_nested_substitutions(mem, preprocessor, buffer, NULL, subst_context));
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/token_sequence.c b/source/preprocessor/token_sequence.c
index b868ff1..07e5b31 100644
--- a/source/preprocessor/token_sequence.c
+++ b/source/preprocessor/token_sequence.c
@@ -21,10 +21,12 @@
 #include "kefir/preprocessor/token_sequence.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include <string.h>
 
 struct buffer_element {
     struct kefir_token_buffer buffer;
     kefir_size_t index;
+    const char *macro_identifier;
 };
 
 static kefir_result_t free_token_buffer(struct kefir_mem *mem, struct kefir_list *list, struct kefir_list_entry *entry,
@@ -45,6 +47,7 @@ kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_
 
     REQUIRE_OK(kefir_list_init(&seq->buffer_stack));
     REQUIRE_OK(kefir_list_on_remove(&seq->buffer_stack, free_token_buffer, NULL));
+    seq->parent = NULL;
     return KEFIR_OK;
 }
 
@@ -60,6 +63,14 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *mem,
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *mem,
                                                             struct kefir_preprocessor_token_sequence *seq,
                                                             struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_sequence_push_macro(mem, seq, src, NULL));
+    return KEFIR_OK;
+}
+
+kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *mem,
+                                                            struct kefir_preprocessor_token_sequence *seq,
+                                                            struct kefir_token_buffer *src,
+                                                            const char *macro_identifier) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(seq != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token sequence"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -78,6 +89,7 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
         return res;
     });
     buffer_elt->index = 0;
+    buffer_elt->macro_identifier = macro_identifier;
 
     res = kefir_list_insert_after(mem, &seq->buffer_stack, kefir_list_tail(&seq->buffer_stack), buffer_elt);
     REQUIRE_ELSE(res == KEFIR_OK, {
@@ -88,6 +100,20 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
     return KEFIR_OK;
 }
 
+kefir_bool_t kefir_preprocessor_token_sequence_macro_active(const struct kefir_preprocessor_token_sequence *seq,
+                                                            const char *macro_identifier) {
+    for (; seq != NULL; seq = seq->parent) {
+        for (const struct kefir_list_entry *iter = kefir_list_head(&seq->buffer_stack); iter != NULL;
+             kefir_list_next(&iter)) {
+            ASSIGN_DECL_CAST(const struct buffer_element *, buffer_elt, iter->value);
+            if (buffer_elt->macro_identifier != NULL && strcmp(buffer_elt->macro_identifier, macro_identifier) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 static kefir_result_t next_buffer_elt(struct kefir_mem *mem, struct kefir_preprocessor_token_sequence *seq,
                                       struct buffer_element **buffer_elt) {
     *buffer_elt = NULL;
-- 
2.43.0


From d515cab41d0126cf88edbddcc884ecd72cbf0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 21/40] fix: bound the depth of nested includes

---
 source/preprocessor/preprocessor.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index e5a5ed1..ebb7ee2 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -645,12 +645,22 @@ static kefir_result_t insert_sentinel(struct kefir_mem *mem, struct kefir_prepro
     return KEFIR_OK;
 }
 
+#define MAX_INCLUDE_DEPTH 200
+
 kefir_result_t kefir_preprocessor_run(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                       struct kefir_token_buffer *buffer) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
 
+    kefir_size_t include_depth = 0;
+    for (const struct kefir_preprocessor *parent = preprocessor->parent; parent != NULL; parent = parent->parent) {
+        include_depth++;
+    }
+    REQUIRE(include_depth <= MAX_INCLUDE_DEPTH,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &preprocessor->lexer.cursor->location,
+                                   "Include directives are nested too deeply"));
+
     kefir_result_t res;
     KEFIR_RUN_EXTENSION(&res, mem, preprocessor, before_run, buffer);
     REQUIRE_OK(res);
-- 
2.43.0


From 26e2b04835a036d8f1d3d61b00faf965c3edc649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 22/40] fix: statement expression whose last statement is empty

---
 source/ast-translator/nodes/statement_expression.c |  4 +++-
 source/ast/analyzer/nodes/statement_expression.c   | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/ast-translator/nodes/statement_expression.c b/source/ast-translator/nodes/statement_expression.c
index a1052d1..b39c149 100644
--- a/source/ast-translator/nodes/statement_expression.c
+++ b/source/ast-translator/nodes/statement_expression.c
@@ -56,7 +56,9 @@ kefir_result_t kefir_ast_translate_statement_expression_node(struct kefir_mem *m
         REQUIRE_MATCH_OK(&res, kefir_ast_downcast_expression_statement(node->result, &expr_statement, false),
                          KEFIR_SET_ERROR(KEFIR_INVALID_STATE,
                                          "Last statement of statement expression shall be an expression statement"));
-        REQUIRE_OK(kefir_ast_translate_expression(mem, expr_statement->expression, builder, context));
+        if (expr_statement->expression != NULL) {
+            REQUIRE_OK(kefir_ast_translate_expression(mem, expr_statement->expression, builder, context));
+        }
     }
 
     if (node->base.properties.expression_props.flow_control_statement->value.block.contains_vla) {
diff --git a/source/ast/analyzer/nodes/statement_expression.c b/source/ast/analyzer/nodes/statement_expression.c
index 5c46dba..ce69ce0 100644
--- a/source/ast/analyzer/nodes/statement_expression.c
+++ b/source/ast/analyzer/nodes/statement_expression.c
@@ -69,9 +69,14 @@ kefir_result_t kefir_ast_analyze_statement_expression_node(struct kefir_mem *mem
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->result->source_location,
                                    "Last statement of statement expression shall be an expression statement"));
 
-        base->properties.type =
-            KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr_statement->expression->properties.type);
-        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        if (expr_statement->expression != NULL) {
+            base->properties.type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle,
+                                                                       expr_statement->expression->properties.type);
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        } else {
+            base->properties.type = kefir_ast_type_void();
+        }
     } else {
         base->properties.type = kefir_ast_type_void();
     }
-- 
2.43.0


From ec7774f3d2fbbe0ceb7c687a691ab8ffb3791b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 23/40] fix: structure and union compatibility with mismatching
 bit-fields

---
 source/ast/type/struct.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/source/ast/type/struct.c b/source/ast/type/struct.c
index d9d5bef..20c4036 100644
--- a/source/ast/type/struct.c
+++ b/source/ast/type/struct.c
@@ -31,6 +31,12 @@ static kefir_bool_t strings_same(const char *str1, const char *str2) {
     }
 }
 
+static kefir_bool_t same_bitwidth(const struct kefir_ast_struct_field *field1,
+                                  const struct kefir_ast_struct_field *field2) {
+    REQUIRE(field1->bitfield && field2->bitfield, !field1->bitfield && !field2->bitfield);
+    return field1->bitwidth->value.integer == field2->bitwidth->value.integer;
+}
+
 static kefir_bool_t same_structure_type(const struct kefir_ast_type *type1, const struct kefir_ast_type *type2) {
     REQUIRE(type1 != NULL, false);
     REQUIRE(type2 != NULL, false);
@@ -47,9 +53,7 @@ static kefir_bool_t same_structure_type(const struct kefir_ast_type *type1, cons
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, iter2->value);
             REQUIRE(strings_same(field1->identifier, field2->identifier), false);
             REQUIRE(field1->alignment->value == field2->alignment->value, false);
-            REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                        (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                    false);
+            REQUIRE(same_bitwidth(field1, field2), false);
             REQUIRE(KEFIR_AST_TYPE_SAME(field1->type, field2->type), false);
         }
     }
@@ -72,9 +76,7 @@ static kefir_bool_t compatible_structure_types(const struct kefir_ast_type_trait
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, iter2->value);
             REQUIRE(strings_same(field1->identifier, field2->identifier), false);
             REQUIRE(field1->alignment->value == field2->alignment->value, false);
-            REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                        (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                    false);
+            REQUIRE(same_bitwidth(field1, field2), false);
             REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type), false);
         }
     }
@@ -173,9 +175,7 @@ static kefir_bool_t same_union_type(const struct kefir_ast_type *type1, const st
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field1, node1->value);
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, node2->value);
             REQUIRE(strings_same(field1->identifier, field2->identifier), false);
-            REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                        (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                    false);
+            REQUIRE(same_bitwidth(field1, field2), false);
             REQUIRE(KEFIR_AST_TYPE_SAME(field1->type, field2->type), false);
         }
         for (const struct kefir_hashtree_node *node2 = kefir_hashtree_iter(&type2->structure_type.field_index, &iter);
@@ -199,14 +199,12 @@ static kefir_bool_t compatible_union_types(const struct kefir_ast_type_traits *t
 
             if (field1->identifier != NULL) {
                 struct kefir_hashtree_node *node2 = NULL;
-                kefir_result_t res = kefir_hashtree_at(&type1->structure_type.field_index,
+                kefir_result_t res = kefir_hashtree_at(&type2->structure_type.field_index,
                                                        (kefir_hashtree_key_t) field1->identifier, &node2);
                 REQUIRE(res == KEFIR_OK, false);
                 ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, node2->value);
 
-                REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                            (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                        false);
+                REQUIRE(same_bitwidth(field1, field2), false);
                 REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type), false);
             } else {
                 kefir_bool_t found_match = false;
@@ -217,8 +215,7 @@ static kefir_bool_t compatible_union_types(const struct kefir_ast_type_traits *t
                         continue;
                     }
 
-                    found_match = ((!field1->bitfield && !field2->bitfield) ||
-                                   (field1->bitwidth->value.integer == field2->bitwidth->value.integer)) &&
+                    found_match = same_bitwidth(field1, field2) &&
                                   KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type);
                 }
 
@@ -259,7 +256,7 @@ const struct kefir_ast_type *composite_union_types(struct kefir_mem *mem, struct
             const struct kefir_ast_struct_field *field2 = NULL;
             if (field1->identifier != NULL) {
                 struct kefir_hashtree_node *node2 = NULL;
-                res = kefir_hashtree_at(&type1->structure_type.field_index, (kefir_hashtree_key_t) field1->identifier,
+                res = kefir_hashtree_at(&type2->structure_type.field_index, (kefir_hashtree_key_t) field1->identifier,
                                         &node2);
                 REQUIRE(res == KEFIR_OK, NULL);
                 field2 = (const struct kefir_ast_struct_field *) node2->value;
@@ -269,8 +266,7 @@ const struct kefir_ast_type *composite_union_types(struct kefir_mem *mem, struct
                     field2 = iter2->value;
 
                     if (field2->identifier != NULL ||
-                        !(((!field1->bitfield && !field2->bitfield) ||
-                           (field1->bitwidth->value.integer == field2->bitwidth->value.integer)) &&
+                        !(same_bitwidth(field1, field2) &&
                           KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type))) {
                         field2 = NULL;
                     }
-- 
2.43.0


From 64fd1c7e92a9d4cf3ae6893deee4f44b1546bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:26 +0000
Subject: [PATCH 24/40] fix: division by zero and overflow in constant
 expressions

---
 source/ast/constant_expression/binary_operation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index fbab4fb..27af3e3 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -202,7 +202,8 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer / arg2_value.integer;
+                value->integer = arg2_value.integer == -1 ? (kefir_ast_constant_expression_int_t) -arg1_value.uinteger
+                                                          : arg1_value.integer / arg2_value.integer;
             } else {
                 REQUIRE(arg2_value.integer != 0,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
@@ -213,9 +214,12 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             break;
 
         case KEFIR_AST_OPERATION_MODULO:
+            REQUIRE(arg2_value.integer != 0,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                           "Expected non-zero divisor in constant expression"));
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
             if (common_type_signed_integer) {
-                value->integer = arg1_value.integer % arg2_value.integer;
+                value->integer = arg2_value.integer == -1 ? 0 : arg1_value.integer % arg2_value.integer;
             } else {
                 value->uinteger = arg1_value.uinteger % arg2_value.integer;
             }
-- 
2.43.0


From 1e46bbb070602027ed1e9abbee9bc7155607043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:02 +0000
Subject: [PATCH 25/40] fix: release the traversal layer of an unsupported
 variable-length array

---
 source/ast/analyzer/type_traversal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index a7613f3..e069431 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -70,8 +70,10 @@ static kefir_result_t push_layer(struct kefir_mem *mem, struct kefir_ast_type_tr
         } break;
 
         case KEFIR_AST_TYPE_ARRAY: {
-            REQUIRE(!KEFIR_AST_TYPE_IS_VL_ARRAY(object_type),
-                    KEFIR_SET_ERROR(KEFIR_NOT_SUPPORTED, "Variable-length array traversal is not supported"));
+            REQUIRE_ELSE(!KEFIR_AST_TYPE_IS_VL_ARRAY(object_type), {
+                KEFIR_FREE(mem, layer);
+                return KEFIR_SET_ERROR(KEFIR_NOT_SUPPORTED, "Variable-length array traversal is not supported");
+            });
             layer->type = KEFIR_AST_TYPE_TRAVERSAL_ARRAY;
             layer->array.index = 0;
         } break;
-- 
2.43.0


From 1191c36b27bcca7f3138e30d723a3ba027a89637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:26 +0000
Subject: [PATCH 26/40] fix: source text after a null or undecodable character
 was silently dropped

---
 headers/kefir/lexer/source_cursor.h |  1 +
 source/lexer/lexer.c                |  1 +
 source/lexer/source_cursor.c        | 12 ++++++++++++
 source/preprocessor/preprocessor.c  |  3 ++-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/headers/kefir/lexer/source_cursor.h b/headers/kefir/lexer/source_cursor.h
index eb6b916..66529e9 100644
--- a/headers/kefir/lexer/source_cursor.h
+++ b/headers/kefir/lexer/source_cursor.h
@@ -45,6 +45,7 @@ kefir_result_t kefir_lexer_source_cursor_init(struct kefir_lexer_source_cursor *
                                               const char *);
 kefir_char32_t kefir_lexer_source_cursor_at(const struct kefir_lexer_source_cursor *, kefir_size_t);
 kefir_result_t kefir_lexer_source_cursor_next(struct kefir_lexer_source_cursor *, kefir_size_t);
+kefir_result_t kefir_lexer_source_cursor_require_end(const struct kefir_lexer_source_cursor *);
 kefir_result_t kefir_lexer_source_cursor_save(const struct kefir_lexer_source_cursor *,
                                               struct kefir_lexer_source_cursor_state *);
 kefir_result_t kefir_lexer_source_cursor_restore(struct kefir_lexer_source_cursor *,
diff --git a/source/lexer/lexer.c b/source/lexer/lexer.c
index 33928cd..c362426 100644
--- a/source/lexer/lexer.c
+++ b/source/lexer/lexer.c
@@ -103,6 +103,7 @@ static kefir_result_t lexer_next_impl(struct kefir_mem *mem, struct kefir_lexer
     REQUIRE_OK(kefir_lexer_cursor_match_whitespace(mem, lexer, NULL));
     struct kefir_source_location source_location = lexer->cursor->location;
     if (kefir_lexer_source_cursor_at(lexer->cursor, 0) == U'\0') {
+        REQUIRE_OK(kefir_lexer_source_cursor_require_end(lexer->cursor));
         REQUIRE_OK(kefir_token_new_sentinel(token));
     } else {
         res = kefir_lexer_match_constant(mem, lexer, token);
diff --git a/source/lexer/source_cursor.c b/source/lexer/source_cursor.c
index b2cdd8f..bf4dce6 100644
--- a/source/lexer/source_cursor.c
+++ b/source/lexer/source_cursor.c
@@ -21,6 +21,7 @@
 #include "kefir/lexer/source_cursor.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include "kefir/core/source_error.h"
 
 kefir_result_t kefir_lexer_source_cursor_init(struct kefir_lexer_source_cursor *cursor, const char *content,
                                               kefir_size_t length, const char *source_id) {
@@ -84,6 +85,17 @@ kefir_char32_t kefir_lexer_source_cursor_at(const struct kefir_lexer_source_curs
     return at_impl(cursor, count);
 }
 
+kefir_result_t kefir_lexer_source_cursor_require_end(const struct kefir_lexer_source_cursor *cursor) {
+    REQUIRE(cursor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid lexer source cursor"));
+
+    // Null and undecodable characters read as the end of the source, but only the trailing string terminator is one
+    const kefir_bool_t at_end = cursor->index >= cursor->length ||
+                                (cursor->index + 1 == cursor->length && cursor->content[cursor->index] == '\0');
+    REQUIRE(at_end, KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location,
+                                           "Unexpected null or undecodable character in the source"));
+    return KEFIR_OK;
+}
+
 static kefir_result_t next_impl(struct kefir_lexer_source_cursor *cursor, kefir_size_t count) {
     while (count--) {
         kefir_char32_t chr;
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index ebb7ee2..17f3f36 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -674,7 +674,8 @@ kefir_result_t kefir_preprocessor_run(struct kefir_mem *mem, struct kefir_prepro
         return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive.source_location,
                                       "Unexpected preprocessor directive/token");
     });
-    res = insert_sentinel(mem, &directive, buffer);
+    res = kefir_lexer_source_cursor_require_end(preprocessor->lexer.cursor);
+    REQUIRE_CHAIN(&res, insert_sentinel(mem, &directive, buffer));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_preprocessor_directive_free(mem, &directive);
         return res;
-- 
2.43.0


From 92117ce7286e83c297f2d2d5f3b25ae15fca78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:26 +0000
Subject: [PATCH 27/40] fix: formatted diagnostics of long paths overran the
 error entry

---
 source/core/source_error.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/source_error.c b/source/core/source_error.c
index 0d22224..924250b 100644
--- a/source/core/source_error.c
+++ b/source/core/source_error.c
@@ -63,9 +63,12 @@ kefir_result_t kefir_set_source_errorf(kefir_result_t code, const struct kefir_s
     char *message_buf = source_error->message;
     kefir_size_t message_max_len = KEFIR_SOURCE_ERROR_MESSAGE_LENGTH;
     if (location != NULL) {
-        int diff;
-        snprintf(source_error->message, KEFIR_SOURCE_ERROR_MESSAGE_LENGTH, "%s@%u:%u %n", location->source,
-                 location->line, location->column, &diff);
+        int length = snprintf(source_error->message, KEFIR_SOURCE_ERROR_MESSAGE_LENGTH, "%s@%u:%u ", location->source,
+                              location->line, location->column);
+        kefir_size_t diff = length > 0 ? (kefir_size_t) length : 0;
+        if (diff >= message_max_len) {
+            diff = message_max_len - 1;
+        }
         message_buf += diff;
         message_max_len -= diff;
     }
-- 
2.43.0


From 9901607a3e4a9fb4fe44b6edba4cc3e8ba10b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:26 +0000
Subject: [PATCH 28/40] fix: undecodable bytes sent the JSON printer into an
 endless loop

---
 source/util/json.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/util/json.c b/source/util/json.c
index 3b3b923..acbd9a4 100644
--- a/source/util/json.c
+++ b/source/util/json.c
@@ -183,6 +183,13 @@ static kefir_result_t format_string(struct kefir_json_output *json, const char *
     size_t sz = 0;
     kefir_char32_t wide_char;
     while (string < end && (sz = mbrtoc32(&wide_char, string, end - string, &state)) != 0) {
+        if (sz == (size_t) -1 || sz == (size_t) -2) {
+            // The byte is not a part of any valid character
+            fprintf(json->file, "\\ufffd");
+            state = (mbstate_t){0};
+            string++;
+            continue;
+        }
         switch (wide_char) {
             case U'\"':
                 fprintf(json->file, "\\\"");
-- 
2.43.0


From 2509090295be90ef4510fa40dbf33fdcaafc8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 29/40] fix: append copied elements after the existing vector
 content

---
 source/core/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/vector.c b/source/core/vector.c
index b47955d..e04829d 100644
--- a/source/core/vector.c
+++ b/source/core/vector.c
@@ -73,7 +73,7 @@ kefir_result_t kefir_vector_copy(struct kefir_vector *vector, void *src, kefir_s
     REQUIRE(kefir_vector_available(vector) >= length,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Unable to copy given number of elements"));
     if (src != NULL) {
-        memcpy(vector->content, src, vector->element_size * length);
+        memcpy((char *) vector->content + vector->length * vector->element_size, src, vector->element_size * length);
     }
     vector->length += length;
     return KEFIR_OK;
-- 
2.43.0


From 7b19c0c11a0a5672814884a754f4bf6859dc7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:00 +0000
Subject: [PATCH 30/40] fix: keep the low surrogate of characters outside the
 basic plane in UTF-16 strings

---
 source/core/string_buffer.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 0a029e4..8e8e67d 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -202,13 +202,13 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
     mbstate_t mbstate = {0};
     const char *begin = narrow_string;
     const char *end = narrow_string + sz;
-    union {
-        kefir_char16_t value;
-        const char bytes[sizeof(kefir_char16_t)];
-    } u16chr;
+    kefir_char16_t units[2];
+    kefir_size_t count = 0;
 
-    while (begin < end) {
-        sz = mbrtoc16(&u16chr.value, begin, end - begin, &mbstate);
+    while (begin < end || !mbsinit(&mbstate)) {
+        REQUIRE(count < 2,
+                KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert unicode32 character into unicode16 string"));
+        sz = mbrtoc16(&units[count], begin, end - begin, &mbstate);
         switch (sz) {
             case (size_t) -1:
             case (size_t) -2:
@@ -216,20 +216,19 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
                                        "Failed to convert unicode32 character into unicode16 string");
 
             case (size_t) -3:
-                REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
                 break;
 
             case 0:
-                REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
                 begin = end;
                 break;
 
             default:
-                REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
                 begin += sz;
                 break;
         }
+        count++;
     }
+    REQUIRE_OK(insert_buffer(mem, buffer, units, sizeof(kefir_char16_t) * count));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 9ca1df951be0572635c7a55ca37b08b60242f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 31/40] fix: leave string buffers, token buffers and tree
 iterators unchanged when an operation runs out of memory

---
 source/core/string_buffer.c | 38 ++++++++++++++++++++++---------------
 source/core/tree.c          |  9 ++++++++-
 source/lexer/token_buffer.c | 33 ++++++++++++++++++++++----------
 3 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 8e8e67d..68de3e7 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -408,31 +408,23 @@ kefir_result_t kefir_string_buffer_convert(struct kefir_mem *mem, struct kefir_s
         case KEFIR_STRING_BUFFER_UNICODE32:
         case KEFIR_STRING_BUFFER_WIDE: {
             char *oldBuffer = buffer->buffer;
-            kefir_size_t oldLength = buffer->length;
-            *buffer = (struct kefir_string_buffer){0};
-            kefir_result_t res = kefir_string_buffer_init(mem, buffer, newMode);
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_FREE(mem, oldBuffer);
-                return res;
-            });
+            struct kefir_string_buffer newBuffer = {0};
+            REQUIRE_OK(kefir_string_buffer_init(mem, &newBuffer, newMode));
 
-            res = insert_multibyte(mem, buffer, oldBuffer, oldBuffer + oldLength);
+            kefir_result_t res = insert_multibyte(mem, &newBuffer, oldBuffer, oldBuffer + buffer->length);
             REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_FREE(mem, oldBuffer);
+                kefir_string_buffer_free(mem, &newBuffer);
                 return res;
             });
             KEFIR_FREE(mem, oldBuffer);
+            *buffer = newBuffer;
         } break;
     }
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_string_buffer_merge(struct kefir_mem *mem, struct kefir_string_buffer *dst,
-                                         const struct kefir_string_buffer *src) {
-    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
-    REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination string buffer"));
-    REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source string buffer"));
-
+static kefir_result_t append_buffer(struct kefir_mem *mem, struct kefir_string_buffer *dst,
+                                    const struct kefir_string_buffer *src) {
     switch (src->mode) {
         case KEFIR_STRING_BUFFER_MULTIBYTE:
         case KEFIR_STRING_BUFFER_UNICODE8: {
@@ -487,3 +479,19 @@ kefir_result_t kefir_string_buffer_merge(struct kefir_mem *mem, struct kefir_str
     }
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_string_buffer_merge(struct kefir_mem *mem, struct kefir_string_buffer *dst,
+                                         const struct kefir_string_buffer *src) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination string buffer"));
+    REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source string buffer"));
+
+    const kefir_size_t length = dst->length;
+    kefir_result_t res = append_buffer(mem, dst, src);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        memset((char *) dst->buffer + length, 0, dst->length - length);
+        dst->length = length;
+        return res;
+    });
+    return KEFIR_OK;
+}
diff --git a/source/core/tree.c b/source/core/tree.c
index 2738746..c4c91db 100644
--- a/source/core/tree.c
+++ b/source/core/tree.c
@@ -135,9 +135,16 @@ kefir_result_t kefir_tree_iter_next(struct kefir_mem *mem, struct kefir_tree_nod
     if (iter->current == NULL) {
         return KEFIR_OK;
     }
+    const kefir_size_t pending_length = kefir_list_length(&iter->pending);
     for (struct kefir_tree_node *child = kefir_tree_first_child(iter->current); child != NULL;
          child = kefir_tree_next_sibling(child)) {
-        REQUIRE_OK(kefir_list_insert_after(mem, &iter->pending, kefir_list_tail(&iter->pending), child));
+        kefir_result_t res = kefir_list_insert_after(mem, &iter->pending, kefir_list_tail(&iter->pending), child);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            while (kefir_list_length(&iter->pending) > pending_length) {
+                kefir_list_pop(mem, &iter->pending, kefir_list_tail(&iter->pending));
+            }
+            return res;
+        });
     }
     struct kefir_list_entry *head = kefir_list_head(&iter->pending);
     if (head != NULL) {
diff --git a/source/lexer/token_buffer.c b/source/lexer/token_buffer.c
index 6ce1614..ef92bdb 100644
--- a/source/lexer/token_buffer.c
+++ b/source/lexer/token_buffer.c
@@ -26,9 +26,10 @@
 #define INIT_CAPACITY 256
 #define CAPACITY_INCREASE 256
 
-static kefir_result_t ensure_size(struct kefir_mem *mem, struct kefir_token_buffer *buffer) {
-    if (buffer->length + 1 >= buffer->capacity) {
+static kefir_result_t ensure_size(struct kefir_mem *mem, struct kefir_token_buffer *buffer, kefir_size_t count) {
+    if (buffer->length + count >= buffer->capacity) {
         kefir_size_t newCapacity = buffer->capacity == 0 ? INIT_CAPACITY : buffer->capacity + CAPACITY_INCREASE;
+        newCapacity = MAX(newCapacity, buffer->length + count + 1);
         struct kefir_token *newBuffer = KEFIR_MALLOC(mem, sizeof(struct kefir_token) * newCapacity);
         REQUIRE(newBuffer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate token buffer"));
         if (buffer->tokens != NULL) {
@@ -70,7 +71,7 @@ kefir_result_t kefir_token_buffer_emplace(struct kefir_mem *mem, struct kefir_to
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
     REQUIRE(token != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token"));
 
-    REQUIRE_OK(ensure_size(mem, buffer));
+    REQUIRE_OK(ensure_size(mem, buffer, 1));
     REQUIRE_OK(kefir_token_move(&buffer->tokens[buffer->length], token));
     buffer->length++;
     return KEFIR_OK;
@@ -82,6 +83,9 @@ kefir_result_t kefir_token_buffer_insert(struct kefir_mem *mem, struct kefir_tok
     REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination token buffer"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source token buffer"));
 
+    if (src->length > 0) {
+        REQUIRE_OK(ensure_size(mem, dst, src->length));
+    }
     for (kefir_size_t i = 0; i < src->length; i++) {
         REQUIRE_OK(kefir_token_buffer_emplace(mem, dst, &src->tokens[i]));
     }
@@ -108,14 +112,23 @@ kefir_result_t kefir_token_buffer_copy(struct kefir_mem *mem, struct kefir_token
     REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination token buffer"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source token buffer"));
 
-    for (kefir_size_t i = 0; i < src->length; i++) {
+    const kefir_size_t length = dst->length;
+    kefir_result_t res = KEFIR_OK;
+    for (kefir_size_t i = 0; res == KEFIR_OK && i < src->length; i++) {
         struct kefir_token token_copy;
-        REQUIRE_OK(kefir_token_copy(mem, &token_copy, &src->tokens[i]));
-        kefir_result_t res = kefir_token_buffer_emplace(mem, dst, &token_copy);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_token_free(mem, &token_copy);
-            return res;
-        });
+        res = kefir_token_copy(mem, &token_copy, &src->tokens[i]);
+        if (res == KEFIR_OK) {
+            res = kefir_token_buffer_emplace(mem, dst, &token_copy);
+            if (res != KEFIR_OK) {
+                kefir_token_free(mem, &token_copy);
+            }
+        }
     }
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        while (dst->length > length) {
+            kefir_token_buffer_pop(mem, dst);
+        }
+        return res;
+    });
     return KEFIR_OK;
 }
-- 
2.43.0


From 0c09f45bb3f3c6b5daa65a22650bd6c769d0fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 32/40] fix: concurrent first uses of the compiler profile
 exposed half-initialised type traits

---
 source/compiler/profile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/compiler/profile.c b/source/compiler/profile.c
index ac83386..3c5647e 100644
--- a/source/compiler/profile.c
+++ b/source/compiler/profile.c
@@ -59,7 +59,10 @@ static kefir_result_t kefir_compiler_amd64_sysv_profile(struct kefir_compiler_pr
     static struct kefir_ast_type_traits TYPE_TRAITS;
     static kefir_bool_t TYPE_TRAITS_INIT_DONE = false;
     if (!TYPE_TRAITS_INIT_DONE) {
-        REQUIRE_OK(kefir_ast_type_traits_init(&DATA_MODEL_DESCRIPTOR, &TYPE_TRAITS));
+        // Threads that initialize simultaneously shall never expose an incomplete value to each other
+        struct kefir_ast_type_traits type_traits;
+        REQUIRE_OK(kefir_ast_type_traits_init(&DATA_MODEL_DESCRIPTOR, &type_traits));
+        TYPE_TRAITS = type_traits;
         TYPE_TRAITS_INIT_DONE = true;
     }
 
-- 
2.43.0


From e2c65cf153f713d76201b1a7cd91aa80e9734974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:37 +0000
Subject: [PATCH 33/40] fix: copy the message when a static assertion is cloned

---
 source/ast/nodes/static_assertion.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast/nodes/static_assertion.c b/source/ast/nodes/static_assertion.c
index 621704a..9a8a466 100644
--- a/source/ast/nodes/static_assertion.c
+++ b/source/ast/nodes/static_assertion.c
@@ -62,6 +62,14 @@ struct kefir_ast_node_base *ast_static_assertion_clone(struct kefir_mem *mem, st
         KEFIR_FREE(mem, clone);
         return NULL;
     });
+
+    struct kefir_ast_node_base *string = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(node->string));
+    REQUIRE_ELSE(string != NULL, {
+        KEFIR_AST_NODE_FREE(mem, clone->condition);
+        KEFIR_FREE(mem, clone);
+        return NULL;
+    });
+    clone->string = string->self;
     return KEFIR_AST_NODE_BASE(clone);
 }
 
-- 
2.43.0


From 6201f5f494e2b039e477beab52bbc24391db6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:37 +0000
Subject: [PATCH 34/40] fix: report a failure to append a concatenated
 punctuator

---
 source/preprocessor/user_macro.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index e2c1012..0aead81 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -277,7 +277,10 @@ static kefir_result_t macro_concat_punctuators(struct kefir_mem *mem, struct kef
             struct kefir_token token;
             REQUIRE_OK(kefir_token_new_punctuator(Combinations[i].result, &token));
             kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token);
-            REQUIRE_ELSE(res == KEFIR_OK, { kefir_token_free(mem, &token); });
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, &token);
+                return res;
+            });
             REQUIRE_OK(kefir_token_free(mem, &token));
             return KEFIR_OK;
         }
-- 
2.43.0


From 323292d2c87ce5fbe28a8ae3d1fff2f116cd49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:39 +0000
Subject: [PATCH 35/40] fix: initialise the source location of preprocessing
 numbers, header names and __STDC_ISO_10646__

---
 source/lexer/lexem.c                   | 3 +++
 source/preprocessor/predefined_macro.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/lexer/lexem.c b/source/lexer/lexem.c
index 614e552..7a672be 100644
--- a/source/lexer/lexem.c
+++ b/source/lexer/lexem.c
@@ -288,6 +288,7 @@ kefir_result_t kefir_token_new_pp_number(struct kefir_mem *mem, const char *numb
     REQUIRE(number_literal != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid number literal"));
     REQUIRE(length > 0, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid non-zero length of the literal"));
     REQUIRE(token != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to token"));
+    REQUIRE_OK(kefir_source_location_empty(&token->source_location));
 
     char *clone_number_literal = KEFIR_MALLOC(mem, length + 1);
     REQUIRE(clone_number_literal != NULL,
@@ -305,6 +306,7 @@ kefir_result_t kefir_token_new_pp_header_name(struct kefir_mem *mem, kefir_bool_
     REQUIRE(header_name != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid header name"));
     REQUIRE(length > 0, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid non-zero length of the literal"));
     REQUIRE(token != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to token"));
+    REQUIRE_OK(kefir_source_location_empty(&token->source_location));
 
     char *clone_header_name = KEFIR_MALLOC(mem, length + 1);
     REQUIRE(clone_header_name != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate pp header name"));
@@ -321,6 +323,7 @@ kefir_result_t kefir_token_new_extension(const struct kefir_token_extension_clas
     REQUIRE(extension_class != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid extension class"));
     REQUIRE(token != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to token"));
 
+    REQUIRE_OK(kefir_source_location_empty(&token->source_location));
     token->klass = KEFIR_TOKEN_EXTENSION;
     token->extension.klass = extension_class;
     token->extension.payload = payload;
diff --git a/source/preprocessor/predefined_macro.c b/source/preprocessor/predefined_macro.c
index 8ac0e52..a6d09cf 100644
--- a/source/preprocessor/predefined_macro.c
+++ b/source/preprocessor/predefined_macro.c
@@ -211,6 +211,7 @@ static kefir_result_t macro_stdc_iso_10646_apply(struct kefir_mem *mem, const st
              predefined_scope->preprocessor->context->environment.stdc_iso10646);
     struct kefir_token token;
     REQUIRE_OK(kefir_token_new_pp_number(mem, strbuf, strlen(strbuf) + 1, &token));
+    token.source_location = *source_location;
     kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_free(mem, &token);
-- 
2.43.0


From 54327e71ab5032f4bf8cbbc10e3321a18e7a6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:04 +0000
Subject: [PATCH 36/40] fix: a block-scope extern _Thread_local declaration
 refers to the thread-local object

It was declared like an ordinary external object: the generated code took the
symbol's address as that of a global, and the declaration was rejected when
the object was already declared thread-local at file scope.
---
 source/ast/local_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 47b8180..567859a 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -240,8 +240,8 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(declaration, KEFIR_SET_SOURCE_ERROR(
                                          KEFIR_ANALYSIS_ERROR, location,
                                          "External thread local identifier in block scope cannot have initializer"));
-                REQUIRE_OK(kefir_ast_local_context_declare_external(mem, local_ctx, identifier, type, alignment,
-                                                                    location, scoped_id));
+                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(mem, local_ctx, identifier, type,
+                                                                                 alignment, location, scoped_id));
                 break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL:
-- 
2.43.0


From 79dae34180f631ab8ccbbfe3211b3bfd65083ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:56 +0000
Subject: [PATCH 37/40] fix: release the cloned argument when a builtin call
 cannot be cloned

---
 source/ast/nodes/builtin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/ast/nodes/builtin.c b/source/ast/nodes/builtin.c
index b1abde0..3b8503f 100644
--- a/source/ast/nodes/builtin.c
+++ b/source/ast/nodes/builtin.c
@@ -85,6 +85,7 @@ struct kefir_ast_node_base *ast_builtin_clone(struct kefir_mem *mem, struct kefi
         });
         res = kefir_list_insert_after(mem, &clone->arguments, kefir_list_tail(&clone->arguments), arg_clone);
         REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, arg_clone);
             kefir_list_free(mem, &clone->arguments);
             KEFIR_FREE(mem, clone);
             return NULL;
-- 
2.43.0


From d42f3e530415578cb858023f9df4ceab18a65cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:56 +0000
Subject: [PATCH 38/40] fix: a macro keeps its definition when its redefinition
 runs out of memory

---
 source/preprocessor/user_macro.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index 0aead81..681ec38 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -765,10 +765,16 @@ kefir_result_t kefir_preprocessor_user_macro_scope_insert(struct kefir_mem *mem,
     REQUIRE(macro != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor macro"));
 
     if (kefir_hashtree_has(&scope->macros, (kefir_hashtree_key_t) macro->macro.identifier)) {
-        REQUIRE_OK(kefir_hashtree_delete(mem, &scope->macros, (kefir_hashtree_key_t) macro->macro.identifier));
+        struct kefir_hashtree_node *node = NULL;
+        REQUIRE_OK(kefir_hashtree_at(&scope->macros, (kefir_hashtree_key_t) macro->macro.identifier, &node));
+        ASSIGN_DECL_CAST(struct kefir_preprocessor_user_macro *, previous, node->value);
+        node->key = (kefir_hashtree_key_t) macro->macro.identifier;
+        node->value = (kefir_hashtree_value_t) macro;
+        REQUIRE_OK(kefir_preprocessor_user_macro_free(mem, previous));
+    } else {
+        REQUIRE_OK(kefir_hashtree_insert(mem, &scope->macros, (kefir_hashtree_key_t) macro->macro.identifier,
+                                         (kefir_hashtree_value_t) macro));
     }
-    REQUIRE_OK(kefir_hashtree_insert(mem, &scope->macros, (kefir_hashtree_key_t) macro->macro.identifier,
-                                     (kefir_hashtree_value_t) macro));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 774bd2d69d3b0855f6f16c338eb8edf7846e4de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:56 +0000
Subject: [PATCH 39/40] fix: tokens are not lost when moving them to or from a
 token sequence runs out of memory

---
 source/preprocessor/token_sequence.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/source/preprocessor/token_sequence.c b/source/preprocessor/token_sequence.c
index 07e5b31..7c8875a 100644
--- a/source/preprocessor/token_sequence.c
+++ b/source/preprocessor/token_sequence.c
@@ -82,12 +82,6 @@ kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *me
         KEFIR_FREE(mem, buffer_elt);
         return res;
     });
-    res = kefir_token_buffer_insert(mem, &buffer_elt->buffer, src);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &buffer_elt->buffer);
-        KEFIR_FREE(mem, buffer_elt);
-        return res;
-    });
     buffer_elt->index = 0;
     buffer_elt->macro_identifier = macro_identifier;
 
@@ -97,6 +91,11 @@ kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *me
         KEFIR_FREE(mem, buffer_elt);
         return res;
     });
+    res = kefir_token_buffer_insert(mem, &buffer_elt->buffer, src);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_pop(mem, &seq->buffer_stack, kefir_list_tail(&seq->buffer_stack));
+        return res;
+    });
     return KEFIR_OK;
 }
 
@@ -151,13 +150,10 @@ kefir_result_t kefir_preprocessor_token_sequence_shift(struct kefir_mem *mem,
     REQUIRE(seq != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token sequence"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
 
-    struct kefir_token token;
-    REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, &token));
-    kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_free(mem, &token);
-        return res;
-    });
+    struct buffer_element *buffer_elt = NULL;
+    REQUIRE_OK(next_buffer_elt(mem, seq, &buffer_elt));
+    REQUIRE_OK(kefir_token_buffer_emplace(mem, buffer, &buffer_elt->buffer.tokens[buffer_elt->index]));
+    buffer_elt->index++;
     return KEFIR_OK;
 }
 
-- 
2.43.0


From c836359aa027809f05324f0e962ee40ef2b3e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:30 +0000
Subject: [PATCH 40/40] fix: the file name of a virtual source outlives the
 include directive that opened it

---
 source/preprocessor/virtual_source_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/virtual_source_file.c b/source/preprocessor/virtual_source_file.c
index a7059e7..3b79332 100644
--- a/source/preprocessor/virtual_source_file.c
+++ b/source/preprocessor/virtual_source_file.c
@@ -42,11 +42,11 @@ static kefir_result_t open_source(struct kefir_mem *mem, const struct kefir_prep
 
     struct kefir_hashtree_node *node = NULL;
     REQUIRE_OK(kefir_hashtree_at(&locator->sources, (kefir_hashtree_key_t) filepath, &node));
-    source_file->filepath = filepath;
+    source_file->filepath = (const char *) node->key;
     source_file->system = system;
     source_file->payload = (void *) node->value;
     REQUIRE_OK(kefir_lexer_source_cursor_init(&source_file->cursor, source_file->payload, strlen(source_file->payload),
-                                              filepath));
+                                              source_file->filepath));
     source_file->close = close_source;
     return KEFIR_OK;
 }
-- 
2.43.0

