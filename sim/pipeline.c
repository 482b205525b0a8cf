/* kefir-facing half of the simulator: one compilation job through the public library API,
   with every object the caller owns released whatever happened. */
#pragma clang section text="ksimtext"
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include "kefir/preprocessor/virtual_source_file.h"
#include "kefir/compiler/compiler.h"
#include "kefir/core/util.h"
#include "kefir/core/error.h"
#include "kefir/core/source_error.h"
#include "kefir/core/error_format.h"
#include "kefir/core/os_error.h"
#include "kefir/cli/filesystem_source.h"
#include "kefir/cli/input.h"
#include "kefir/lexer/format.h"
#include "kefir/ast/format.h"
#include "kefir/ir/format.h"
#include "kefir/preprocessor/format.h"
#include "kefir/preprocessor/user_macro.h"
#include "kefir/ast-translator/context.h"
#include "kefir/ast-translator/translator.h"
#include "kefir/ast-translator/lvalue.h"
#include "kefir/ast/analyzer/analyzer.h"
#include "kefir/ast/node.h"
#include "kefir/ast/downcast.h"

static void *m_malloc(struct kefir_mem *m, kefir_size_t s) { (void) m; return ksim_malloc(s); }
static void *m_calloc(struct kefir_mem *m, kefir_size_t n, kefir_size_t s) { (void) m; return ksim_calloc(n, s); }
static void *m_realloc(struct kefir_mem *m, void *p, kefir_size_t s) { (void) m; return ksim_realloc(p, s); }
static void m_free(struct kefir_mem *m, void *p) { (void) m; ksim_free(p); }
struct kefir_mem ksim_kefir_mem = {m_malloc, m_calloc, m_realloc, m_free, NULL};

int code_is_language(int c) { return kefir_result_get_category(c) == KEFIR_RESULT_CATEGORY_LANGUAGE_ERROR; }
int code_is_resource(int c) { return c == KEFIR_MEMALLOC_FAILURE || c == KEFIR_OBJALLOC_FAILURE || c == KEFIR_OS_ERROR; }
int code_is_ok(int c) { return c == KEFIR_OK; }
const char *code_name(int c) {
    switch (c) {
        case KEFIR_OK: return "ok";
        case KEFIR_YIELD: return "yield";
        case KEFIR_ITERATOR_END: return "iterator_end";
        case KEFIR_NO_MATCH: return "no_match";
        case KEFIR_NOT_FOUND: return "not_found";
        case KEFIR_ALREADY_EXISTS: return "already_exists";
        case KEFIR_OUT_OF_SPACE: return "out_of_space";
        case KEFIR_INTERNAL_ERROR: return "internal";
        case KEFIR_OS_ERROR: return "os_error";
        case KEFIR_INVALID_PARAMETER: return "invalid_parameter";
        case KEFIR_INVALID_CHANGE: return "invalid_change";
        case KEFIR_INVALID_REQUEST: return "invalid_request";
        case KEFIR_INVALID_STATE: return "invalid_state";
        case KEFIR_OUT_OF_BOUNDS: return "out_of_bounds";
        case KEFIR_OBJALLOC_FAILURE: return "objalloc";
        case KEFIR_MEMALLOC_FAILURE: return "memalloc";
        case KEFIR_NOT_SUPPORTED: return "not_supported";
        case KEFIR_NOT_IMPLEMENTED: return "not_implemented";
        case KEFIR_LEXER_ERROR: return "lexer_error";
        case KEFIR_SYNTAX_ERROR: return "syntax_error";
        case KEFIR_ANALYSIS_ERROR: return "analysis_error";
        case KEFIR_NOT_CONSTANT: return "not_constant";
        case KEFIR_STATIC_ASSERT: return "static_assert";
        case KEFIR_UI_ERROR: return "ui_error";
        default: return "other";
    }
}

const int ksim_hard_codes[] = {KEFIR_INTERNAL_ERROR, KEFIR_OS_ERROR, KEFIR_INVALID_PARAMETER, KEFIR_INVALID_CHANGE, KEFIR_INVALID_REQUEST, KEFIR_INVALID_STATE,
                               KEFIR_OUT_OF_BOUNDS, KEFIR_OBJALLOC_FAILURE, KEFIR_MEMALLOC_FAILURE, KEFIR_NOT_SUPPORTED, KEFIR_NOT_IMPLEMENTED,
                               KEFIR_LEXER_ERROR, KEFIR_SYNTAX_ERROR, KEFIR_ANALYSIS_ERROR, KEFIR_NOT_CONSTANT, KEFIR_STATIC_ASSERT, KEFIR_UI_ERROR};
const int ksim_n_hard_codes = sizeof ksim_hard_codes / sizeof *ksim_hard_codes;

/* ---- extension hooks: every invocation is a simulator callback point ---- */
enum { CB_COMPILER_INIT = 1, CB_PP_INIT, CB_PP_DIRECTIVE, CB_PP_BEFORE, CB_PP_AFTER, CB_PPCTX_INIT, CB_LEX_INIT,
       CB_LEX_BEFORE, CB_LEX_AFTER, CB_LEX_FAILED, CB_PARSER_INIT, CB_AST_INIT, CB_AST_BEFORE, CB_AST_AFTER,
       CB_TR_INIT, CB_TR_BEFORE, CB_TR_AFTER, CB_LOC_OPEN, CB_LOC_CLOSE, CB_AST_EXT, CB_TR_EXT, CB_PARSER_RULE };
#define CB(kind)                                                              \
    do {                                                                      \
        int cb_ = ksim_callback(kind);                                        \
        if (cb_ != 0) return KEFIR_SET_ERROR(cb_, "simulated callback failure"); \
    } while (0)
static kefir_result_t h_comp_init(struct kefir_mem *m, struct kefir_compiler_context *c) { (void) m; (void) c; CB(CB_COMPILER_INIT); return KEFIR_OK; }
static kefir_result_t h_comp_free(struct kefir_mem *m, struct kefir_compiler_context *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_pp_init(struct kefir_mem *m, struct kefir_preprocessor *c) { (void) m; (void) c; CB(CB_PP_INIT); return KEFIR_OK; }
static kefir_result_t h_pp_free(struct kefir_mem *m, struct kefir_preprocessor *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_pp_dir(struct kefir_mem *m, struct kefir_preprocessor *c, struct kefir_preprocessor_directive *d) { (void) m; (void) c; (void) d; CB(CB_PP_DIRECTIVE); return KEFIR_OK; }
static kefir_result_t h_pp_before(struct kefir_mem *m, struct kefir_preprocessor *c, struct kefir_token_buffer *b) { (void) m; (void) c; (void) b; CB(CB_PP_BEFORE); return KEFIR_OK; }
static kefir_result_t h_pp_after(struct kefir_mem *m, struct kefir_preprocessor *c, struct kefir_token_buffer *b) { (void) m; (void) c; (void) b; CB(CB_PP_AFTER); return KEFIR_OK; }
static kefir_result_t h_ppc_init(struct kefir_mem *m, struct kefir_preprocessor_context *c) { (void) m; (void) c; CB(CB_PPCTX_INIT); return KEFIR_OK; }
static kefir_result_t h_ppc_free(struct kefir_mem *m, struct kefir_preprocessor_context *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_lex_init(struct kefir_mem *m, struct kefir_lexer *c) { (void) m; (void) c; CB(CB_LEX_INIT); return KEFIR_OK; }
static kefir_result_t h_lex_free(struct kefir_mem *m, struct kefir_lexer *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_lex_before(struct kefir_mem *m, struct kefir_lexer *c, struct kefir_token *t) { (void) m; (void) c; (void) t; CB(CB_LEX_BEFORE); return KEFIR_NO_MATCH; }
static kefir_result_t h_lex_after(struct kefir_mem *m, struct kefir_lexer *c, struct kefir_token *t) { (void) m; (void) c; (void) t; CB(CB_LEX_AFTER); return KEFIR_OK; }
static kefir_result_t h_lex_failed(struct kefir_mem *m, struct kefir_lexer *c, struct kefir_token *t) { (void) m; (void) c; (void) t; CB(CB_LEX_FAILED); return KEFIR_NO_MATCH; }
static kefir_result_t h_par_init(struct kefir_mem *m, struct kefir_parser *c) { (void) m; (void) c; CB(CB_PARSER_INIT); return KEFIR_OK; }
static kefir_result_t h_par_free(struct kefir_mem *m, struct kefir_parser *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_ast_init(struct kefir_mem *m, struct kefir_ast_context *c) { (void) m; (void) c; CB(CB_AST_INIT); return KEFIR_OK; }
static kefir_result_t h_ast_free(struct kefir_mem *m, struct kefir_ast_context *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_ast_before(struct kefir_mem *m, const struct kefir_ast_context *c, struct kefir_ast_node_base *n, struct kefir_ast_visitor *v) { (void) m; (void) c; (void) n; (void) v; CB(CB_AST_BEFORE); return KEFIR_OK; }
static kefir_result_t h_ast_after(struct kefir_mem *m, const struct kefir_ast_context *c, struct kefir_ast_node_base *n) { (void) m; (void) c; (void) n; CB(CB_AST_AFTER); return KEFIR_OK; }
static kefir_result_t h_tr_init(struct kefir_mem *m, struct kefir_ast_translator_context *c) { (void) m; (void) c; CB(CB_TR_INIT); return KEFIR_OK; }
static kefir_result_t h_tr_free(struct kefir_mem *m, struct kefir_ast_translator_context *c) { (void) m; (void) c; return KEFIR_OK; }
static kefir_result_t h_tr_before(struct kefir_mem *m, struct kefir_ast_translator_context *c, const struct kefir_ast_node_base *n, struct kefir_irbuilder_block *b, kefir_ast_translator_context_extension_tag_t t, struct kefir_ast_visitor *v) { (void) m; (void) c; (void) n; (void) b; (void) t; (void) v; CB(CB_TR_BEFORE); return KEFIR_OK; }
static kefir_result_t h_tr_after(struct kefir_mem *m, struct kefir_ast_translator_context *c, const struct kefir_ast_node_base *n, struct kefir_irbuilder_block *b, kefir_ast_translator_context_extension_tag_t t) { (void) m; (void) c; (void) n; (void) b; (void) t; CB(CB_TR_AFTER); return KEFIR_OK; }

static const struct kefir_lexer_extensions EXT_LEX = {.on_init = h_lex_init, .on_free = h_lex_free, .before_token_lex = h_lex_before, .after_token_lex = h_lex_after, .failed_token_lex = h_lex_failed};
static const struct kefir_parser_extensions EXT_PAR = {.on_init = h_par_init, .on_free = h_par_free};
static const struct kefir_preprocessor_extensions EXT_PP = {.on_init = h_pp_init, .on_free = h_pp_free, .on_next_directive = h_pp_dir, .before_run = h_pp_before, .after_run = h_pp_after, .lexer_extensions = &EXT_LEX, .parser = &EXT_PAR};
static const struct kefir_preprocessor_context_extensions EXT_PPC = {.on_init = h_ppc_init, .on_free = h_ppc_free};
static const struct kefir_ast_context_extensions EXT_AST = {.on_init = h_ast_init, .on_free = h_ast_free, .before_node_analysis = h_ast_before, .after_node_analysis = h_ast_after};
static const struct kefir_ast_translator_context_extensions EXT_TR = {.on_init = h_tr_init, .on_free = h_tr_free, .before_translate = h_tr_before, .after_translate = h_tr_after};
static const struct kefir_compiler_extensions EXT = {.on_init = h_comp_init, .on_free = h_comp_free, .preprocessor = &EXT_PP, .preprocessor_context = &EXT_PPC, .lexer = &EXT_LEX, .parser = &EXT_PAR, .analyzer = &EXT_AST, .translator = &EXT_TR};

/* hooks that act: the parser hook wraps identifiers simext*, expression statements and declarations into extension
   nodes, the analyser and translator hooks delegate to the wrapped node */
static kefir_result_t x_free(struct kefir_mem *mem, struct kefir_ast_extension_node *n) { return KEFIR_AST_NODE_FREE(mem, (struct kefir_ast_node_base *) n->payload); }
static kefir_result_t x_clone(struct kefir_mem *mem, struct kefir_ast_extension_node *d, const struct kefir_ast_extension_node *n) {
    d->klass = n->klass;
    d->payload = KEFIR_AST_NODE_CLONE(mem, (struct kefir_ast_node_base *) n->payload);
    REQUIRE(d->payload != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "extension clone"));
    return KEFIR_OK;
}
static const struct kefir_ast_extension_node_class X_CLASS = {.free = x_free, .clone = x_clone};
static kefir_result_t x_wrap(struct kefir_mem *mem, struct kefir_ast_node_base **result) {
    struct kefir_ast_node_base *inner = *result;
    *result = NULL;
    int cb = ksim_callback(CB_PARSER_RULE);
    struct kefir_ast_extension_node *x = cb != 0 ? NULL : kefir_ast_new_extension_node(mem, &X_CLASS, inner);
    if (x == NULL) {
        KEFIR_AST_NODE_FREE(mem, inner);
        return cb != 0 ? KEFIR_SET_ERROR(cb, "simulated callback failure") : KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "extension node");
    }
    x->base.source_location = inner->source_location;
    *result = KEFIR_AST_NODE_BASE(x);
    return KEFIR_OK;
}
static kefir_result_t x_identifier(struct kefir_mem *mem, struct kefir_parser *parser, struct kefir_ast_node_base **result, void *payload) {
    REQUIRE_OK(parser->ruleset.rules[KEFIR_PARSER_RULESET_EXTRA_SLOT_OFFSET](mem, parser, result, payload));
    if ((*result)->klass->type == KEFIR_AST_IDENTIFIER && strncmp(((struct kefir_ast_identifier *) (*result)->self)->identifier, "simext", 6) == 0) {
        return x_wrap(mem, result);
    }
    return KEFIR_OK;
}
static kefir_result_t x_statement(struct kefir_mem *mem, struct kefir_parser *parser, struct kefir_ast_node_base **result, void *payload) {
    REQUIRE_OK(parser->ruleset.rules[KEFIR_PARSER_RULESET_EXTRA_SLOT_OFFSET + 1](mem, parser, result, payload));
    return x_wrap(mem, result);
}
static kefir_result_t h_par_init2(struct kefir_mem *m, struct kefir_parser *p) {
    (void) m;
    CB(CB_PARSER_INIT);
    p->ruleset.rules[KEFIR_PARSER_RULESET_EXTRA_SLOT_OFFSET] = p->ruleset.rules[KEFIR_PARSER_RULESET_IDENTIFIER(identifier)];
    p->ruleset.rules[KEFIR_PARSER_RULESET_IDENTIFIER(identifier)] = x_identifier;
    p->ruleset.rules[KEFIR_PARSER_RULESET_EXTRA_SLOT_OFFSET + 1] = p->ruleset.rules[KEFIR_PARSER_RULESET_IDENTIFIER(expression_statement)];
    p->ruleset.rules[KEFIR_PARSER_RULESET_IDENTIFIER(expression_statement)] = x_statement;
    return KEFIR_OK;
}
static kefir_result_t h_ast_ext(struct kefir_mem *m, const struct kefir_ast_context *c, struct kefir_ast_node_base *n) {
    struct kefir_ast_extension_node *x = n->self;
    struct kefir_ast_node_base *inner = x->payload;
    CB(CB_AST_EXT);
    REQUIRE_OK(kefir_ast_analyze_node(m, c, inner));
    return kefir_ast_node_properties_clone(&n->properties, &inner->properties);
}
static kefir_result_t h_tr_ext(struct kefir_mem *m, struct kefir_ast_translator_context *c, const struct kefir_ast_extension_node *x, struct kefir_irbuilder_block *b, kefir_ast_translator_context_extension_tag_t t) {
    const struct kefir_ast_node_base *inner = x->payload;
    CB(CB_TR_EXT);
    switch (t) {
        case KEFIR_AST_TRANSLATOR_CONTEXT_EXTENSION_TAG_EXPRESSION: return kefir_ast_translate_expression(m, inner, b, c);
        case KEFIR_AST_TRANSLATOR_CONTEXT_EXTENSION_TAG_LVALUE: return kefir_ast_translate_lvalue(m, c, b, inner);
        case KEFIR_AST_TRANSLATOR_CONTEXT_EXTENSION_TAG_STATEMENT: return kefir_ast_translate_statement(m, inner, b, c);
        default: return kefir_ast_translate_declaration(m, inner, b, c);
    }
}
static const struct kefir_parser_extensions EXT_PAR2 = {.on_init = h_par_init2, .on_free = h_par_free};
static const struct kefir_ast_context_extensions EXT_AST2 = {.on_init = h_ast_init, .on_free = h_ast_free, .before_node_analysis = h_ast_before, .after_node_analysis = h_ast_after, .analyze_extension_node = h_ast_ext};
static const struct kefir_ast_translator_context_extensions EXT_TR2 = {.on_init = h_tr_init, .on_free = h_tr_free, .before_translate = h_tr_before, .after_translate = h_tr_after, .translate_extension_node = h_tr_ext};
static const struct kefir_compiler_extensions EXT2 = {.on_init = h_comp_init, .on_free = h_comp_free, .preprocessor = &EXT_PP, .preprocessor_context = &EXT_PPC, .lexer = &EXT_LEX, .parser = &EXT_PAR2, .analyzer = &EXT_AST2, .translator = &EXT_TR2};

/* source locator wrapper: locator open/close are callbacks too */
struct wrapped_locator {
    struct kefir_preprocessor_source_locator locator;
    const struct kefir_preprocessor_source_locator *inner;
};
struct wrapped_file {
    kefir_result_t (*close)(struct kefir_mem *, struct kefir_preprocessor_source_file *);
    void *payload;
};
static kefir_result_t w_close(struct kefir_mem *mem, struct kefir_preprocessor_source_file *f) {
    struct wrapped_file *w = f->payload;
    f->close = w->close;
    f->payload = w->payload;
    KEFIR_FREE(mem, w);
    REQUIRE_OK(f->close(mem, f)); /* resources are released even when the callback reports failure */
    CB(CB_LOC_CLOSE);
    return KEFIR_OK;
}
static kefir_result_t w_open(struct kefir_mem *mem, const struct kefir_preprocessor_source_locator *l, const char *path,
                             kefir_bool_t system, const char *current, struct kefir_preprocessor_source_file *f) {
    const struct wrapped_locator *wl = (const struct wrapped_locator *) l;
    CB(CB_LOC_OPEN);
    struct wrapped_file *w = KEFIR_MALLOC(mem, sizeof(*w));
    REQUIRE(w != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "wrapper"));
    kefir_result_t res = wl->inner->open(mem, wl->inner, path, system, current, f);
    if (res != KEFIR_OK) {
        KEFIR_FREE(mem, w);
        return res;
    }
    w->close = f->close;
    w->payload = f->payload;
    f->close = w_close;
    f->payload = w;
    return KEFIR_OK;
}

static kefir_result_t define_macro(struct kefir_mem *mem, struct kefir_compiler_context *cc, const char *name,
                                   const char *value) {
    struct kefir_preprocessor_user_macro *macro =
        kefir_preprocessor_user_macro_new_object(mem, &cc->ast_global_context.symbols, name);
    REQUIRE(macro != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate preprocessor macro"));
    kefir_result_t res = KEFIR_OK;
    if (value != NULL) {
        res = kefir_compiler_preprocessor_tokenize(mem, cc, &macro->replacement, value, strlen(value), name);
    }
    REQUIRE_CHAIN(&res, kefir_preprocessor_user_macro_scope_insert(mem, &cc->preprocessor_context.user_macros, macro));
    if (res != KEFIR_OK) {
        kefir_preprocessor_user_macro_free(mem, macro);
    }
    return res;
}

static void note_cleanup(struct job_result *r, kefir_result_t res, const char *what) {
    if (res != KEFIR_OK && r->cleanup_code == 0) {
        r->cleanup_code = res;
        r->cleanup_what = what;
    }
}

static kefir_result_t stages(struct kefir_mem *mem, const struct job_spec *spec, struct job_result *r,
                             struct kefir_compiler_context *cc) {
    struct kefir_token_buffer tokens;
    struct kefir_ast_translation_unit *unit = NULL;
    struct kefir_ir_module module;
    int have_module = 0;
    kefir_result_t res = kefir_token_buffer_init(&tokens);
    if (res != KEFIR_OK) {
        return res;
    }

    if (spec->mode == MODE_RAWPARSE) {
        res = kefir_compiler_parse_source(mem, cc, spec->text, spec->length, spec->main_path, &unit);
    } else if (spec->mode == MODE_LEXONLY) {
        res = kefir_compiler_lex(mem, cc, &tokens, spec->text, spec->length, spec->main_path);
    } else {
        if (spec->feat & FEAT_DEFINES) {
            REQUIRE_CHAIN(&res, define_macro(mem, cc, "SIM_DEFINED", NULL));
            REQUIRE_CHAIN(&res, define_macro(mem, cc, "SIM_VALUE", " (1 + 2) "));
        }
        if (spec->has_ts) {
            cc->preprocessor_context.environment.timestamp = spec->ts;
        }
        if (spec->forced != NULL) {
            REQUIRE_CHAIN(&res, kefir_compiler_preprocess_include(mem, cc, &tokens, spec->main_path, spec->forced));
        }
        if (spec->mode == MODE_PP) {
            REQUIRE_CHAIN(&res, kefir_compiler_preprocess(mem, cc, &tokens, spec->text, spec->length, spec->main_path,
                                                          spec->main_path));
        } else {
            REQUIRE_CHAIN(&res, kefir_compiler_preprocess_lex(mem, cc, &tokens, spec->text, spec->length,
                                                              spec->main_path, spec->main_path));
        }
    }
    if (spec->mode != MODE_PP && spec->mode != MODE_TOKENS && spec->mode != MODE_LEXONLY) {
        if (spec->mode != MODE_RAWPARSE) {
            REQUIRE_CHAIN(&res, kefir_compiler_parse(mem, cc, &tokens, &unit));
        }
        REQUIRE_CHAIN(&res, kefir_compiler_analyze(mem, cc, KEFIR_AST_NODE_BASE(unit)));
        if (res == KEFIR_OK && spec->mode != MODE_AST) {
            res = kefir_ir_module_alloc(mem, &module);
            have_module = res == KEFIR_OK;
            REQUIRE_CHAIN(&res, kefir_compiler_translate(mem, cc, unit, &module));
        }
    }
    if (res == KEFIR_OK) {
        struct kefir_json_output json;
        switch (spec->mode) {
            case MODE_PP:
                res = kefir_preprocessor_format(spec->out, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL);
                break;
            case MODE_TOKENS:
            case MODE_LEXONLY:
                res = kefir_json_output_init(&json, spec->out, 4);
                REQUIRE_CHAIN(&res, kefir_token_buffer_format(&json, &tokens, (spec->feat & FEAT_DETAILED) != 0));
                REQUIRE_CHAIN(&res, kefir_json_output_finalize(&json));
                break;
            case MODE_AST:
                res = kefir_json_output_init(&json, spec->out, 4);
                REQUIRE_CHAIN(&res, kefir_ast_format(&json, KEFIR_AST_NODE_BASE(unit), (spec->feat & FEAT_DETAILED) != 0));
                REQUIRE_CHAIN(&res, kefir_json_output_finalize(&json));
                break;
            case MODE_IR:
                res = kefir_ir_format_module(spec->out, &module);
                break;
            default:
                res = kefir_compiler_codegen(mem, cc, &module, spec->out);
                break;
        }
    }
    if (have_module) {
        note_cleanup(r, kefir_ir_module_free(mem, &module), "module");
    }
    if (unit != NULL) {
        note_cleanup(r, KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(unit)), "unit");
    }
    note_cleanup(r, kefir_token_buffer_free(mem, &tokens), "tokens");
    return res;
}

static int snapshot_errors(struct err_entry *out, int max) {
    int n = 0;
    for (const struct kefir_error *e = kefir_current_error(); e != NULL && n < max; e = e->prev_error, n++) {
        memset(&out[n], 0, sizeof(out[n]));
        out[n].code = e->code;
        snprintf(out[n].message, sizeof out[n].message, "%s", e->message != NULL ? e->message : "(null)");
        const char *slash = e->file;
        if (slash != NULL) {
            const char *src = strstr(slash, "/source/");
            if (src != NULL) slash = src + 1;
        }
        snprintf(out[n].file, sizeof out[n].file, "%s", slash != NULL ? slash : "(null)");
        out[n].line = e->line;
        out[n].overflow = e->error_overflow;
        if (e->payload_type == KEFIR_ERROR_PAYLOAD_SOURCE_LOCATION) {
            const struct kefir_source_error *se = (const struct kefir_source_error *) e->payload;
            snprintf(out[n].loc, sizeof out[n].loc, "%s:%u:%u", se->source_location.source != NULL ? se->source_location.source : "",
                     se->source_location.line, se->source_location.column);
        }
    }
    return n;
}

/* The report is taken before the compiler context goes away: locations in the chain may refer to file names
   interned in the context (the command-line driver reports with the context still alive, too). */
static void capture(struct job_result *r, int code) {
    static _Thread_local struct err_entry again[40];
    if (r->captured) {
        return;
    }
    r->captured = 1;
    r->code = code;
    r->n_err = snapshot_errors(r->err, 40);
    FILE *f = open_memstream(&r->tabular, &r->tabular_len);
    kefir_format_error_tabular(f, kefir_current_error());
    fclose(f);
    f = open_memstream(&r->json, &r->json_len);
    kefir_format_error_json(f, kefir_current_error());
    fclose(f);
    int n2 = snapshot_errors(again, 40);
    r->err_after_format_changed = n2 != r->n_err || memcmp(again, r->err, sizeof(struct err_entry) * n2) != 0;
}

/* headers served from memory by the library's own virtual source locator */
static const char *const VIRT[][2] = {
    {"virt/a.h", "#ifndef VA\n#define VA 1\n#include <virt/b.h>\nstruct va { int x; };\n#endif\n"},
    {"virt/b.h", "#pragma once\n#define VB(x) (x + __LINE__)\nint vb_line = VB(1);\n"},
    {"virt/c.h", "int in_c;\n#include \"virt/a.h\"\n"},
    {"virt/empty.h", ""},
};

static kefir_result_t run(const struct job_spec *spec, struct job_result *r) {
    struct kefir_mem *mem = &ksim_kefir_mem;
    struct kefir_compiler_profile profile;
    struct kefir_compiler_context cc;
    struct kefir_preprocessor_filesystem_source_locator fsl;
    struct kefir_preprocessor_virtual_source_locator vsl;
    struct wrapped_locator wl;

    REQUIRE_OK(kefir_compiler_profile(&profile, NULL));
    REQUIRE_OK(kefir_preprocessor_filesystem_source_locator_init(&fsl, &cc.ast_global_context.symbols));
    kefir_result_t res = KEFIR_OK;
    for (int i = 0; i < spec->n_inc && res == KEFIR_OK; i++) {
        res = kefir_preprocessor_filesystem_source_locator_append(mem, &fsl, spec->inc[i]);
    }
    kefir_bool_t virt = false;
    if (res == KEFIR_OK && (spec->feat & FEAT_VIRTUAL)) {
        res = kefir_preprocessor_virtual_source_locator_init(&vsl);
        virt = res == KEFIR_OK;
        for (size_t i = 0; i < sizeof(VIRT) / sizeof(VIRT[0]) && res == KEFIR_OK; i++) {
            res = kefir_preprocessor_virtual_source_locator_register(mem, &vsl, VIRT[i][0], VIRT[i][1]);
        }
    }
    if (res == KEFIR_OK) {
        const struct kefir_preprocessor_source_locator *loc = virt ? &vsl.locator : &fsl.locator;
        if (spec->feat & FEAT_HOOKS) {
            wl.inner = loc;
            wl.locator.open = w_open;
            wl.locator.payload = NULL;
            loc = &wl.locator;
        }
        res = kefir_compiler_context_init(mem, &cc, &profile, loc, (spec->feat & FEAT_HOOKS) ? ((spec->feat & FEAT_EXTNODE) ? &EXT2 : &EXT) : NULL);
        if (res == KEFIR_OK) {
            if (spec->feat & FEAT_ALL) {
                cc.parser_configuration.implicit_function_definition_int = true;
                cc.parser_configuration.designated_initializer_colons = true;
                cc.parser_configuration.label_addressing = true;
                cc.parser_configuration.statement_expressions = true;
                cc.parser_configuration.omitted_conditional_operand = true;
                cc.ast_global_context.configuration.analysis.implicit_function_declaration = true;
                cc.ast_global_context.configuration.analysis.ext_pointer_arithmetics = true;
                cc.ast_global_context.configuration.analysis.missing_braces_subobj = true;
                cc.ast_global_context.configuration.analysis.non_strict_qualifiers = true;
                cc.ast_global_context.configuration.analysis.int_to_pointer = true;
                cc.translator_configuration.empty_structs = true;
            }
            cc.parser_configuration.fail_on_attributes = (spec->feat & FEAT_STRICT_ATTR) != 0;
            res = stages(mem, spec, r, &cc);
            capture(r, res);
            note_cleanup(r, kefir_compiler_context_free(mem, &cc), "context");
        }
    }
    if (virt) {
        capture(r, res);
        note_cleanup(r, kefir_preprocessor_virtual_source_locator_free(mem, &vsl), "locator");
    }
    note_cleanup(r, kefir_preprocessor_filesystem_source_locator_free(mem, &fsl), "locator");
    return res;
}

void pipeline_clear_errors(void) { kefir_clear_error(); }

void pipeline_run(const struct job_spec *spec, struct job_result *r) {
    memset(r, 0, sizeof *r);
    kefir_clear_error();
    kefir_result_t res = run(spec, r);
    capture(r, res);
    kefir_clear_error();
}

/* ---- error stack access for the C12 simulation ---- */
int err_raise(int kind, int code, const char *msg, const char *file, unsigned line, const char *src, unsigned sl, unsigned sc,
              int num, const char *arg, int want_ptr, int *ptr_state) {
    struct kefir_error *p = NULL, **pp = want_ptr ? &p : NULL;
    struct kefir_source_location loc, *lp = NULL;
    int rc;
    if (src != NULL) {
        loc.source = src; loc.line = sl; loc.column = sc;
        lp = &loc;
    }
    switch (kind) {
        case 0: rc = kefir_set_error(code, msg, file, line, pp); break;
        case 1: rc = kefir_set_errorf(code, "no. %d: %s", file, line, pp, num, arg); break;
        case 2: rc = kefir_set_source_error(code, lp, msg, file, line, pp); break;
        case 3: rc = kefir_set_source_errorf(code, lp, "no. %d: %s", file, line, pp, num, arg); break;
        default: rc = kefir_set_os_error(msg, file, line, pp); break;
    }
    *ptr_state = p == NULL ? 0 : p == kefir_current_error() ? 1 : 2;
    return rc;
}
void err_clear(void) { kefir_clear_error(); }
int err_count(void) {
    int n = 0;
    for (const struct kefir_error *e = kefir_current_error(); e != NULL && n < 100; e = e->prev_error) {
        n++;
    }
    return n;
}
int err_get(int idx, int *code, const char **msg, const char **file, unsigned *line, int *overflow, int *haspay,
            const char **src, unsigned *sl, unsigned *sc) {
    const struct kefir_error *e = kefir_current_error();
    while (idx-- > 0 && e != NULL) {
        e = e->prev_error;
    }
    if (e == NULL) {
        return 0;
    }
    *code = e->code; *msg = e->message; *file = e->file; *line = e->line; *overflow = e->error_overflow;
    *haspay = e->payload_type == KEFIR_ERROR_PAYLOAD_SOURCE_LOCATION;
    *src = NULL; *sl = *sc = 0;
    if (*haspay) {
        const struct kefir_source_error *se = (const struct kefir_source_error *) e->payload;
        *src = se->source_location.source; *sl = se->source_location.line; *sc = se->source_location.column;
    }
    return 1;
}
void err_print(FILE *f, int json) {
    if (json) {
        kefir_format_error_json(f, kefir_current_error());
    } else {
        kefir_format_error_tabular(f, kefir_current_error());
    }
}
int err_category(int code) { return (int) kefir_result_get_category(code); }
