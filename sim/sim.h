/* Deterministic simulator: C interface shared by the C (kefir-facing) and C++ (engine) halves. */
#ifndef KSIM_H_
#define KSIM_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- seams handed to kefir ---- */
void *ksim_malloc(size_t);
void *ksim_calloc(size_t, size_t);
void *ksim_realloc(void *, size_t);
void ksim_free(void *);

/* a callback (plugin) invocation: returns 0 to proceed or the injected error code */
int ksim_callback(int kind);
void ksim_note(const char *what); /* event-log entry */

/* ---- job interface implemented in pipeline.c ---- */
enum { MODE_ASM, MODE_IR, MODE_AST, MODE_TOKENS, MODE_PP, MODE_LEXONLY, MODE_RAWPARSE, MODE_COUNT };
enum { FEAT_ALL = 1, FEAT_DETAILED = 2, FEAT_HOOKS = 4, FEAT_DEFINES = 8, FEAT_FORCED = 16, FEAT_STRICT_ATTR = 32,
       FEAT_EXTNODE = 64, FEAT_VIRTUAL = 128 };

struct job_spec {
    const char *main_path;
    const char *text; /* main source text; placed in arena by the caller with exact bounds */
    size_t length;
    int mode;
    int feat;
    int has_ts;
    int64_t ts;
    int n_inc;
    const char **inc;
    const char *forced; /* forced include, or NULL */
    FILE *out;
};
struct err_entry { int code; char message[300]; char file[128]; unsigned line; int overflow; char loc[128]; };
struct job_result {
    int code;
    int n_err;
    struct err_entry err[40];
    int cleanup_code; /* first non-OK result of a release call */
    const char *cleanup_what;
    int err_after_format_changed;
    int captured;
    char *tabular; size_t tabular_len; /* printed reports */
    char *json; size_t json_len;
};
void pipeline_run(const struct job_spec *, struct job_result *);
void pipeline_clear_errors(void);
int kefir_cli_main(int, char *const *);

/* kefir result code classification (pipeline.c) */
int code_is_language(int);
int code_is_resource(int);
int code_is_ok(int);
const char *code_name(int);
extern const int ksim_hard_codes[];
extern const int ksim_n_hard_codes;

#ifdef __cplusplus
}
#endif
#endif
