// C12: histories of the error stack, one per simulated thread, against a per-thread reference model.
#pragma clang section text="ksimtext"
#include "engine.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
#define _Alignas(x)
struct kefir_error_view; // opaque here; read through err_view (pipeline.c)
int err_raise(int kind, int code, const char *msg, const char *file, unsigned line, const char *src, unsigned sl, unsigned sc, int num, const char *arg, int want_ptr, int *ptr_state);
void err_clear(void);
int err_count(void);
int err_get(int idx, int *code, const char **msg, const char **file, unsigned *line, int *overflow, int *haspay, const char **src, unsigned *sl, unsigned *sc);
void err_print(FILE *, int json);
int err_category(int code);
}
static const int DEPTH = 32;
struct E {
    int code;
    std::string msg; // text that must appear
    std::string whole; // expected complete message ("" = not fixed)
    std::string file;
    unsigned line;
    bool loc;
    std::string src;
    unsigned sl, sc;
    bool overflow;
};
static std::string rep(const char *p, size_t n) { std::string r; while (r.size() < n) r += p; return r.substr(0, n); }
static const std::vector<std::string> &messages() {
    static const std::vector<std::string> m = {"Expected valid pointer", "", "100% %s %n %d done", "quote \" back \\ slash / tab \t newline \n end", "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", rep("long message ", 120), rep("very long message ", 700), "bad \xff\xfe byte", "x"};
    return m;
}
static const std::vector<std::string> &filenames() {
    static const std::vector<std::string> m = {"source/a.c", "source/deep/er/b.c", "c.c", "/abs/path/with \"quotes\"/d.c"};
    return m;
}
static const std::vector<std::string> &sources() {
    static const std::vector<std::string> m = {"main.c", "<stdin>", "/inc/h.h", rep("/dir", 150), rep("/longdir", 214), rep("/x", 230), rep("/verylongdir", 700), "caf\xc3\xa9.c", "bad\xff.c"};
    return m;
}
static const std::vector<std::string> &codenames() { // by kefir_result_t
    static const std::vector<std::string> m = {"ok","yield","iterator_end","no_match","not_found","already_exists","out_of_space","unknown_error","internal_error","os_error","invalid_parameter","invalid_change","invalid_request","invalid_state","out_of_bounds","objalloc_failure","memalloc_failure","not_supported","not_implemented","ui_error","lexer_error","syntax_error","analysis_error","not_constant","static_assert","preprocessor_error_directive"};
    return m;
}
static bool ascii_or_utf8(const std::string &s) { return s.find('\xff') == std::string::npos; }
bool json_chain(const std::string &, std::vector<ErrSeen> &);

static std::string compare(const std::vector<E> &m) {
    int n = err_count();
    if (n != (int) m.size()) return "the chain has " + std::to_string(n) + " entries, the model " + std::to_string(m.size());
    for (int i = 0; i < n; i++) {
        const E &e = m[m.size() - 1 - i];
        int code, ov, hp;
        const char *msg, *file, *src;
        unsigned line, sl, sc;
        if (!err_get(i, &code, &msg, &file, &line, &ov, &hp, &src, &sl, &sc)) return "entry " + std::to_string(i) + " cannot be read";
        std::string at = " of entry " + std::to_string(i);
        if (code != e.code) return "code" + at + " is " + std::to_string(code) + ", raised " + std::to_string(e.code);
        if (!msg) return "message" + at + " is NULL";
        if (!e.whole.empty() && e.whole != msg) return "message" + at + " is '" + msg + "', raised '" + e.whole + "'";
        if (!e.msg.empty()) { // must be contained, or be cut at a sensible length
            std::string s = msg;
            size_t p = s.find(e.msg.substr(0, 8));
            bool ok = s.find(e.msg) != std::string::npos;
            if (!ok && e.src.size() + e.msg.size() > 180) ok = s.size() >= 150 && (e.src.size() >= 150 || p != std::string::npos);
            if (!ok) return "message" + at + " is '" + s + "', raised '" + e.msg + "'";
        }
        if (!file || e.file != file || line != e.line) return "origin" + at + " is " + std::string(file ? file : "NULL") + ":" + std::to_string(line) + ", raised at " + e.file + ":" + std::to_string(e.line);
        if ((bool) ov != e.overflow) return "overflow flag" + at + " is " + std::to_string(ov);
        if (e.loc) {
            if (!hp || !src || e.src != src || sl != e.sl || sc != e.sc) return "source location" + at + " is lost or wrong";
        } else if (hp && src) return "source location" + at + " appeared from nowhere";
    }
    return "";
}
static std::string compare_print(const std::vector<E> &m, const std::string &t, bool json) {
    if (json) {
        if (m.empty()) return "";
        std::vector<ErrSeen> s;
        if (!json_chain(t, s)) return "the JSON report is not an array of objects: " + t.substr(0, 200);
        if (s.size() != m.size()) return "the JSON report shows " + std::to_string(s.size()) + " of " + std::to_string(m.size()) + " entries";
        for (size_t i = 0; i < s.size(); i++) {
            const E &e = m[m.size() - 1 - i];
            std::string at = " of JSON entry " + std::to_string(i);
            if (s[i].code != codenames()[e.code]) return "code" + at + " is " + s[i].code;
            int code, ov, hp; const char *msg, *file, *src; unsigned line, sl, sc;
            err_get((int) i, &code, &msg, &file, &line, &ov, &hp, &src, &sl, &sc);
            // a message cut in the middle of a character cannot be shown exactly
            if (ascii_or_utf8(msg) && strlen(msg) < 180 && s[i].message != msg) return "message" + at + " is '" + s[i].message + "'";
            if (s[i].file != e.file || s[i].line != e.line) return "origin" + at + " is " + s[i].file + ":" + std::to_string(s[i].line);
            if (s[i].overflow != e.overflow) return "overflow flag" + at;
            if (s[i].has_loc != e.loc) return "source location" + at + (e.loc ? " missing" : " from nowhere");
            if (e.loc && ((ascii_or_utf8(e.src) && s[i].src != e.src) || s[i].sl != e.sl || s[i].sc != e.sc)) return "source location" + at;
        }
        return "";
    }
    size_t pos = 0;
    for (size_t i = 0; i < m.size(); i++) {
        const E &e = m[m.size() - 1 - i];
        int code, ov, hp; const char *msg, *file, *src; unsigned line, sl, sc;
        err_get((int) i, &code, &msg, &file, &line, &ov, &hp, &src, &sl, &sc);
        size_t p = t.find(msg, pos);
        if (p == std::string::npos) return "the tabular report misses entry " + std::to_string(i) + " (or shows it out of order)";
        size_t q = t.find(e.file + ":" + std::to_string(e.line), p);
        if (q == std::string::npos) return "the tabular report misses the origin of entry " + std::to_string(i);
        pos = q;
    }
    return "";
}
FILE *engine_stdout();
// op: 0..4 raise (plain, formatted, source, source formatted, os), 5 clear, 6 print tabular, 7 print JSON, 8 print to a failing device
void errsim_run(const std::vector<Op> &ops, std::string &err) {
    std::vector<E> m;
    err_clear();
    for (size_t k = 0; k < ops.size() && err.empty(); k++) {
        const Op &o = ops[k];
        std::string what;
        if (o.op <= 4) {
            int code = o.op == 4 ? 9 : (int) (o.a % (int64_t) codenames().size());
            const std::string &msg = messages()[(size_t) o.b % messages().size()];
            const std::string &file = filenames()[(size_t) (o.b / 16) % filenames().size()];
            const std::string &src = sources()[(size_t) (o.c / 8) % sources().size()];
            bool loc = (o.op == 2 || o.op == 3) && (o.c & 1);
            bool wp = (o.c & 2) != 0;
            unsigned line = 1 + (unsigned) (k * 7 + o.b % 1000), sl = (unsigned) (o.c % 977), sc = (unsigned) (o.c % 83);
            std::string arg = messages()[(size_t) (o.c / 3) % messages().size()];
            int ps = 0;
            static const int errnos[] = {EIO, ENOENT, ENOMEM, EACCES};
            int en = errnos[o.a & 3];
            errno = en;
            int rc = err_raise(o.op, code, msg.c_str(), file.c_str(), line, loc ? src.c_str() : nullptr, sl, sc, (int) o.a, arg.c_str(), wp, &ps);
            bool rec = err_category(code) != 1 && (int) m.size() < DEPTH;
            if (rec) {
                if (!m.empty() && err_category(m.back().code) == 2) m.pop_back();
                E e;
                e.code = code; e.file = file; e.line = line; e.loc = loc;
                if (loc) { e.src = src; e.sl = sl; e.sc = sc; }
                if (o.op == 0) e.whole = msg;
                else if (o.op == 1) e.msg = "no. " + std::to_string((int) o.a) + ": " + arg;
                else if (o.op == 2) { if (loc) e.msg = msg; else e.whole = msg; }
                else if (o.op == 3) e.msg = "no. " + std::to_string((int) o.a) + ": " + arg;
                else e.msg = msg;
                e.overflow = (int) m.size() + 1 == DEPTH;
                m.push_back(e);
            }
            if (rc != code) err = "raising code " + std::to_string(code) + " returned " + std::to_string(rc);
            else if (wp && ps != (rec ? 1 : 0)) err = rec ? "the new entry was not handed back" : "an entry was handed back though none was recorded";
            what = "raise";
        } else if (o.op == 5) { err_clear(); m.clear(); what = "clear"; }
        else if (o.op == 6 || o.op == 7) {
            char *b = nullptr;
            size_t n = 0;
            FILE *f = open_memstream(&b, &n);
            err_print(f, o.op == 7);
            fclose(f);
            err = compare_print(m, std::string(b, n), o.op == 7);
            free(b);
            what = "print";
        } else { err_print(engine_stdout(), (int) (o.a & 1)); what = "print to device"; }
        if (err.empty()) err = compare(m);
        if (!err.empty()) err = "step " + std::to_string(k) + " (" + what + "): " + err;
    }
    err_clear();
}
