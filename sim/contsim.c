/* C05: histories of container operations, any of which may run out of memory, against small reference models.
   Op.c encodes the fault: 0 none; k<16 only the k-th allocation of the operation fails; 16+k the k-th and all later
   allocations of the operation fail. After a failed operation the contents are compared, the operation is repeated
   with memory available and must succeed. */
#pragma clang section text="ksimtext"
#include "sim.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "kefir/core/list.h"
#include "kefir/core/linked_stack.h"
#include "kefir/core/vector.h"
#include "kefir/core/hashtree.h"
#include "kefir/core/tree.h"
#include "kefir/core/trie.h"
#include "kefir/core/block_tree.h"
#include "kefir/core/symbol_table.h"
#include "kefir/core/string_buffer.h"
#include "kefir/core/error.h"
#include "kefir/lexer/buffer.h"
#include "kefir/preprocessor/token_sequence.h"
#include "kefir/preprocessor/user_macro.h"
#include "kefir/preprocessor/macro_scope.h"
#include "kefir/ast/scope.h"

extern struct kefir_mem ksim_kefir_mem;
#define MEM (&ksim_kefir_mem)
struct cop { int op; long a, b, c; };
void ksim_arm(int k, int all);
int ksim_disarm(void);

static __thread char *E;
static __thread int EL;
static __thread int step;
static void bad(const char *fmt, ...) {
    if (*E) return;
    int n = snprintf(E, EL, "step %d: ", step);
    va_list a;
    va_start(a, fmt);
    vsnprintf(E + n, EL - n, fmt, a);
    va_end(a);
}
#define CK(cond, ...) do { if (!(cond)) { bad(__VA_ARGS__); } } while (0)
/* runs expr, first with the operation's fault; `check` compares the unchanged contents after a failure */
#define DO(o, rc, expr, okval, check) do { \
        kefir_clear_error(); \
        if ((o)->c) ksim_arm((int) (o)->c & 15, (int) (o)->c >= 16); \
        (rc) = (expr); \
        int failed_ = (o)->c ? ksim_disarm() : 0; \
        if (failed_ && (rc) != (okval)) { \
            check; \
            kefir_clear_error(); \
            (rc) = (expr); \
            CK((rc) != KEFIR_MEMALLOC_FAILURE && (rc) != KEFIR_OBJALLOC_FAILURE, "the repeated operation still reports memory exhaustion"); \
        } else if (!failed_) CK((rc) != KEFIR_MEMALLOC_FAILURE, "memory exhaustion reported though no request failed"); \
        kefir_clear_error(); \
    } while (0)

enum { MAXN = 1200 };
static __thread int removed[MAXN * 4], expect_removed[MAXN * 4];
static void check_removed(int n) {
    for (int i = 0; i < n; i++) CK(removed[i] == expect_removed[i], "element %d was handed to the removal callback %d times, expected %d", i, removed[i], expect_removed[i]);
}
static __thread int counter;

/* ------------------------------------------------------------------ list */
struct marr { int v[MAXN]; int n; };
static char cookie;
static kefir_result_t on_list(struct kefir_mem *m, struct kefir_list *l, struct kefir_list_entry *e, void *p) { CK(p == &cookie, "a removal or initialisation callback got another payload than the registered one");
    (void) m; (void) l; (void) p;
    removed[(size_t) e->value]++;
    return KEFIR_OK;
}
static void cmp_list(const struct kefir_list *l, const struct marr *m, const char *w) {
    CK((int) kefir_list_length(l) == m->n, "%s length %d, model %d", w, (int) kefir_list_length(l), m->n);
    const struct kefir_list_entry *it = kefir_list_head(l), *prev = NULL, *cur = it;
    int i = 0;
    while (cur != NULL && i < m->n) {
        CK(cur->prev == prev, "%s: broken back link at %d", w, i);
        prev = cur;
        void *v = kefir_list_next(&it);
        CK((int) (size_t) v == m->v[i], "%s element %d is %d, model %d", w, i, (int) (size_t) v, m->v[i]);
        CK(kefir_list_at(l, i) == cur, "%s: element %d not found by index", w, i);
        cur = it;
        i++;
    }
    CK(i == m->n && cur == NULL, "%s ends after %d elements, model %d", w, i, m->n);
    CK(kefir_list_tail(l) == prev, "%s: wrong tail", w);
    CK(kefir_list_at(l, m->n) == NULL, "%s: an element beyond the end", w);
}
static void arr_ins(struct marr *m, int at, int v) { memmove(m->v + at + 1, m->v + at, sizeof(int) * (m->n - at)); m->v[at] = v; m->n++; }
static void arr_del(struct marr *m, int at) { memmove(m->v + at, m->v + at + 1, sizeof(int) * (m->n - at - 1)); m->n--; }
static void run_list(const struct cop *ops, int n) {
    static __thread struct kefir_list l[2];
    static __thread struct marr m[2];
    m[0].n = m[1].n = 0;
    for (int i = 0; i < 2; i++) { kefir_list_init(&l[i]); kefir_list_on_remove(&l[i], on_list, &cookie); }
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        int w = o->a & 1;
        kefir_result_t rc;
        switch (o->op % 8) {
            case 0: case 1: case 2: { /* insert after an element, or at the front, or at the end */
                int at = o->op % 8 == 0 ? m[w].n : (int) (o->b % (m[w].n + 1));
                int v = counter++;
                struct kefir_list_entry *pos = at == 0 ? NULL : o->op % 8 == 0 ? kefir_list_tail(&l[w]) : kefir_list_at(&l[w], at - 1);
                DO(o, rc, kefir_list_insert_after(MEM, &l[w], pos, (void *) (size_t) v), KEFIR_OK, cmp_list(&l[w], &m[w], "after a failed insertion, list"));
                CK(rc == KEFIR_OK, "insertion failed with %d", rc);
                arr_ins(&m[w], at, v);
            } break;
            case 3: case 4:
                if (m[w].n > 0) {
                    int at = (int) (o->b % m[w].n);
                    rc = kefir_list_pop(MEM, &l[w], kefir_list_at(&l[w], at));
                    CK(rc == KEFIR_OK, "pop failed with %d", rc);
                    expect_removed[m[w].v[at]]++;
                    arr_del(&m[w], at);
                }
                break;
            case 5:
                if (o->b % 4 == 0) {
                    rc = kefir_list_clear(MEM, &l[w]);
                    CK(rc == KEFIR_OK, "clear failed with %d", rc);
                    for (int i = 0; i < m[w].n; i++) expect_removed[m[w].v[i]]++;
                    m[w].n = 0;
                }
                break;
            case 6:
                rc = kefir_list_move_all(&l[w], &l[!w]);
                CK(rc == KEFIR_OK, "move failed with %d", rc);
                for (int i = 0; i < m[!w].n; i++) m[w].v[m[w].n++] = m[!w].v[i];
                m[!w].n = 0;
                break;
            case 7:
                if (o->b % 4 == 0) {
                    rc = kefir_list_free(MEM, &l[w]);
                    CK(rc == KEFIR_OK, "free failed with %d", rc);
                    for (int i = 0; i < m[w].n; i++) expect_removed[m[w].v[i]]++;
                    m[w].n = 0;
                    kefir_list_init(&l[w]);
                    kefir_list_on_remove(&l[w], on_list, &cookie);
                }
                break;
        }
        cmp_list(&l[0], &m[0], "first list");
        cmp_list(&l[1], &m[1], "second list");
        check_removed(counter);
    }
    kefir_list_free(MEM, &l[0]);
    kefir_list_free(MEM, &l[1]);
    for (int w = 0; w < 2; w++) for (int i = 0; i < m[w].n; i++) expect_removed[m[w].v[i]]++;
    check_removed(counter);
}
/* ------------------------------------------------------------------ linked stack */
static void run_stack(const struct cop *ops, int n) {
    static __thread struct kefir_list l;
    static __thread struct marr m;
    m.n = 0;
    kefir_list_init(&l);
    kefir_list_on_remove(&l, on_list, &cookie);
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        kefir_result_t rc;
        void *v = (void *) (size_t) 77;
        switch (o->op % 4) {
            case 0: case 1: {
                int id = ++counter;
                DO(o, rc, kefir_linked_stack_push(MEM, &l, (void *) (size_t) id), KEFIR_OK, cmp_list(&l, &m, "after a failed push, stack"));
                CK(rc == KEFIR_OK, "push failed with %d", rc);
                arr_ins(&m, m.n, id);
            } break;
            case 2:
                rc = kefir_linked_stack_pop(MEM, &l, o->a & 1 ? &v : NULL);
                CK(rc == KEFIR_OK, "pop failed with %d", rc);
                if (o->a & 1) CK((int) (size_t) v == (m.n ? m.v[m.n - 1] : 0), "popped %d, model %d", (int) (size_t) v, m.n ? m.v[m.n - 1] : 0);
                if (m.n) { expect_removed[m.v[m.n - 1]]++; m.n--; }
                break;
            case 3:
                rc = kefir_linked_stack_peek(&l, &v);
                CK(rc == KEFIR_OK && (int) (size_t) v == (m.n ? m.v[m.n - 1] : 0), "peek gives %d, model %d", (int) (size_t) v, m.n ? m.v[m.n - 1] : 0);
                break;
        }
        cmp_list(&l, &m, "stack");
        check_removed(counter + 1);
    }
    kefir_list_free(MEM, &l);
    for (int i = 0; i < m.n; i++) expect_removed[m.v[i]]++;
    check_removed(counter + 1);
}
/* ------------------------------------------------------------------ vector */
static __thread unsigned char vm[MAXN * 40];
static __thread unsigned char vknown[MAXN * 40];
static void cmp_vec(const struct kefir_vector *v, int es, int len, int cap) {
    CK((int) kefir_vector_length(v) == len, "vector length %d, model %d", (int) kefir_vector_length(v), len);
    CK((int) kefir_vector_available(v) == cap - len, "vector has room for %d, model %d", (int) kefir_vector_available(v), cap - len);
    for (int i = 0; i < len; i++) {
        unsigned char *p = kefir_vector_at(v, i);
        CK(p != NULL, "vector element %d missing", i);
        if (p) for (int k = 0; k < es; k++) if (vknown[i * es + k]) CK(p[k] == vm[i * es + k], "byte %d of vector element %d differs", k, i);
    }
    CK(kefir_vector_at(v, len) == NULL, "vector element beyond the end");
}
static void run_vector(const struct cop *ops, int n) {
    struct kefir_vector v;
    int es = 1 + (int) (ops[0].b % 24), len = 0, cap = (int) (ops[0].a % 12);
    unsigned char tmp[32 * 24];
    kefir_result_t rc;
    step = 0;
    DO(&ops[0], rc, kefir_vector_alloc(MEM, es, cap, &v), KEFIR_OK, (void) 0);
    if (rc != KEFIR_OK) { bad("vector allocation failed with %d", rc); return; }
    for (step = 1; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        switch (o->op % 8) {
            case 0: case 1: case 2:
                for (int k = 0; k < es; k++) tmp[k] = (unsigned char) (o->a * 31 + k * 7 + step);
                rc = kefir_vector_append(&v, tmp);
                kefir_clear_error();
                CK(rc == (len < cap ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "append returned %d with %d of %d used", rc, len, cap);
                if (rc == KEFIR_OK) { memcpy(vm + len * es, tmp, es); memset(vknown + len * es, 1, es); len++; }
                break;
            case 3: {
                int k = (int) (o->a % 12);
                for (int i = 0; i < k * es; i++) tmp[i] = (unsigned char) (o->b * 13 + i * 5 + step);
                rc = kefir_vector_copy(&v, k ? tmp : NULL, k);
                kefir_clear_error();
                CK(rc == (len + k <= cap ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "copy of %d returned %d with %d of %d used", k, rc, len, cap);
                if (rc == KEFIR_OK) { memcpy(vm + len * es, tmp, k * es); memset(vknown + len * es, 1, k * es); len += k; }
            } break;
            case 4: {
                int k = (int) (o->a % 6);
                rc = kefir_vector_extend(&v, k);
                kefir_clear_error();
                CK(rc == (len + k <= cap ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "extension by %d returned %d with %d of %d used", k, rc, len, cap);
                if (rc == KEFIR_OK) {
                    memset(vknown + len * es, 0, k * es);
                    for (int i = 0; i < k && (o->b & 1); i++) { unsigned char *p = kefir_vector_at(&v, len + i); if (p) memset(p, i + 1, es); memset(vm + (len + i) * es, i + 1, es); memset(vknown + (len + i) * es, 1, es); }
                    len += k;
                }
            } break;
            case 5: case 6: case 7: {
                int nc = 1 + (int) (o->a % 24);
                if (o->op % 8 == 5) nc += len;
                if (nc > MAXN) nc = MAXN;
                if (len == 0 && cap > 0) break; /* the library refuses to resize an allocated empty vector */
                DO(o, rc, kefir_vector_realloc(MEM, nc, &v), KEFIR_OK, cmp_vec(&v, es, len, cap));
                CK(rc == (len <= nc ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "resizing to %d returned %d with %d used", nc, rc, len);
                if (rc == KEFIR_OK) cap = nc;
            } break;
        }
        cmp_vec(&v, es, len, cap);
    }
    kefir_vector_free(MEM, &v);
}
/* ------------------------------------------------------------------ hash tree */
struct hent { unsigned long key, value; int id; };
static __thread struct hent hm[MAXN];
static __thread int hn, hmode;
static kefir_hashtree_hash_t h_hash(kefir_hashtree_key_t k, void *d) {
    (void) d;
    switch (hmode) {
        case 0: return k % 5;
        case 1: return 7;
        case 2: return (k * 0x9e3779b97f4a7c15ull) >> 56;
        default: return k * 0x9e3779b97f4a7c15ull;
    }
}
static bool h_cmp(kefir_hashtree_key_t a, kefir_hashtree_key_t b, void *d) { (void) d; return a == b; }
static const struct kefir_hashtree_ops h_ops = {h_hash, h_cmp, NULL};
static kefir_result_t on_hash(struct kefir_mem *m, struct kefir_hashtree *t, kefir_hashtree_key_t k, kefir_hashtree_value_t v, void *p) { CK(p == &cookie, "a removal or initialisation callback got another payload than the registered one");
    (void) m; (void) t; (void) k; (void) p;
    removed[v]++;
    return KEFIR_OK;
}
static int hfind(unsigned long k) { for (int i = 0; i < hn; i++) if (hm[i].key == k) return i; return -1; }
static void cmp_hash(const struct kefir_hashtree *t, int range, const char *w) {
    CK(kefir_hashtree_empty(t) == (hn == 0), "%s: wrong emptiness", w);
    for (int k = 0; k < range; k++) {
        int i = hfind(k);
        struct kefir_hashtree_node *nd = NULL;
        kefir_result_t rc = kefir_hashtree_at(t, k, &nd);
        CK(rc == (i >= 0 ? KEFIR_OK : KEFIR_NOT_FOUND), "%s: looking up key %d gives %d, model %s", w, k, rc, i >= 0 ? "present" : "absent");
        if (rc == KEFIR_OK && i >= 0) CK(nd->value == hm[i].value && nd->key == (unsigned long) k, "%s: key %d has another value", w, k);
        CK(kefir_hashtree_has(t, k) == (i >= 0), "%s: has(%d) is wrong", w, k);
        if (*E) break;
    }
    struct kefir_hashtree_node_iterator it;
    static __thread unsigned char seen[4096];
    memset(seen, 0, sizeof seen);
    int cnt = 0;
    unsigned long last = 0;
    for (const struct kefir_hashtree_node *nd = kefir_hashtree_iter(t, &it); nd != NULL && cnt <= hn + 1; nd = kefir_hashtree_next(&it)) {
        CK(hfind(nd->key) >= 0, "%s: iteration shows key %lu, which is absent", w, (unsigned long) nd->key);
        CK(!seen[nd->key & 4095], "%s: iteration shows key %lu twice", w, (unsigned long) nd->key);
        seen[nd->key & 4095] = 1;
        unsigned long h = h_hash(nd->key, NULL);
        CK(cnt == 0 || h >= last, "%s: iteration out of order", w);
        last = h;
        cnt++;
    }
    CK(cnt == hn, "%s: iteration shows %d entries, model %d", w, cnt, hn);
    kefir_clear_error();
}
static void run_hash(const struct cop *ops, int n) {
    struct kefir_hashtree t;
    hn = 0;
    hmode = (int) (ops[0].a & 3);
    int range = 4 + (int) (ops[0].b % 40);
    kefir_hashtree_init(&t, &h_ops);
    kefir_hashtree_on_removal(&t, on_hash, &cookie);
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        unsigned long k = (unsigned long) o->b % range;
        int i = hfind(k);
        kefir_result_t rc;
        switch (o->op % 8) {
            case 0: case 1: case 2: case 3: {
                int id = counter++;
                DO(o, rc, kefir_hashtree_insert(MEM, &t, k, id), KEFIR_OK, cmp_hash(&t, range, "after a failed insertion"));
                CK(rc == (i >= 0 ? KEFIR_ALREADY_EXISTS : KEFIR_OK), "inserting key %lu returned %d", k, rc);
                if (rc == KEFIR_OK) { hm[hn].key = k; hm[hn].value = id; hn++; }
            } break;
            case 4: case 5: case 6:
                rc = kefir_hashtree_delete(MEM, &t, k);
                kefir_clear_error();
                CK(rc == (i >= 0 ? KEFIR_OK : KEFIR_NOT_FOUND), "deleting key %lu returned %d", k, rc);
                if (i >= 0) { expect_removed[hm[i].value]++; hm[i] = hm[--hn]; }
                break;
            case 7:
                if (o->a % 16 == 0) {
                    rc = o->a & 32 ? kefir_hashtree_clean(MEM, &t) : kefir_hashtree_free(MEM, &t);
                    CK(rc == KEFIR_OK, "clean returned %d", rc);
                    for (int q = 0; q < hn; q++) expect_removed[hm[q].value]++;
                    hn = 0;
                }
                break;
        }
        cmp_hash(&t, range, "hash tree");
        check_removed(counter);
    }
    kefir_hashtree_free(MEM, &t);
    for (int q = 0; q < hn; q++) expect_removed[hm[q].value]++;
    check_removed(counter);
}
/* ------------------------------------------------------------------ tree */
struct tm_ { struct kefir_tree_node *node; int parent; };
static __thread struct tm_ tn[MAXN];
static __thread int tcount;
static kefir_result_t on_tree(struct kefir_mem *m, void *v, void *p) { CK(p == &cookie, "a removal or initialisation callback got another payload than the registered one"); (void) m; (void) p; removed[(size_t) v]++; return KEFIR_OK; }
static void cmp_tree(const char *w) {
    for (int i = 0; i < tcount && !*E; i++) {
        struct kefir_tree_node *c = kefir_tree_first_child(tn[i].node), *prev = NULL;
        CK((int) (size_t) tn[i].node->value == i, "%s: value of node %d changed", w, i);
        for (int k = 0; k < tcount; k++) {
            if (tn[k].parent != i) continue;
            CK(c == tn[k].node, "%s: a child of node %d is missing or out of order", w, i);
            if (!c) break;
            CK(kefir_tree_prev_sibling(c) == prev && c->parent == tn[i].node, "%s: wrong links at node %d", w, k);
            prev = c;
            c = kefir_tree_next_sibling(c);
        }
        CK(c == NULL, "%s: node %d has a child too many", w, i);
    }
}
static void run_tree(const struct cop *ops, int n) {
    static __thread struct kefir_tree_node root;
    kefir_tree_init(&root, (void *) 0);
    kefir_tree_on_removal(&root, on_tree, &cookie);
    tn[0].node = &root;
    tn[0].parent = -1;
    tcount = 1;
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        kefir_result_t rc;
        if (o->op % 5) {
            int p = (int) (o->a % tcount);
            struct kefir_tree_node *c = NULL;
            DO(o, rc, kefir_tree_insert_child(MEM, tn[p].node, (void *) (size_t) tcount, o->b & 1 ? &c : NULL), KEFIR_OK, cmp_tree("after a failed insertion"));
            CK(rc == KEFIR_OK, "insertion failed with %d", rc);
            if (rc != KEFIR_OK) break;
            if (!(o->b & 1)) { c = kefir_tree_first_child(tn[p].node); while (c && kefir_tree_next_sibling(c)) c = kefir_tree_next_sibling(c); }
            CK(c != NULL, "the new node was not handed back");
            if (!c) break;
            tn[tcount].node = c;
            tn[tcount].parent = p;
            tcount++;
        } else { /* breadth-first walk from some node, failing at most once */
            int from = (int) (o->a % tcount), stop = (int) (o->b % (tcount + 2)), at = 0;
            static __thread int q[MAXN];
            int qn = 0, done = 0;
            q[qn++] = from;
            for (int i = 0; i < qn; i++) for (int k = 0; k < tcount; k++) if (tn[k].parent == q[i]) q[qn++] = k;
            struct kefir_tree_node_iterator it;
            kefir_tree_iter(tn[from].node, &it);
            struct cop quiet = *o;
            while (!done && !*E) {
                CK(at < qn && it.current == tn[q[at]].node, "the walk shows another node at position %d", at);
                at++;
                if (at == stop) break;
                if (at % 3 != o->b % 3) quiet.c = 0; else quiet.c = o->c;
                DO(&quiet, rc, kefir_tree_iter_next(MEM, &it), KEFIR_OK, CK(it.current == tn[q[at - 1]].node, "a failed step moved the walk"));
                if (rc == KEFIR_ITERATOR_END) { CK(at == qn, "the walk ended after %d of %d nodes", at, qn); done = 1; }
                else CK(rc == KEFIR_OK, "a step returned %d", rc);
            }
            if (!done) kefir_tree_iter_free(MEM, &it);
        }
        cmp_tree("tree");
    }
    check_removed(tcount);
    kefir_tree_free(MEM, &root);
    for (int i = 0; i < tcount; i++) expect_removed[i]++;
    check_removed(tcount);
}
/* ------------------------------------------------------------------ trie */
struct tr_ { struct kefir_trie *node; int parent; long key; unsigned long value; };
static __thread struct tr_ tr[MAXN];
static __thread int trn;
static void cmp_trie(const char *w) {
    for (int i = 0; i < trn && !*E; i++) {
        CK(tr[i].node->value == tr[i].value, "%s: value of node %d changed", w, i);
        for (long key = -3; key < 9; key++) {
            int k = 0;
            for (k = 0; k < trn; k++) if (tr[k].parent == i && tr[k].key == key) break;
            struct kefir_trie_vertex *v = (void *) 1;
            kefir_result_t rc = kefir_trie_at(tr[i].node, key, &v);
            CK(rc == (k < trn ? KEFIR_OK : KEFIR_NOT_FOUND), "%s: key %ld at node %d gives %d", w, key, i, rc);
            if (rc == KEFIR_OK && k < trn) CK(&v->node == tr[k].node && v->key == key, "%s: key %ld at node %d leads elsewhere", w, key, i);
        }
    }
    kefir_clear_error();
}
static void run_trie(const struct cop *ops, int n) {
    struct kefir_trie root;
    kefir_trie_init(&root, 1000);
    tr[0].node = &root;
    tr[0].parent = -1;
    tr[0].value = 1000;
    trn = 1;
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        int p = (int) (o->a % trn), k;
        long key = (o->op & 1 ? 1 : -1) * (o->b % (o->op & 2 ? 3 : 8));
        for (k = 0; k < trn; k++) if (tr[k].parent == p && tr[k].key == key) break;
        struct kefir_trie_vertex *v = NULL;
        kefir_result_t rc;
        DO(o, rc, kefir_trie_insert_vertex(MEM, tr[p].node, key, 2000 + step, &v), KEFIR_OK, cmp_trie("after a failed insertion"));
        CK(rc == (k < trn ? KEFIR_ALREADY_EXISTS : KEFIR_OK), "inserting key %ld at node %d returned %d", key, p, rc);
        if (rc == KEFIR_OK && k == trn) {
            CK(v != NULL, "the new vertex was not handed back");
            if (!v) break;
            tr[trn].node = &v->node;
            tr[trn].parent = p;
            tr[trn].key = key;
            tr[trn].value = 2000 + step;
            trn++;
        }
        if (step % 4 == 0 || step + 1 == n) cmp_trie("trie");
    }
    kefir_trie_free(MEM, &root);
}
/* ------------------------------------------------------------------ string buffer */
struct sb_ { int mode; unsigned cp[MAXN * 4]; int n; int raw; }; /* raw: units not known to be text; cp then holds units */
static const unsigned char unit[] = {1, 1, 2, 4, 4};
static int enc8(unsigned c, unsigned char *o) {
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
    o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
    return 4;
}
static __thread unsigned char sbtmp[MAXN * 16 + 16];
#define RAWFLAG 0x80000000u
static int enc(const struct sb_ *s, unsigned char *o) {
    int n = 0;
    for (int i = 0; i < s->n; i++) {
        unsigned c = s->cp[i];
        if (c & RAWFLAG) { unsigned v = c & ~RAWFLAG; memcpy(o + n, &v, unit[s->mode]); n += unit[s->mode]; continue; }
        switch (s->mode) {
            case 0: case 1: n += enc8(c, o + n); break;
            case 2:
                if (c < 0x10000) { o[n++] = c; o[n++] = c >> 8; }
                else { unsigned h = 0xd800 + ((c - 0x10000) >> 10), l = 0xdc00 + ((c - 0x10000) & 1023); o[n++] = h; o[n++] = h >> 8; o[n++] = l; o[n++] = l >> 8; }
                break;
            default: memcpy(o + n, &c, 4); n += 4; break;
        }
    }
    return n;
}
static void cmp_sb(const struct kefir_string_buffer *b, const struct sb_ *s, const char *w) {
    int n = enc(s, sbtmp), u = unit[s->mode];
    kefir_size_t len = 0;
    const unsigned char *p = kefir_string_buffer_value(b, &len);
    CK(p != NULL, "%s: no contents", w);
    if (!p) return;
    CK((int) len == n / u + 1, "%s holds %d units, model %d", w, (int) len - 1, n / u);
    if ((int) len != n / u + 1) return;
    CK(memcmp(p, sbtmp, n) == 0, "%s: contents differ from the model", w);
    for (int i = 0; i < u; i++) CK(p[n + i] == 0, "%s: the terminator is missing", w);
    CK((int) b->mode == s->mode, "%s: mode changed", w);
}
static void run_sb(const struct cop *ops, int n) {
    static const unsigned cps[] = {'a', 'z', '0', '"', '\\', '\n', 0xe9, 0x20ac, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 'q', 1, 0x7ff, 0x800};
    static __thread struct kefir_string_buffer b[2];
    static __thread struct sb_ m[2];
    kefir_result_t rc;
    for (int i = 0; i < 2; i++) {
        m[i].mode = i ? (int) (ops[0].b % 5) : (int) (ops[0].a % 5);
        m[i].n = 0;
        step = 0;
        DO(&ops[0], rc, kefir_string_buffer_init(MEM, &b[i], (kefir_string_buffer_mode_t) m[i].mode), KEFIR_OK, (void) 0);
        if (rc != KEFIR_OK) { bad("initialisation failed with %d", rc); return; }
    }
    for (step = 1; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        int w = o->a & 1, was;
        switch (o->op % 10) {
            default: {
                unsigned c = cps[(o->b / 2) % 16];
                int rep = o->op % 10 < 3 ? 1 : 1 + (int) (o->a % 19);
                for (int i = 0; i < rep && m[w].n < MAXN - 2 && !*E; i++) {
                    struct cop q = *o;
                    if (i != rep / 2) q.c = 0;
                    DO(&q, rc, kefir_string_buffer_insert(MEM, &b[w], c), KEFIR_OK, cmp_sb(&b[w], &m[w], "after a failed insertion, the buffer"));
                    CK(rc == KEFIR_OK, "inserting U+%x returned %d", c, rc);
                    m[w].cp[m[w].n++] = c;
                }
            } break;
            case 6: case 7: {
                long v = o->b % 3 == 0 ? (long) (o->a % 128) : o->b % 3 == 1 ? 128 + (long) (o->a % 128) : (long) (o->b * 37 % 70000);
                long max = unit[m[w].mode] == 1 ? 255 : unit[m[w].mode] == 2 ? 65535 : 0x7fffffff;
                if (m[w].n > MAXN - 2) break;
                DO(o, rc, kefir_string_buffer_insert_raw(MEM, &b[w], v), KEFIR_OK, cmp_sb(&b[w], &m[w], "after a failed insertion, the buffer"));
                CK(rc == (v <= max ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "inserting raw value %ld returned %d", v, rc);
                if (rc == KEFIR_OK) { m[w].cp[m[w].n++] = v < 128 ? (unsigned) v : (unsigned) v | RAWFLAG; }
            } break;
            case 8: {
                int nm = (int) (o->b % 5), text = 1;
                if (m[w].mode != 0) break;
                for (int i = 0; i < m[w].n; i++) if (m[w].cp[i] & RAWFLAG) text = 0;
                if (!text && nm > 1) break; /* raw bytes may or may not be text */
                was = m[w].mode;
                DO(o, rc, kefir_string_buffer_convert(MEM, &b[w], (kefir_string_buffer_mode_t) nm), KEFIR_OK, cmp_sb(&b[w], &m[w], "after a failed conversion, the buffer"));
                CK(rc == KEFIR_OK, "conversion from mode %d to %d returned %d", was, nm, rc);
                m[w].mode = nm;
            } break;
            case 9: {
                int text = 1;
                for (int i = 0; i < m[!w].n; i++) if (m[!w].cp[i] & RAWFLAG) text = 0;
                if (!text || m[w].n + m[!w].n > MAXN) break;
                DO(o, rc, kefir_string_buffer_merge(MEM, &b[w], &b[!w]), KEFIR_OK, cmp_sb(&b[w], &m[w], "after a failed merge, the buffer"));
                CK(rc == KEFIR_OK, "merging returned %d", rc);
                if (rc == KEFIR_OK) for (int i = 0; i < m[!w].n; i++) m[w].cp[m[w].n++] = m[!w].cp[i];
            } break;
        }
        cmp_sb(&b[0], &m[0], "first buffer");
        cmp_sb(&b[1], &m[1], "second buffer");
    }
    kefir_string_buffer_free(MEM, &b[0]);
    kefir_string_buffer_free(MEM, &b[1]);
}
/* ------------------------------------------------------------------ symbol table */
struct sy_ { char s[48]; const char *p; unsigned long id; };
static __thread struct sy_ sy[MAXN];
static __thread int syn;
static void cmp_sy(const struct kefir_symbol_table *t, const char *w) {
    for (int i = 0; i < syn && !*E; i++) {
        CK(strcmp(sy[i].p, sy[i].s) == 0, "%s: symbol %s changed", w, sy[i].s);
        CK(kefir_symbol_table_get(t, sy[i].id) == sy[i].p, "%s: identifier %lu no longer names %s", w, sy[i].id, sy[i].s);
    }
    CK(kefir_symbol_table_get(t, 100000) == NULL, "%s: an identifier from nowhere", w);
    kefir_clear_error();
}
static void run_sy(const struct cop *ops, int n) {
    struct kefir_symbol_table t;
    kefir_symbol_table_init(&t);
    syn = 0;
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        char s[48];
        /* "Aa" and "BB" collide under the library's string hash; so do all their combinations */
        int k = (int) (o->b % 64), q = 0;
        if (o->a & 1) { for (int i = 0; i < 4; i++) { memcpy(s + q, k >> i & 1 ? "Aa" : "BB", 2); q += 2; } s[q] = 0; if (k & 32) strcat(s, "_x"); }
        else if (o->a & 2) { memset(s, 'l', 40); s[40] = 0; s[k % 40] = 'm'; }
        else snprintf(s, sizeof s, "%s%d", k & 1 ? "v" : "", k / 2);
        if (o->a % 64 == 4) s[0] = 0;
        int i;
        for (i = 0; i < syn; i++) if (!strcmp(sy[i].s, s)) break;
        kefir_id_t id = 55555;
        const char *p;
        kefir_clear_error();
        if (o->c) ksim_arm((int) o->c & 15, o->c >= 16);
        p = kefir_symbol_table_insert(MEM, &t, s, &id);
        int failed = o->c ? ksim_disarm() : 0;
        if (!p && failed) {
            cmp_sy(&t, "after a failed insertion");
            p = kefir_symbol_table_insert(MEM, &t, s, o->a & 4 ? NULL : &id);
            if (o->a & 4) p = kefir_symbol_table_insert(MEM, &t, s, &id);
        }
        CK(p != NULL, "inserting '%s' failed with memory available", s);
        if (!p) break;
        CK(strcmp(p, s) == 0, "inserting '%s' gave '%s'", s, p);
        if (i < syn) CK(p == sy[i].p && id == sy[i].id, "'%s' inserted again gave another symbol", s);
        else {
            for (int z = 0; z < syn; z++) CK(sy[z].id != id && sy[z].p != p, "'%s' and '%s' share a symbol", s, sy[z].s);
            strcpy(sy[syn].s, s);
            sy[syn].p = p;
            sy[syn].id = id;
            syn++;
        }
        cmp_sy(&t, "symbol table");
    }
    kefir_symbol_table_free(MEM, &t);
}
/* ------------------------------------------------------------------ block tree */
struct bt_ { unsigned long id; unsigned char *p; unsigned char fill; };
static __thread struct bt_ bt[MAXN];
static __thread int btn, bsize, binit[256], bremove[256], bfail;
static kefir_result_t on_binit(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *blk, void *p) { CK(p == &cookie, "a removal or initialisation callback got another payload than the registered one");
    (void) m; (void) t; (void) p;
    if (bfail) return KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "refused");
    binit[id & 255]++;
    memset(blk, (int) (id * 3 + 1), bsize);
    return KEFIR_OK;
}
static kefir_result_t on_bremove(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *blk, void *p) { CK(p == &cookie, "a removal or initialisation callback got another payload than the registered one");
    (void) m; (void) t; (void) p; (void) blk;
    bremove[id & 255]++;
    return KEFIR_OK;
}
static int btcmp(const void *a, const void *b) { const struct bt_ *x = a, *y = b; return x->id < y->id ? -1 : x->id > y->id; }
static void cmp_bt(const struct kefir_block_tree *t, const char *w) {
    struct kefir_block_tree_iterator it;
    kefir_block_tree_iter(t, &it);
    qsort(bt, btn, sizeof bt[0], btcmp);
    for (int i = 0; i < btn && !*E; i++) {
        CK(it.block != NULL && it.block_id == bt[i].id && it.block == bt[i].p, "%s: block %lu missing from the walk", w, bt[i].id);
        if (it.block) kefir_block_tree_next(&it);
        void *q = NULL;
        CK(kefir_block_tree_get_block(t, bt[i].id, &q) == KEFIR_OK && q == bt[i].p, "%s: block %lu moved or vanished", w, bt[i].id);
        for (int k = 0; k < bsize; k++) CK(bt[i].p[k] == bt[i].fill, "%s: contents of block %lu changed", w, bt[i].id);
    }
    CK(it.block == NULL, "%s: a block too many", w);
    for (int k = 0; k < 40; k++) {
        int have = 0;
        for (int i = 0; i < btn; i++) if ((int) bt[i].id == k) have = 1;
        void *q;
        if (!have) CK(kefir_block_tree_get_block(t, k, &q) == KEFIR_NOT_FOUND, "%s: block %d from nowhere", w, k);
        CK(binit[k] - bremove[k] == have, "%s: block %d initialised %d times, released %d times", w, k, binit[k], bremove[k]);
    }
    kefir_clear_error();
}
static void run_bt(const struct cop *ops, int n) {
    static __thread struct kefir_block_tree t;
    bsize = 1 + (int) (ops[0].a % 40);
    btn = 0;
    bfail = 0;
    memset(binit, 0, sizeof binit);
    memset(bremove, 0, sizeof bremove);
    kefir_block_tree_init(&t, bsize);
    kefir_block_tree_on_block_init(&t, on_binit, &cookie);
    kefir_block_tree_on_block_removal(&t, on_bremove, &cookie);
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        unsigned long pos = (unsigned long) o->b % (unsigned long) (40 * bsize);
        kefir_size_t id = 999, off = 999;
        kefir_result_t rc = kefir_block_tree_get_block_offset(&t, pos, &id, &off);
        CK(rc == KEFIR_OK && id * bsize + off == pos && off < (kefir_size_t) bsize, "position %lu maps to block %lu offset %lu", pos, (unsigned long) id, (unsigned long) off);
        if (*E) break;
        int i;
        for (i = 0; i < btn; i++) if (bt[i].id == id) break;
        if (o->op % 6 == 5) { /* skip to a position */
            struct kefir_block_tree_iterator it;
            kefir_block_tree_iter(&t, &it);
            kefir_block_tree_iter_skip_to(&t, &it, pos);
            unsigned long want = ~0ul;
            for (int k = 0; k < btn; k++) if (bt[k].id >= id && bt[k].id < want) want = bt[k].id;
            CK(want == ~0ul ? it.block == NULL : it.block != NULL && it.block_id == want, "skipping to %lu stops at the wrong block", pos);
            continue;
        }
        void *p = NULL;
        if (i == btn && o->op % 6 == 4) { /* the initialiser refuses: nothing may remain */
            bfail = 1;
            rc = kefir_block_tree_block(MEM, &t, id, &p);
            bfail = 0;
            CK(rc == KEFIR_INVALID_REQUEST, "a refused initialisation returned %d", rc);
            cmp_bt(&t, "after a refused initialisation");
        }
        DO(o, rc, kefir_block_tree_block(MEM, &t, id, &p), KEFIR_OK, cmp_bt(&t, "after a failed insertion"));
        CK(rc == KEFIR_OK && p != NULL, "asking for block %lu returned %d", (unsigned long) id, rc);
        if (rc != KEFIR_OK || !p) break;
        if (i < btn) CK(p == bt[i].p, "block %lu moved", (unsigned long) id);
        else { bt[btn].id = id; bt[btn].p = p; bt[btn].fill = (unsigned char) (id * 3 + 1); i = btn++; }
        if (o->a & 1) { bt[i].fill = (unsigned char) (o->a + step); memset(p, bt[i].fill, bsize); }
        cmp_bt(&t, "block tree");
    }
    kefir_block_tree_free(MEM, &t);
    for (int k = 0; k < 40; k++) CK(binit[k] == bremove[k], "block %d initialised %d times, released %d times", k, binit[k], bremove[k]);
}
/* ------------------------------------------------------------------ token buffer */
struct tb_ { int kind[MAXN]; long val[MAXN]; int n; };
static const char *tok_strings[] = {"", "text", "a longer piece of text that needs more room than a word", "x\ny"};
static int mk(int kind, long v, struct kefir_symbol_table *sy_t, struct kefir_token *t) {
    switch (kind) {
        case 0: return kefir_token_new_constant_int(v, t);
        case 1: return kefir_token_new_string_literal_multibyte(MEM, tok_strings[v % 4], strlen(tok_strings[v % 4]) + 1, t);
        case 2: return kefir_token_new_pp_number(MEM, "12345678", 1 + v % 8, t);
        case 3: { char b[20]; snprintf(b, sizeof b, "id%ld", v % 7); return kefir_token_new_identifier(MEM, sy_t, b, t); }
        default: return kefir_token_new_punctuator((kefir_punctuator_token_t) (v % 20), t);
    }
}
static int tok_is(const struct kefir_token *t, int kind, long v) {
    char b[20];
    switch (kind) {
        case 0: return t->klass == KEFIR_TOKEN_CONSTANT && t->constant.integer == v;
        case 1: return t->klass == KEFIR_TOKEN_STRING_LITERAL && t->string_literal.length == strlen(tok_strings[v % 4]) + 1 && !memcmp(t->string_literal.literal, tok_strings[v % 4], t->string_literal.length);
        case 2: return t->klass == KEFIR_TOKEN_PP_NUMBER && strlen(t->pp_number.number_literal) == (size_t) (1 + v % 8) && !strncmp(t->pp_number.number_literal, "12345678", 1 + v % 8);
        case 3: snprintf(b, sizeof b, "id%ld", v % 7); return t->klass == KEFIR_TOKEN_IDENTIFIER && !strcmp(t->identifier, b);
        default: return t->klass == KEFIR_TOKEN_PUNCTUATOR && t->punctuator == (kefir_punctuator_token_t) (v % 20);
    }
}
static void cmp_tb(const struct kefir_token_buffer *b, const struct tb_ *m, const char *w) {
    CK((int) b->length == m->n, "%s holds %d tokens, model %d", w, (int) b->length, m->n);
    for (int i = 0; i < m->n && !*E; i++) CK(tok_is(&b->tokens[i], m->kind[i], m->val[i]), "%s: token %d differs", w, i);
}
static void tb_push(struct tb_ *m, int k, long v) { m->kind[m->n] = k; m->val[m->n] = v; m->n++; }
static void run_tb(const struct cop *ops, int n) {
    static __thread struct kefir_token_buffer b[2];
    static __thread struct tb_ m[2];
    struct kefir_symbol_table st;
    kefir_symbol_table_init(&st);
    for (int i = 0; i < 2; i++) { kefir_token_buffer_init(&b[i]); m[i].n = 0; }
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        int w = o->a & 1;
        kefir_result_t rc;
        switch (o->op % 10) {
            default: {
                int rep = o->op % 10 == 0 ? 1 + (int) (o->a % 300) : 1 + (int) (o->a % 5);
                for (int i = 0; i < rep && m[w].n < MAXN / 2 - 1 && !*E; i++) {
                    int kind = (int) ((o->b + i) % 5);
                    struct cop q = *o;
                    if (i + 1 != rep && m[w].n % 256 < 254) q.c = 0;
                    struct kefir_token t;
                    DO(&q, rc, mk(kind, o->b, &st, &t), KEFIR_OK, (void) 0);
                    if (rc != KEFIR_OK) { bad("making a token returned %d", rc); break; }
                    DO(&q, rc, kefir_token_buffer_emplace(MEM, &b[w], &t), KEFIR_OK, { cmp_tb(&b[w], &m[w], "after a failed insertion, the buffer"); CK(tok_is(&t, kind, o->b), "a failed insertion took the token"); });
                    if (rc != KEFIR_OK) { kefir_token_free(MEM, &t); bad("insertion returned %d", rc); break; }
                    tb_push(&m[w], kind, o->b);
                }
            } break;
            case 5: case 6:
                if (m[w].n + m[!w].n > MAXN - 2) break;
                DO(o, rc, kefir_token_buffer_insert(MEM, &b[w], &b[!w]), KEFIR_OK, { cmp_tb(&b[w], &m[w], "after a failed move, the destination"); cmp_tb(&b[!w], &m[!w], "after a failed move, the source"); });
                CK(rc == KEFIR_OK, "moving tokens returned %d", rc);
                for (int i = 0; i < m[!w].n; i++) tb_push(&m[w], m[!w].kind[i], m[!w].val[i]);
                m[!w].n = 0;
                break;
            case 7:
                if (m[w].n + m[!w].n > MAXN / 2) break;
                DO(o, rc, kefir_token_buffer_copy(MEM, &b[w], &b[!w]), KEFIR_OK, { cmp_tb(&b[w], &m[w], "after a failed copy, the destination"); cmp_tb(&b[!w], &m[!w], "after a failed copy, the source"); });
                CK(rc == KEFIR_OK, "copying tokens returned %d", rc);
                for (int i = 0, k = m[!w].n; i < k; i++) tb_push(&m[w], m[!w].kind[i], m[!w].val[i]);
                break;
            case 8:
                rc = kefir_token_buffer_pop(MEM, &b[w]);
                kefir_clear_error();
                CK(rc == (m[w].n ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "pop returned %d with %d tokens", rc, m[w].n);
                if (m[w].n) m[w].n--;
                break;
            case 9:
                if (o->b % 8 == 0) { kefir_token_buffer_free(MEM, &b[w]); kefir_token_buffer_init(&b[w]); m[w].n = 0; }
                break;
        }
        cmp_tb(&b[0], &m[0], "first buffer");
        cmp_tb(&b[1], &m[1], "second buffer");
    }
    kefir_token_buffer_free(MEM, &b[0]);
    kefir_token_buffer_free(MEM, &b[1]);
    kefir_symbol_table_free(MEM, &st);
}
/* ------------------------------------------------------------------ preprocessing token sequence */
struct ts_ { int kind[MAXN]; long val[MAXN]; int n; int macro; };
static const char *macro_names[] = {"ONE", "TWO", "THREE"};
static __thread struct ts_ tsm[24];
static __thread int tsn;
static void ts_drop(void) { while (tsn > 0 && tsm[tsn - 1].n == 0) tsn--; }
static void ts_del(void) { struct ts_ *s = &tsm[tsn - 1]; memmove(s->kind, s->kind + 1, sizeof(int) * (s->n - 1)); memmove(s->val, s->val + 1, sizeof(long) * (s->n - 1)); s->n--; }
static void cmp_ts(struct kefir_preprocessor_token_sequence *s, const char *w) { /* only looks: macro activity; the front token */
    for (int i = 0; i < 3; i++) {
        int act = 0;
        for (int k = 0; k < tsn; k++) act |= tsm[k].macro == i + 1;
        CK(kefir_preprocessor_token_sequence_macro_active(s, macro_names[i]) == (act != 0), "%s: macro %s activity wrong", w, macro_names[i]);
    }
}
static int tkind(long v) { return (int) (v % 6); }
static int mk6(int kind, long v, struct kefir_symbol_table *st, struct kefir_token *t) { return kind == 5 ? kefir_token_new_pp_whitespace(v & 1, t) : mk(kind, v, st, t); }
static int is6(const struct kefir_token *t, int kind, long v) { return kind == 5 ? t->klass == KEFIR_TOKEN_PP_WHITESPACE && t->pp_whitespace.newline == (v & 1) : tok_is(t, kind, v); }
static void cmp_tb6(const struct kefir_token_buffer *b, const struct tb_ *m, const char *w) {
    CK((int) b->length == m->n, "%s holds %d tokens, model %d", w, (int) b->length, m->n);
    for (int i = 0; i < m->n && !*E; i++) CK(is6(&b->tokens[i], m->kind[i], m->val[i]), "%s: token %d differs", w, i);
}
static void run_ts(const struct cop *ops, int n) {
    struct kefir_preprocessor_token_sequence s;
    struct kefir_token_buffer out, in;
    static __thread struct tb_ mo, mi;
    struct kefir_symbol_table st;
    mo.n = 0; tsn = 0;
    kefir_symbol_table_init(&st);
    kefir_preprocessor_token_sequence_init(&s);
    kefir_token_buffer_init(&out);
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        kefir_result_t rc;
        const struct kefir_token *cur = NULL;
        switch (o->op % 8) {
            case 0: case 1: case 2: {
                if (tsn >= 24) break;
                kefir_token_buffer_init(&in);
                mi.n = 0;
                int cnt = (int) (o->a % 7);
                for (int i = 0; i < cnt && !*E; i++) {
                    struct kefir_token t;
                    if (mk6(tkind(o->b + i), o->b + i, &st, &t) != KEFIR_OK || kefir_token_buffer_emplace(MEM, &in, &t) != KEFIR_OK) bad("making a token failed");
                    tb_push(&mi, tkind(o->b + i), o->b + i);
                }
                int mac = o->op % 8 == 2 ? 1 + (int) (o->b % 3) : 0;
                DO(o, rc, mac ? kefir_preprocessor_token_sequence_push_macro(MEM, &s, &in, macro_names[mac - 1]) : kefir_preprocessor_token_sequence_push_front(MEM, &s, &in), KEFIR_OK,
                   { cmp_tb6(&in, &mi, "after a failed push, the source"); cmp_ts(&s, "after a failed push"); });
                CK(rc == KEFIR_OK, "pushing tokens returned %d", rc);
                CK(in.length == 0, "pushed tokens stayed in the source");
                struct ts_ *x = &tsm[tsn++];
                memcpy(x->kind, mi.kind, sizeof(int) * mi.n); memcpy(x->val, mi.val, sizeof(long) * mi.n);
                x->n = mi.n; x->macro = mac;
                kefir_token_buffer_free(MEM, &in);
            } break;
            case 3: {
                struct kefir_token t;
                rc = kefir_preprocessor_token_sequence_next(MEM, &s, o->a & 1 ? NULL : &t);
                kefir_clear_error();
                ts_drop();
                CK(rc == (tsn ? KEFIR_OK : KEFIR_ITERATOR_END), "next token: returned %d", rc);
                if (!tsn || rc != KEFIR_OK) break;
                if (!(o->a & 1)) { CK(is6(&t, tsm[tsn - 1].kind[0], tsm[tsn - 1].val[0]), "next token differs"); kefir_token_free(MEM, &t); }
                ts_del();
            } break;
            case 4: case 5:
                if (mo.n > MAXN - 2) break;
                DO(o, rc, kefir_preprocessor_token_sequence_shift(MEM, &s, &out), KEFIR_OK, {
                    cmp_tb6(&out, &mo, "after a failed shift, the destination");
                    kefir_result_t r2 = kefir_preprocessor_token_sequence_current(MEM, &s, &cur);
                    ts_drop();
                    CK(tsn == 0 ? r2 == KEFIR_ITERATOR_END : r2 == KEFIR_OK && is6(cur, tsm[tsn - 1].kind[0], tsm[tsn - 1].val[0]), "a failed shift lost the token"); });
                ts_drop();
                CK(rc == (tsn ? KEFIR_OK : KEFIR_ITERATOR_END), "shifting a token returned %d", rc);
                if (tsn && rc == KEFIR_OK) { tb_push(&mo, tsm[tsn - 1].kind[0], tsm[tsn - 1].val[0]); ts_del(); }
                break;
            case 6:
                if (mo.n > MAXN - 200) break;
                if (o->a & 1) { /* white space moved to a buffer */
                    int before = mo.n;
                    if (o->c) ksim_arm((int) o->c & 15, (int) o->c >= 16);
                    kefir_clear_error();
                    rc = kefir_preprocessor_token_sequence_skip_whitespaces(MEM, &s, &cur, &out);
                    int f = o->c ? ksim_disarm() : 0;
                    kefir_clear_error();
                    if (f && rc != KEFIR_OK) { /* a prefix of the white space was moved, nothing lost */
                        while (mo.n < (int) out.length && !*E) {
                            ts_drop();
                            if (!tsn || tsm[tsn - 1].kind[0] != 5) { bad("a failed skip moved more than white space"); break; }
                            tb_push(&mo, 5, tsm[tsn - 1].val[0]);
                            ts_del();
                        }
                        cmp_tb6(&out, &mo, "after a failed skip, the destination");
                        rc = kefir_preprocessor_token_sequence_skip_whitespaces(MEM, &s, &cur, &out);
                        kefir_clear_error();
                    }
                    (void) before;
                    for (ts_drop(); tsn && tsm[tsn - 1].kind[0] == 5; ts_drop()) { tb_push(&mo, 5, tsm[tsn - 1].val[0]); ts_del(); }
                } else {
                    rc = kefir_preprocessor_token_sequence_skip_whitespaces(MEM, &s, &cur, NULL);
                    kefir_clear_error();
                    for (ts_drop(); tsn && tsm[tsn - 1].kind[0] == 5; ts_drop()) ts_del();
                }
                CK(rc == KEFIR_OK, "skipping white space returned %d", rc);
                CK((cur == NULL) == (tsn == 0), "the token after white space is %s", cur ? "present though the sequence is empty" : "missing");
                if (cur && tsn) CK(is6(cur, tsm[tsn - 1].kind[0], tsm[tsn - 1].val[0]), "the token after white space differs");
                break;
            case 7:
                rc = kefir_preprocessor_token_sequence_current(MEM, &s, &cur);
                kefir_clear_error();
                ts_drop();
                CK(rc == (tsn ? KEFIR_OK : KEFIR_ITERATOR_END), "current token: returned %d", rc);
                if (tsn && rc == KEFIR_OK) CK(is6(cur, tsm[tsn - 1].kind[0], tsm[tsn - 1].val[0]), "current token differs");
                break;
        }
        cmp_ts(&s, "token sequence");
        cmp_tb6(&out, &mo, "shifted tokens");
    }
    kefir_preprocessor_token_sequence_free(MEM, &s);
    kefir_token_buffer_free(MEM, &out);
    kefir_symbol_table_free(MEM, &st);
}
/* ------------------------------------------------------------------ macro table */
enum { NMAC = 24 };
static __thread int mac_ver[2][NMAC]; /* 0 = undefined */
static void cmp_mac(struct kefir_preprocessor_user_macro_scope *sc, struct kefir_preprocessor_overlay_macro_scope *ov, const char *w) {
    for (int i = 0; i < NMAC && !*E; i++) {
        char nm[20];
        snprintf(nm, sizeof nm, "MACRO_%d", i);
        for (int k = 0; k < 3; k++) {
            int want = k == 0 ? mac_ver[0][i] : mac_ver[1][i] ? mac_ver[1][i] : mac_ver[0][i];
            const struct kefir_preprocessor_user_macro *um = NULL;
            const struct kefir_preprocessor_macro *m = NULL;
            kefir_result_t rc = k < 2 ? kefir_preprocessor_user_macro_scope_at(&sc[k], nm, &um) : ov->scope.locate(&ov->scope, nm, &m);
            kefir_clear_error();
            CK(rc == (want ? KEFIR_OK : KEFIR_NOT_FOUND), "%s: looking up %s in scope %d returned %d", w, nm, k, rc);
            if (rc != KEFIR_OK || !want) continue;
            if (k == 2) um = m->payload;
            CK(!strcmp(um->macro.identifier, nm), "%s: %s found under the name %s", w, nm, um->macro.identifier);
            CK(um->replacement.length == 1 && um->replacement.tokens[0].constant.integer == want, "%s: %s has another definition than the last one", w, nm);
        }
    }
}
static void run_mac(const struct cop *ops, int n) {
    struct kefir_preprocessor_user_macro_scope sc[2];
    struct kefir_preprocessor_overlay_macro_scope ov;
    struct kefir_symbol_table st;
    int ver = 0;
    memset(mac_ver, 0, sizeof mac_ver);
    kefir_symbol_table_init(&st);
    kefir_preprocessor_user_macro_scope_init(NULL, &sc[0]);
    kefir_preprocessor_user_macro_scope_init(&sc[0], &sc[1]);
    kefir_preprocessor_overlay_macro_scope_init(&ov, &sc[0].scope, &sc[1].scope);
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        int w = o->a & 1, i = (int) (o->b % NMAC);
        kefir_result_t rc;
        char nm[20];
        snprintf(nm, sizeof nm, "MACRO_%d", i);
        if (o->op % 4 < 3) {
            struct kefir_preprocessor_user_macro *m = o->a & 2 ? kefir_preprocessor_user_macro_new_object(MEM, &st, nm) : kefir_preprocessor_user_macro_new_function(MEM, &st, nm);
            struct kefir_token t;
            if (!m || kefir_token_new_constant_int(++ver, &t) != KEFIR_OK || kefir_token_buffer_emplace(MEM, &m->replacement, &t) != KEFIR_OK) { bad("making a macro failed"); break; }
            DO(o, rc, kefir_preprocessor_user_macro_scope_insert(MEM, &sc[w], m), KEFIR_OK, cmp_mac(sc, &ov, "after a failed definition"));
            CK(rc == KEFIR_OK, "defining a macro returned %d", rc);
            mac_ver[w][i] = ver;
        } else {
            DO(o, rc, kefir_preprocessor_user_macro_scope_remove(MEM, &sc[w], nm), KEFIR_OK, cmp_mac(sc, &ov, "after a failed removal"));
            CK(rc == KEFIR_OK, "removing a macro returned %d", rc);
            mac_ver[w][i] = 0;
        }
        cmp_mac(sc, &ov, "macro table");
    }
    kefir_preprocessor_user_macro_scope_free(MEM, &sc[1]);
    kefir_preprocessor_user_macro_scope_free(MEM, &sc[0]);
    kefir_symbol_table_free(MEM, &st);
}
/* ------------------------------------------------------------------ identifier scopes */
enum { NID = 30, NSC = 48 };
static __thread struct kefir_ast_scoped_identifier ids[MAXN];
static __thread struct kefir_ast_scoped_identifier_cleanup cleanups[MAXN];
static __thread int cleaned[MAXN], clean_want[MAXN], has_clean[MAXN];
static __thread struct { int parent; int val[NID]; } scm[NSC]; /* val: index+1 into ids */
static __thread int scn, sctop, flat_val[NID];
static char id_names[NID][40];
static char cookie2;
static __thread char *id_cookie;
static kefir_result_t on_id(struct kefir_mem *m, struct kefir_ast_scoped_identifier *v, void *p) { (void) m;
    CK(p == id_cookie, "an identifier removal callback got another payload than the registered one");
    removed[v - ids]++;
    return KEFIR_OK;
}
static kefir_result_t on_clean(struct kefir_mem *m, struct kefir_ast_scoped_identifier *v, void *p) { (void) m;
    CK(p == &cookie2, "an identifier cleanup callback got another payload than the registered one");
    cleaned[v - ids]++;
    return KEFIR_OK;
}
static void cmp_sc(struct kefir_ast_identifier_block_scope *b, struct kefir_ast_identifier_flat_scope *f, const char *w) {
    int cnt = 0;
    for (int i = 0; i < NID && !*E; i++) {
        struct kefir_ast_scoped_identifier *v = NULL;
        int s = sctop, want = 0;
        while (s >= 0 && !(want = scm[s].val[i])) s = scm[s].parent;
        kefir_result_t rc = kefir_ast_identifier_block_scope_at(b, id_names[i], &v);
        kefir_clear_error();
        CK(rc == (want ? KEFIR_OK : KEFIR_NOT_FOUND), "%s: looking up %s returned %d", w, id_names[i], rc);
        if (want && rc == KEFIR_OK) CK(v == &ids[want - 1], "%s: %s denotes another declaration than the innermost visible one", w, id_names[i]);
        rc = kefir_ast_identifier_flat_scope_at(f, id_names[i], &v);
        kefir_clear_error();
        CK(rc == (flat_val[i] ? KEFIR_OK : KEFIR_NOT_FOUND) && kefir_ast_identifier_flat_scope_has(f, id_names[i]) == (flat_val[i] != 0), "%s: looking up %s in the flat scope returned %d", w, id_names[i], rc);
        if (flat_val[i] && rc == KEFIR_OK) CK(v == &ids[flat_val[i] - 1], "%s: %s denotes another declaration in the flat scope", w, id_names[i]);
        cnt += flat_val[i] != 0;
    }
    CK(kefir_ast_identifier_flat_scope_empty(f) == (cnt == 0), "%s: flat scope emptiness wrong", w);
    struct kefir_ast_identifier_flat_scope_iterator it;
    char seen[NID] = {0};
    int k = 0;
    for (kefir_result_t rc = kefir_ast_identifier_flat_scope_iter(f, &it); rc == KEFIR_OK && !*E; rc = kefir_ast_identifier_flat_scope_next(f, &it), k++) {
        int i = 0;
        while (i < NID && strcmp(id_names[i], it.identifier)) i++;
        CK(i < NID && flat_val[i] && !seen[i] && it.value == &ids[flat_val[i] - 1], "%s: iteration of the flat scope shows a wrong entry", w);
        if (i < NID) seen[i] = 1;
    }
    kefir_clear_error();
    CK(k == cnt, "%s: iteration of the flat scope shows %d of %d entries", w, k, cnt);
    for (int i = 0; i < counter; i++) CK(cleaned[i] == clean_want[i], "%s: declaration %d cleaned up %d times, expected %d", w, i, cleaned[i], clean_want[i]);
}
static void run_sc(const struct cop *ops, int n) {
    struct kefir_ast_identifier_block_scope b;
    struct kefir_ast_identifier_flat_scope f;
    memset(cleaned, 0, sizeof cleaned); memset(clean_want, 0, sizeof clean_want);
    memset(flat_val, 0, sizeof flat_val); memset(scm, 0, sizeof scm);
    for (int i = 0; i < NID; i++) snprintf(id_names[i], sizeof id_names[i], "identifier%.*s%d", i % 12, "_____________", i);
    scn = 1; sctop = 0; scm[0].parent = -1;
    id_cookie = NULL;
    if (kefir_ast_identifier_block_scope_init(MEM, &b) != KEFIR_OK) { bad("making a scope failed"); return; }
    kefir_ast_identifier_flat_scope_init(&f);
    for (step = 0; step < n && !*E; step++) {
        const struct cop *o = &ops[step];
        int i = (int) (o->b % NID);
        kefir_result_t rc;
        switch (o->op % 8) {
            case 0: case 1: case 2: case 3: {
                int fl = o->op % 8 == 3;
                if (counter >= MAXN) break;
                int old = fl ? flat_val[i] : scm[sctop].val[i];
                struct kefir_ast_scoped_identifier *v = &ids[counter];
                memset(v, 0, sizeof *v);
                has_clean[counter] = o->a & 1;
                cleanups[counter].callback = has_clean[counter] ? on_clean : NULL;
                cleanups[counter].payload = &cookie2;
                v->payload.cleanup = &cleanups[counter];
                DO(o, rc, fl ? kefir_ast_identifier_flat_scope_insert(MEM, &f, id_names[i], v) : kefir_ast_identifier_block_scope_insert(MEM, &b, id_names[i], v), KEFIR_OK, cmp_sc(&b, &f, "after a failed declaration"));
                CK(rc == (old ? KEFIR_ALREADY_EXISTS : KEFIR_OK), "declaring %s returned %d", id_names[i], rc);
                if (!old) { counter++; if (fl) flat_val[i] = counter; else scm[sctop].val[i] = counter; }
            } break;
            case 4:
                if (scn >= NSC) break;
                DO(o, rc, kefir_ast_identifier_block_scope_push(MEM, &b), KEFIR_OK, cmp_sc(&b, &f, "after a failed push"));
                CK(rc == KEFIR_OK, "opening a scope returned %d", rc);
                memset(&scm[scn], 0, sizeof scm[scn]);
                scm[scn].parent = sctop;
                sctop = scn++;
                break;
            case 5:
                rc = kefir_ast_identifier_block_scope_pop(&b);
                kefir_clear_error();
                CK(rc == (sctop ? KEFIR_OK : KEFIR_INVALID_CHANGE), "closing a scope returned %d", rc);
                if (sctop) sctop = scm[sctop].parent;
                break;
            case 6:
                id_cookie = o->a & 1 ? &cookie : &cookie2;
                CK(kefir_ast_identifier_block_scope_on_removal(&b, on_id, id_cookie) == KEFIR_OK && kefir_ast_identifier_flat_scope_on_removal(&f, on_id, id_cookie) == KEFIR_OK, "registering a removal callback failed");
                break;
            case 7:
                if (o->a % 6) break;
                CK(kefir_ast_identifier_block_scope_cleanup_payload(MEM, &b) == KEFIR_OK && kefir_ast_identifier_flat_scope_cleanup_payload(MEM, &f) == KEFIR_OK, "cleaning up failed");
                for (int k = 0; k < counter; k++) clean_want[k] = has_clean[k];
                break;
        }
        cmp_sc(&b, &f, "scope");
    }
    int was = id_cookie != NULL;
    kefir_ast_identifier_block_scope_free(MEM, &b);
    kefir_ast_identifier_flat_scope_free(MEM, &f);
    for (int k = 0; k < counter; k++) expect_removed[k] = was;
    check_removed(counter);
}
void cont_run(int container, const struct cop *ops, int n, char *err, int errlen) {
    E = err;
    EL = errlen;
    counter = 0;
    memset(removed, 0, sizeof removed);
    memset(expect_removed, 0, sizeof expect_removed);
    if (n == 0) return;
    kefir_clear_error();
    switch (container) {
        case 0: run_list(ops, n); break;
        case 1: run_stack(ops, n); break;
        case 2: run_vector(ops, n); break;
        case 3: run_hash(ops, n); break;
        case 4: run_tree(ops, n); break;
        case 5: run_trie(ops, n); break;
        case 6: run_sb(ops, n); break;
        case 7: run_sy(ops, n); break;
        case 8: run_bt(ops, n); break;
        case 9: run_tb(ops, n); break;
        case 10: run_ts(ops, n); break;
        case 11: run_mac(ops, n); break;
        case 12: run_sc(ops, n); break;
    }
    kefir_clear_error();
}
