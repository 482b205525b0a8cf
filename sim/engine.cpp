// The simulated world: heap, file system, devices, clock, callbacks, thread schedule.
#pragma clang section text="ksimtext"
#include "engine.h"
#include <sanitizer/asan_interface.h>
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <clocale>
#include <fcntl.h>
#include <getopt.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

Status *g_status;
static Status g_local_status;
std::string g_last_phase;

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c159e3779b9ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:handle_abort=1:handle_sigfpe=1:handle_sigill=1:detect_stack_use_after_return=0:symbolize=0:allocator_may_return_null=1:malloc_context_size=4:check_printf=1:strict_string_checks=0:print_legend=0:quarantine_size_mb=8:max_redzone=64"; }
// ------------------------------------------------------------------ per-run state
static const uint64_t ARENA = 0x200000000000ull, ZONE = 512ull << 20;
static const int NZONES = 8;
enum { TAG_MEM = 1, TAG_LIBC = 2, TAG_TEXT = 3 };
static const int NFRAMES = 10;
static const uint32_t LIVE = 0x11ce11ce, DEAD = 0xdeaddead;
struct Hdr {
    uint32_t magic, tag;
    uint64_t size, cap, idx, cls;
    int32_t job, pad;
    void *frames[NFRAMES];
};
static_assert(sizeof(Hdr) == 128, "header");

struct VFile { std::string data; bool device = false; bool exists = true; };
struct Fd { VFile *f = nullptr; size_t off = 0; bool open = false; int flags = 0; int chunk = 0; };
struct MapEnt { char *p; size_t len; bool open; };
struct Stream { FILE *fp; int dev; VFile *f; size_t off; bool open; bool write; bool append; char **mp; size_t *mn; std::string mem; void *membuf; };

struct World { // per job
    int id = 0;
    const Job *job = nullptr;
    JobOut *out = nullptr;
    std::map<std::string, VFile> files;
    VFile dout, derr, din;
    std::vector<Fd> fds;
    std::vector<MapEnt> maps;
    std::vector<Stream *> streams;
    FILE *fstdin = nullptr, *fstdout = nullptr, *fstderr = nullptr;
    std::vector<const Fault *> allocf, iof, cbf, clockf;
    const Fault *cap = nullptr, *capE = nullptr, *closef = nullptr, *chunk = nullptr, *buf = nullptr;
    bool sticky = false;
    uint64_t sticky_left = 0;
    std::map<uint64_t, uint64_t> clsocc;
    bool clsfaults = false;
    int arm = 0, arm_all = 0, arm_fired = 0; // C05: fault tied to one container operation
    jmp_buf exitj;
    bool exitable = false;
    int exit_code = 0;
    std::vector<void (*)(void)> atexits;
    uint64_t clockn = 0;
    bool finishing = false; // after the job: closing is the kernel's business now
};

static Scenario *S;
static RunOut *R;
static std::vector<std::unique_ptr<World>> worlds;
static World *W; // current world (of the running thread)
static bool g_in_run, g_verbose;
bool g_record_classes;
static std::map<uint64_t, ClassInfo> *g_classes;
static std::vector<Hdr *> g_allocs;
static uint64_t zlo[NZONES], zhi[NZONES];
static Rng hrng(1);
static int64_t g_clock;
static uint64_t g_clock_bb;
static uint64_t g_log_hash, g_events;

uint8_t *g_cov;
uint32_t g_nguards;
static uint64_t g_bb, g_bb_limit = ~0ull, g_bb_cap = ~0ull, g_next_switch = ~0ull;
static uint64_t g_job_bb0;

FILE *ksim_libc_stdin_, *ksim_libc_stdout_, *ksim_libc_stderr_;

static int capture(void **fr, int max);
static std::string frames_str(void **fr);
static void fatal(const char *what, const char *detail) {
    // the run cannot continue: report and leave; the orchestrator knows which run this was
    char b[1024];
    void *fr[10 + 1] = {0};
    capture(fr, 10);
    int n = snprintf(b, sizeof b, "KSIM-FATAL %s %s hash=%016lx bb=%lu at=%s\n", what, *detail ? detail : "-", (unsigned long) g_log_hash, (unsigned long) g_bb, frames_str(fr).c_str());
    ssize_t r = write(2, b, n);
    (void) r;
    _exit(86);
}
static void death() {
    char b[160];
    int n = snprintf(b, sizeof b, "KSIM-DEATH hash=%016lx bb=%lu events=%lu\n", (unsigned long) g_log_hash, (unsigned long) g_bb, (unsigned long) g_events);
    ssize_t r = write(2, b, n);
    (void) r;
}

static void ev(const char *kind, uint64_t a = 0, uint64_t b = 0, const char *s = nullptr) {
    g_events++;
    uint64_t rec[4] = {(uint64_t) (W ? W->id : -1), a, b, g_bb};
    g_log_hash = hash_bytes(rec, sizeof rec, g_log_hash);
    g_log_hash = hash_bytes(kind, strlen(kind), g_log_hash);
    if (s) g_log_hash = hash_bytes(s, strlen(s), g_log_hash);
    if (g_verbose) fprintf(stderr, "  [%d] bb=%lu %s %lu %lu %s\n", W ? W->id : -1, (unsigned long) g_bb, kind, (unsigned long) a, (unsigned long) b, s ? s : "");
}
static void fired(const char *kind, const std::string &d = "") {
    W->out->faults_fired++;
    W->out->fired.push_back(d.empty() ? std::string(kind) : std::string(kind) + ":" + d);
    ev("FAULT", 0, 0, kind);
}

// ------------------------------------------------------------------ coverage callbacks, scheduler
static void slow_bb();
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    static uint32_t n = 0;
    for (uint32_t *x = start; x < stop; x++) *x = ++n;
    g_nguards = n;
    uint8_t *nc = (uint8_t *) mmap(nullptr, n + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_cov = nc;
}
static uint32_t g_last_guard;
// Dead stack: at every block, what lies below the running frame is overwritten with seeded values, so that the next
// callee finds nothing of its predecessors in its frame.
bool g_scribble;
static uint64_t g_ambient, g_ambient_n;
static uint64_t g_scribble_v;
__attribute__((noinline)) static void scribble() {
    g_scribble_v = g_scribble_v * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t v = g_scribble_v ^ (g_scribble_v >> 29), n = 384;
    void *p;
    asm volatile("lea -3088(%%rsp), %0" : "=r"(p));
    asm volatile("rep stosq" : "+D"(p), "+c"(n) : "a"(v) : "memory");
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    g_cov[*guard] = 1;
    g_last_guard = *guard;
    if (__builtin_expect(++g_bb >= g_bb_limit, 0)) {
        if (g_scribble && g_bb < g_bb_cap) { scribble(); return; }
        slow_bb();
    }
}

struct Thr { pthread_t t; int id; bool done = false; };
static std::vector<Thr> thrs;
static std::atomic<int> g_turn;
static Rng srng(1);
static size_t g_swpos;
static bool g_threads;
static void fwait(int me) {
    for (;;) {
        int t = g_turn.load(std::memory_order_acquire);
        if (t == me) return;
        syscall(SYS_futex, (int *) &g_turn, FUTEX_WAIT_PRIVATE, t, nullptr, nullptr, 0);
    }
}
static void fpass(int to) {
    g_turn.store(to, std::memory_order_release);
    syscall(SYS_futex, (int *) &g_turn, FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0);
}
static void set_world(World *w) {
    W = w;
    if (w) {
        ksim_libc_stdin_ = w->fstdin;
        ksim_libc_stdout_ = w->fstdout;
        ksim_libc_stderr_ = w->fstderr;
    }
}
static void next_slice() {
    if (S->explicit_sched) {
        while (g_swpos < S->switches.size() && S->switches[g_swpos].at <= g_bb) g_swpos++;
        g_next_switch = g_swpos < S->switches.size() ? S->switches[g_swpos].at : ~0ull;
    } else if (S->rv) {
        g_next_switch = 0; // every block is looked at
    } else {
        // mostly exponential-like slices around the mean, sometimes a burst of very short ones
        uint64_t m = S->slice ? S->slice : 100;
        uint64_t len = srng.chance(1, 8) ? 1 + srng.below(3) : 1 + srng.below(2 * m);
        g_next_switch = g_bb + len;
    }
    g_bb_limit = g_next_switch < g_bb_cap ? g_next_switch : g_bb_cap;
}
// Rendezvous scheduling: a thread is stopped at a block it visits for the first time; another thread runs until it
// has passed the same block a few times (or a limit), then the first one goes on. This puts two threads into the
// same piece of code at the same time, with different data, at every place in turn.
static std::vector<uint8_t> g_rv_seen[8];
static uint32_t g_rv_guard;
static int g_rv_owner, g_rv_hits;
static uint64_t g_rv_until, g_rv_tail;
// The compiler's own writable static storage (sections renamed by the build). It is put back to its initial contents
// before every run, and the rendezvous scheduler stops a thread right after it changed a byte there, so that another
// thread gets to the same piece of shared storage before the first one goes on.
extern "C" char __start_kefir_data[] __attribute__((weak)), __stop_kefir_data[] __attribute__((weak));
extern "C" char __start_kefir_bss[] __attribute__((weak)), __stop_kefir_bss[] __attribute__((weak));
static char *g_st_init, *g_st_last;
static size_t g_st_n[2];
static inline void raw_copy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
extern "C" __thread char ksim_tbss_begin[], ksim_tbss_end[], ksim_tdata_begin[], ksim_tdata_end[];
static char *g_tls_init;
static void st_setup() {
    // thread-local storage of the main thread; the others are created anew in every run
    size_t tb = ksim_tbss_end - ksim_tbss_begin, td = ksim_tdata_end - ksim_tdata_begin;
    if (!g_tls_init) {
        g_tls_init = (char *) mmap(nullptr, tb + td + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        raw_copy(g_tls_init, ksim_tbss_begin, tb);
        raw_copy(g_tls_init + tb, ksim_tdata_begin, td);
    }
    raw_copy(ksim_tbss_begin, g_tls_init, tb);
    raw_copy(ksim_tdata_begin, g_tls_init + tb, td);
    if (!g_st_init) {
        g_st_n[0] = __start_kefir_data ? __stop_kefir_data - __start_kefir_data : 0;
        g_st_n[1] = __start_kefir_bss ? __stop_kefir_bss - __start_kefir_bss : 0;
        size_t n = g_st_n[0] + g_st_n[1];
        g_st_init = (char *) mmap(nullptr, n + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        g_st_last = (char *) mmap(nullptr, n + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_st_n[0]) raw_copy(g_st_init, __start_kefir_data, g_st_n[0]);
        if (g_st_n[1]) raw_copy(g_st_init + g_st_n[0], __start_kefir_bss, g_st_n[1]);
    }
    if (g_st_n[0]) raw_copy(__start_kefir_data, g_st_init, g_st_n[0]);
    if (g_st_n[1]) raw_copy(__start_kefir_bss, g_st_init + g_st_n[0], g_st_n[1]);
    raw_copy(g_st_last, g_st_init, g_st_n[0] + g_st_n[1]);
}
__attribute__((target("avx2"))) static bool st_diff(const char *a, const char *b, size_t n) {
    size_t i = 0;
    typedef long long v4 __attribute__((vector_size(32), aligned(1)));
    for (; i + 128 <= n; i += 128) {
        v4 x = (*(v4 *) (a + i) ^ *(v4 *) (b + i)) | (*(v4 *) (a + i + 32) ^ *(v4 *) (b + i + 32)) | (*(v4 *) (a + i + 64) ^ *(v4 *) (b + i + 64)) | (*(v4 *) (a + i + 96) ^ *(v4 *) (b + i + 96));
        if (x[0] | x[1] | x[2] | x[3]) return true;
    }
    for (; i < n; i++)
        if (a[i] != b[i]) return true;
    return false;
}
static bool st_changed() {
    bool c = false;
    if (g_st_n[0] && st_diff(__start_kefir_data, g_st_last, g_st_n[0])) { c = true; raw_copy(g_st_last, __start_kefir_data, g_st_n[0]); }
    if (g_st_n[1] && st_diff(__start_kefir_bss, g_st_last + g_st_n[0], g_st_n[1])) { c = true; raw_copy(g_st_last + g_st_n[0], __start_kefir_bss, g_st_n[1]); }
    return c;
}
static void rv_reset() {
    for (auto &v : g_rv_seen) v.assign(g_nguards + 1, 0);
    g_rv_guard = 0;
}
static int rv_pick() {
    int me = W->id;
    bool wrote = S->sw && st_changed();
    if (g_rv_guard) {
        if (wrote && me != g_rv_owner && !g_rv_tail && srng.chance(3, 4)) g_rv_tail = g_bb + srng.below(4);
        if (me == g_rv_owner || thrs[g_rv_owner].done) { g_rv_guard = 0; return -1; }
        if (g_rv_tail ? g_bb >= g_rv_tail : g_bb >= g_rv_until) { g_rv_guard = 0; return g_rv_owner; }
        if (!g_rv_tail && g_last_guard == g_rv_guard && --g_rv_hits <= 0) g_rv_tail = g_bb + srng.below(12);
        return -1;
    }
    if (wrote ? !srng.chance(1, 2) : g_rv_seen[me & 7][g_last_guard]) return -1;
    if (!wrote) {
        g_rv_seen[me & 7][g_last_guard] = 1;
        if (!srng.chance(S->rv, 10000)) return -1;
    }
    int alive[8], n = 0;
    for (auto &t : thrs)
        if (!t.done && t.id != me && n < 8) alive[n++] = t.id;
    if (!n) return -1;
    g_rv_guard = g_last_guard;
    g_rv_owner = me;
    g_rv_hits = 1 + (int) srng.below(3);
    g_rv_tail = 0;
    g_rv_until = g_bb + 2000 + srng.below(60000);
    return alive[srng.below(n)];
}
static void switch_to(int to) {
    World *me = W;
    R->switches++;
    uint64_t rec[2] = {(uint64_t) to, g_last_guard};
    R->inter_hash = hash_bytes(rec, sizeof rec, R->inter_hash);
    ev("switch", to);
    set_world(worlds[to].get());
    fpass(to);
    fwait(me->id);
    set_world(me);
}
std::map<uint32_t, std::vector<uint64_t>> *g_watch;
static uint64_t g_watch_n;
static void watch_bb() {
    if (!st_changed()) return;
    auto &v = (*g_watch)[g_last_guard];
    if (v.size() < 12) v.push_back(g_bb);
    else if (g_watch_n++, mix(g_watch_n, g_bb) % 7 == 0) v[mix(g_bb, 3) % 12] = g_bb;
}
static void slow_bb() {
    if (!g_in_run) return;
    if (g_bb >= g_bb_cap) fatal("hang", "-");
    if (!g_threads) {
        if (g_watch) { watch_bb(); return; }
        g_bb_limit = g_bb_cap;
        return;
    }
    int to = -1;
    if (S->explicit_sched) {
        if (g_swpos < S->switches.size() && S->switches[g_swpos].at <= g_bb) to = S->switches[g_swpos].to;
    } else if (S->rv) {
        to = rv_pick();
        if (to < 0) return;
        S->switches.push_back({g_bb, to});
    } else {
        std::vector<int> alive;
        for (auto &t : thrs)
            if (!t.done) alive.push_back(t.id);
        to = alive[srng.below(alive.size())];
        if (to != W->id) S->switches.push_back({g_bb, to});
    }
    next_slice();
    if (to < 0 || to >= (int) thrs.size() || thrs[to].done || to == W->id) return;
    switch_to(to);
}

// ------------------------------------------------------------------ heap
static void arena_init() {
    void *p = mmap((void *) ARENA, ZONE * NZONES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void *) ARENA) { perror("arena"); _exit(2); }
    for (int i = 0; i < NZONES; i++) zlo[i] = zhi[i] = ARENA + ZONE * i + ZONE / 2;
    for (int i = 0; i < NZONES; i++) ; // poisoned lazily: see grow
}
// zones grow upwards or downwards from their middle; space is poisoned as it is taken
static void arena_reset() {
    for (int i = 0; i < NZONES; i++) {
        if (zhi[i] > zlo[i]) {
            __asan_unpoison_memory_region((void *) zlo[i], zhi[i] - zlo[i]);
            if (zhi[i] - zlo[i] > (64u << 20)) madvise((void *) zlo[i], zhi[i] - zlo[i], MADV_DONTNEED);
        }
        zlo[i] = zhi[i] = ARENA + ZONE * i + ZONE / 2;
    }
    g_allocs.clear();
}
static char *take(size_t total, int z, bool down) {
    total = (total + 15) & ~15ull;
    char *p;
    if (down) {
        if (zlo[z] - total < ARENA + ZONE * z) return nullptr;
        zlo[z] -= total;
        p = (char *) zlo[z];
    } else {
        if (zhi[z] + total > ARENA + ZONE * (z + 1)) return nullptr;
        p = (char *) zhi[z];
        zhi[z] += total;
    }
    __asan_poison_memory_region(p, total);
    return p;
}
static void raw_set(void *p, int v, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }
static void fill(void *p, size_t n, int how) { // poisoned or not: no intercepted calls here
    if (S->heapseed == 0) { raw_set(p, how ? 0xbd : 0xaa, n); return; }
    unsigned k = hrng.below(4);
    if (k == 0) raw_set(p, 0, n);
    else if (k == 1) raw_set(p, 0xff, n);
    else {
        uint64_t v = k == 2 ? hrng.next() : ARENA + hrng.below(1 << 20) * 16;
        uint64_t *q = (uint64_t *) p;
        size_t m = n / 8;
        asm volatile("rep stosq" : "+D"(q), "+c"(m) : "a"(v) : "memory");
        raw_set(q, 0x5a, n % 8);
    }
}
extern "C" char __start_ksimtext[], __stop_ksimtext[];
// return addresses of kefir's frames, innermost first (the simulator's own innermost frames are dropped)
__attribute__((noinline)) static int capture(void **fr, int max) {
    void **fp = (void **) __builtin_frame_address(0);
    int n = 0;
    uintptr_t lim = (uintptr_t) fp + (64u << 20);
    while (n < max) {
        void **nx = (void **) fp[0];
        void *ret = fp[1];
        if (!ret) break;
        if (n > 0 || (char *) ret < __start_ksimtext || (char *) ret >= __stop_ksimtext) fr[n++] = ret;
        if ((uintptr_t) nx <= (uintptr_t) fp || (uintptr_t) nx > lim) break;
        fp = nx;
    }
    return n;
}
static void *do_alloc(size_t n, size_t cap, int tag, void **fr, int nfr, uint64_t cls) {
    if (n > (256u << 20)) return nullptr;
    int z = 0;
    bool down = false;
    size_t gap = 0;
    if (S->heapseed) {
        z = hrng.below(NZONES);
        down = hrng.chance(1, 2);
        gap = hrng.below(8) * 16;
    }
    if (cap < n) cap = n;
    size_t total = sizeof(Hdr) + cap + 16 + gap + 16;
    char *b = take(total, z, down);
    if (!b) fatal("runaway-memory", "-"); // hundreds of megabytes for programs of a few kilobytes
    Hdr *h = (Hdr *) b;
    h->magic = LIVE;
    h->tag = tag;
    h->size = n;
    h->cap = cap;
    h->idx = W ? W->out->nalloc : 0;
    if (W) W->out->bytes += total;
    h->cls = cls;
    h->job = W ? W->id : -1;
    for (int i = 0; i < NFRAMES; i++) { h->frames[i] = i < nfr ? fr[i] : nullptr; asm volatile("" ::: "memory"); }
    void *p = b + sizeof(Hdr);
    fill(p, n, 0);
    __asan_unpoison_memory_region(p, n);
    g_allocs.push_back(h);
    return p;
}
// decides whether this request fails; computes its class
static bool alloc_fails(size_t n, void **fr, int *nfr, uint64_t *cls) {
    World *w = W;
    w->out->nalloc++;
    *nfr = capture(fr, NFRAMES);
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < *nfr && i < 8; i++) h = hash_bytes(&fr[i], 8, h);
    *cls = h;
    if (g_classes) {
        auto &c = (*g_classes)[h];
        if (c.count == 0) { c.hash = h; c.first = w->out->nalloc; }
        c.count++;
    }
    ev("alloc", n, w->out->nalloc);
    if (w->arm > 0 && --w->arm == 0) { w->arm_fired++; if (w->arm_all) w->arm = 1; w->out->alloc_failed++; fired("alloc", w->arm_all ? "op-rest" : "op-one"); return true; }
    if (w->sticky_left) {
        if (w->sticky_left != ~0ull) w->sticky_left--;
        w->out->alloc_failed++;
        return true;
    }
    uint64_t occ = 0;
    if (w->clsfaults) occ = ++w->clsocc[h];
    for (const Fault *f : w->allocf) {
        bool hit = f->kind == F_ALLOC ? (uint64_t) f->a == w->out->nalloc : (f->u == h && (uint64_t) f->a == occ);
        if (hit) {
            w->sticky_left = f->b < 0 ? ~0ull : (f->b > 1 ? f->b - 1 : 0);
            w->out->alloc_failed++;
            fired("alloc", f->b < 0 ? "all" : f->b > 1 ? "burst" : "one");
            return true;
        }
    }
    return false;
}
static void *sim_alloc(size_t n, int tag, bool zero) {
    if (!g_in_run || !W) { return zero ? calloc(1, n) : malloc(n); }
    void *fr[NFRAMES];
    int nfr;
    uint64_t cls;
    if (alloc_fails(n, fr, &nfr, &cls)) { errno = ENOMEM; return nullptr; }
    void *p = do_alloc(n, 0, tag, fr, nfr, cls);
    if (p && zero) memset(p, 0, n);
    if (!p) { errno = ENOMEM; }
    return p;
}
static Hdr *hdr_of(void *p) {
    uint64_t a = (uint64_t) p;
    if (a < ARENA + sizeof(Hdr) || a >= ARENA + ZONE * NZONES || (a & 15)) return nullptr;
    Hdr *h = (Hdr *) (a - sizeof(Hdr));
    int z = (a - ARENA) / ZONE;
    if ((uint64_t) h < zlo[z] || a > zhi[z]) return nullptr;
    if (h->magic != LIVE && h->magic != DEAD) return nullptr;
    return h;
}
static std::string frames_str(void **fr) {
    std::string s;
    char b[32];
    for (int i = 0; i < NFRAMES && fr[i]; i++) {
        snprintf(b, sizeof b, "%s0x%lx", i ? "," : "", (unsigned long) fr[i]);
        s += b;
    }
    return s;
}
static void foreign(const char *what, void *p) {
    W->out->foreign++;
    if (W->out->foreign_desc.empty()) {
        void *fr[NFRAMES] = {0};
        capture(fr, NFRAMES);
        W->out->foreign_desc = std::string(what) + " at " + frames_str(fr);
    }
    ev("foreign");
    (void) p;
}
static void sim_free(void *p, int tag) {
    if (!p) return;
    if (!g_in_run || !W) { free(p); return; }
    uint64_t a = (uint64_t) p;
    Hdr *h = hdr_of(p);
    if (!h) {
        if (a >= ARENA && a < ARENA + ZONE * NZONES) { foreign("release of an address that is not an allocation", p); return; }
        if (tag == TAG_LIBC) { free(p); return; }
        foreign("pointer not obtained from the allocator handed to it", p);
        return;
    }
    if (h->magic == DEAD) fatal("double-free", frames_str(h->frames).c_str());
    if ((int) h->tag != tag) foreign(tag == TAG_MEM ? "C library pointer handed to the caller-supplied allocator" : "caller-supplied allocator's pointer handed to free()", p);
    ev("free", h->idx, h->size);
    W->out->nfree++;
    h->magic = DEAD;
    __asan_poison_memory_region(p, h->cap);
    fill(p, h->cap, 1);
}
static void *sim_realloc(void *p, size_t n, int tag) {
    if (!g_in_run || !W) return realloc(p, n);
    if (p == nullptr) {
        // counted in the caller's frame depth, like malloc
    }
    void *fr[NFRAMES];
    int nfr;
    uint64_t cls;
    if (alloc_fails(n, fr, &nfr, &cls)) { errno = ENOMEM; return nullptr; }
    bool grow_room = S->heapseed && (S->heapseed & 1);
    if (!p) return do_alloc(n, grow_room ? n * 2 + 64 : 0, tag, fr, nfr, cls);
    Hdr *h = hdr_of(p);
    if (!h) { foreign("realloc of a foreign pointer", p); return nullptr; }
    if (h->magic == DEAD) fatal("realloc-after-free", "");
    if ((int) h->tag != tag) foreign("realloc across allocators", p);
    if (n == 0) { sim_free(p, tag); return nullptr; }
    if (grow_room && n <= h->cap) {
        if (n > h->size) { __asan_unpoison_memory_region(p, n); }
        else { __asan_poison_memory_region(p, h->cap); __asan_unpoison_memory_region(p, n); }
        h->size = n;
        return p;
    }
    void *q = do_alloc(n, grow_room ? n * 2 + 64 : 0, tag, fr, nfr, cls);
    if (!q) return nullptr;
    memcpy(q, p, n < h->size ? n : h->size);
    h->magic = DEAD;
    __asan_poison_memory_region(p, h->cap);
    fill(p, h->cap, 1);
    return q;
}
extern "C" {
void *ksim_malloc(size_t n) { return sim_alloc(n, TAG_MEM, false); }
void *ksim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_alloc(n, TAG_MEM, true); }
void *ksim_realloc(void *p, size_t n) { return sim_realloc(p, n, TAG_MEM); }
void ksim_free(void *p) { sim_free(p, TAG_MEM); }
void *ksim_libc_malloc(size_t n) { return sim_alloc(n, TAG_LIBC, false); }
void *ksim_libc_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_alloc(n, TAG_LIBC, true); }
void *ksim_libc_realloc(void *p, size_t n) { return sim_realloc(p, n, TAG_LIBC); }
void *ksim_libc_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_realloc(p, n, TAG_LIBC); }
void ksim_libc_free(void *p) { sim_free(p, TAG_LIBC); }
char *ksim_libc_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_alloc(n, TAG_LIBC, false); if (p) memcpy(p, s, n); return p; }
char *ksim_libc_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) sim_alloc(n + 1, TAG_LIBC, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int ksim_libc_vasprintf(char **out, const char *fmt, va_list ap) {
    va_list c;
    va_copy(c, ap);
    int n = vsnprintf(nullptr, 0, fmt, c);
    va_end(c);
    if (n < 0) return n;
    char *p = (char *) sim_alloc(n + 1, TAG_LIBC, false);
    if (!p) return -1;
    vsnprintf(p, n + 1, fmt, ap);
    *out = p;
    return n;
}
int ksim_libc_asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = ksim_libc_vasprintf(out, fmt, ap); va_end(ap); return r; }
int ksim_callback(int kind) {
    if (!g_in_run || !W) return 0;
    uint64_t n = ++W->out->cbs[kind];
    ev("callback", kind, n);
    for (const Fault *f : W->cbf)
        if (f->a == kind && (uint64_t) f->b == n) {
            fired("callback", std::to_string(kind));
            return (int) f->c;
        }
    return 0;
}
void ksim_note(const char *s) { ev("note", 0, 0, s); }
}

// ------------------------------------------------------------------ file system and devices
static int io_fault(const char *op, const char *path = "") {
    World *w = W;
    uint64_t n = ++w->out->ioc[op];
    w->out->oplog.push_back(std::string(op) + " " + path);
    ev(op, n, 0, path);
    for (const Fault *f : w->iof)
        if (f->s == op && (uint64_t) f->a == n) {
            fired("io", std::string(op) + "=" + std::to_string(f->b));
            w->out->io_failed = true;
            w->out->oplog.back() += " !" + std::to_string(f->b);
            return (int) f->b;
        }
    return 0;
}
static std::string norm(const char *path) {
    std::string s = path, r;
    if (s.empty() || s[0] != '/') s = "/src/" + s;
    std::vector<std::string> st;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string c = s.substr(i, j - i);
        if (c == "..") { if (!st.empty()) st.pop_back(); }
        else if (!c.empty() && c != ".") st.push_back(c);
        i = j + 1;
    }
    for (auto &c : st) r += "/" + c;
    return r.empty() ? "/" : r;
}
static VFile *lookup(const char *path) {
    auto it = W->files.find(norm(path));
    return it == W->files.end() || !it->second.exists ? nullptr : &it->second;
}
static bool is_dir(const char *path) {
    std::string p = norm(path) + "/";
    if (p == "//") return true;
    for (auto &f : W->files)
        if (f.second.exists && f.first.compare(0, p.size(), p) == 0) return true;
    return p == "/src/" || p == "/out/";
}
static bool parent_ok(const char *path) {
    std::string p = norm(path);
    size_t k = p.rfind('/');
    return k == 0 || is_dir(p.substr(0, k).c_str());
}
// ENOTDIR when a prefix of the path is a regular file, as on a real system
static int path_errno(const char *path) {
    std::string p = norm(path);
    for (size_t k = p.find('/', 1); k != std::string::npos; k = p.find('/', k + 1)) {
        auto it = W->files.find(p.substr(0, k));
        if (it != W->files.end() && it->second.exists) return ENOTDIR;
    }
    return ENOENT;
}
static int new_fd(VFile *f, int flags) {
    Fd e;
    e.f = f;
    e.open = true;
    e.flags = flags;
    for (size_t i = 3; i < W->fds.size(); i++)
        if (!W->fds[i].open) { W->fds[i] = e; return (int) i; }
    W->fds.push_back(e);
    return (int) W->fds.size() - 1;
}
static Fd *get_fd(int fd) { return fd >= 0 && (size_t) fd < W->fds.size() && W->fds[fd].open ? &W->fds[fd] : nullptr; }
static VFile *out_dev() {
    if (W->job->out_path.empty()) return &W->dout;
    auto it = W->files.find(norm(W->job->out_path.c_str()));
    return it == W->files.end() ? nullptr : &it->second;
}
// device write: returns bytes accepted, or -1
static ssize_t dev_write(VFile *f, const char *buf, size_t n, size_t *off, bool append) {
    const char *dn = f == &W->derr ? "write-err" : f == out_dev() ? "write-out" : "write";
    int e = io_fault(dn);
    const Fault *cap = f == out_dev() ? W->cap : f == &W->derr ? W->capE : nullptr;
    if (!e && cap) {
        size_t lim = (size_t) cap->a, pos = append ? f->data.size() : *off;
        if (pos >= lim) { e = (int) cap->b; fired("device-full", std::to_string(e)); }
        else if (pos + n > lim) { n = lim - pos; fired("short-write"); }
    }
    if (e) {
        if (f == out_dev()) { W->out->out_failed = true; W->out->out_lost += n; }
        W->out->io_failed = true;
        errno = e;
        return -1;
    }
    if (append) *off = f->data.size();
    if (f->data.size() < *off + n) f->data.resize(*off + n);
    memcpy(&f->data[*off], buf, n);
    *off += n;
    return (ssize_t) n;
}
static ssize_t dev_read(VFile *f, void *buf, size_t n, size_t *off, const char *op) {
    int e = io_fault(op);
    if (e) { errno = e; return -1; }
    size_t left = *off < f->data.size() ? f->data.size() - *off : 0;
    if (n > left) n = left;
    if (W->chunk && n > 0) {
        size_t k = (size_t) W->out->ioc[op] - 1;
        size_t m = (size_t) W->chunk->list[k % W->chunk->list.size()];
        if (m < 1) m = 1;
        if (m < n) { n = m; if (k == 0) fired("short-read"); }
    }
    memcpy(buf, f->data.data() + *off, n);
    *off += n;
    return (ssize_t) n;
}
static ssize_t ck_read(void *c, char *buf, size_t n) {
    Stream *s = (Stream *) c;
    if (!s->f) return 0;
    return dev_read(s->f, buf, n, &s->off, s->f == &W->din ? "read-in" : "read");
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    Stream *s = (Stream *) c;
    if (s->mp) { s->mem.append(buf, n); return (ssize_t) n; }
    size_t done = 0;
    while (done < n) { // as glibc does on a descriptor: continue after a short write, give up on an error
        ssize_t k = dev_write(s->f, buf + done, n - done, &s->off, s->append);
        if (k < 0) return done ? (ssize_t) done : 0;
        done += k;
    }
    return (ssize_t) n;
}
static int ck_seek(void *c, off64_t *o, int wh) {
    Stream *s = (Stream *) c;
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t) s->off : (int64_t) (s->mp ? s->mem.size() : s->f->data.size());
    if (s->mp || s->f == &W->din || s->f == &W->dout || s->f == &W->derr) { errno = ESPIPE; return -1; }
    if (base + *o < 0) { errno = EINVAL; return -1; }
    s->off = base + *o;
    *o = s->off;
    return 0;
}
static int ck_close(void *c) {
    Stream *s = (Stream *) c;
    s->open = false;
    if (s->mp || W->finishing) return 0;
    bool isout = s->f == out_dev() && s->write;
    int e = io_fault(isout ? "close-out" : "close-file");
    if (!e && isout && W->closef) { e = (int) W->closef->b; fired("close", std::to_string(e)); }
    if (e) {
        if (isout) W->out->out_failed = true;
        W->out->io_failed = true;
        errno = e;
        return -1;
    }
    return 0;
}
static FILE *mkstream(VFile *f, const char *mode, size_t off = 0) {
    Stream *s = new Stream();
    s->f = f;
    s->off = off;
    s->open = true;
    s->write = mode[0] != 'r' || strchr(mode, '+');
    s->append = mode[0] == 'a';
    s->mp = nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    s->fp = fopencookie(s, mode, io);
    W->streams.push_back(s);
    return s->fp;
}
static Stream *find_stream(FILE *fp) {
    Stream *r = nullptr;
    for (Stream *s : W->streams)
        if (s->fp == fp) r = s; // last one wins: addresses can be reused
    return r;
}
static void mem_publish(Stream *s) {
    if (!s->mp) return;
    if (s->membuf) { Hdr *h = hdr_of(s->membuf); if (h && h->magic == LIVE) { h->magic = DEAD; __asan_poison_memory_region(s->membuf, h->cap); } }
    void *fr[NFRAMES] = {0};
    int n = capture(fr, NFRAMES);
    char *p = (char *) do_alloc(s->mem.size() + 1, 0, TAG_LIBC, fr, n, 0);
    memcpy(p, s->mem.data(), s->mem.size());
    p[s->mem.size()] = 0;
    s->membuf = p;
    *s->mp = p;
    *s->mn = s->mem.size();
}
extern "C" {
int ksim_libc_open(const char *path, int flags, ...) {
    int e = io_fault("open", path);
    if (e) { errno = e; return -1; }
    VFile *f = lookup(path);
    if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!f) {
        if (is_dir(path)) {
            if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
            errno = EISDIR; // reading a directory fails; reported at open for simplicity
            return -1;
        }
        if (!(flags & O_CREAT) || !parent_ok(path)) { errno = path_errno(path); return -1; }
        f = &W->files[norm(path)];
        f->exists = true;
    }
    if (flags & O_TRUNC) f->data.clear();
    return new_fd(f, flags);
}
int ksim_libc_open64(const char *path, int flags, ...) { return ksim_libc_open(path, flags, 0); }
int ksim_libc_openat(int, const char *path, int flags, ...) { return ksim_libc_open(path, flags, 0); }
int ksim_libc_creat(const char *path, mode_t) { return ksim_libc_open(path, O_CREAT | O_TRUNC | O_WRONLY); }
int ksim_libc_close(int fd) {
    Fd *f = get_fd(fd);
    if (!f) { errno = EBADF; ev("close-bad", fd); return -1; }
    bool isout = f->f == out_dev() && (f->flags & O_ACCMODE) != O_RDONLY;
    int e = io_fault(isout ? "close-out" : fd == 0 ? "close-in" : "close");
    f->open = false;
    if (!e && isout && W->closef) { e = (int) W->closef->b; fired("close", std::to_string(e)); }
    if (e) { if (isout) W->out->out_failed = true; errno = e; return -1; }
    return 0;
}
ssize_t ksim_libc_read(int fd, void *buf, size_t n) {
    Fd *f = get_fd(fd);
    if (!f || (f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (f->f->device && (f->flags & O_NONBLOCK) && W->chunk && f->off < f->f->data.size()) { // a pipe somebody else is still about to write
        if (f->off == 0 && (W->chunk->list[0] & 1)) { fired("no-writer-yet"); return 0; }
        if (!(f->chunk++ & 1)) { fired("would-block"); errno = EAGAIN; return -1; }
    }
    return dev_read(f->f, buf, n, &f->off, f->f == &W->din ? "read-in" : "read");
}
ssize_t ksim_libc_pread(int fd, void *buf, size_t n, off_t o) {
    Fd *f = get_fd(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->f == &W->din || f->f->device) { errno = ESPIPE; return -1; }
    size_t off = o;
    return dev_read(f->f, buf, n, &off, "read");
}
ssize_t ksim_libc_pread64(int fd, void *buf, size_t n, off_t o) { return ksim_libc_pread(fd, buf, n, o); }
ssize_t ksim_libc_write(int fd, const void *buf, size_t n) {
    Fd *f = get_fd(fd);
    if (!f || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    return dev_write(f->f, (const char *) buf, n, &f->off, (f->flags & O_APPEND) != 0);
}
off_t ksim_libc_lseek(int fd, off_t o, int wh) {
    Fd *f = get_fd(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->f == &W->din || f->f == &W->dout || f->f == &W->derr || f->f->device) { errno = ESPIPE; return -1; }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t) f->off : (int64_t) f->f->data.size();
    if (base + o < 0) { errno = EINVAL; return -1; }
    return (off_t) (f->off = base + o);
}
int ksim_libc_fsync(int) { int e = io_fault("fsync"); if (e) { errno = e; W->out->out_failed = true; return -1; } return 0; }
static int fill_stat(VFile *f, bool dir, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_nlink = 1;
    st->st_blksize = 4096;
    if (dir) { st->st_mode = S_IFDIR | 0755; return 0; }
    bool dev = f == &W->din || f == &W->dout || f == &W->derr || f->device;
    st->st_mode = dev ? (S_IFIFO | 0600) : (S_IFREG | 0644);
    st->st_size = dev ? 0 : (off_t) f->data.size();
    st->st_mtime = g_clock;
    return 0;
}
int ksim_libc_fstat(int fd, struct stat *st) {
    int e = io_fault("fstat");
    if (e) { errno = e; return -1; }
    Fd *f = get_fd(fd);
    if (!f) { errno = EBADF; return -1; }
    return fill_stat(f->f, false, st);
}
int ksim_libc_stat(const char *p, struct stat *st) {
    int e = io_fault("stat", p);
    if (e) { errno = e; return -1; }
    VFile *f = lookup(p);
    if (!f && !is_dir(p)) { errno = path_errno(p); return -1; }
    return fill_stat(f, !f, st);
}
int ksim_libc_lstat(const char *p, struct stat *st) { return ksim_libc_stat(p, st); }
int ksim_libc_fstat64(int fd, struct stat *st) { return ksim_libc_fstat(fd, st); }
int ksim_libc_stat64(const char *p, struct stat *st) { return ksim_libc_stat(p, st); }
int ksim_libc_lstat64(const char *p, struct stat *st) { return ksim_libc_stat(p, st); }
int ksim_libc_fstatat(int fd, const char *p, struct stat *st, int) { if (p[0] == 0) return ksim_libc_fstat(fd, st); return ksim_libc_stat(p, st); }
int ksim_libc_access(const char *p, int) {
    int e = io_fault("access", p);
    if (e) { errno = e; return -1; }
    if (lookup(p) || is_dir(p)) return 0;
    errno = path_errno(p);
    return -1;
}
int ksim_libc_faccessat(int, const char *p, int m, int) { return ksim_libc_access(p, m); }
int ksim_libc_eaccess(const char *p, int m) { return ksim_libc_access(p, m); }
int ksim_libc_euidaccess(const char *p, int m) { return ksim_libc_access(p, m); }
char *ksim_libc_realpath(const char *p, char *buf) {
    int e = io_fault("realpath", p);
    if (e) { errno = e; return nullptr; }
    if (p[0] == 0) { errno = ENOENT; return nullptr; }
    if (!lookup(p) && !is_dir(p)) { errno = path_errno(p); return nullptr; }
    std::string r = norm(p);
    if (!buf) {
        void *fr[NFRAMES];
        int nfr;
        uint64_t cls;
        if (alloc_fails(r.size() + 1, fr, &nfr, &cls)) { errno = ENOMEM; return nullptr; }
        buf = (char *) do_alloc(r.size() + 1, 0, TAG_LIBC, fr, nfr, cls);
    }
    memcpy(buf, r.c_str(), r.size() + 1);
    return buf;
}
char *ksim_libc_canonicalize_file_name(const char *p) { return ksim_libc_realpath(p, nullptr); }
void *ksim_libc_mmap(void *, size_t len, int, int, int fd, off_t off) {
    int e = io_fault("mmap");
    if (e) { errno = e; return MAP_FAILED; }
    if (len == 0) { errno = EINVAL; return MAP_FAILED; }
    VFile *f = nullptr;
    if (fd >= 0) {
        Fd *x = get_fd(fd);
        if (!x) { errno = EBADF; return MAP_FAILED; }
        if (x->f == &W->din || x->f->device) { errno = ENODEV; return MAP_FAILED; }
        f = x->f;
    }
    // exact bounds: only the bytes of the file may be touched
    size_t avail = f ? (f->data.size() > (size_t) off ? f->data.size() - off : 0) : len;
    size_t n = len < avail ? len : avail;
    char *p = (char *) do_alloc(n, 0, TAG_TEXT, nullptr, 0, 0);
    if (!p) { errno = ENOMEM; return MAP_FAILED; }
    if (f) memcpy(p, f->data.data() + off, n); else memset(p, 0, n);
    W->maps.push_back({p, len, true});
    return p;
}
void *ksim_libc_mmap64(void *a, size_t len, int p, int fl, int fd, off_t off) { return ksim_libc_mmap(a, len, p, fl, fd, off); }
int ksim_libc_munmap(void *p, size_t len) {
    int e = io_fault("munmap");
    if (e) { errno = e; return -1; }
    for (auto &m : W->maps)
        if (m.p == p && m.open) {
            if (m.len != len) { errno = EINVAL; ev("munmap-length", len); }
            m.open = false;
            Hdr *h = hdr_of(p);
            h->magic = DEAD;
            __asan_poison_memory_region(p, h->cap);
            return 0;
        }
    foreign("munmap of something not mapped", p);
    errno = EINVAL;
    return -1;
}
int ksim_libc_madvise(void *, size_t, int) { return 0; }
int ksim_libc_posix_fadvise(int, off_t, off_t, int) { return 0; }
int ksim_libc_posix_madvise(void *, size_t, int) { return 0; }
int ksim_libc_unlink(const char *p) { int e = io_fault("unlink", p); if (e) { errno = e; return -1; } VFile *f = lookup(p); if (!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
int ksim_libc_remove(const char *p) { return ksim_libc_unlink(p); }
int ksim_libc_rename(const char *a, const char *b) {
    int e = io_fault("rename", a);
    if (e) { errno = e; W->out->out_failed = true; return -1; }
    VFile *f = lookup(a);
    if (!f) { errno = ENOENT; return -1; }
    VFile &t = W->files[norm(b)];
    t.data = f->data;
    t.exists = true;
    f->exists = false;
    return 0;
}
FILE *ksim_libc_fopen(const char *path, const char *mode) {
    bool wr = mode[0] != 'r';
    int e = io_fault(wr ? "fopen-out" : "fopen", path);
    if (e) { if (wr) W->out->out_failed = true; errno = e; return nullptr; }
    VFile *f = lookup(path);
    if (!f) {
        if (is_dir(path)) { errno = EISDIR; if (wr) W->out->out_failed = true; return nullptr; }
        if (!wr || !parent_ok(path)) { errno = path_errno(path); if (wr) W->out->out_failed = true; return nullptr; }
        f = &W->files[norm(path)];
        f->exists = true;
    }
    if (mode[0] == 'w') f->data.clear();
    FILE *fp = mkstream(f, mode, mode[0] == 'a' ? f->data.size() : 0);
    if (wr && W->buf) setvbuf(fp, nullptr, W->buf->a ? _IOFBF : _IONBF, W->buf->a);
    return fp;
}
FILE *ksim_libc_fopen64(const char *p, const char *m) { return ksim_libc_fopen(p, m); }
FILE *ksim_libc_fdopen(int fd, const char *mode) {
    Fd *f = get_fd(fd);
    if (!f) { errno = EBADF; return nullptr; }
    int e = io_fault("fdopen");
    if (e) { errno = e; return nullptr; }
    f->open = false; // owned by the stream now
    return mkstream(f->f, mode, f->off);
}
FILE *ksim_libc_freopen(const char *path, const char *mode, FILE *old) {
    Stream *s = find_stream(old);
    if (!path) return old;
    fflush(old);
    bool wr = mode[0] != 'r';
    int e = io_fault(wr ? "fopen-out" : "fopen", path);
    VFile *f = lookup(path);
    if (!e && !f) { if (wr && parent_ok(path) && !is_dir(path)) { f = &W->files[norm(path)]; f->exists = true; } else e = path_errno(path); }
    if (e) { if (wr) W->out->out_failed = true; errno = e; return nullptr; }
    if (mode[0] == 'w') f->data.clear();
    if (s) { s->f = f; s->off = 0; s->write = wr; }
    return old;
}
int ksim_libc_fclose(FILE *fp) {
    Stream *s = find_stream(fp);
    if (s && !s->open) fatal("double-fclose", "");
    if (s && s->mp) {
        fflush(fp);
        mem_publish(s);
    }
    return fclose(fp);
}
int ksim_libc_fflush(FILE *fp) {
    if (!fp) {
        int r = 0;
        for (size_t i = 0; i < W->streams.size(); i++)
            if (W->streams[i]->open && fflush(W->streams[i]->fp) != 0) r = EOF;
        return r;
    }
    int r = fflush(fp);
    Stream *s = find_stream(fp);
    if (s && s->mp) mem_publish(s);
    return r;
}
FILE *ksim_libc_open_memstream(char **p, size_t *n) {
    void *fr[NFRAMES];
    int nfr;
    uint64_t cls;
    if (alloc_fails(1, fr, &nfr, &cls)) { errno = ENOMEM; return nullptr; }
    Stream *s = new Stream();
    s->open = true;
    s->write = true;
    s->mp = p;
    s->mn = n;
    s->membuf = nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close};
    s->fp = fopencookie(s, "w", io);
    W->streams.push_back(s);
    return s->fp;
}
int ksim_libc_fileno(FILE *fp) { return fp == W->fstdin ? 0 : fp == W->fstdout ? 1 : fp == W->fstderr ? 2 : -1; }
int ksim_libc_isatty(int) { errno = ENOTTY; return 0; }
int ksim_libc_vprintf(const char *f, va_list ap) { return vfprintf(W->fstdout, f, ap); }
int ksim_libc_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(W->fstdout, f, ap); va_end(ap); return r; }
int ksim_libc_puts(const char *s) { return fputs(s, W->fstdout) < 0 || fputc('\n', W->fstdout) < 0 ? EOF : 1; }
int ksim_libc_putchar(int c) { return fputc(c, W->fstdout); }
int ksim_libc_getchar(void) { return fgetc(W->fstdin); }
void ksim_libc_perror(const char *s) { fprintf(W->fstderr, "%s: %s\n", s, strerror(errno)); }

// library calls that fill memory are scheduling points of their own: another thread may run right after them
static inline void after_fill() { if (++g_bb >= g_bb_limit && !g_scribble) slow_bb(); }
int ksim_libc_vsnprintf(char *b, size_t n, const char *f, va_list ap) { int r = vsnprintf(b, n, f, ap); after_fill(); return r; }
int ksim_libc_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); after_fill(); return r; }
int ksim_libc_vsprintf(char *b, const char *f, va_list ap) { int r = vsprintf(b, f, ap); after_fill(); return r; }
int ksim_libc_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); after_fill(); return r; }
size_t ksim_libc_strftime(char *b, size_t n, const char *f, const struct tm *t) { size_t r = strftime(b, n, f, t); after_fill(); return r; }
char *ksim_libc_strcpy(char *d, const char *s) { char *r = strcpy(d, s); after_fill(); return r; }
char *ksim_libc_strcat(char *d, const char *s) { char *r = strcat(d, s); after_fill(); return r; }
char *ksim_libc_strncpy(char *d, const char *s, size_t n) { char *r = strncpy(d, s, n); after_fill(); return r; }
void *__asan_memcpy(void *, const void *, size_t);
void *__asan_memmove(void *, const void *, size_t);
void *ksim_libc___asan_memcpy(void *d, const void *s, size_t n) { void *r = __asan_memcpy(d, s, n); after_fill(); return r; }
void *ksim_libc___asan_memmove(void *d, const void *s, size_t n) { void *r = __asan_memmove(d, s, n); after_fill(); return r; }

// clock
static int64_t clock_read() {
    World *w = W;
    w->clockn++;
    g_clock += S->rate * (int64_t) ((g_bb - g_clock_bb) >> 10);
    g_clock_bb = g_bb;
    for (const Fault *f : w->clockf)
        if ((uint64_t) f->a == w->clockn) { g_clock = f->b; fired("clock-jump"); }
    w->out->clock_reads.push_back(g_clock);
    return g_clock;
}
time_t ksim_libc_time(time_t *t) {
    int e = io_fault("time");
    if (e) { errno = e; return (time_t) -1; }
    time_t v = (time_t) clock_read();
    if (t) *t = v;
    return v;
}
int ksim_libc_clock_gettime(clockid_t, struct timespec *ts) { int e = io_fault("time"); if (e) { errno = e; return -1; } ts->tv_sec = clock_read(); ts->tv_nsec = 0; return 0; }
int ksim_libc_gettimeofday(struct timeval *tv, void *) { int e = io_fault("time"); if (e) { errno = e; return -1; } tv->tv_sec = clock_read(); tv->tv_usec = 0; return 0; }
int ksim_libc_timespec_get(struct timespec *ts, int b) { return ksim_libc_clock_gettime(0, ts) == 0 ? b : 0; }
// one static broken-down time for the whole process, as in libc
static struct tm g_tm;
struct tm *ksim_libc_localtime(const time_t *t) {
    int e = io_fault("localtime");
    if (e) { errno = e; return nullptr; }
    return localtime_r(t, &g_tm);
}
struct tm *ksim_libc_gmtime(const time_t *t) {
    int e = io_fault("localtime");
    if (e) { errno = e; return nullptr; }
    return gmtime_r(t, &g_tm);
}
struct tm *ksim_libc_localtime_r(const time_t *t, struct tm *r) { int e = io_fault("localtime"); if (e) { errno = e; return nullptr; } return localtime_r(t, r); }
struct tm *ksim_libc_gmtime_r(const time_t *t, struct tm *r) { int e = io_fault("localtime"); if (e) { errno = e; return nullptr; } return gmtime_r(t, r); }
// what surrounds a process and is no declared input: environment, process number, working directory, random numbers
char *ksim_libc_getenv(const char *n) {
    static char val[40];
    if (!g_ambient || strncmp(n, "KEFIR_", 6) == 0) return nullptr; // KEFIR_* is the compiler's own, documented switch
    uint64_t h = g_ambient;
    for (const char *c = n; *c; c++) h = mix(h, (unsigned char) *c);
    if (h & 1) return nullptr;
    snprintf(val, sizeof val, "%llu", (unsigned long long) (h >> 33));
    return val;
}
char *ksim_libc_secure_getenv(const char *n) { return ksim_libc_getenv(n); }
static uint64_t ambient(uint64_t k) { return g_ambient ? mix(g_ambient, k) : 1000 + k; }
static uint64_t ambient_next() { return ambient(1000 + ++g_ambient_n); }
int ksim_libc_getpid() { return (int) (ambient(1) % 30000) + 2; }
int ksim_libc_getppid() { return (int) (ambient(2) % 30000) + 2; }
int ksim_libc_gettid() { return (int) (ambient(3) % 30000) + 2; }
unsigned ksim_libc_getuid() { return (unsigned) (ambient(4) % 60000); }
int ksim_libc_rand() { return (int) (ambient_next() >> 34); }
long ksim_libc_random() { return (long) (ambient_next() >> 34); }
void ksim_libc_srand(unsigned) {}
void ksim_libc_srandom(unsigned) {}
uint32_t ksim_libc_arc4random() { return (uint32_t) ambient_next(); }
ssize_t ksim_libc_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = (uint8_t) (ambient_next() >> 20); return (ssize_t) n; }
clock_t ksim_libc_clock() { return (clock_t) (ambient_next() >> 40); }
char *ksim_libc_getcwd(char *b, size_t n) { if (!b) { errno = EINVAL; return nullptr; } snprintf(b, n, "/cwd%u", (unsigned) (ambient(5) % 1000)); return b; }
int ksim_libc_gethostname(char *b, size_t n) { snprintf(b, n, "host%u", (unsigned) (ambient(6) % 1000)); return 0; }
// process exit
void ksim_libc_exit(int code) {
    if (W && W->exitable) { W->exit_code = code; __asan_handle_no_return(); longjmp(W->exitj, 1); }
    fatal("exit", "-");
}
void ksim_libc__exit(int code) { ksim_libc_exit(code); }
void ksim_libc_quick_exit(int code) { ksim_libc_exit(code); }
void ksim_libc_abort(void) { fatal("abort", ""); __builtin_unreachable(); }
void ksim_libc___assert_fail(const char *e, const char *, unsigned, const char *) { fatal("assert", e); }
int ksim_libc_atexit(void (*f)(void)) { W->atexits.push_back(f); return 0; }
}

// ------------------------------------------------------------------ running jobs
__attribute__((noinline)) static void smear(uint64_t seed) {
    volatile unsigned char b[48 << 10];
    Rng r(seed);
    uint64_t v = r.next();
    int k = r.below(3);
    for (size_t i = 0; i < sizeof b; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : (unsigned char) (v >> (8 * (i & 7)));
    asm volatile("" ::"r"(&b[0]) : "memory");
}
extern "C" void ksim_arm(int k, int all) { W->arm = k; W->arm_all = all; W->arm_fired = 0; }
extern "C" int ksim_disarm(void) { W->arm = 0; return W->arm_fired; }
FILE *engine_stdout() { return W->fstdout; }
void errsim_run(const std::vector<Op> &, std::string &err);
void contsim_run(int container, const std::vector<Op> &, std::string &err);

static void setup_world(World *w) {
    set_world(w);
    const Job &j = *w->job;
    for (auto &f : j.files) { w->files[f.first].data = f.second; w->files[f.first].device = f.first.compare(0, 6, "/fifo/") == 0; }
    if (j.use_stdin) w->din.data = j.stdin_text;
    for (auto &f : S->faults) {
        if (f.job != w->id) continue;
        switch (f.kind) {
            case F_ALLOC: w->allocf.push_back(&f); break;
            case F_ALLOCCLASS: w->allocf.push_back(&f); w->clsfaults = true; break;
            case F_IO: w->iof.push_back(&f); break;
            case F_CB: w->cbf.push_back(&f); break;
            case F_CAP: (f.s == "err" ? w->capE : w->cap) = &f; break;
            case F_CLOSE: w->closef = &f; break;
            case F_CHUNK: w->chunk = &f; break;
            case F_CLOCK: w->clockf.push_back(&f); break;
            case F_BUF: w->buf = &f; break;
            case F_DAMAGE: {
                std::string *t = nullptr;
                if (f.s == "<stdin>") t = &w->din.data;
                else { auto it = w->files.find(f.s); if (it != w->files.end()) t = &it->second.data; }
                if (!t || t->empty()) break;
                size_t pos = (size_t) f.b % t->size(), len = (size_t) f.c;
                if (pos + len > t->size()) len = t->size() - pos;
                switch (f.a) {
                    case 0: t->resize(pos); break;                                                 // truncate
                    case 1: (*t)[pos] = (char) ((*t)[pos] ^ (1 << (f.d & 7))); break;              // bit flip
                    case 2: (*t)[pos] = (char) f.d; break;                                         // byte overwrite
                    case 3: t->erase(pos, len); break;                                             // lost block
                    case 4: t->insert(pos, t->substr(pos, len)); break;                            // duplicated block
                    case 5: { size_t q = (size_t) f.d % t->size(); if (q + len > t->size()) break; std::string a = t->substr(pos, len), b = t->substr(q, len); t->replace(pos, len, b); t->replace(q, len, a); break; } // swapped blocks
                    case 6: for (size_t i = 0; i < len; i++) (*t)[pos + i] = (char) f.d; break;    // zeroed / garbage block
                    case 7: t->insert(pos, 1, (char) f.d); break;                                  // inserted byte
                    case 8: {                                                                      // the letter, digit or underscore at or after pos is written f.c times
                        auto word = [](char c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
                        while (pos < t->size() && !word((*t)[pos])) pos++;
                        if (pos == t->size()) break;
                        size_t n = (size_t) f.c, e = pos, b = pos;                                 // counted so that the whole word ends up f.c bytes long; numbers stay (sizes of objects)
                        while (e < t->size() && word((*t)[e])) e++;
                        while (b > 0 && word((*t)[b - 1])) b--;
                        if ((*t)[b] < '0' || (*t)[b] > '9') if (n > e - b) t->insert(pos, n - (e - b), (*t)[pos]);
                        break;
                    }
                }
                w->out->faults_fired++;
                static const char *dn[] = {"truncate", "bitflip", "overwrite", "lost-block", "duplicated-block", "swapped-blocks", "garbage-block", "inserted-byte", "stuck-byte"};
                w->out->fired.push_back(std::string("damage:") + dn[f.a % 9]);
                break;
            }
        }
    }
    w->fds.resize(3);
    w->fds[0].f = &w->din; w->fds[0].open = true; w->fds[0].flags = O_RDONLY;
    w->fds[1].f = &w->dout; w->fds[1].open = true; w->fds[1].flags = O_WRONLY;
    w->fds[2].f = &w->derr; w->fds[2].open = true; w->fds[2].flags = O_WRONLY;
    w->fstdin = mkstream(&w->din, "r");
    w->fstdout = mkstream(&w->dout, "w");
    if (w->buf) setvbuf(w->fstdout, nullptr, w->buf->a ? _IOFBF : _IONBF, w->buf->a);
    w->fstderr = mkstream(&w->derr, "w");
    setvbuf(w->fstderr, nullptr, _IONBF, 0);
    set_world(w);
}
static void chain_text(const job_result &r, JobOut &o) {
    o.chain = std::string(r.tabular ? r.tabular : "", r.tabular_len) + "\n" + std::string(r.json ? r.json : "", r.json_len);
    for (int i = 0; i < r.n_err; i++) {
        o.codes.push_back(r.err[i].code);
        o.chain_key += std::string(code_name(r.err[i].code)) + "|" + r.err[i].message + "|" + r.err[i].loc + "\n";
    }
}
static void run_job(World *w) {
    const Job &j = *w->job;
    JobOut &o = *w->out;
    uint64_t bb0 = g_bb;
    o.t0 = g_clock;
    ev("job-start", j.kind);
    if (S->heapseed) smear(mix(S->heapseed, w->id));
    if (j.kind == JOB_LIB) {
        const std::string &t = w->files[j.main_path].data;
        char *text = (char *) do_alloc(t.size(), 0, TAG_TEXT, nullptr, 0, 0);
        memcpy(text, t.data(), t.size());
        std::vector<const char *> inc;
        for (auto &s : j.inc) inc.push_back(s.c_str());
        job_spec sp;
        memset(&sp, 0, sizeof sp);
        sp.main_path = j.main_path.c_str();
        sp.text = text;
        sp.length = t.size();
        sp.mode = j.mode;
        sp.feat = j.feat;
        sp.has_ts = j.has_ts;
        sp.ts = j.ts;
        sp.n_inc = (int) inc.size();
        sp.inc = inc.data();
        sp.forced = j.forced.empty() ? nullptr : j.forced.c_str();
        sp.out = w->fstdout;
        static thread_local job_result r;
        pipeline_run(&sp, &r);
        fflush(w->fstdout);
        o.code = r.code;
        chain_text(r, o);
        o.cleanup_code = r.cleanup_code;
        o.cleanup_what = r.cleanup_what ? r.cleanup_what : "";
        o.fmt_changed = r.err_after_format_changed;
        free(r.tabular);
        free(r.json);
    } else if (j.kind == JOB_CLI) {
        std::vector<char *> av;
        for (auto &s : j.argv) av.push_back(const_cast<char *>(s.c_str()));
        av.push_back(nullptr);
        optind = 0;
        pipeline_clear_errors();
        w->exitable = true;
        if (setjmp(w->exitj) == 0) {
            w->exit_code = kefir_cli_main((int) av.size() - 1, av.data());
        }
        w->exitable = false;
        o.code = w->exit_code;
        for (auto it = w->atexits.rbegin(); it != w->atexits.rend(); ++it) (*it)();
        pipeline_clear_errors();
    } else if (j.kind == JOB_ERR) {
        errsim_run(j.ops, o.model_error);
    } else {
        contsim_run(j.container, j.ops, o.model_error);
    }
    ev("job-end", (uint64_t) o.code);
    o.bb = g_bb - bb0;
    o.ran = true;
}
static void finish_world(World *w) {
    set_world(w);
    JobOut &o = *w->out;
    o.t1 = g_clock;
    w->finishing = true;
    // process exit: libc flushes what is still open; errors are not reported to anyone
    for (size_t i = 0; i < w->streams.size(); i++) {
        Stream *s = w->streams[i];
        if (s->open) {
            if (s->fp != w->fstdin && s->fp != w->fstdout && s->fp != w->fstderr) {
                o.streams++;
            }
            fclose(s->fp);
        }
    }
    for (size_t i = 3; i < w->fds.size(); i++)
        if (w->fds[i].open) { o.fds++; }
    for (auto &m : w->maps)
        if (m.open) o.maps++;
    for (Stream *s : w->streams) delete s;
    w->streams.clear();
    VFile *od = out_dev();
    if (od) o.out = od->data;
    o.err = w->derr.data;
    for (Hdr *h : g_allocs)
        if (h->job == w->id && h->magic == LIVE && h->tag != TAG_TEXT) {
            o.live++;
            o.live_bytes += h->size;
            if (o.leak_desc.empty()) o.leak_desc = frames_str(h->frames);
        }
}
static void *thread_main(void *a) {
    Thr *t = (Thr *) a;
    fwait(t->id);
    set_world(worlds[t->id].get());
    run_job(worlds[t->id].get());
    t->done = true;
    // pass on: first thread still alive, or back to the engine
    int to = -1;
    for (auto &x : thrs)
        if (!x.done) { to = x.id; break; }
    ev("thread-end", t->id);
    if (to >= 0) { set_world(worlds[to].get()); next_slice(); fpass(to); }
    else { g_bb_limit = ~0ull; fpass(1000); }
    return nullptr;
}
void engine_init() {
    if (!g_status) g_status = &g_local_status;
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C.UTF-8", 1);
    setlocale(LC_ALL, "C.UTF-8");
    setlocale(LC_NUMERIC, "C");
    tzset();
    arena_init();
    __asan_set_death_callback(death);
}
static char *thr_stacks;
RunOut engine_run(Scenario &s, bool verbose, std::map<uint64_t, ClassInfo> *classes, uint64_t bbcap) {
    RunOut ro;
    S = &s;
    R = &ro;
    g_verbose = verbose;
    g_classes = classes;
    arena_reset();
    hrng = Rng(mix(s.heapseed, 77));
    srng = Rng(mix(s.schedseed, 99));
    g_clock = s.clock;
    g_clock_bb = 0;
    g_bb = 0;
    g_bb_cap = bbcap ? bbcap : 2000000000ull;
    g_bb_limit = g_bb_cap;
    g_log_hash = 1469598103934665603ull;
    g_events = 0;
    g_swpos = 0;
    memset(&g_tm, 0, sizeof g_tm);
    worlds.clear();
    thrs.clear();
    ro.jobs.resize(s.jobs.size());
    for (size_t i = 0; i < s.jobs.size(); i++) {
        worlds.emplace_back(new World());
        World *w = worlds.back().get();
        w->id = (int) i;
        w->job = &s.jobs[i];
        w->out = &ro.jobs[i];
    }
    st_setup();
    if (g_watch) { g_bb_limit = 0; g_watch_n = 0; }
    g_scribble = s.scribble && !s.threads;
    g_scribble_v = mix(s.heapseed, 5);
    g_ambient = s.heapseed > 1 ? mix(s.heapseed, 6) | 1 : 0;
    g_ambient_n = 0;
    if (g_scribble) g_bb_limit = 0;
    g_in_run = true;
    if (!s.threads) {
        g_threads = false;
        for (size_t i = 0; i < worlds.size(); i++) {
            setup_world(worlds[i].get());
            run_job(worlds[i].get());
            finish_world(worlds[i].get());
        }
    } else {
        if (!s.explicit_sched) s.switches.clear();
        if (s.rv && !s.explicit_sched) rv_reset();
        const size_t SS = 8u << 20;
        if (!thr_stacks) {
            thr_stacks = (char *) mmap((void *) 0x180000000000ull, SS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        }
        for (auto &w : worlds) setup_world(w.get());
        thrs.resize(worlds.size());
        g_turn = 1000;
        for (size_t i = 0; i < worlds.size(); i++) thrs[i].id = (int) i;
        for (size_t i = 0; i < worlds.size(); i++) {
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, thr_stacks + SS * i, SS);
            if (pthread_create(&thrs[i].t, &at, thread_main, &thrs[i]) != 0) { perror("thread"); _exit(2); }
            pthread_attr_destroy(&at);
        }
        g_threads = true;
        set_world(worlds[0].get());
        next_slice();
        fpass(0);
        fwait(1000);
        for (auto &t : thrs) pthread_join(t.t, nullptr);
        g_threads = false;
        for (auto &w : worlds) finish_world(w.get());
    }
    g_in_run = false;
    g_scribble = false;
    g_bb_limit = ~0ull;
    ro.bb = g_bb;
    ro.events = g_events;
    for (auto &o : ro.jobs) {
        g_log_hash = hash_bytes(o.out.data(), o.out.size(), g_log_hash);
        g_log_hash = hash_bytes(o.chain.data(), o.chain.size(), g_log_hash);
        g_log_hash = hash_bytes(o.err.data(), o.err.size(), g_log_hash);
        uint64_t rec[4] = {(uint64_t) o.code, o.live, o.foreign, (uint64_t) o.fds};
        g_log_hash = hash_bytes(rec, sizeof rec, g_log_hash);
    }
    ro.log_hash = g_log_hash;
    W = nullptr;
    worlds.clear();
    g_classes = nullptr;
    return ro;
}
