// Simulator for generated code: kefir-compiled functions run one machine instruction at a time (trap flag) under a
// seeded scheduler that decides interruptions, preemptions, concurrent writes and device behaviour.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <atomic>
#include <csignal>
#include <csetjmp>
#include <ucontext.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include "gensim.h"
#define UNIT _x
extern "C" {
#include "env_layout.h"
}

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(uint64_t a, uint64_t b) { return below(b) < a; }
};

struct Act { uint64_t step; char kind; uint64_t a, b; };
static std::vector<Act> g_acts;       // performed (recorded) or prescribed actions
static bool g_explicit;
static size_t g_actpos;
static uint64_t g_step, g_step_limit, g_loghash, g_interhash;
static uint64_t n_steps, n_scribble, n_irq, n_switch, n_agent, n_dev, n_solo_bad, n_runs, n_nontrivial;
static std::set<uint64_t> g_distinct;
static Rng rng(1);
static std::string g_mode;
static std::string g_viol, g_sig;
static void violate(const std::string &sig, const std::string &text) { if (g_sig.empty()) { g_sig = sig; g_viol = text; } }
static inline void loghash(uint64_t x) { g_loghash = (g_loghash ^ x) * 0x100000001b3ull; g_loghash ^= g_loghash >> 29; }

static const Act *prescribed() {
    while (g_actpos < g_acts.size() && g_acts[g_actpos].step < g_step) g_actpos++;
    if (g_actpos < g_acts.size() && g_acts[g_actpos].step == g_step) return &g_acts[g_actpos++];
    return nullptr;
}

// ------------------------------------------------------------------ stepped calls
extern "C" uint64_t stepcall(void *fn, uint64_t a, uint64_t b, uint64_t c, void *sp, int step);
extern "C" char ret_stub[];
asm(".intel_syntax noprefix\n.text\n"
    "stepcall:\n push rbp\n mov rbp, rsp\n push rbx\n push r12\n push r13\n push r14\n push r15\n sub rsp, 8\n"
    " test r8, r8\n jz 1f\n mov rsp, r8\n1: and rsp, -16\n"
    " mov rax, rdi\n mov rdi, rsi\n mov rsi, rdx\n mov rdx, rcx\n"
    " test r9d, r9d\n jz 2f\n"
    " pushfq\n or qword ptr [rsp], 0x100\n popfq\n call rax\n pushfq\n and qword ptr [rsp], -257\n popfq\n jmp 3f\n"
    "2: call rax\n"
    "3: lea rsp, [rbp - 48]\n add rsp, 8\n pop r15\n pop r14\n pop r13\n pop r12\n pop rbx\n pop rbp\n cld\n ret\n"
    "ret_stub:\n nop\n ud2\n"
    ".att_syntax\n");

struct Frame { gregset_t g; std::vector<uint8_t> fp; int unit; uint64_t arg; struct env *e; };
struct Thr {
    int id = 0;
    pthread_t t;
    std::atomic<bool> done{false};
    sigjmp_buf jb;
    bool jb_ok = false;
    bool stepping = false;
    std::vector<Frame> fr;
    char *alt = nullptr;
};
static Thr g_main;
static Thr *cur = &g_main;
static void (*g_hook)(Thr *, ucontext_t *);
static bool (*g_segv)(Thr *, siginfo_t *, ucontext_t *);

static void bail(Thr *t, const char *sig, const std::string &text) {
    if (t->stepping) violate(sig, text);
    else n_solo_bad++;
    t->fr.clear();
    if (!t->jb_ok) { fprintf(stderr, "GENSIM unexpected %s: %s\n", sig, text.c_str()); _exit(3); }
    siglongjmp(t->jb, 1);
}
static std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%lx", (unsigned long) v); return b; }

static void on_trap(int, siginfo_t *, void *u) {
    ucontext_t *uc = (ucontext_t *) u;
    Thr *t = cur;
    if (!t->stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
    g_step++;
    loghash((uint64_t) uc->uc_mcontext.gregs[REG_RIP] + (uint64_t) t->id);
    if (g_step > g_step_limit) bail(t, "hang", "no result within " + std::to_string(g_step_limit) + " instructions");
    g_hook(t, uc);
}
static void on_crash(int s, siginfo_t *si, void *u) {
    ucontext_t *uc = (ucontext_t *) u;
    Thr *t = cur;
    if (s == SIGSEGV && g_segv && g_segv(t, si, uc)) return;
    bail(t, "crash", "signal " + std::to_string(s) + " at " + hex((uint64_t) uc->uc_mcontext.gregs[REG_RIP]) + " after " + std::to_string(g_step) + " instructions");
}
static void on_alarm(int, siginfo_t *, void *) { bail(cur, "hang", "no result within the time limit"); }

static void install(Thr *t) {
    const size_t AS = 256 << 10;
    if (!t->alt) t->alt = (char *) mmap(nullptr, AS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss = {};
    ss.ss_sp = t->alt;
    ss.ss_size = AS;
    sigaltstack(&ss, nullptr);
}
static void handlers() {
    struct sigaction sa = {};
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sa.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &sa, nullptr);
    sa.sa_sigaction = on_crash;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
    sa.sa_sigaction = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
}
static void watchdog(int sec) { struct itimerval it = {}; it.it_value.tv_sec = sec; setitimer(ITIMER_REAL, &it, nullptr); }

static char *g_stack; // simulated main stack
static const size_t STK = 1 << 20;
static void junk(char *p, size_t n, uint64_t seed) {
    uint64_t x = seed | 1;
    for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; memcpy(p + i, &x, 8); }
}
static void env_fill(struct env *e, uint64_t seed) {
    Rng r(mix(seed, 77));
    uint8_t *p = (uint8_t *) e;
    for (size_t i = 0; i < sizeof *e; i++) p[i] = (uint8_t) r.next();
    for (int i = 0; i < 16; i++) { e->f[i] = (float) ((int) r.below(2000) - 1000) / 8; e->d[i] = (double) ((int) r.below(200000) - 100000) / 16; }
}
struct Res { bool ok; uint64_t ret; struct env e; };
static std::map<std::pair<int, uint64_t>, Res> g_solo;
// the same function alone, without interference
static const Res &solo(int unit, uint64_t arg) {
    auto key = std::make_pair(unit, arg);
    auto it = g_solo.find(key);
    if (it != g_solo.end()) return it->second;
    if (g_solo.size() > 4000) g_solo.clear();
    static Res r;
    r.ok = false;
    env_fill(&r.e, arg);
    static char *st;
    if (!st) st = (char *) mmap((void *) 0x170000000000ull, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    junk(st + STK - 16384, 16384, mix(arg, 3));
    Thr *old = cur;
    static Thr t;
    cur = &t;
    t.id = 99;
    t.stepping = false;
    t.jb_ok = true;
    if (sigsetjmp(t.jb, 1) == 0) {
        watchdog(10);
        static struct env *pe = (struct env *) malloc(sizeof(struct env));
        *pe = r.e;
        r.ret = stepcall((void *) g_units[unit].f, (uint64_t) pe, arg, 0, st + STK - 64, 0);
        r.e = *pe;
        r.ok = true;
    }
    watchdog(0);
    cur = old;
    return g_solo[key] = r;
}
static std::string env_diff(const struct env &a, const struct env &b) {
    const uint8_t *x = (const uint8_t *) &a, *y = (const uint8_t *) &b;
    for (size_t i = 0; i < sizeof a; i++)
        if (x[i] != y[i]) return "memory at offset " + std::to_string(i) + " is " + std::to_string(x[i]) + ", alone " + std::to_string(y[i]);
    return "";
}

// static storage of the compiled units
extern "C" char __start_kgen_data[] __attribute__((weak)), __stop_kgen_data[] __attribute__((weak));
extern "C" char __start_kgen_bss[] __attribute__((weak)), __stop_kgen_bss[] __attribute__((weak));
struct Watch { char *p; size_t n; std::vector<char> init, last; };
static std::vector<Watch> g_statics;
static void statics_reset() {
    if (g_statics.empty()) {
        if (__start_kgen_data) g_statics.push_back({__start_kgen_data, (size_t) (__stop_kgen_data - __start_kgen_data), {}, {}});
        if (__start_kgen_bss) g_statics.push_back({__start_kgen_bss, (size_t) (__stop_kgen_bss - __start_kgen_bss), {}, {}});
        for (auto &w : g_statics) w.init.assign(w.p, w.p + w.n), w.last = w.init;
    }
    for (auto &w : g_statics) if (memcmp(w.p, w.init.data(), w.n)) memcpy(w.p, w.init.data(), w.n);
    for (auto &w : g_statics) w.last = w.init;
}
static bool statics_changed() {
    bool c = false;
    for (auto &w : g_statics) if (memcmp(w.p, w.last.data(), w.n)) { c = true; memcpy(w.last.data(), w.p, w.n); }
    return c;
}

// ------------------------------------------------------------------ C14 interruptions
struct { unsigned scr_num, scr_den, irq_num, irq_den; int max_irq, max_depth; bool ev_statics; } P14;
static int g_irqs;
static struct env g_henv[8];
static bool g_cold;
static void scribble(uint64_t rsp, uint64_t seed, uint64_t len) {
    char *top = (char *) ((rsp - 128) & ~7ull);
    char *lo = top - len;
    if (lo < g_stack + 4096) lo = g_stack + 4096;
    if (lo < top) junk(lo, (size_t) (top - lo), seed);
}
static void inject(Thr *t, ucontext_t *uc, int unit, uint64_t arg) {
    auto &g = uc->uc_mcontext.gregs;
    uint64_t rsp = (uint64_t) g[REG_RSP];
    if (rsp < (uint64_t) g_stack + 262144) return;
    n_irq++;
    Frame f;
    memcpy(f.g, g, sizeof f.g);
    struct _libc_fpstate *fp = uc->uc_mcontext.fpregs;
    size_t n = 512;
    uint32_t magic, ext;
    memcpy(&magic, (char *) fp + 464, 4);
    memcpy(&ext, (char *) fp + 468, 4);
    if (magic == 0x46505853) n = ext;
    f.fp.assign((uint8_t *) fp, (uint8_t *) fp + n);
    f.unit = unit;
    f.arg = arg;
    f.e = &g_henv[t->fr.size()];
    env_fill(f.e, arg);
    // a fresh FPU state for the handler, with garbage in the vector registers
    fp->cwd = 0x37f;
    fp->swd = 0;
    fp->ftw = 0;
    fp->mxcsr = 0x1f80;
    junk((char *) fp->_xmm, sizeof fp->_xmm, arg ^ 0x1234);
    if (magic == 0x46505853) { uint64_t bv; memcpy(&bv, (char *) fp + 512, 8); bv |= 3; memcpy((char *) fp + 512, &bv, 8); }
    Rng r(mix(arg, 5));
    for (int i : {REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15}) g[i] = (greg_t) r.next();
    uint64_t sp = ((rsp - 128) & ~15ull) - 16 * (arg & 63);
    scribble(rsp, arg, 512 + (arg & 1023));
    sp -= 8;
    *(uint64_t *) sp = (uint64_t) ret_stub;
    g[REG_RSP] = (greg_t) sp;
    g[REG_RDI] = (greg_t) f.e;
    g[REG_RSI] = (greg_t) arg;
    g[REG_RIP] = (greg_t) g_units[unit].f;
    g[REG_EFL] = (g[REG_EFL] & ~0x400ll) | 0x100;
    t->fr.push_back(std::move(f));
}
static void finish_irq(Thr *t, ucontext_t *uc) {
    Frame &f = t->fr.back();
    auto &g = uc->uc_mcontext.gregs;
    const Res &s = solo(f.unit, f.arg);
    uint64_t ret = (uint64_t) g[REG_RAX];
    if (s.ok) {
        std::string d = env_diff(*f.e, s.e);
        if (ret != s.ret) d = "returned " + hex(ret) + ", alone " + hex(s.ret);
        if (!d.empty()) violate("handler:" + std::string(g_units[f.unit].name), "handler running " + std::string(g_units[f.unit].name) + " at depth " + std::to_string(t->fr.size()) + ": " + d);
    }
    memcpy(g, f.g, sizeof f.g);
    memcpy(uc->uc_mcontext.fpregs, f.fp.data(), f.fp.size());
    uint64_t rsp = (uint64_t) g[REG_RSP];
    scribble(rsp, f.arg ^ 0x777, 512 + (f.arg & 2047));
    t->fr.pop_back();
}
static void hook14(Thr *t, ucontext_t *uc) {
    auto &g = uc->uc_mcontext.gregs;
    if ((char *) (uint64_t) g[REG_RIP] == ret_stub && !t->fr.empty()) { finish_irq(t, uc); return; }
    uint64_t rsp = (uint64_t) g[REG_RSP];
    if (rsp < (uint64_t) g_stack || rsp > (uint64_t) g_stack + STK) return;
    if (g_explicit) {
        while (const Act *a = prescribed()) {
            if (a->kind == 'S') { n_scribble++; scribble(rsp, a->a, a->b); }
            else if (a->kind == 'I' && t->fr.size() < 4) { inject(t, uc, (int) a->a, a->b); return; }
        }
        return;
    }
    if (P14.scr_num && rng.chance(P14.scr_num, P14.scr_den)) {
        static const uint64_t lens[] = {64, 256, 1024, 2048};
        uint64_t sd = rng.next(), len = lens[rng.below(4)];
        g_acts.push_back({g_step, 'S', sd, len});
        n_scribble++;
        scribble(rsp, sd, len);
    }
    bool want = P14.irq_num && rng.chance(P14.irq_num, P14.irq_den);
    if (statics_changed() && rng.chance(1, 2)) want = true; // shared static state was just touched
    if (want && g_step < 25000 && g_irqs < P14.max_irq && (int) t->fr.size() < P14.max_depth) {
        int base = t->fr.empty() ? (int) P14.ev_statics : t->fr.back().unit;
        (void) base;
        extern int g_unit14;
        int unit = rng.chance(1, 2) ? g_unit14 : (int) rng.below(g_nunits);
        uint64_t arg = rng.next();
        if (!solo(unit, arg).ok) return;
        g_irqs++;
        g_acts.push_back({g_step, 'I', (uint64_t) unit, arg});
        inject(t, uc, unit, arg);
    }
}
int g_unit14;
static std::string g_desc;
static void run14(uint64_t seed, uint64_t run) {
    rng = Rng(mix(seed, run * 4 + 14));
    g_unit14 = run < (uint64_t) g_nunits * 3 ? (int) (run % g_nunits) : (int) rng.below(g_nunits);
    uint64_t arg = rng.next();
    P14 = {};
    if (run < (uint64_t) g_nunits) { P14.scr_num = 1; P14.scr_den = 1; }
    else {
        static const unsigned sd[] = {1, 4, 32, 0}, id[] = {30, 100, 400, 2000};
        unsigned s = sd[rng.below(4)];
        if (s) { P14.scr_num = 1; P14.scr_den = s; }
        P14.irq_num = 1; P14.irq_den = id[rng.below(4)];
        P14.max_irq = 1 + (int) rng.below(8);
        P14.max_depth = 1 + (int) rng.below(3);
    }
    g_desc = std::string("function ") + g_units[g_unit14].name + " argument " + hex(arg);
    statics_reset();
    const Res s = solo(g_unit14, arg);
    statics_reset();
    if (!s.ok) return;
    static struct env e;
    env_fill(&e, arg);
    junk(g_stack + STK - 65536, 65536, mix(seed, run));
    g_hook = hook14;
    g_irqs = 0;
    g_step_limit = 20000000;
    cur = &g_main;
    cur->fr.clear();
    cur->jb_ok = true;
    cur->stepping = true;
    uint64_t ret = 0;
    bool fin = false;
    if (sigsetjmp(cur->jb, 1) == 0) { ret = stepcall((void *) g_units[g_unit14].f, (uint64_t) &e, arg, 0, g_stack + STK - 4096, 1); fin = true; }
    cur->stepping = false;
    if (fin) {
        std::string d = env_diff(e, s.e);
        if (ret != s.ret) d = "returned " + hex(ret) + ", alone " + hex(s.ret);
        if (!d.empty()) violate("result:" + std::string(g_units[g_unit14].name), g_desc + ": " + d);
    } else if (!g_sig.empty() && g_sig.find(':') == std::string::npos) { g_sig += ":" + std::string(g_units[g_unit14].name); g_viol = g_desc + ": " + g_viol; }
    n_nontrivial += !g_acts.empty();
}

// ------------------------------------------------------------------ C15 threads
static std::vector<Thr *> g_thr;
static std::atomic<int> g_turn;
static void fwait(int me) { for (;;) { int t = g_turn.load(); if (t == me) return; syscall(SYS_futex, (int *) &g_turn, FUTEX_WAIT_PRIVATE, t, nullptr, nullptr, 0); } }
static void fpass(int to) { g_turn.store(to); syscall(SYS_futex, (int *) &g_turn, FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0); }
static unsigned g_slice;
static uint64_t g_next;
struct Item { int kind, idx; uint64_t arg; };   // 0 compute; 1 kget 2 kset 3 hget 4 hset 5 addr
static std::vector<std::vector<Item>> g_script;
static std::vector<Res> g_exp[8];
static void to_thread(Thr *me, int to) {
    n_switch++;
    g_interhash = (g_interhash ^ g_loghash) * 0x100000001b3ull;
    cur = g_thr[to];
    fpass(to);
    fwait(me->id);
    cur = me;
}
static int other_alive(int me) {
    int a[8], n = 0;
    for (auto *t : g_thr) if (!t->done && t->id != me) a[n++] = t->id;
    return n ? a[rng.below(n)] : -1;
}
static void hook15(Thr *t, ucontext_t *) {
    if (g_explicit) {
        int to = -1;
        while (const Act *a = prescribed()) if (a->kind == 'T') to = (int) a->a;
        if (to >= 0 && to < (int) g_thr.size() && to != t->id && !g_thr[to]->done) to_thread(t, to);
        return;
    }
    bool sc = statics_changed();
    if (!(g_step >= g_next || (sc && rng.chance(1, 2)))) return;
    g_next = g_step + 1 + (rng.chance(1, 6) ? rng.below(3) : rng.below(2 * g_slice));
    int to = other_alive(t->id);
    if (to < 0) return;
    g_acts.push_back({g_step, 'T', (uint64_t) to, 0});
    to_thread(t, to);
}
static std::vector<std::map<int, uint64_t>> g_addr;
static void *thread15(void *p) {
    Thr *t = (Thr *) p;
    install(t);
    fwait(t->id);
    cur = t;
    t->jb_ok = true;
    std::map<int, uint64_t> model;
    static thread_local struct env e;
    if (sigsetjmp(t->jb, 1) == 0) {
        for (size_t k = 0; k < g_script[t->id].size(); k++) {
            const Item &it = g_script[t->id][k];
            std::string who = "thread " + std::to_string(t->id) + " step " + std::to_string(k) + " ";
            t->stepping = true;
            uint64_t v = 0, exp = 0;
            if (it.kind == 0) {
                env_fill(&e, it.arg);
                v = stepcall((void *) g_units[it.idx].f, (uint64_t) &e, it.arg, 0, nullptr, 1);
                t->stepping = false;
                const Res &r = g_exp[t->id][k];
                std::string d = env_diff(e, r.e);
                if (v != r.ret) d = "returned " + hex(v) + ", alone " + hex(r.ret);
                if (!d.empty()) violate("thread:" + std::string(g_units[it.idx].name), who + g_units[it.idx].name + ": " + d);
                continue;
            }
            const GTls &x = g_tls[it.idx];
            exp = model.count(it.idx) ? model[it.idx] : (x.init & x.mask);
            std::string what;
            switch (it.kind) {
                case 1: v = stepcall((void *) x.kget, 0, 0, 0, nullptr, 1) & x.mask; what = "value read by kefir code"; break;
                case 3: v = stepcall((void *) x.hget, 0, 0, 0, nullptr, 1) & x.mask; what = "value read by host code"; break;
                case 2: stepcall((void *) x.kset, it.arg & x.mask, 0, 0, nullptr, 1); model[it.idx] = it.arg & x.mask; v = exp; break;
                case 4: stepcall((void *) x.hset, it.arg & x.mask, 0, 0, nullptr, 1); model[it.idx] = it.arg & x.mask; v = exp; break;
                default: {
                    uint64_t ka = stepcall((void *) x.kaddr, 0, 0, 0, nullptr, 1), ha = stepcall((void *) x.haddr, 0, 0, 0, nullptr, 1);
                    t->stepping = false;
                    if (ka != ha) violate("tls-address:" + std::string(x.name), who + x.name + ": kefir code sees the object at " + hex(ka) + ", host code at " + hex(ha));
                    else if (ka % (uint64_t) x.align) violate("tls-align:" + std::string(x.name), who + x.name + ": at " + hex(ka) + ", required alignment " + std::to_string(x.align));
                    for (size_t o = 0; o < g_addr.size(); o++)
                        if ((int) o != t->id && g_addr[o].count(it.idx) && g_addr[o][it.idx] == ka && !g_thr[o]->done) violate("tls-shared:" + std::string(x.name), who + x.name + ": same address as in thread " + std::to_string(o));
                    g_addr[t->id][it.idx] = ka;
                    v = exp;
                }
            }
            t->stepping = false;
            if (v != exp) violate("tls-value:" + std::string(x.name), who + x.name + ": " + what + " is " + hex(v) + ", expected " + hex(exp));
        }
    }
    t->stepping = false;
    t->done = true;
    int to = -1;
    if (g_explicit) { for (auto *o : g_thr) if (!o->done) { to = o->id; break; } }
    else to = other_alive(-1);
    if (g_explicit == false && to >= 0) { /* the lowest live thread, as in a replay */ for (auto *o : g_thr) if (!o->done) { to = o->id; break; } }
    if (to >= 0) { cur = g_thr[to]; fpass(to); }
    else { cur = &g_main; fpass(1000); }
    return nullptr;
}
static void run15(uint64_t seed, uint64_t run) {
    rng = Rng(mix(seed, run * 4 + 15));
    statics_reset();
    int n = 2 + (int) rng.below(2);
    g_script.assign(n, {});
    g_addr.assign(n, {});
    int u0 = (int) (run % (uint64_t) g_nunits);
    uint64_t shared_arg = rng.next();
    int tls0 = g_ntls ? (int) rng.below(g_ntls) : 0;
    bool same = rng.chance(2, 3), tlsonly = g_ntls && rng.chance(1, 3);
    std::string d;
    for (int i = 0; i < n; i++) {
        g_exp[i].clear();
        int k = tlsonly ? 4 + (int) rng.below(12) : 1 + (int) rng.below(3);
        for (int j = 0; j < k; j++) {
            Item it;
            if (g_ntls && (tlsonly || rng.chance(1, 3))) it = {1 + (int) rng.below(5), rng.chance(1, 2) ? tls0 : (int) rng.below(g_ntls), rng.next()};
            else it = {0, same && rng.chance(3, 4) ? u0 : (int) rng.below(g_nunits), rng.chance(1, 8) ? shared_arg : rng.next()};
            Res r = {};
            if (it.kind == 0) { r = solo(it.idx, it.arg); if (!r.ok) continue; }
            g_script[i].push_back(it);
            g_exp[i].push_back(r);
            d += (d.empty() ? "" : " ") + std::to_string(i) + ":" + (it.kind == 0 ? std::string(g_units[it.idx].name) : std::string(g_tls[it.idx].name) + "/" + std::to_string(it.kind));
        }
    }
    g_desc = d;
    statics_reset();
    static const unsigned sl[] = {1, 4, 25, 150, 800};
    g_slice = sl[rng.below(5)];
    g_next = 1 + rng.below(2 * g_slice);
    g_step_limit = 2000000;
    g_hook = hook15;
    const size_t SS = 1 << 20;
    static char *stacks;
    if (!stacks) stacks = (char *) mmap((void *) 0x190000000000ull, SS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    g_thr.clear();
    static Thr pool[8];
    g_turn = 999;
    for (int i = 0; i < n; i++) {
        junk(stacks + SS * i + SS - 65536, 65536, mix(seed, run * 8 + i)); // the thread-local block will lie in here
        Thr *t = &pool[i];
        t->id = i;
        t->done = false;
        t->stepping = false;
        t->jb_ok = false;
        g_thr.push_back(t);
    }
    for (int i = 0; i < n; i++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stacks + SS * i, SS);
        if (pthread_create(&g_thr[i]->t, &at, thread15, g_thr[i])) { perror("pthread_create"); _exit(3); }
        pthread_attr_destroy(&at);
    }
    cur = g_thr[0];
    fpass(0);
    fwait(1000);
    for (auto *t : g_thr) pthread_join(t->t, nullptr);
    cur = &g_main;
    if (!g_sig.empty() && g_sig.find(':') == std::string::npos) g_viol += " (" + d + ")";
    n_nontrivial += !g_acts.empty();
}

// ------------------------------------------------------------------ C16 neighbouring locations
static std::vector<uint8_t *> g_nb;       // bytes that belong to other memory locations
static std::vector<uint8_t> g_nbv;        // what the other thread last put there
static std::vector<uint32_t> g_near;      // indices close to the target
static unsigned g_rate;
static std::string g_store;
static void agent(uint32_t idx, uint8_t v) { if (idx >= g_nb.size()) return; n_agent++; *g_nb[idx] = v; g_nbv[idx] = v; }
// adjacent local objects: the program itself publishes where its locals are
static volatile uint64_t *g_tab;
static std::string g_broken16;
static void local16() {
    if (!g_tab) return;
    if (g_tab[43] == 2) { g_nb.clear(); g_nbv.clear(); g_near.clear(); return; }
    if (g_tab[43] != 1 || !g_nb.empty()) return;
    uint64_t n = g_tab[42], y = g_tab[40], ys = g_tab[41];
    for (uint64_t i = 0; i < n && i < 16; i++)
        for (uint64_t b = 0; b < g_tab[2 * i + 1] && b < 64; b++) {
            uint64_t a = g_tab[2 * i] + b;
            if (a < (uint64_t) g_stack || a >= (uint64_t) g_stack + STK) continue;
            if (a + 24 >= y && a < y + ys + 24) g_near.push_back((uint32_t) g_nb.size());
            g_nb.push_back((uint8_t *) a);
            g_nbv.push_back(*(uint8_t *) a);
        }
}
static void hook16(Thr *t, ucontext_t *uc) {
    local16();
    for (size_t i = 0; i < g_nb.size(); i++)
        if (*g_nb[i] != g_nbv[i])
            bail(t, ("lost-update:" + g_store).c_str(), "after " + std::to_string(g_step) + " instructions of " + g_desc + " the neighbouring byte at " + hex((uint64_t) g_nb[i]) + " holds " + hex(*g_nb[i]) + " instead of " + hex(g_nbv[i]) + ", which another thread had stored there");
    if (g_explicit) { while (const Act *a = prescribed()) if (a->kind == 'W') agent((uint32_t) a->a, (uint8_t) a->b); return; }
    if (g_nb.empty() || !rng.chance(1, g_rate)) return;
    int k = 1 + (int) rng.below(4);
    while (k--) {
        uint32_t idx = !g_near.empty() && rng.chance(3, 4) ? g_near[rng.below(g_near.size())] : (uint32_t) rng.below(g_nb.size());
        uint8_t v = (uint8_t) (g_nbv[idx] + 1 + rng.below(255));
        g_acts.push_back({g_step, 'W', idx, v});
        agent(idx, v);
    }
    (void) uc;
}
static uint8_t *g_obj;
static bool native(void *fn, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    // plain call of kefir code with a crash guard
    cur = &g_main;
    cur->stepping = false;
    cur->jb_ok = true;
    if (sigsetjmp(cur->jb, 1)) return false;
    ((void (*)(uint64_t, uint64_t, uint64_t, uint64_t)) fn)(a, b, c, d);
    return true;
}
static void run16(uint64_t seed, uint64_t run) {
    rng = Rng(mix(seed, run * 4 + 16));
    if (!g_obj) g_obj = (uint8_t *) mmap((void *) 0x1a0000000000ull, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    const GType &T = g_types[run % (uint64_t) g_ntypes];
    if (!T.nstore) return;
    const GStore &st = T.store[run < 65536 ? (run / (uint64_t) g_ntypes) % (uint64_t) T.nstore : rng.below(T.nstore)];
    uint64_t v = rng.chance(1, 4) ? rng.below(8) : rng.next();
    g_store = st.name;
    g_desc = std::string(st.name) + " {" + st.text + "} v=" + hex(v);
    g_tab = nullptr;
    if (T.global == 2) {
        g_tab = (volatile uint64_t *) g_obj;
        memset(g_obj, 0, 512);
        g_nb.clear();
        g_nbv.clear();
        g_near.clear();
    }
    size_t sz = T.global ? 0 : T.size();
    if (sz > 8192) return;
    // three consecutive elements; the store goes to the middle one
    uint8_t *base = T.global ? nullptr : g_obj + 4096;
    uint8_t *elem = T.global == 2 ? g_obj : base + sz;
    std::set<uint64_t> target, named;
    if (T.global == 2) goto go;
    {
    auto range = [](std::set<uint64_t> &s, uint64_t a, uint64_t n) { for (uint64_t i = 0; i < n && i < 16384; i++) s.insert(a + i); };
    uint64_t a = 0, n = 0;
    for (int e = 0; e < (T.global ? 1 : 3); e++) {
        uint8_t *p = base + sz * e;
        for (int i = 0; i < T.nleaf; i++) {
            const GLeaf &L = T.leaf[i];
            if (!L.bit) { if (!native((void *) L.loc, (uint64_t) p, v, (uint64_t) &a, (uint64_t) &n)) return; range(named, a, n); continue; }
            static uint8_t *z = (uint8_t *) mmap(nullptr, 32768, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            memset(z, 0, 24576);
            if (!native((void *) L.ones, (uint64_t) (z + 8192), 0, 0, 0)) return;
            for (size_t b = 0; b < sz; b++)
                if (z[8192 + b]) { named.insert((uint64_t) p + b); if (e == 1 && st.leaf >= 0 && T.leaf[st.leaf].bit && T.leaf[st.leaf].run == L.run) target.insert((uint64_t) p + b); }
        }
    }
    if (st.leaf < 0 || !T.leaf[st.leaf].bit) {
        if (!native((void *) st.loc, (uint64_t) elem, v, (uint64_t) &a, (uint64_t) &n)) return;
        range(target, a, n);
    }
    if (target.empty()) return;
    if (!T.global) { range(named, (uint64_t) base - 64, 64); range(named, (uint64_t) base + 3 * sz, 64); }
    g_nb.clear();
    g_nbv.clear();
    g_near.clear();
    uint64_t lo = *target.begin(), hi = *target.rbegin();
    for (uint64_t b : named)
        if (!target.count(b)) {
            if (b + 12 >= lo && b <= hi + 12) g_near.push_back((uint32_t) g_nb.size());
            g_nb.push_back((uint8_t *) b);
        }
    if (!T.global) junk((char *) base - 128, 256 + 3 * sz, mix(seed, run));
    else for (uint64_t b : named) *(uint8_t *) b = (uint8_t) rng.next();
    // legal contents for the bytes of the target that may be _Bool or floating
    for (uint64_t b : target) *(uint8_t *) b &= 1;
    for (auto *p : g_nb) g_nbv.push_back(*p);
    }
go:
    static const unsigned rates[] = {1, 2, 8};
    g_rate = rates[rng.below(3)];
    g_hook = hook16;
    g_step_limit = 300000;
    junk(g_stack + STK - 16384, 16384, mix(seed, run));
    cur = &g_main;
    cur->jb_ok = true;
    cur->stepping = true;
    if (sigsetjmp(cur->jb, 1) == 0) stepcall((void *) st.st, (uint64_t) elem, v, 0, g_stack + STK - 4096, 1);
    cur->stepping = false;
    if (g_sig.empty())
        for (size_t i = 0; i < g_nb.size(); i++)
            if (*g_nb[i] != g_nbv[i]) { violate("lost-update:" + g_store, g_desc + ": the neighbouring byte at " + hex((uint64_t) g_nb[i]) + " was overwritten"); break; }
    if (!g_sig.empty() && g_sig.find(':') == std::string::npos) { g_sig += ":" + g_store; g_viol = g_desc + ": " + g_viol; }
    n_nontrivial += !g_acts.empty();
}

// ------------------------------------------------------------------ C17 volatile device
static char *g_dev; // three pages, inaccessible
static uint64_t g_devbase, g_devseed;
struct Acc { char kind; int64_t off; uint64_t val; int reg; };
static std::vector<Acc> g_log;
static std::map<int, int> g_cnt;
static int g_pend_page = -1, g_pend_page2 = -1;
static Acc g_pend;
static uint8_t g_pre[3 * 4096];
static uint64_t dev_value(int reg, int k) {
    uint64_t v = mix(g_devseed, (uint64_t) reg * 1000 + (uint64_t) k);
    return v;
}
static int reg_at(uint64_t addr) {
    for (int i = 0; i < g_nregs; i++)
        if (addr >= g_devbase + (uint64_t) g_regs[i].off && addr < g_devbase + (uint64_t) g_regs[i].off + (uint64_t) g_regs[i].size) return i;
    return -1;
}
static void dev_protect() { mprotect(g_dev, 3 * 4096, PROT_NONE); }
static bool segv17(Thr *t, siginfo_t *si, ucontext_t *uc) {
    char *a = (char *) si->si_addr;
    if (!t->stepping || a < g_dev || a >= g_dev + 3 * 4096) return false;
    int page = (int) ((a - g_dev) / 4096);
    bool wr = (uc->uc_mcontext.gregs[REG_ERR] & 2) != 0;
    if (g_pend_page >= 0) { // the same instruction touches a second page
        g_pend_page2 = page;
        mprotect(g_dev + page * 4096, 4096, PROT_READ | PROT_WRITE);
        g_log.push_back({'X', a - (char *) g_devbase, 0, -1});
        return true;
    }
    n_dev++;
    g_pend_page = page;
    g_pend_page2 = -1;
    mprotect(g_dev + page * 4096, 4096, PROT_READ | PROT_WRITE);
    g_pend = {wr ? 'W' : 'R', a - (char *) g_devbase, 0, reg_at((uint64_t) a)};
    // contents: fresh noise everywhere in the page, the device's next value in the register that is read
    junk(g_dev + page * 4096, 4096, mix(g_devseed, n_dev));
    if (g_pend.reg >= 0 && !wr) {
        uint64_t v = dev_value(g_pend.reg, g_cnt[g_pend.reg]++);
        int sz = g_regs[g_pend.reg].size;
        std::string nm = g_regs[g_pend.reg].name;
        if (nm[0] == 'B') v &= 1;
        else if (nm[0] == 'F') { float f = (float) (int) (v % 2000) / 4; memcpy(&v, &f, 4); }
        else if (nm[0] == 'D') { double d = (double) (int) (v % 20000) / 8; memcpy(&v, &d, 8); }
        else if (v % 3 == 0) v &= 3;
        // straddling registers are never laid out: a register lies in one page
        memcpy((char *) g_devbase + g_regs[g_pend.reg].off, &v, (size_t) sz);
        g_pend.val = sz == 8 ? v : v & ((1ull << (sz * 8)) - 1);
    }
    memcpy(g_pre + page * 4096, g_dev + page * 4096, 4096);
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
    return true;
}
static void hook17(Thr *, ucontext_t *) {
    if (g_pend_page < 0) return;
    char *p = g_dev + g_pend_page * 4096;
    if (g_pend.kind == 'W') {
        int lo = -1, hi = -1;
        for (int i = 0; i < 4096; i++) if (p[i] != (char) g_pre[g_pend_page * 4096 + i]) { if (lo < 0) lo = i; hi = i; }
        if (g_pend.reg >= 0) {
            int ro = (int) (g_devbase + (uint64_t) g_regs[g_pend.reg].off - (uint64_t) p), sz = g_regs[g_pend.reg].size;
            memcpy(&g_pend.val, p + ro, (size_t) sz);
            if (lo >= 0 && (lo < ro || hi >= ro + sz)) g_log.push_back({'O', g_pend.off, 0, g_pend.reg}); // wider than the object
        }
    } else if (memcmp(p, g_pre + g_pend_page * 4096, 4096)) g_log.push_back({'M', g_pend.off, 0, g_pend.reg});
    g_log.push_back(g_pend);
    loghash((uint64_t) g_pend.off * 4 + (g_pend.kind == 'W'));
    loghash(g_pend.val);
    g_pend_page = g_pend_page2 = -1;
    dev_protect();
}
static std::string log_str(const std::vector<Acc> &l) {
    std::string s;
    for (auto &a : l) { s += s.empty() ? "" : " "; s += a.kind; s += a.reg >= 0 ? std::string(g_regs[a.reg].name) : "?"; s += "+" + std::to_string(a.off - (a.reg >= 0 ? g_regs[a.reg].off : 0)); if (a.kind == 'R' || a.kind == 'W') s += "=" + hex(a.val); }
    return s;
}
static bool dev_run(void *fn, uint64_t arg, uint64_t &ret, std::vector<Acc> &log, uint64_t stackseed) {
    g_log.clear();
    g_cnt.clear();
    g_pend_page = g_pend_page2 = -1;
    dev_protect();
    junk(g_stack + STK - 16384, 16384, stackseed);
    cur = &g_main;
    cur->jb_ok = true;
    cur->stepping = true;
    bool fin = false;
    if (sigsetjmp(cur->jb, 1) == 0) { ret = stepcall(fn, g_devbase, arg, 0, g_stack + STK - 4096, 1); fin = true; }
    cur->stepping = false;
    log = g_log;
    return fin;
}
static void run17(uint64_t seed, uint64_t run) {
    rng = Rng(mix(seed, run * 4 + 17));
    if (!g_dev) g_dev = (char *) mmap((void *) 0x1b0000000000ull, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    const GDev &d = g_devs[run % (uint64_t) g_ndevs];
    uint64_t arg = rng.next();
    g_devseed = rng.next();
    int r = (int) rng.below(g_nregs);
    uint64_t page = (uint64_t) g_dev + 4096;
    // the chosen register ends at a page end or starts at a page start, so that anything wider is seen
    if (rng.chance(1, 2)) g_devbase = page + 4096 - (uint64_t) (g_regs[r].off + g_regs[r].size);
    else g_devbase = page - (uint64_t) g_regs[r].off;
    g_desc = std::string(d.name) + " {" + d.text + "} arg=" + hex(arg) + " register " + g_regs[r].name + (g_devbase + (uint64_t) g_regs[r].off == page ? " at page start" : " at page end");
    if (g_devbase % 8) g_devbase = page + 256; // registers keep their alignment
    for (int i = 0; i < g_nregs; i++) // no register across pages
        if ((g_devbase + (uint64_t) g_regs[i].off) / 4096 != (g_devbase + (uint64_t) g_regs[i].off + (uint64_t) g_regs[i].size - 1) / 4096) g_devbase = page + 256;
    g_hook = hook17;
    g_segv = segv17;
    g_step_limit = 200000;
    uint64_t r1 = 0, r2 = 0;
    std::vector<Acc> l1, l2;
    bool href = dev_run((void *) d.h, arg, r2, l2, 1);
    if (!href) { g_sig.clear(); g_viol.clear(); n_solo_bad++; g_segv = nullptr; return; }
    g_step = 0;
    uint64_t nd = n_dev;
    bool fin = dev_run((void *) d.k, arg, r1, l1, mix(seed, run));
    g_segv = nullptr;
    n_nontrivial += n_dev > nd;
    if (!fin) { g_sig = "crash:" + std::string(d.name); g_viol = g_desc + ": " + g_viol; return; }
    std::string a = log_str(l1), b = log_str(l2);
    if (a != b) violate("access:" + std::string(d.name), g_desc + ": accesses [" + a + "], the program prescribes [" + b + "]");
    else if (r1 != r2) violate("value:" + std::string(d.name), g_desc + ": computed " + hex(r1) + " from the values read, expected " + hex(r2));
    g_interhash = g_loghash;
}

// ------------------------------------------------------------------ driver
static void one(uint64_t seed, uint64_t run) {
    if (!g_explicit) g_acts.clear();
    g_actpos = 0;
    g_step = 0;
    g_loghash = 14695981039346656037ull;
    g_interhash = 0;
    g_sig.clear();
    g_viol.clear();
    n_runs++;
    uint64_t nt0 = n_nontrivial;
    if (g_mode == "C14") run14(seed, run);
    else if (g_mode == "C15") run15(seed, run);
    else if (g_mode == "C16") run16(seed, run);
    else run17(seed, run);
    n_steps += g_step;
    for (auto &a : g_acts) loghash(a.step * 3 + a.a * 7 + a.b);
    for (char c : g_viol) loghash((uint64_t) c);
    if (n_nontrivial > nt0) g_distinct.insert(g_loghash);
}
static std::string esc(const std::string &s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) r += ' '; else r += c; }
    return r + "\"";
}
int main(int argc, char **argv) {
    // MODE run SEED FIRST COUNT STRIDE | MODE trace SEED RUN | MODE replay SEED RUN (actions on stdin)
    if (argc < 5) return 3;
    g_mode = argv[1];
    std::string cmd = argv[2];
    uint64_t seed = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    int ncpu = (int) sysconf(_SC_NPROCESSORS_ONLN);
    if (argc > 7) { CPU_SET(atoi(argv[7]) % ncpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    else if (sched_getaffinity(0, sizeof cs, &cs) == 0) { for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs)) { CPU_ZERO(&cs); CPU_SET(i, &cs); break; } sched_setaffinity(0, sizeof cs, &cs); }
    g_stack = (char *) mmap((void *) 0x160000000000ull, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    handlers();
    install(&g_main);
    if (cmd == "run") {
        uint64_t count = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10);
        int viols = 0;
        for (uint64_t i = 0; i < count && viols < 4; i++) {
            uint64_t r = first + i * stride;
            one(seed, r);
            if (i < 3) printf("SAMPLE %lu %s acts=%lu steps=%lu\n", (unsigned long) r, esc(g_desc).c_str(), (unsigned long) g_acts.size(), (unsigned long) g_step);
            if (!g_sig.empty()) { viols++; printf("V %lu %s %s\n", (unsigned long) r, g_sig.c_str(), esc(g_viol).c_str()); fflush(stdout); }
        }
        printf("STATS {\"runs\":%lu,\"nontrivial\":%lu,\"steps\":%lu,\"scribbles\":%lu,\"interrupts\":%lu,\"switches\":%lu,\"agent_writes\":%lu,\"device_accesses\":%lu,\"solo_bad\":%lu,\"distinct\":%lu}\n", n_runs, n_nontrivial, n_steps, n_scribble, n_irq, n_switch, n_agent, n_dev, n_solo_bad, (unsigned long) g_distinct.size());
        return 0;
    }
    if (cmd == "replay") {
        g_explicit = true;
        Act a;
        unsigned long s, x, y;
        char k;
        while (scanf("%lu %c %lu %lu", &s, &k, &x, &y) == 4) { a.step = s; a.kind = k; a.a = x; a.b = y; g_acts.push_back(a); }
    }
    one(seed, first);
    if (cmd == "trace") for (auto &a : g_acts) printf("A %lu %c %lu %lu\n", (unsigned long) a.step, a.kind, (unsigned long) a.a, (unsigned long) a.b);
    printf("DESC %s\n", esc(g_desc).c_str());
    if (!g_sig.empty()) printf("V %lu %s %s\n", (unsigned long) first, g_sig.c_str(), esc(g_viol).c_str());
    printf("HASH %016lx\n", (unsigned long) g_loghash);
    return g_sig.empty() ? 0 : 1;
}
