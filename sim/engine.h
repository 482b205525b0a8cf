// Simulator engine: everything kefir sees of the outside world, and the scenario runner.
#pragma once
#include "sim.h"
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed) {
        for (int i = 0; i < 2; i++) {
            seed += 0x9e3779b97f4a7c15ull;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            s[i] = z ^ (z >> 31);
        }
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1], r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- scenario
enum JobKind { JOB_LIB, JOB_CLI, JOB_ERR, JOB_CONT };
struct Op { int op = 0; int64_t a = 0, b = 0, c = 0; };
struct Job {
    std::string name;
    int kind = JOB_LIB;
    std::map<std::string, std::string> files; // path -> content (main file included)
    std::string main_path;                    // library jobs
    int mode = MODE_ASM, feat = 0;
    bool has_ts = false;
    int64_t ts = 0;
    std::vector<std::string> inc;
    std::string forced;
    std::vector<std::string> argv; // command-line jobs
    bool use_stdin = false;
    std::string stdin_text;
    std::string out_path;  // where the requested output goes ("" = stdout)
    int container = 0;     // JOB_CONT
    std::vector<Op> ops;   // JOB_ERR, JOB_CONT
};
enum FaultKind {
    F_ALLOC,     // a=index (1-based), b=how many consecutive (-1: all from there on)
    F_ALLOCCLASS,// u=class hash, a=occurrence (1-based), b as above
    F_IO,        // s=operation, a=occurrence, b=errno (>0)
    F_CB,        // a=callback kind, b=occurrence, c=code index
    F_CAP,       // output device capacity: s=device ("out"/"err"), a=bytes, b=errno
    F_CLOSE,     // closing the output device fails: b=errno
    F_CHUNK,     // stdin/file reads return at most these sizes: list
    F_CLOCK,     // at clock read number a, the clock becomes b
    F_DAMAGE,    // s=path, a=op, b=pos, c=len, d=value
    F_BUF,       // stdio buffer size a for the output stream
};
struct Fault {
    int kind = 0, job = 0;
    int64_t a = 0, b = 0, c = 0, d = 0;
    uint64_t u = 0;
    std::string s;
    std::vector<int64_t> list;
};
struct Switch { uint64_t at; int to; };
struct Scenario {
    std::string check;   // check (property) that generated it
    uint64_t seed = 0, run = 0;
    std::vector<Job> jobs;
    std::vector<Fault> faults;
    uint64_t heapseed = 0;
    int scribble = 0; // overwrite the dead stack at every block
    int64_t clock = 1700000000; // initial simulated time
    int64_t rate = 0;           // clock ticks per 64k basic blocks
    bool threads = false;
    bool explicit_sched = false;
    uint64_t schedseed = 0, slice = 0;
    int sw = 0; // rendezvous scheduling also stops right after writes to static storage
    int rv = 0; // > 0: rendezvous scheduling, first visits of a block stop the thread with chance rv/10000
    std::vector<Switch> switches; // recorded or explicit
    std::string variant;          // check specific
};

// ---------------------------------------------------------------- results
struct JobOut {
    bool ran = false;
    int code = 0;       // library result or exit status
    bool exited = false;
    std::string out, err;       // device contents
    std::string chain;          // error chain, printed
    std::string chain_key;      // error chain codes/messages without kefir line numbers
    std::vector<int> codes;
    bool fmt_changed = false;
    int cleanup_code = 0;
    std::string cleanup_what;
    uint64_t nalloc = 0, bb = 0, nfree = 0, bytes = 0;
    uint64_t live = 0, live_bytes = 0;
    std::string leak_desc;
    uint64_t foreign = 0;
    std::string foreign_desc;
    int fds = 0, maps = 0, streams = 0;
    std::string fd_desc;
    int faults_fired = 0;
    uint64_t alloc_failed = 0;
    uint64_t out_lost = 0; // bytes refused by the output device
    bool out_failed = false; // some operation on the output device failed
    bool io_failed = false;
    std::vector<std::string> oplog; // file operations
    std::map<int, uint64_t> cbs;
    std::map<std::string, uint64_t> ioc;
    std::vector<std::string> fired;
    std::string model_error; // JOB_ERR, JOB_CONT
    std::vector<int64_t> clock_reads;
    int64_t t0 = 0, t1 = 0;
};
struct ErrSeen { std::string code, message, file, src; unsigned line = 0, sl = 0, sc = 0; bool overflow = false, has_loc = false; };
struct ClassInfo { uint64_t hash; uint64_t first; uint64_t count; };
struct RunOut {
    std::vector<JobOut> jobs;
    uint64_t log_hash = 0, bb = 0, events = 0, switches = 0;
    uint64_t inter_hash = 0;
    bool hang = false;
};

// engine
void engine_init();
RunOut engine_run(Scenario &, bool verbose = false, std::map<uint64_t, ClassInfo> *classes = nullptr, uint64_t bbcap = 0);
extern uint8_t *g_cov;
extern uint32_t g_nguards;
extern bool g_record_classes;
// watch mode (baselines): note every change of the compiler's static storage
extern std::map<uint32_t, std::vector<uint64_t>> *g_watch;
// baseline (fresh process) of a job
struct Baseline {
    int code = 0;
    uint64_t out_hash = 0, out_len = 0, err_hash = 0, chain_hash = 0;
    uint64_t nalloc = 0, bb = 0, bytes = 0;
    std::vector<ClassInfo> classes;
    std::map<int, uint64_t> cbs;
    std::map<std::string, uint64_t> ioc;
    std::vector<int> codes;
    // when the job changed the compiler's own static storage: block the change was seen at -> block counts
    std::map<uint32_t, std::vector<uint64_t>> writes;
};
const Baseline &baseline(const Job &job, int64_t clock = 1700000000);
void baseline_compute_all(const std::vector<Job> &, int workers);
std::string job_key(const Job &, int64_t clock);

// scenario json
std::string scenario_to_json(const Scenario &, const std::string &extra = "");
Scenario scenario_from_json(const std::string &);

// ksim status area (shared with the orchestrator)
struct Status { volatile uint64_t run, done, runs_done; volatile uint64_t log_hash; volatile int state; };
extern Status *g_status;
extern std::string g_last_phase;
