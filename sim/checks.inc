// Checks other than the memory-exhaustion trio. Included by ksim.cpp.

// ---------------------------------------------------------------- helpers
static const char *FEATS[] = {"non-strict-qualifiers", "implicit-function-decl", "missing-function-return-type", "designated-init-colons", "labels-as-values", "empty-structs", "ext-pointer-arithmetics", "missing-braces-subobj", "statement-expressions", "omitted-conditional-operand", "int-to-pointer"};
enum Src { SRC_FILE, SRC_STDIN, SRC_FIFO };
// one run of the command-line compiler on a corpus program
static Job cli_job(const Prog &p, int mode, Src src, bool tofile, bool detailed = false, bool json = false) {
    Job j = lib_job(p, mode, 0);
    j.kind = JOB_CLI;
    j.argv = {"kefir"};
    if (mode == MODE_PP) j.argv.push_back("-p");
    else if (mode == MODE_IR) j.argv.push_back("--dump-ir");
    else if (mode == MODE_AST) j.argv.push_back("--dump-ast");
    else if (mode == MODE_TOKENS) j.argv.push_back("--dump-tokens");
    if (detailed) j.argv.push_back("--detailed-output");
    if (json) j.argv.push_back("--json-errors");
    if (p.feat & FEAT_ALL) for (auto f : FEATS) j.argv.push_back(std::string("--feature-") + f);
    if (p.feat & FEAT_STRICT_ATTR) j.argv.push_back("--feature-fail-on-attributes");
    if (p.feat & FEAT_DEFINES) { j.argv.push_back("-DSIM_DEFINED"); j.argv.push_back("-D"); j.argv.push_back("SIM_VALUE= (1 + 2) "); }
    if (!p.forced.empty()) { j.argv.push_back("--include"); j.argv.push_back(p.forced); }
    for (auto &i : j.inc) { j.argv.push_back("-I"); j.argv.push_back(i); }
    if (j.has_ts) j.argv.push_back("--pp-timestamp=" + N(j.ts));
    j.argv.push_back("--source-id");
    j.argv.push_back("unit.c");
    if (tofile) { j.out_path = "/out/result"; j.argv.push_back("-o"); j.argv.push_back("/out/result"); }
    if (src == SRC_STDIN) { j.use_stdin = true; j.stdin_text = p.text; j.files.erase(j.main_path); }
    else if (src == SRC_FIFO) { j.files["/fifo/main.c"] = p.text; j.files.erase(j.main_path); j.argv.push_back("/fifo/main.c"); }
    else j.argv.push_back(j.main_path);
    j.main_path = "";
    j.mode = 0; j.feat = 0; j.has_ts = false; j.inc.clear(); j.forced = "";
    return j;
}
static std::vector<Job> cli_oom_jobs() {
    std::vector<Job> r;
    for (size_t i = 0; i < progs.size(); i++) {
        if (i % 6 == 1) r.push_back(cli_job(progs[i], MODES[i / 6 % 5], i % 4 == 1 ? SRC_STDIN : i % 4 == 2 ? SRC_FIFO : SRC_FILE, i % 5 == 0, i % 3 == 0, i % 7 == 0));
        else if (i % 18 == 4) { Job j = cli_job(progs[i], i % 36 == 4 ? MODE_TOKENS : MODE_ASM, SRC_FILE, true); j.argv.insert(j.argv.begin() + 1, "--skip-preprocessor"); r.push_back(j); }
        else if (!progs[i].forced.empty() || (progs[i].feat & FEAT_DEFINES)) r.push_back(cli_job(progs[i], MODE_ASM, SRC_FILE, true));
    }
    return r;
}
static Job cli_plain(const std::string &flag) {
    Job j;
    j.kind = JOB_CLI;
    j.name = flag;
    j.argv = {"kefir", flag};
    return j;
}
static bool has_fired(const JobOut &o, const char *prefix) {
    for (auto &f : o.fired) if (f.compare(0, strlen(prefix), prefix) == 0) return true;
    return false;
}
static bool out_is(const JobOut &o, const Baseline &b) { return o.out.size() == b.out_len && hash_bytes(o.out.data(), o.out.size()) == b.out_hash; }
static Fault mkf(int kind, int job, int64_t a = 0, int64_t b = 0, const std::string &s = "", int64_t c = 0, int64_t d = 0) {
    Fault f;
    f.kind = kind; f.job = job; f.a = a; f.b = b; f.c = c; f.d = d; f.s = s;
    return f;
}
template <class T> static const T &pick(Rng &r, const std::vector<T> &v) { return v[r.below(v.size())]; }
static void add_damage(Rng &r, Scenario &s, int job, unsigned maxn) {
    std::vector<std::string> paths;
    for (auto &f : s.jobs[job].files) { paths.push_back(f.first); if (f.first == s.jobs[job].main_path) { paths.push_back(f.first); paths.push_back(f.first); } }
    if (s.jobs[job].use_stdin) paths.push_back("<stdin>");
    if (paths.empty()) return;
    unsigned n = 1 + r.below(maxn);
    for (unsigned i = 0; i < n; i++) {
        std::string p = pick(r, paths);
        const std::string &t = p == "<stdin>" ? s.jobs[job].stdin_text : s.jobs[job].files[p];
        if (t.empty()) continue;
        Fault f = mkf(F_DAMAGE, job);
        f.s = p;
        f.a = (int64_t) r.below(9);
        f.b = (int64_t) r.below(t.size());
        f.c = 1 + (int64_t) r.below(r.chance(1, 2) ? 8 : 64);
        f.d = (int64_t) r.below(r.chance(1, 2) ? 128 : 256);
        if (f.a == 5) f.d = (int64_t) r.below(t.size());
        if (f.a == 8) { static const int around[] = {64, 128, 255, 255, 256, 256, 512, 1024, 2048, 4096}; f.c = around[r.below(10)] - 2 + (int64_t) r.below(5); }
        if (r.chance(1, 4) && (f.a == 2 || f.a == 7)) f.d = "\"'\\\n#(){}[];,<>=*&0x.e+-/%?:u8L\0"[r.below(33)];
        if (f.a == 6 && (f.d == '(' || f.d == '[' || f.d == '{') && f.c > 3) f.c = 3; // nesting depth is outside the property (backtracking parser)
        s.faults.push_back(f);
    }
}
static const std::vector<int> HARD_ERRNO = {EIO, ENOMEM, EMFILE, ENFILE, EACCES, ELOOP, EOVERFLOW};
static void add_io(Rng &r, Scenario &s, int job, const Baseline &b, const std::vector<std::string> &ops, const std::vector<int> &errs) {
    std::vector<std::string> av;
    for (auto &o : ops) if (b.ioc.count(o)) av.push_back(o);
    if (av.empty()) return;
    std::string o = pick(r, av);
    s.faults.push_back(mkf(F_IO, job, 1 + (int64_t) r.below(b.ioc.at(o)), pick(r, errs), o));
}
static const std::vector<std::string> FSOPS = {"realpath", "access", "open", "fstat", "mmap", "stat", "read"};

// ---------------------------------------------------------------- C04 histories
static std::vector<Job> mixed_lib_jobs() {
    std::vector<Job> r;
    for (size_t i = 0; i < progs.size(); i++) {
        r.push_back(lib_job(progs[i], MODE_ASM, i % 4 == 1 ? FEAT_HOOKS : 0));
        r.push_back(lib_job(progs[i], MODES[1 + i % 6], (i % 3 == 0 ? FEAT_DETAILED : 0) | (i % 5 == 2 ? FEAT_HOOKS : 0)));
        if (i % 6 != 1) r.push_back(lib_job(progs[i], i % 4 == 3 ? MODE_IR : MODE_AST, i % 2 ? FEAT_DETAILED : 0));
    }
    return r;
}
static int hard_code(Rng &r) { return ksim_hard_codes[r.below(ksim_n_hard_codes)]; }
static void add_any_fault(Rng &r, Scenario &s, int job, const Baseline &b) {
    switch (r.below(5)) {
        case 0: case 1:
            if (b.nalloc) s.faults.push_back(mkf(F_ALLOC, job, 1 + (int64_t) r.below(b.nalloc), r.chance(3, 4) ? 1 : r.chance(1, 2) ? 2 + (int64_t) r.below(6) : -1));
            break;
        case 2: add_io(r, s, job, b, FSOPS, HARD_ERRNO); break;
        case 3:
            if (!b.cbs.empty()) {
                auto it = b.cbs.begin();
                std::advance(it, r.below(b.cbs.size()));
                s.faults.push_back(mkf(F_CB, job, it->first, 1 + (int64_t) r.below(it->second), "", hard_code(r)));
            } else if (b.nalloc) s.faults.push_back(mkf(F_ALLOC, job, 1 + (int64_t) r.below(b.nalloc), 1));
            break;
        case 4: add_damage(r, s, job, 2); break;
    }
}
struct C04 : Check {
    std::vector<Job> jobs;
    std::vector<Job> base_jobs() override { return mixed_lib_jobs(); }
    void prepare(uint64_t, const std::string &) override { jobs = base_jobs(); }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 36000 : 90000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 4));
        if (run % 97 == 5) { // the same failure over and over: what leaks a little each time runs into its limit
            const Job &j = jobs[r.below(jobs.size())];
            const Baseline &b = baseline(j);
            if (b.code != CRASHED && b.bytes < (4u << 20) && b.nalloc < 8000) {
                unsigned k = std::min<uint64_t>(20 + r.below(60), (100u << 20) / (b.bytes + 1));
                bool exact = r.chance(1, 2);
                for (unsigned i = 0; i < k; i++) s.jobs.push_back(j);
                add_any_fault(r, s, 0, b);
                std::vector<Fault> one = s.faults;
                for (unsigned i = 0; i + 1 < k; i++) {
                    if (i && exact) for (auto f : one) { f.job = (int) i; s.faults.push_back(f); }
                    else if (i) add_any_fault(r, s, (int) i, b);
                }
                return s;
            }
        }
        unsigned n = 2 + r.below(4);
        for (unsigned i = 0; i < n; i++) {
            const Job &j = i > 0 && r.chance(1, 4) ? s.jobs[r.below(i)] : jobs[r.below(jobs.size())];
            const Baseline &b = baseline(j);
            s.jobs.push_back(Job(j));
            if (b.code == CRASHED) { s.jobs.back() = jobs[0]; continue; }
            bool last = i + 1 == n;
            if (!last && r.chance(3, 4)) { add_any_fault(r, s, (int) i, b); if (r.chance(1, 4)) add_any_fault(r, s, (int) i, b); }
        }
        if (r.chance(1, 4)) s.heapseed = r.next() | 2;
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        std::string why;
        for (size_t i = 0; i < s.jobs.size(); i++) {
            bool faulted = false;
            for (auto &f : s.faults) if (f.job == (int) i) faulted = true;
            if (faulted) continue;
            const Baseline &b = baseline(s.jobs[i]);
            if (b.code == CRASHED) continue;
            if (!same_result(s.jobs[i], ro.jobs[i], b, why)) { v.push_back({"history", "compilation " + N(i + 1) + " of the history (" + s.jobs[i].name + ") differs from the same compilation alone: " + why}); return; }
        }
    }
};

// ---------------------------------------------------------------- C03 resources
struct C03 : OomBase { // first every allocation call path, then mixed faults (also several) on valid and invalid programs, with and without hooks
    std::vector<Job> mixed;
    uint64_t sweep = 0;
    std::vector<Job> base_jobs() override {
        std::vector<Job> r = OomBase::base_jobs();
        for (auto &j : mixed_lib_jobs()) r.push_back(j);
        return r;
    }
    void prepare(uint64_t seed, const std::string &tier) override {
        OomBase::prepare(seed, tier);
        mixed = mixed_lib_jobs();
        sweep = OomBase::total(tier);
    }
    uint64_t total(const std::string &tier) override { return sweep + (tier == "quick" ? 25000 : 400000); }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 3 + 3));
        if (run < sweep) { gen_alloc(r, run, s, 0); return s; }
        s.jobs.push_back(mixed[r.below(mixed.size())]);
        const Baseline &b = baseline(s.jobs[0]);
        if (b.code == CRASHED) return s;
        for (unsigned n = 1 + (r.chance(1, 3) ? r.below(3) : 0); n > 0; n--) {
            if (r.chance(1, 2)) add_any_fault(r, s, 0, b);
            else if (r.chance(1, 2)) add_io(r, s, 0, b, FSOPS, HARD_ERRNO);
            else if (r.chance(1, 2)) add_damage(r, s, 0, 2);
            else if (!b.cbs.empty()) { auto it = b.cbs.begin(); std::advance(it, r.below(b.cbs.size())); s.faults.push_back(mkf(F_CB, 0, it->first, 1 + (int64_t) r.below(it->second), "", hard_code(r))); }
        }
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        for (auto &o : ro.jobs) judge_resources(o, v);
    }
};

// ---------------------------------------------------------------- C05 containers
struct C05 : Check {
    std::vector<Job> base_jobs() override { return {}; }
    void prepare(uint64_t, const std::string &) override {}
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 390000 : 5200000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        static const char *names[] = {"list", "linked stack", "vector", "hash tree", "tree", "trie", "string buffer", "symbol table", "block tree", "token buffer", "token sequence", "macro table", "identifier scope"};
        Scenario s;
        Rng r(mix(seed, run * 16 + 5));
        Job j;
        j.kind = JOB_CONT;
        j.container = (int) (run % 13);
        j.name = names[j.container];
        unsigned len = 2 + r.below(r.chance(1, 4) ? 120 : 40);
        unsigned rate = r.below(4); // how often operations run out of memory
        for (unsigned k = 0; k < len; k++) {
            Op o;
            o.op = (int) r.below(240);
            o.a = (int64_t) r.below(65536);
            o.b = (int64_t) r.below(65536);
            if (rate && r.chance(rate, 5)) o.c = 1 + (int64_t) r.below(r.chance(2, 3) ? 4 : 14) + (r.chance(1, 3) ? 16 : 0);
            j.ops.push_back(o);
        }
        s.jobs.push_back(j);
        if (r.chance(1, 3)) s.heapseed = r.next() | 2;
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        if (!ro.jobs[0].model_error.empty()) v.push_back({"model", s.jobs[0].name + ": " + ro.jobs[0].model_error});
        else judge_resources(ro.jobs[0], v);
    }
};

// ---------------------------------------------------------------- C06 output completeness
struct C06 : Check {
    std::vector<Job> jobs;
    std::vector<Job> base_jobs() override {
        std::vector<Job> r;
        for (size_t i = 0; i < progs.size(); i++) {
            r.push_back(cli_job(progs[i], MODE_ASM, SRC_FILE, i % 2 == 0));
            r.push_back(cli_job(progs[i], MODES[1 + i % 4], SRC_FILE, i % 3 == 0, i % 2 == 0, i % 5 == 0));
        }
        for (auto f : {"--help", "--version", "--dump-runtime-code", "-h", "-v"}) for (int k = 0; k < 6; k++) r.push_back(cli_plain(f));
        r.push_back(cli_plain("--no-such-option"));
        return r;
    }
    void prepare(uint64_t, const std::string &) override { jobs = base_jobs(); }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 24000 : 120000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 6));
        s.jobs.push_back(jobs[r.below(jobs.size())]);
        const Baseline &b = baseline(s.jobs[0]);
        if (b.code == CRASHED) return s;
        static const std::vector<int> OE = {ENOSPC, EIO, EPIPE, EFBIG, EDQUOT, EBADF, EINTR, EAGAIN};
        if (r.chance(1, 2)) { static const std::vector<int64_t> bs = {0, 1, 16, 100, 512, 4096, 65536}; s.faults.push_back(mkf(F_BUF, 0, pick(r, bs))); }
        switch (r.below(8)) {
            case 0: case 1: case 2: { // device with limited room: often around the interesting sizes
                int64_t n = (int64_t) b.out_len, a = r.chance(1, 3) ? n - 1 - (int64_t) r.below(4) : r.chance(1, 4) ? (int64_t) r.below(3) : (int64_t) r.below(n + 1);
                s.faults.push_back(mkf(F_CAP, 0, a < 0 ? 0 : a, pick(r, OE), "out"));
                break;
            }
            case 3: s.faults.push_back(mkf(F_CLOSE, 0, 0, pick(r, OE))); break;
            case 4: s.faults.push_back(mkf(F_IO, 0, 1, r.chance(1, 2) ? EACCES : EIO, "fopen-out")); break;
            case 5: s.faults.push_back(mkf(F_IO, 0, 1 + (int64_t) r.below(b.ioc.count("write-out") ? b.ioc.at("write-out") * 2 : 3), pick(r, OE), "write-out")); break;
            case 6: if (b.nalloc) s.faults.push_back(mkf(F_ALLOC, 0, 1 + (int64_t) r.below(b.nalloc), r.chance(1, 2) ? 1 : -1)); break;
            case 7: add_io(r, s, 0, b, FSOPS, {EIO, ENOMEM, EMFILE}); break;
        }
        if (r.chance(1, 10)) s.faults.push_back(mkf(F_CAP, 0, (int64_t) r.below(60), ENOSPC, "err"));
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        const JobOut &o = ro.jobs[0];
        const Baseline &b = baseline(s.jobs[0]);
        if (b.code == CRASHED) return;
        bool errf = false;
        for (auto &f : s.faults) if (f.kind == F_CAP && f.s == "err") errf = true;
        if (o.code == 0) {
            if (b.code != 0) v.push_back({"accepted", "exit status 0 with faults, " + N(b.code) + " without"});
            else if (!out_is(o, b)) v.push_back({"incomplete", "exit status 0 but the output holds " + N(o.out.size()) + " bytes that differ from the complete " + N(b.out_len) + " bytes"});
            else if (has_fired(o, "close") || has_fired(o, "io:close-out")) v.push_back({"close", "closing the output failed but the exit status is 0"});
        } else {
            if (o.err.empty() && !errf) v.push_back({"no-diagnostic", "exit status " + N(o.code) + " without any diagnostic"});
            if (b.code == 0 && o.faults_fired == 0) v.push_back({"spurious", "exit status " + N(o.code) + " although nothing failed"});
        }
    }
};

// ---------------------------------------------------------------- C07 input integrity
struct C07 : Check {
    std::vector<int> usable;
    std::vector<Job> base_jobs() override {
        std::vector<Job> r;
        for (size_t i = 0; i < progs.size(); i++) r.push_back(cli_job(progs[i], mode_of(i), SRC_FILE, false));
        return r;
    }
    static int mode_of(size_t i) { static const int m[] = {MODE_PP, MODE_TOKENS, MODE_ASM}; return m[i % 3]; }
    void prepare(uint64_t, const std::string &) override {
        auto js = base_jobs();
        for (size_t i = 0; i < progs.size(); i++) if (baseline(js[i]).code != CRASHED) usable.push_back((int) i);
    }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 5000 : 60000; }
    Job ref(const Job &j) { // the same bytes from a plain file, read without trouble
        Job k = j;
        std::string t = j.use_stdin ? j.stdin_text : "";
        if (j.files.count("/fifo/main.c")) { t = j.files.at("/fifo/main.c"); k.files.erase("/fifo/main.c"); k.argv.pop_back(); }
        else if (!j.use_stdin) return k;
        k.use_stdin = false;
        k.stdin_text = "";
        k.files["/src/main.c"] = t;
        k.argv.push_back("/src/main.c");
        return k;
    }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 7));
        int i = pick(r, usable);
        Prog p = progs[i];
        Src src = r.chance(1, 2) ? SRC_STDIN : r.chance(1, 3) ? SRC_FIFO : SRC_FILE;
        int mode = mode_of(i);
        if (r.chance(2, 3)) { // synthetic text whose length and content straddle buffer boundaries
            size_t want = r.chance(2, 3) ? (1 + r.below(12)) * 256 + (size_t) r.below(5) - 2 : 1 + r.below(6000);
            if (r.chance(1, 40)) want = (1 + r.below(8)) * 4096 + (size_t) r.below(5) - 2;
            if (r.chance(1, 100)) // beyond any buffer of a fixed size
                want = r.chance(1, 2) ? (1 + r.below(2)) * 65536 + (size_t) r.below(5) - 2 : 20000 + r.below(120000);
            std::string t;
            for (int k = 0; t.size() < want; k++) {
                if (want > 6000) t += "/*" + std::string(1 + r.below(3000), '.') + "*/\n";
                t += "int v" + N(k) + "_" + N((int64_t) r.below(100000)) + "=" + N((int64_t) r.below(1000)) + ";\n";
            }
            std::string tail = r.chance(1, 2) ? "int tail;" : "";
            t.resize(want > tail.size() ? want - tail.size() : 0);
            p.text = t + tail; // cut anywhere: may be invalid, which is fine (the reference is compiled too)
            p.feat = 0; p.forced = ""; p.dated = false; p.name = "synthetic";
            if (r.chance(1, 30)) p.text = "";
            mode = r.chance(3, 4) ? MODE_PP : MODE_TOKENS;
        }
        bool marked = r.chance(1, 5), inhdr = marked && r.chance(1, 3);
        if (marked) { // bytes that are no text: refusing them is fine, silently ending the text there is not
            static const std::vector<std::string> pieces = {"int v%;\n", "// note %\n", "/* multi\n line % */\n", "#define M% % + 1\n", "#if 0\nint no%;\n#endif\n", "#ifdef M0\nint yes%;\n#endif\n", "char *s% = \"text %\";\n", "int c% = 'x';\n", "#undef M%\n", "int f%(int a) { return a + %; }\n", "\n", "#\n", "int cont\\\ninued%;\n", "#pragma thing %\n", "int w%[] = { 1, 2,\n  % };\n", "   \t "};
            std::string t;
            for (unsigned k = 1 + r.below(12), i2 = 0; i2 < k; i2++) { std::string x = pick(r, pieces); for (size_t q; (q = x.find('%')) != std::string::npos;) x.replace(q, 1, N(i2)); t += x; }
            for (unsigned k = 1 + r.below(2); k > 0; k--) t.insert(r.below(t.size() + 1), 1, r.chance(1, 3) ? '\0' : (char) (128 + r.below(128)));
            t += "\nint ksim_tail_marker;\n";
            p = Prog();
            p.feat = 0; p.name = "marked";
            p.bad = p.dated = p.small = false;
            p.text = inhdr ? "int first;\n#include <marked.h>\nint last;\n" : t;
            mode = r.chance(1, 2) ? MODE_PP : r.chance(1, 2) ? MODE_TOKENS : MODE_ASM;
            Job j = cli_job(p, mode, src, r.chance(1, 4));
            if (inhdr) j.files["/inc/marked.h"] = t;
            s.variant = "marked";
            s.jobs.push_back(j);
        } else
        s.jobs.push_back(cli_job(p, mode, src, r.chance(1, 4)));
        const Job &j = s.jobs[0];
        size_t len = p.text.size();
        std::string rd = src == SRC_STDIN ? "read-in" : "read";
        if (src != SRC_FILE) {
            if (r.chance(4, 5)) {
                Fault f = mkf(F_CHUNK, 0);
                unsigned n = 1 + r.below(8);
                for (unsigned k = 0; k < n; k++) f.list.push_back(r.chance(1, 4) ? 1 : r.chance(1, 4) ? 255 + (int64_t) r.below(3) : r.chance(1, 5) ? 1 + (int64_t) r.below(70000) : 1 + (int64_t) r.below(256));
                s.faults.push_back(f);
            }
            int64_t reads = (int64_t) len / 100 + 4;
            for (unsigned k = r.below(4); k > 0; k--) s.faults.push_back(mkf(F_IO, 0, 1 + (int64_t) r.below(reads), EINTR, rd));
            if (r.chance(1, 4)) s.faults.push_back(mkf(F_IO, 0, 1 + (int64_t) r.below(reads), r.chance(1, 2) ? EIO : EAGAIN, rd));
        } else {
            const Baseline &b = baseline(j);
            if (b.code != CRASHED && r.chance(2, 3)) add_io(r, s, 0, b, {"open", "fstat", "mmap", "read", "stat", "access", "realpath"}, {EIO, ENOMEM, EMFILE, ENFILE, EOVERFLOW, EACCES});
        }
        if (r.chance(1, 6)) s.faults.push_back(mkf(F_ALLOC, 0, 1 + (int64_t) r.below(200), r.chance(1, 2) ? 1 : 3));
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        const JobOut &o = ro.jobs[0];
        const Baseline &b = baseline(ref(s.jobs[0]));
        if (b.code == CRASHED) return;
        if (s.variant == "marked" && o.code == 0 && o.out.find("ksim_tail_marker") == std::string::npos) { v.push_back({"shortened", "exit status 0, but the text after a byte that is no text was dropped"}); return; }
        bool hard = false, fsf = false;
        for (auto &f : o.fired) {
            if (f.compare(0, 3, "io:") == 0 && f.find("=" + std::to_string(EINTR)) == std::string::npos) hard = true;
            if (f.compare(0, 5, "alloc") == 0) hard = true;
            if (f == "io:realpath=" + std::to_string(EACCES) || f == "io:access=" + std::to_string(EACCES)) fsf = true;
        }
        if (fsf) return; // permission errors while probing include candidates: see C08
        if (o.code == 0 || !hard) {
            if (o.code != b.code) v.push_back({"status", "exit status " + N(o.code) + "; the same bytes from a file give " + N(b.code)});
            else if (!out_is(o, b)) v.push_back({"text", "the output differs from compiling a file with the same bytes (" + N(o.out.size()) + " bytes instead of " + N(b.out_len) + ")"});
        } else if (o.err.empty()) v.push_back({"no-diagnostic", "exit status " + N(o.code) + " without any diagnostic"});
    }
};

// ---------------------------------------------------------------- C08 include search
struct C08 : Check {
    void prepare(uint64_t, const std::string &) override {}
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 9000 : 120000; }
    // markers are identifiers M_<n>; each header holds one marker line followed by nested includes
    struct Inc { std::string name; bool sys; };
    static std::vector<Inc> includes_of(const std::string &text) {
        std::vector<Inc> r;
        std::istringstream is(text);
        std::string l;
        while (std::getline(is, l)) {
            size_t k = l.find("#include ");
            if (k == std::string::npos) continue;
            char c = l[k + 9];
            size_t e = l.find(c == '<' ? '>' : '"', k + 10);
            r.push_back({l.substr(k + 10, e - k - 10), c == '<'});
        }
        return r;
    }
    static std::string norm_path(const std::string &cwd, const std::string &p) {
        std::string s = p.empty() || p[0] != '/' ? cwd + "/" + p : p, r;
        std::vector<std::string> st;
        std::istringstream is(s);
        std::string c;
        while (std::getline(is, c, '/')) {
            if (c == "..") { if (!st.empty()) st.pop_back(); }
            else if (!c.empty() && c != ".") st.push_back(c);
        }
        for (auto &x : st) r += "/" + x;
        return r;
    }
    static std::string dir_of(const std::string &p) { return p.substr(0, p.rfind('/')); }
    // reference model: text expansion in document order; false if some include resolves to nothing
    static bool expand(const Job &j, const std::vector<std::string> &roots, const std::string &path, const std::string &dir, const std::string &text, std::string &out, int depth) {
        if (depth > 12) return false;
        std::istringstream is(text);
        std::string l;
        while (std::getline(is, l)) {
            if (l.compare(0, 9, "#include ") != 0) { if (!l.empty()) out += l + "\n"; continue; }
            Inc i = includes_of(l + "\n")[0];
            std::string t;
            if (!resolve(j, roots, dir, i, t)) return false;
            if (!expand(j, roots, t, dir_of(t), j.files.at(t), out, depth + 1)) return false;
        }
        return true;
    }
    static bool resolve(const Job &j, const std::vector<std::string> &roots, const std::string &dir, const Inc &i, std::string &out) {
        std::vector<std::string> cand;
        if (!i.sys && !dir.empty()) cand.push_back(norm_path(dir, i.name));
        for (auto &x : roots) cand.push_back(norm_path("/src", x + "/" + i.name));
        cand.push_back(norm_path("/src", i.name));
        for (auto &c : cand) if (j.files.count(c)) { out = c; return true; }
        return false;
    }
    static bool model(const Job &j, std::string &out) {
        std::vector<std::string> roots, forced;
        std::string in;
        for (size_t i = 1; i < j.argv.size(); i++) {
            if (j.argv[i] == "-I") roots.push_back(j.argv[++i]);
            else if (j.argv[i] == "--include") forced.push_back(j.argv[++i]);
            else if (j.argv[i] == "-o") i++;
            else if (j.argv[i][0] != '-') in = j.argv[i];
        }
        for (auto &f : forced) {
            std::string t;
            if (!resolve(j, roots, "", {f, false}, t)) return false;
            if (!expand(j, roots, t, dir_of(t), j.files.at(t), out, 1)) return false;
        }
        if (in.empty()) return expand(j, roots, "", "", j.stdin_text, out, 0);
        std::string p = norm_path("/src", in);
        return expand(j, roots, p, dir_of(p), j.files.at(p), out, 0);
    }
    static std::string words(const std::string &t) {
        std::string r;
        std::istringstream is(t);
        std::string w;
        while (is >> w) r += w;
        return r;
    }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 8));
        Job j;
        j.kind = JOB_CLI;
        j.name = "include layout";
        j.argv = {"kefir", "-p"};
        static const std::vector<std::string> DIRS = {"/src", "/src/sub", "/i1", "/i2", "/i3", "/i1/sub", "/i2/sub", "/deep/a/b"};
        static const std::vector<std::string> NAMES = {"a.h", "b.h", "c.h", "d.h", "e.h", "sub/a.h", "sub/c.h"};
        int marker = 0;
        unsigned nroots = r.below(4);
        std::vector<std::string> rt = {"/i1", "/i2", "/i3", "sub", "/missing", "../i2", "/deep/a/b", "/deep/a/../a/b", "."};
        std::vector<std::string> roots;
        for (unsigned i = 0; i < nroots; i++) roots.push_back(pick(r, rt));
        // a.h may include b.h.., b.h c.h.. : acyclic by name
        auto body = [&](int level) {
            std::string t = "M_" + N(marker++) + ";\n";
            unsigned n = level >= 4 ? 0 : r.below(3);
            for (unsigned k = 0; k < n; k++) {
                int to = level + 1 + (int) r.below(4 - level);
                std::string nm = NAMES[to];
                if (to == 2 && r.chance(1, 3)) nm = "sub/c.h";
                if (r.chance(1, 8)) nm = "./" + nm;
                bool sys = r.chance(1, 3);
                t += std::string("#include ") + (sys ? "<" : "\"") + nm + (sys ? ">" : "\"") + "\n";
                if (r.chance(1, 2)) t += "M_" + N(marker++) + ";\n";
            }
            return t;
        };
        unsigned density = 2 + r.below(5);
        for (auto &d : DIRS)
            for (int k = 0; k < 5; k++)
                if (r.chance(density, 8)) j.files[d + "/" + NAMES[k]] = r.chance(1, 20) ? std::string("") : body(k);
        std::string main;
        for (unsigned n = 1 + r.below(4), k = 0; k < n; k++) {
            int to = (int) r.below(5);
            std::string nm = r.chance(1, 5) ? (r.chance(1, 2) ? "sub/a.h" : "sub/c.h") : NAMES[to];
            if (r.chance(1, 12)) nm = "/i2/b.h";
            bool sys = r.chance(1, 3);
            main += std::string("#include ") + (sys ? "<" : "\"") + nm + (sys ? ">" : "\"") + "\nM_" + N(marker++) + ";\n";
        }
        for (auto &x : roots) { j.argv.push_back("-I"); j.argv.push_back(x); }
        if (r.chance(1, 3)) { j.argv.push_back("--include"); j.argv.push_back(r.chance(1, 3) ? "sub/a.h" : NAMES[r.below(5)]); }
        unsigned k = r.below(6);
        if (k == 0) { j.use_stdin = true; j.stdin_text = main; }
        else if (k == 1) { j.files["/src/main.c"] = main; j.argv.push_back("main.c"); }
        else if (k == 2) { j.files["/src/sub/main.c"] = main; j.argv.push_back("sub/main.c"); }
        else if (k == 3) { j.files["/deep/a/b/main.c"] = main; j.argv.push_back("/deep/a/b/main.c"); }
        else { j.files["/src/main.c"] = main; j.argv.push_back("/src/main.c"); }
        s.jobs.push_back(j);
        if (r.chance(2, 3)) {
            // the operations of the fault-free run, so that faults land on real probes
            const Baseline &b = baseline(j);
            if (b.code != CRASHED) {
                unsigned n = 1 + (r.chance(1, 4) ? 1 : 0);
                for (unsigned q = 0; q < n; q++) add_io(r, s, 0, b, {"realpath", "access", "open", "fstat", "mmap", "stat"}, {EIO, ENOMEM, EMFILE, ENFILE, EOVERFLOW});
            }
        }
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        const JobOut &o = ro.jobs[0];
        std::string want;
        bool ok = model(s.jobs[0], want);
        if (o.code == 0) {
            if (!ok) v.push_back({"found", "an include that resolves to nothing was accepted"});
            else if (words(o.out) != words(want)) v.push_back({"resolution", "included text differs from the first existing candidates: got \"" + words(o.out).substr(0, 200) + "\" expected \"" + words(want).substr(0, 200) + "\""});
        } else {
            if (ok && o.faults_fired == 0) v.push_back({"notfound", "every include has a candidate but the run failed: " + o.err.substr(0, 300)});
            if (o.err.empty()) v.push_back({"no-diagnostic", "exit status " + N(o.code) + " without any diagnostic"});
        }
    }
};

// ---------------------------------------------------------------- C09 one instant
struct C09 : Check {
    void prepare(uint64_t, const std::string &) override {}
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 6000 : 80000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 9));
        // sometimes two compilations follow each other in one process
        unsigned njobs = r.chance(1, 3) ? 2 : 1;
        for (unsigned ji = 0; ji < njobs; ji++) s.variant += one(r, s) + ";";
        // start close to a midnight or an hour so that any second reading shows
        int64_t day = (int64_t) r.below(20000);
        s.clock = day * 86400 + (r.chance(1, 2) ? 86399 : (int64_t) r.below(86400));
        if (r.chance(2, 3)) s.rate = 1 + (int64_t) r.below(3);
        for (unsigned ji = 0; ji < njobs; ji++)
            for (unsigned k = r.below(4); k > 0; k--) s.faults.push_back(mkf(F_CLOCK, (int) ji, 1 + (int64_t) r.below(4), s.clock + r.range(-200000, 200000)));
        return s;
    }
    static std::string one(Rng &r, Scenario &s) {
        bool cli = r.chance(1, 2);
        std::string main, h1, h2, hf;
        int n = 0;
        bool early = false;
        auto use = [&](std::string &t) {
            for (unsigned k = 1 + r.below(4); k > 0; k--) {
                unsigned q = r.below(early ? 3 : 4);
                std::string m = q == 0 ? "__DATE__" : q == 1 ? "__TIME__" : q == 2 ? "__DATE__ \" \" __TIME__" : "STAMP";
                t += "const char *s" + N(n++) + " = " + m + ";\n";
            }
        };
        main = "#define STAMP __TIME__\n";
        if (r.chance(1, 3)) { early = true; use(hf); early = false; }
        use(main);
        if (r.chance(2, 3)) { main += "#include \"h1.h\"\n"; use(h1); if (r.chance(1, 2)) { h1 += "#include \"h2.h\"\n"; use(h2); use(h1); } }
        for (unsigned k = r.below(20); k > 0; k--) main += "int filler" + N(n++) + "(int a) { return a * " + N((int64_t) r.below(100)) + "; }\n";
        use(main);
        static const std::vector<int> ms = {MODE_PP, MODE_TOKENS, MODE_AST, MODE_PP, MODE_ASM};
        int mode = pick(r, ms);
        bool over = r.chance(1, 3);
        int64_t ts = over ? (r.chance(1, 4) ? 0 : r.chance(1, 4) ? (int64_t) r.below(2) * 86399 : (int64_t) r.below(4000000000u)) : 0;
        Prog p;
        p.name = "stamped"; p.text = main; p.feat = 0; p.bad = p.dated = p.small = false;
        if (mode == MODE_PP) hf = ""; // kefir refuses keywords from a forced include when it only preprocesses
        if (!hf.empty()) p.forced = "hf.h";
        Job j = cli ? cli_job(p, mode, r.chance(1, 4) ? SRC_STDIN : SRC_FILE, false) : lib_job(p, mode);
        j.files["/inc/h1.h"] = h1;
        j.files["/inc/h2.h"] = h2;
        if (!hf.empty()) j.files["/inc/hf.h"] = hf;
        if (over) {
            if (cli) j.argv.insert(j.argv.begin() + 1, "--pp-timestamp=" + N(ts));
            else { j.has_ts = true; j.ts = ts; }
        }
        s.jobs.push_back(j);
        return over ? "override:" + N(ts) : "clock";
    }
    static bool scan(const std::string &t, std::vector<std::string> &dates, std::vector<std::string> &times) {
        static const char *mon = "JanFebMarAprMayJunJulAugSepOctNovDec";
        auto dg = [&](size_t i) { return i < t.size() && t[i] >= '0' && t[i] <= '9'; };
        for (size_t i = 0; i + 8 <= t.size(); i++) {
            if (i + 11 <= t.size() && t[i + 3] == ' ' && t[i + 6] == ' ' && (t[i + 4] == ' ' || dg(i + 4)) && dg(i + 5) && dg(i + 7) && dg(i + 8) && dg(i + 9) && dg(i + 10)) {
                std::string m = t.substr(i, 3);
                const char *q = strstr(mon, m.c_str());
                if (q && (q - mon) % 3 == 0) dates.push_back(t.substr(i, 11));
            }
            if (t[i + 2] == ':' && t[i + 5] == ':' && dg(i) && dg(i + 1) && dg(i + 3) && dg(i + 4) && dg(i + 6) && dg(i + 7)) times.push_back(t.substr(i, 8));
        }
        return true;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        std::istringstream vs(s.variant);
        std::string var;
        for (size_t i = 0; i < ro.jobs.size() && v.empty() && std::getline(vs, var, ';'); i++) judge1(s, var, ro.jobs[i], v);
    }
    void judge1(const Scenario &s, const std::string &variant, const JobOut &o, std::vector<Verdict> &v) {
        if (o.code != 0) { v.push_back({"failed", "compilation of a valid program failed: " + o.chain_key.substr(0, 200) + o.err.substr(0, 200)}); return; }
        std::vector<std::string> d, t;
        scan(o.out, d, t);
        for (auto &x : d) if (x != d[0]) { v.push_back({"two-dates", "one compilation shows " + d[0] + " and " + x}); return; }
        for (auto &x : t) if (x != t[0]) { v.push_back({"two-times", "one compilation shows " + t[0] + " and " + x}); return; }
        if (t.empty() && d.empty()) { v.push_back({"missing", "no expansion found in the output"}); return; }
        // which instants fit?
        int64_t lo = s.clock, hi = s.clock;
        auto inc = [&](int64_t x) { if (x < lo) lo = x; if (x > hi) hi = x; };
        inc(o.t0);
        inc(o.t1);
        std::vector<int64_t> cand = o.clock_reads;
        bool over = variant.compare(0, 9, "override:") == 0;
        if (over) { cand = {strtoll(variant.c_str() + 9, 0, 10)}; }
        bool fit = false;
        for (int64_t c : cand) {
            time_t tt = c;
            struct tm tm;
            gmtime_r(&tt, &tm);
            char db[64], tb[64];
            strftime(db, sizeof db, "%b %e %Y", &tm);
            strftime(tb, sizeof tb, "%H:%M:%S", &tm);
            if ((d.empty() || d[0] == db) && (t.empty() || t[0] == tb)) fit = true;
        }
        if (!fit) v.push_back({"instant", std::string("the expansions (") + (d.empty() ? "" : d[0]) + " " + (t.empty() ? "" : t[0]) + ") denote " + (over ? "something other than the override" : "no instant the clock showed during the compilation")});
    }
};

// ---------------------------------------------------------------- C10 determinism
struct C10 : Check {
    std::vector<Job> jobs;
    std::vector<Job> base_jobs() override {
        std::vector<Job> r = mixed_lib_jobs();
        for (size_t i = 0; i < progs.size(); i += 2) r.push_back(cli_job(progs[i], MODES[(i / 2) % 5], i % 3 == 0 ? SRC_STDIN : SRC_FILE, false, i % 4 == 0, i % 8 == 0));
        return r;
    }
    void prepare(uint64_t, const std::string &) override { jobs = base_jobs(); }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 36000 : 90000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 10));
        s.jobs.push_back(jobs[run < jobs.size() ? run : r.below(jobs.size())]);
        s.heapseed = r.next() | 2;
        s.scribble = r.chance(1, 3);
        s.clock = (int64_t) r.below(4000000000u);
        s.rate = (int64_t) r.below(3);
        const Job &j = s.jobs[0];
        if (j.use_stdin) { Fault f = mkf(F_CHUNK, 0); for (int k = 0; k < 4; k++) f.list.push_back(1 + (int64_t) r.below(256)); s.faults.push_back(f); }
        if (j.kind == JOB_CLI && r.chance(1, 2)) s.faults.push_back(mkf(F_BUF, 0, (int64_t) r.below(9000)));
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        std::string why;
        const Baseline &b = baseline(s.jobs[0]);
        if (b.code != CRASHED && !same_result(s.jobs[0], ro.jobs[0], b, why)) v.push_back({"nondeterministic", s.jobs[0].name + " with another heap layout, memory contents and clock: " + why});
    }
};

// ---------------------------------------------------------------- C11 concurrent compilations
// the same program in other words: more lines, other identifiers, other string contents
static std::string twin_text(const std::string &t, int lines) {
    static const std::set<std::string> keep = {"auto","break","case","char","const","continue","default","do","double","else","enum","extern","float","for","goto","if","inline","int","long","register","restrict","return","short","signed","sizeof","static","struct","switch","typedef","union","unsigned","void","volatile","while","_Alignas","_Alignof","_Atomic","_Bool","_Complex","_Generic","_Imaginary","_Noreturn","_Static_assert","_Thread_local","defined","asm","once","_Pragma"};
    auto idc = [](char c) { return isalnum((unsigned char) c) || c == '_'; };
    std::string r(lines, '\n');
    bool bol = true, raw = false;
    for (size_t i = 0; i < t.size();) {
        char c = t[i];
        if (c == '\n') { bol = true; raw = false; r += c; i++; continue; }
        if (raw) { r += c; i++; continue; }
        if (c == '/' && i + 1 < t.size() && (t[i + 1] == '/' || t[i + 1] == '*')) {
            bool line = t[i + 1] == '/';
            size_t e = line ? t.find('\n', i) : t.find("*/", i + 2);
            if (e == std::string::npos) e = t.size(); else if (!line) e += 2;
            r += t.substr(i, e - i); i = e; continue;
        }
        if (bol && c == '#') {
            size_t e = i + 1;
            while (e < t.size() && (t[e] == ' ' || t[e] == '\t')) e++;
            size_t b = e;
            while (e < t.size() && idc(t[e])) e++;
            std::string d = t.substr(b, e - b);
            r += t.substr(i, e - i); i = e; bol = false;
            if (d == "include" || d == "pragma" || d == "error" || d == "line") raw = true;
            continue;
        }
        if (c != ' ' && c != '\t') bol = false;
        if (c == '"' || c == '\'') {
            r += c; i++;
            while (i < t.size() && t[i] != c && t[i] != '\n') {
                if (t[i] == '\\' && i + 1 < t.size()) { r += t[i++]; bool hex = t[i] == 'x' || t[i] == 'u' || t[i] == 'U'; r += t[i++]; while (i < t.size() && (hex ? isxdigit((unsigned char) t[i]) : isdigit((unsigned char) t[i]))) r += t[i++]; continue; }
                r += c == '"' && t[i] >= 'a' && t[i] < 'z' && t[i - 1] != '%' ? (char) (t[i] + 1) : t[i];
                i++;
            }
            if (i < t.size()) r += t[i++];
            continue;
        }
        if (isdigit((unsigned char) c)) {
            while (i < t.size() && (idc(t[i]) || t[i] == '.' || ((t[i] == '+' || t[i] == '-') && strchr("eEpP", t[i - 1])))) r += t[i++];
            continue;
        }
        if (idc(c)) {
            size_t e = i;
            while (e < t.size() && idc(t[e])) e++;
            std::string w = t.substr(i, e - i);
            bool quote = e < t.size() && (t[e] == '"' || t[e] == '\'') && w.size() <= 2;
            r += w;
            if (!quote && !keep.count(w) && w.compare(0, 2, "__") != 0 && w.compare(0, 4, "SIM_") != 0) r += 'q';
            i = e;
            continue;
        }
        r += c; i++;
    }
    return r;
}
struct C11 : Check {
    std::vector<Job> jobs;
    std::vector<int> small;
    std::vector<int> twin; // index of the twin job
    std::map<uint32_t, std::vector<int>> writers; // place that changes static storage -> jobs that pass it
    std::vector<Job> base_jobs() override {
        std::vector<Job> r = mixed_lib_jobs();
        size_t n = r.size();
        for (size_t i = 0; i < n; i++) { Job j = r[i]; j.name += "+twin"; j.files[j.main_path] = twin_text(j.files[j.main_path], 3 + (int) (i * 7 % 41)); r.push_back(j); }
        return r;
    }
    void prepare(uint64_t, const std::string &) override {
        jobs = base_jobs();
        size_t n = jobs.size() / 2;
        for (size_t i = 0; i < jobs.size(); i++) {
            const Baseline &b = baseline(jobs[i]);
            size_t o = i < n ? i + n : i - n;
            twin.push_back(b.code == baseline(jobs[o]).code ? (int) o : (int) i);
            if (b.code != CRASHED && b.bb < 400000) small.push_back((int) i);
            if (b.code != CRASHED) for (auto &w : b.writes) writers[w.first].push_back((int) i);
        }
        for (auto &w : writers) places.push_back(w.first);
    }
    std::vector<uint32_t> places;
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 18000 : 500000; }
    // Directed schedules. Where a compilation alone is seen to change the compiler's static storage, stop it around
    // that place, bring another one to such a place too (or through it), and let the first go on, a few times over.
    Scenario hunt(Rng &r) {
        Scenario s;
        s.threads = s.explicit_sched = true;
        uint32_t g = pick(r, places);
        auto &wa = writers[g];
        int a = pick(r, wa), b;
        if (r.chance(1, 2)) b = twin[a];
        else if (r.chance(1, 3)) b = a;
        else if (r.chance(1, 2)) b = pick(r, wa);
        else b = (int) r.below(jobs.size());
        if (baseline(jobs[b]).code == CRASHED) b = a;
        int id[2] = {a, b};
        auto near = [&](int k, uint64_t from) -> uint64_t { // a place of job k around a change, after 'from'
            const Baseline &bl = baseline(jobs[id[k]]);
            if (bl.writes.empty()) return from + 1 + r.below(bl.bb > from ? bl.bb - from : 1);
            uint64_t at;
            auto it = bl.writes.find(g);
            if (it == bl.writes.end() || r.chance(1, 4)) { it = bl.writes.begin(); std::advance(it, r.below(bl.writes.size())); }
            at = it->second[r.below(it->second.size())];
            if (at <= from) for (auto x : it->second) if (x > from) { at = x; break; }
            unsigned w = r.below(4);
            if (w == 0) at += r.below(4); else if (w == 1) at += r.below(40); else if (w == 2) { uint64_t d = r.below(10); at = at > d ? at - d : 0; }
            return at > from ? at : from + 1 + r.below(30);
        };
        uint64_t pos[2] = {0, 0};
        unsigned k = 0, legs = 2 + r.below(5);
        for (unsigned i = 0; i < legs; i++) {
            uint64_t to = i >= 2 && r.chance(1, 3) ? pos[k] + 1 + r.below(60) : near((int) k, pos[k]);
            if (i && r.chance(1, 5)) to = baseline(jobs[id[k]]).bb + 1000000;
            pos[k] = to;
            k ^= 1;
            s.switches.push_back({pos[0] + pos[1], (int) k});
        }
        s.jobs.push_back(jobs[a]);
        s.jobs.push_back(jobs[b]);
        s.schedseed = r.next();
        s.slice = 1;
        return s;
    }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 11));
        if (!places.empty() && r.chance(1, 2)) return hunt(r);
        s.threads = true;
        unsigned n = 2 + (r.chance(1, 3) ? r.below(3) : 0);
        uint64_t bb = 0;
        int first = 0;
        for (unsigned i = 0; i < n; i++) {
            int k = small.empty() || r.chance(1, 6) ? (int) r.below(jobs.size()) : pick(r, small);
            if (i > 0 && r.chance(1, 2)) k = twin[first];
            else if (i > 0 && r.chance(1, 5)) k = first;
            if (baseline(jobs[k]).code == CRASHED) k = small[0];
            if (i == 0) first = k;
            const Job &j = jobs[k];
            bb += baseline(j).bb;
            s.jobs.push_back(j);
            if (r.chance(1, 8)) add_any_fault(r, s, (int) i, baseline(j));
        }
        s.schedseed = r.next();
        static const std::vector<uint64_t> targets = {30, 150, 600, 2500};
        s.slice = bb / pick(r, targets) + 1;
        static const std::vector<int> rvs = {100, 400, 1500, 100, 400, 1500, 100, 400, 1500, 6000};
        if (r.chance(3, 4)) { s.rv = pick(r, rvs); s.sw = r.chance(1, 2); }
        if (r.chance(1, 4)) s.heapseed = r.next() | 2;
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        std::string why;
        for (size_t i = 0; i < s.jobs.size(); i++) {
            bool faulted = false;
            for (auto &f : s.faults) if (f.job == (int) i) faulted = true;
            const Baseline &b = baseline(s.jobs[i]);
            if (faulted || b.code == CRASHED) continue;
            if (!same_result(s.jobs[i], ro.jobs[i], b, why)) { v.push_back({"interference", "thread " + N(i) + " (" + s.jobs[i].name + ") differs from the same compilation alone: " + why}); return; }
        }
    }
    uint64_t sig(const Scenario &, const RunOut &r) override { return mix(r.inter_hash, r.log_hash); }
};

// ---------------------------------------------------------------- C12 error chain
struct C12 : Check {
    std::vector<Job> base_jobs() override { return {}; }
    void prepare(uint64_t, const std::string &) override {}
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 40000 : 1500000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 12));
        unsigned n = 1 + r.below(4);
        s.threads = n > 1;
        for (unsigned i = 0; i < n; i++) {
            Job j;
            j.kind = JOB_ERR;
            j.name = "history";
            unsigned len = 3 + r.below(r.chance(1, 3) ? 90 : 25);
            unsigned style = r.below(4); // mixed, mostly raising, warnings between errors, print-heavy
            for (unsigned k = 0; k < len; k++) {
                Op o;
                unsigned x = r.below(100);
                if (style == 1) o.op = x < 90 ? (int) r.below(5) : x < 92 ? 5 : 6 + (int) r.below(3);
                else if (style == 3) o.op = x < 50 ? (int) r.below(5) : x < 60 ? 5 : 6 + (int) r.below(3);
                else o.op = x < 75 ? (int) r.below(5) : x < 83 ? 5 : 6 + (int) r.below(3);
                o.a = style == 2 && r.chance(1, 2) ? 2 + (int64_t) r.below(5) : (int64_t) r.below(26 * 40);
                o.b = (int64_t) r.below(4096);
                o.c = (int64_t) r.below(4096);
                j.ops.push_back(o);
            }
            s.jobs.push_back(j);
            if (r.chance(1, 3)) s.faults.push_back(mkf(F_CAP, (int) i, (int64_t) r.below(4000), r.chance(1, 2) ? ENOSPC : EIO, "out"));
            if (r.chance(1, 3)) s.faults.push_back(mkf(F_BUF, (int) i, (int64_t) r.below(600)));
        }
        s.schedseed = r.next();
        s.slice = 1 + r.below(r.chance(1, 2) ? 12 : 200);
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        for (size_t i = 0; i < ro.jobs.size(); i++)
            if (!ro.jobs[i].model_error.empty()) { v.push_back({"model", "thread " + N(i) + ", " + ro.jobs[i].model_error}); return; }
    }
    uint64_t sig(const Scenario &, const RunOut &r) override { return mix(r.inter_hash, r.log_hash); }
};

// ---------------------------------------------------------------- C13 failing callbacks
struct C13 : Check {
    std::vector<Job> jobs;
    std::map<int, std::vector<std::pair<int, uint64_t>>> kinds; // callback kind -> (job, invocations)
    std::vector<Job> base_jobs() override {
        std::vector<Job> r;
        for (size_t i = 0; i < progs.size(); i++) {
            int m = i % 3 == 0 && !(progs[i].feat & FEAT_EXTNODE) ? MODES[1 + (i / 3) % 6] : MODE_ASM;
            r.push_back(lib_job(progs[i], m, FEAT_HOOKS));
            r.push_back(lib_job(progs[i], m));
            if (progs[i].name.find("lexbad") != std::string::npos)
                for (int m2 : {MODE_LEXONLY, MODE_RAWPARSE, MODE_PP}) { r.push_back(lib_job(progs[i], m2, FEAT_HOOKS)); r.push_back(lib_job(progs[i], m2)); }
        }
        return r;
    }
    void prepare(uint64_t, const std::string &) override {
        jobs = base_jobs();
        for (size_t i = 0; i < jobs.size(); i += 2) for (auto &c : baseline(jobs[i]).cbs) kinds[c.first].push_back({(int) i, c.second});
    }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 50000 : 900000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 13));
        if (run < jobs.size() / 2 || kinds.empty()) { s.jobs.push_back(jobs[run % (jobs.size() / 2) * 2]); return s; } // succeeding hooks only
        auto it = kinds.begin();
        if (r.chance(1, 2)) std::advance(it, r.below(kinds.size()));
        else { // weighted by the number of programs that reach the callback
            size_t n = 0;
            for (auto &k : kinds) n += k.second.size();
            size_t x = r.below(n);
            while (x >= it->second.size()) { x -= it->second.size(); it++; }
        }
        auto &w = pick(r, it->second);
        s.jobs.push_back(jobs[w.first]);
        s.faults.push_back(mkf(F_CB, 0, it->first, 1 + (int64_t) r.below(r.chance(1, 3) ? (w.second < 4 ? w.second : 4) : w.second), "", hard_code(r)));
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        const JobOut &o = ro.jobs[0];
        if (s.faults.empty()) {
            Job plain = s.jobs[0];
            plain.feat &= ~FEAT_HOOKS;
            const Baseline &b = baseline(plain);
            std::string why;
            if (b.code != CRASHED && !same_result(plain, o, b, why)) v.push_back({"noop", "hooks that do nothing change the result: " + why});
        } else if (has_fired(o, "callback")) {
            int want = (int) s.faults[0].c;
            if (o.code != want) v.push_back({"swallowed", std::string("callback kind ") + N(s.faults[0].a) + " returned " + code_name(want) + " but the compilation returned " + code_name(o.code)});
            else if (o.codes.empty()) v.push_back({"no-diagnostic", "the failed compilation left an empty error chain"});
        }
        judge_resources(o, v);
    }
};

// ---------------------------------------------------------------- C18 damaged source
struct C18 : Check {
    std::vector<Job> jobs;
    std::vector<Job> base_jobs() override {
        std::vector<Job> r = mixed_lib_jobs();
        for (size_t i = 0; i < progs.size(); i += 4) r.push_back(cli_job(progs[i], MODES[(i / 4) % 5], i % 3 == 0 ? SRC_STDIN : SRC_FILE, false, false, i % 8 == 0));
        return r;
    }
    void prepare(uint64_t, const std::string &) override { jobs = base_jobs(); }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? 60000 : 900000; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 16 + 18));
        s.jobs.push_back(jobs[r.below(jobs.size())]);
        if (baseline(s.jobs[0]).code == CRASHED) return s;
        add_damage(r, s, 0, 3);
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        const JobOut &o = ro.jobs[0];
        if (s.jobs[0].kind == JOB_CLI) {
            if (o.code != 0 && o.err.empty()) v.push_back({"no-diagnostic", "exit status " + N(o.code) + " without any diagnostic"});
            return;
        }
        if (!code_is_ok(o.code) && o.codes.empty()) v.push_back({"no-diagnostic", "compilation failed with " + std::string(code_name(o.code)) + " but the error chain is empty"});
        judge_resources(o, v);
    }
};
