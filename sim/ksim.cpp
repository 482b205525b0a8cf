// Scenario generation, judging, replay files and the worker loop.
#pragma clang section text="ksimtext"
#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// ================================================================= JSON
struct JV {
    enum T { NUL, NUM, STR, ARR, OBJ } t = NUL;
    double n = 0;
    std::string s; // STR, or the digits of NUM
    std::vector<JV> a;
    std::vector<std::pair<std::string, JV>> o;
    const JV &at(const std::string &k) const {
        static JV nul;
        for (auto &x : o)
            if (x.first == k) return x.second;
        return nul;
    }
    int64_t i() const { return t == NUM ? (s.find_first_of(".eE") == std::string::npos ? strtoll(s.c_str(), 0, 10) : (int64_t) n) : 0; }
    uint64_t u() const { return t == NUM ? strtoull(s.c_str(), 0, 10) : t == STR ? strtoull(s.c_str(), 0, 0) : 0; }
};
static void jskip(const char *&p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; }
static std::string jstr(const char *&p) {
    std::string r;
    p++;
    while (*p && *p != '"') {
        if (*p == '\\') {
            p++;
            switch (*p) {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u': {
                    char h[5] = {p[1], p[2], p[3], p[4], 0};
                    r += (char) (unsigned char) strtoul(h, 0, 16);
                    p += 4;
                    break;
                }
                default: r += *p;
            }
            p++;
        } else r += *p++;
    }
    if (*p) p++;
    return r;
}
static JV jparse(const char *&p) {
    JV v;
    jskip(p);
    if (*p == '"') { v.t = JV::STR; v.s = jstr(p); }
    else if (*p == '{') {
        v.t = JV::OBJ;
        p++;
        for (jskip(p); *p && *p != '}'; jskip(p)) {
            std::string k = jstr(p);
            jskip(p);
            if (*p == ':') p++;
            v.o.emplace_back(k, jparse(p));
            jskip(p);
            if (*p == ',') p++;
        }
        if (*p) p++;
    } else if (*p == '[') {
        v.t = JV::ARR;
        p++;
        for (jskip(p); *p && *p != ']'; jskip(p)) {
            v.a.push_back(jparse(p));
            jskip(p);
            if (*p == ',') p++;
        }
        if (*p) p++;
    } else if (!strncmp(p, "true", 4)) { v.t = JV::NUM; v.n = 1; v.s = "1"; p += 4; }
    else if (!strncmp(p, "false", 5)) { v.t = JV::NUM; v.s = "0"; p += 5; }
    else if (!strncmp(p, "null", 4)) p += 4;
    else {
        const char *q = p;
        while (*p && strchr("+-0123456789.eE", *p)) p++;
        v.t = JV::NUM;
        v.s.assign(q, p - q);
        v.n = atof(v.s.c_str());
        if (p == q) p++;
    }
    return v;
}
bool json_chain(const std::string &t, std::vector<ErrSeen> &out) {
    const char *p = t.c_str();
    JV v = jparse(p);
    jskip(p);
    if (v.t != JV::ARR || *p) return false;
    for (auto &x : v.a) {
        if (x.t != JV::OBJ) return false;
        ErrSeen e;
        e.code = x.at("code").s;
        e.message = x.at("message").s;
        e.overflow = x.at("overflow").i() != 0;
        e.file = x.at("origin").at("file").s;
        e.line = (unsigned) x.at("origin").at("line").u();
        const JV &l = x.at("source_location");
        e.has_loc = l.t == JV::OBJ;
        if (e.has_loc) { e.src = l.at("source").s; e.sl = (unsigned) l.at("line").u(); e.sc = (unsigned) l.at("column").u(); }
        out.push_back(e);
    }
    return true;
}
static std::string jq(const std::string &s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}
static std::string N(int64_t v) { return std::to_string(v); }
static std::string job_json(const Job &j) {
    std::string r = "{\"name\":" + jq(j.name) + ",\"kind\":" + N(j.kind) + ",\"files\":{";
    bool f = true;
    for (auto &x : j.files) { if (!f) r += ","; f = false; r += jq(x.first) + ":" + jq(x.second); }
    r += "},\"main\":" + jq(j.main_path) + ",\"mode\":" + N(j.mode) + ",\"feat\":" + N(j.feat) + ",\"has_ts\":" + N(j.has_ts) + ",\"ts\":" + N(j.ts) + ",\"inc\":[";
    for (size_t i = 0; i < j.inc.size(); i++) r += (i ? "," : "") + jq(j.inc[i]);
    r += "],\"forced\":" + jq(j.forced) + ",\"argv\":[";
    for (size_t i = 0; i < j.argv.size(); i++) r += (i ? "," : "") + jq(j.argv[i]);
    r += "],\"use_stdin\":" + N(j.use_stdin) + ",\"stdin\":" + jq(j.stdin_text) + ",\"out\":" + jq(j.out_path) + ",\"container\":" + N(j.container) + ",\"ops\":[";
    for (size_t i = 0; i < j.ops.size(); i++) r += std::string(i ? "," : "") + "[" + N(j.ops[i].op) + "," + N(j.ops[i].a) + "," + N(j.ops[i].b) + "," + N(j.ops[i].c) + "]";
    return r + "]}";
}
std::string scenario_to_json(const Scenario &s, const std::string &extra) {
    std::string r = "{\"check\":" + jq(s.check) + ",\"variant\":" + jq(s.variant) + ",\"seed\":" + std::to_string(s.seed) + ",\"run\":" + std::to_string(s.run) + ",\n \"heapseed\":\"" + std::to_string(s.heapseed) + "\",\"clock\":" + N(s.clock) + ",\"rate\":" + N(s.rate) + ",\"threads\":" + N(s.threads) + ",\"explicit\":" + N(s.explicit_sched) + ",\"schedseed\":\"" + std::to_string(s.schedseed) + "\",\"slice\":" + N(s.slice) + ",\"sw\":" + N(s.sw) + ",\"rv\":" + N(s.rv) + ",\"scribble\":" + N(s.scribble) + ",\n \"switches\":[";
    for (size_t i = 0; i < s.switches.size(); i++) r += std::string(i ? "," : "") + "[" + std::to_string(s.switches[i].at) + "," + N(s.switches[i].to) + "]";
    r += "],\n \"faults\":[";
    for (size_t i = 0; i < s.faults.size(); i++) {
        auto &f = s.faults[i];
        r += std::string(i ? "," : "") + "\n  {\"kind\":" + N(f.kind) + ",\"job\":" + N(f.job) + ",\"a\":" + N(f.a) + ",\"b\":" + N(f.b) + ",\"c\":" + N(f.c) + ",\"d\":" + N(f.d) + ",\"u\":\"" + std::to_string(f.u) + "\",\"s\":" + jq(f.s) + ",\"list\":[";
        for (size_t k = 0; k < f.list.size(); k++) r += (k ? "," : "") + N(f.list[k]);
        r += "]}";
    }
    r += "],\n \"jobs\":[";
    for (size_t i = 0; i < s.jobs.size(); i++) r += std::string(i ? "," : "") + "\n  " + job_json(s.jobs[i]);
    return r + "]" + extra + "}\n";
}
Scenario scenario_from_json(const std::string &t) {
    const char *p = t.c_str();
    JV v = jparse(p);
    Scenario s;
    s.check = v.at("check").s;
    s.variant = v.at("variant").s;
    s.seed = v.at("seed").u();
    s.run = v.at("run").u();
    s.heapseed = v.at("heapseed").u();
    s.clock = v.at("clock").i();
    s.rate = v.at("rate").i();
    s.threads = v.at("threads").i();
    s.explicit_sched = v.at("explicit").i();
    s.schedseed = v.at("schedseed").u();
    s.slice = v.at("slice").u();
    s.rv = (int) v.at("rv").i();
    s.scribble = (int) v.at("scribble").i();
    s.sw = (int) v.at("sw").i();
    for (auto &x : v.at("switches").a) s.switches.push_back({x.a[0].u(), (int) x.a[1].i()});
    for (auto &x : v.at("faults").a) {
        Fault f;
        f.kind = x.at("kind").i(); f.job = x.at("job").i(); f.a = x.at("a").i(); f.b = x.at("b").i(); f.c = x.at("c").i(); f.d = x.at("d").i();
        f.u = x.at("u").u(); f.s = x.at("s").s;
        for (auto &y : x.at("list").a) f.list.push_back(y.i());
        s.faults.push_back(f);
    }
    for (auto &x : v.at("jobs").a) {
        Job j;
        j.name = x.at("name").s; j.kind = x.at("kind").i(); j.main_path = x.at("main").s; j.mode = x.at("mode").i(); j.feat = x.at("feat").i();
        j.has_ts = x.at("has_ts").i(); j.ts = x.at("ts").i(); j.forced = x.at("forced").s; j.use_stdin = x.at("use_stdin").i();
        j.stdin_text = x.at("stdin").s; j.out_path = x.at("out").s; j.container = x.at("container").i();
        for (auto &y : x.at("files").o) j.files[y.first] = y.second.s;
        for (auto &y : x.at("inc").a) j.inc.push_back(y.s);
        for (auto &y : x.at("argv").a) j.argv.push_back(y.s);
        for (auto &y : x.at("ops").a) { Op o; o.op = y.a[0].i(); o.a = y.a[1].i(); o.b = y.a[2].i(); o.c = y.a[3].i(); j.ops.push_back(o); }
        s.jobs.push_back(j);
    }
    return s;
}

// ================================================================= baselines: each job alone, in a fresh process
static const int CRASHED = -9999;
static std::unordered_map<std::string, Baseline> g_base;
std::string job_key(const Job &j, int64_t clock) {
    std::string t = job_json(j) + "@" + std::to_string(clock);
    char b[40];
    snprintf(b, sizeof b, "%016lx%016lx", (unsigned long) hash_bytes(t.data(), t.size()), (unsigned long) hash_bytes(t.data(), t.size(), 12345));
    return b;
}
static std::string base_ser(const Baseline &b) {
    std::ostringstream o;
    o << b.code << ' ' << b.out_hash << ' ' << b.out_len << ' ' << b.err_hash << ' ' << b.chain_hash << ' ' << b.nalloc << ' ' << b.bytes << ' ' << b.bb << ' ' << b.classes.size();
    for (auto &c : b.classes) o << ' ' << c.hash << ' ' << c.first << ' ' << c.count;
    o << ' ' << b.cbs.size();
    for (auto &c : b.cbs) o << ' ' << c.first << ' ' << c.second;
    o << ' ' << b.ioc.size();
    for (auto &c : b.ioc) o << ' ' << c.first << ' ' << c.second;
    o << ' ' << b.codes.size();
    for (int c : b.codes) o << ' ' << c;
    o << ' ' << b.writes.size();
    for (auto &w : b.writes) { o << ' ' << w.first << ' ' << w.second.size(); for (auto x : w.second) o << ' ' << x; }
    return o.str();
}
static Baseline base_de(std::istream &i) {
    Baseline b;
    size_t n;
    i >> b.code >> b.out_hash >> b.out_len >> b.err_hash >> b.chain_hash >> b.nalloc >> b.bytes >> b.bb >> n;
    b.classes.resize(n);
    for (auto &c : b.classes) i >> c.hash >> c.first >> c.count;
    i >> n;
    while (n--) { int k; uint64_t v; i >> k >> v; b.cbs[k] = v; }
    i >> n;
    while (n--) { std::string k; uint64_t v; i >> k >> v; b.ioc[k] = v; }
    i >> n;
    b.codes.resize(n);
    for (auto &c : b.codes) i >> c;
    i >> n;
    while (n--) { uint32_t g; size_t m; i >> g >> m; auto &v = b.writes[g]; v.resize(m); for (auto &x : v) i >> x; }
    return b;
}
static Baseline base_run(const Job &j, int64_t clock) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(2); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        int nul = open("/dev/null", O_WRONLY);
        if (!getenv("KSIM_DEBUG")) dup2(nul, 2);
        Scenario s;
        s.jobs.push_back(j);
        s.clock = clock;
        std::map<uint64_t, ClassInfo> cls;
        std::map<uint32_t, std::vector<uint64_t>> wr;
        g_watch = &wr;
        RunOut r = engine_run(s, false, &cls);
        g_watch = nullptr;
        JobOut &o = r.jobs[0];
        Baseline b;
        b.code = o.code;
        b.out_hash = hash_bytes(o.out.data(), o.out.size());
        b.out_len = o.out.size();
        b.err_hash = hash_bytes(o.err.data(), o.err.size());
        b.chain_hash = hash_bytes(o.chain.data(), o.chain.size());
        b.nalloc = o.nalloc;
        b.bytes = o.bytes;
        b.bb = o.bb;
        for (auto &c : cls) b.classes.push_back(c.second);
        b.cbs = o.cbs;
        b.ioc = o.ioc;
        b.codes = o.codes;
        b.writes = wr;
        std::string t = base_ser(b);
        size_t off = 0;
        while (off < t.size()) { ssize_t k = write(fd[1], t.data() + off, t.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string t;
    char buf[65536];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, k);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { Baseline b; b.code = CRASHED; return b; }
    std::istringstream is(t);
    return base_de(is);
}
const Baseline &baseline(const Job &j, int64_t clock) {
    std::string k = job_key(j, clock);
    auto it = g_base.find(k);
    if (it != g_base.end()) return it->second;
    return g_base[k] = base_run(j, clock);
}
static void base_save(const char *path) {
    std::ofstream f(path);
    for (auto &b : g_base) f << b.first << ' ' << base_ser(b.second) << '\n';
}
static void base_load(const char *path) {
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        g_base[k] = base_de(is);
    }
}

// ================================================================= corpus
static std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static std::vector<std::string> ls(const std::string &d) {
    std::vector<std::string> r;
    DIR *h = opendir(d.c_str());
    if (!h) return r;
    while (dirent *e = readdir(h)) r.push_back(e->d_name);
    closedir(h);
    std::sort(r.begin(), r.end());
    return r;
}
struct Prog { std::string name, text; int feat; std::string forced; bool bad, dated, small; };
static std::vector<Prog> progs;
static std::map<std::string, std::string> incs; // /inc/... files
static void load_corpus(const std::string &dir) {
    for (auto &sub : {std::string("ok"), std::string("bad")})
        for (auto &n : ls(dir + "/" + sub)) {
            if (n.size() < 3 || n.substr(n.size() - 2) != ".c") continue;
            Prog p;
            p.name = sub + "/" + n;
            p.text = slurp(dir + "/" + sub + "/" + n);
            p.bad = sub == "bad";
            p.feat = FEAT_ALL;
            if (p.text.find("ksim:strict") != std::string::npos) p.feat = 0;
            if (p.text.find("ksim:defines") != std::string::npos) p.feat |= FEAT_DEFINES;
            if (p.text.find("ksim:noattr") != std::string::npos) p.feat |= FEAT_STRICT_ATTR;
            if (p.text.find("ksim:virtual") != std::string::npos) p.feat |= FEAT_VIRTUAL;
            if (p.text.find("ksim:ext") != std::string::npos) p.feat |= FEAT_EXTNODE;
            if (p.text.find("ksim:forced") != std::string::npos) p.forced = "forced.h";
            p.dated = p.text.find("__DATE__") != std::string::npos || p.text.find("__TIME__") != std::string::npos;
            p.small = p.text.size() < 900;
            progs.push_back(p);
        }
    for (auto &n : ls(dir + "/inc"))
        if (n.size() > 2 && n.substr(n.size() - 2) == ".h") incs["/inc/" + n] = slurp(dir + "/inc/" + n);
        else if (n[0] != '.')
            for (auto &m : ls(dir + "/inc/" + n)) if (m[0] != '.') incs["/inc/" + n + "/" + m] = slurp(dir + "/inc/" + n + "/" + m);
}
static Job lib_job(const Prog &p, int mode, int feat_extra = 0) {
    Job j;
    j.name = p.name;
    j.kind = JOB_LIB;
    j.main_path = "/src/main.c";
    j.files[j.main_path] = p.text;
    std::vector<std::string> todo = {p.text + (p.forced.empty() ? "" : "\"" + p.forced + "\"")};
    while (!todo.empty()) { // only the headers the program can reach
        std::string t = todo.back();
        todo.pop_back();
        for (auto &f : incs) {
            std::string base = f.first.substr(f.first.rfind('/') + 1);
            if (!j.files.count(f.first) && t.find(base) != std::string::npos) { j.files[f.first] = f.second; todo.push_back(f.second); }
        }
    }
    j.mode = mode;
    j.feat = p.feat | feat_extra;
    j.inc = {"/inc"};
    j.forced = p.forced;
    if (p.dated) { j.has_ts = true; j.ts = 1600000000; }
    return j;
}
static const char *MODEFLAG[] = {"-S", "--dump-ir", "--dump-ast", "--dump-tokens", "-p"};

// ================================================================= checks
struct Verdict { std::string cat, text; };
struct Check {
    virtual ~Check() {}
    virtual std::vector<Job> base_jobs() { return {}; }          // jobs whose baseline every worker needs
    virtual void prepare(uint64_t seed, const std::string &tier) = 0;
    virtual uint64_t total(const std::string &tier) = 0;           // number of runs
    virtual Scenario gen(uint64_t seed, uint64_t run) = 0;
    virtual void judge(const Scenario &, const RunOut &, std::vector<Verdict> &) = 0;
    // what makes two runs different (for the evidence)
    virtual uint64_t sig(const Scenario &s, const RunOut &r) {
        uint64_t h = r.log_hash;
        return h;
    }
};
static bool same_result(const Job &j, const JobOut &o, const Baseline &b, std::string &why) {
    if (o.code != b.code) { why = "result " + N(o.code) + " instead of " + N(b.code); return false; }
    if (o.out.size() != b.out_len || hash_bytes(o.out.data(), o.out.size()) != b.out_hash) { why = "output differs (" + N(o.out.size()) + " bytes, alone " + N(b.out_len) + ")"; return false; }
    if (hash_bytes(o.chain.data(), o.chain.size()) != b.chain_hash) { why = "diagnostics differ: " + o.chain.substr(0, 300); return false; }
    if (j.kind == JOB_CLI && hash_bytes(o.err.data(), o.err.size()) != b.err_hash) { why = "stderr differs"; return false; }
    return true;
}
static const std::vector<int> MODES = {MODE_ASM, MODE_IR, MODE_AST, MODE_TOKENS, MODE_PP, MODE_LEXONLY, MODE_RAWPARSE};

// ---- memory exhaustion universe, shared by C01..C03
static std::vector<Job> cli_oom_jobs();
struct OomBase : Check {
    bool with_cli = false;
    struct Cls { uint64_t h; std::vector<std::pair<int, uint64_t>> where; };
    std::vector<Job> jobs;
    std::vector<Cls> universe;
    std::vector<Job> base_jobs() override {
        std::vector<Job> r;
        for (size_t i = 0; i < progs.size(); i++) {
            r.push_back(lib_job(progs[i], MODE_ASM));
            r.push_back(lib_job(progs[i], MODES[1 + i % 6], FEAT_DETAILED));
            if (i % 3 == 0) r.push_back(lib_job(progs[i], MODES[1 + (i / 3) % 6], FEAT_HOOKS));
            if (progs[i].feat & FEAT_EXTNODE) r.push_back(lib_job(progs[i], MODE_ASM, FEAT_HOOKS));
            for (int m : {MODE_AST, MODE_IR}) if (MODES[1 + i % 6] != m) r.push_back(lib_job(progs[i], m, FEAT_DETAILED));
        }
        if (with_cli) for (auto &j : cli_oom_jobs()) r.push_back(j);
        return r;
    }
    void prepare(uint64_t seed, const std::string &) override {
        jobs = base_jobs();
        std::map<uint64_t, Cls> m;
        for (size_t i = 0; i < jobs.size(); i++) {
            const Baseline &b = baseline(jobs[i]);
            if (b.code == CRASHED) { Cls &c = m[mix(i, 4242)]; c.h = 0; c.where.push_back({(int) i, 0}); continue; }
            for (auto &c : b.classes) { Cls &x = m[c.hash]; x.h = c.hash; x.where.push_back({(int) i, c.count}); }
        }
        for (auto &x : m) universe.push_back(x.second);
        Rng r(mix(seed, 1));
        for (size_t i = universe.size(); i > 1; i--) std::swap(universe[i - 1], universe[r.below(i)]);
    }
    uint64_t total(const std::string &tier) override { return tier == "quick" ? universe.size() * 5 / 2 : universe.size() * 30; }
    void gen_alloc(Rng &r, uint64_t run, Scenario &s, int jobid) {
        bool sweep = run < universe.size();
        const Cls &c = universe[sweep ? run : r.below(universe.size())];
        auto &w = c.where[r.below(c.where.size())];
        s.jobs.push_back(jobs[w.first]);
        if (c.h == 0 && w.second == 0) return; // fault-free run already crashes: show it
        Fault f;
        f.job = jobid;
        f.kind = F_ALLOCCLASS;
        f.u = c.h;
        f.a = r.chance(1, 2) ? 1 : 1 + (int64_t) r.below(w.second);
        unsigned k = r.below(20);
        f.b = k < 15 ? 1 : k < 18 ? 2 + (int64_t) r.below(6) : -1;
        s.faults.push_back(f);
        if (!sweep) {
            // further failures later in the same run: they hit the recovery of the first
            unsigned extra = r.below(3);
            const Baseline &b = baseline(jobs[w.first]);
            for (unsigned i = 0; i < extra && b.nalloc; i++) {
                Fault g;
                g.job = jobid;
                g.kind = F_ALLOC;
                g.a = 1 + (int64_t) r.below(b.nalloc + b.nalloc / 10);
                g.b = 1 + (int64_t) r.below(3);
                s.faults.push_back(g);
            }
        }
    }
};
struct C01 : OomBase {
    C01() { with_cli = true; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 3 + 1));
        gen_alloc(r, run, s, 0);
        if (r.chance(1, 4)) s.heapseed = r.next();
        return s;
    }
    void judge(const Scenario &, const RunOut &, std::vector<Verdict> &) override {}
};
struct C02 : OomBase {
    C02() { with_cli = true; }
    Scenario gen(uint64_t seed, uint64_t run) override {
        Scenario s;
        Rng r(mix(seed, run * 3 + 2));
        gen_alloc(r, run, s, 0);
        return s;
    }
    void judge(const Scenario &s, const RunOut &ro, std::vector<Verdict> &v) override {
        const JobOut &o = ro.jobs[0];
        const Baseline &b = baseline(s.jobs[0]);
        if (b.code == CRASHED) return;
        if (!o.alloc_failed) return;
        if (s.jobs[0].kind == JOB_CLI) {
            if (o.code != 0 && o.err.empty()) v.push_back({"no-diagnostic", "memory exhaustion: exit status " + N(o.code) + " without any diagnostic"});
            else if (o.code == 0 && b.code != 0) v.push_back({"accepted", "a program rejected without the failure was accepted with it"});
            else if (o.code == 0 && (o.out.size() != b.out_len || hash_bytes(o.out.data(), o.out.size()) != b.out_hash)) v.push_back({"silent", "allocation failed, exit status 0, but the output differs from the output without the failure"});
            return;
        }
        if (code_is_ok(o.code)) {
            if (!code_is_ok(b.code)) v.push_back({"accepted", "a program rejected without the failure was accepted with it"});
            else if (o.out.size() != b.out_len || hash_bytes(o.out.data(), o.out.size()) != b.out_hash)
                v.push_back({"silent", "allocation failed, compilation reported success, but the output differs from the output without the failure"});
        } else {
            if (o.codes.empty()) v.push_back({"no-diagnostic", "compilation failed with " + std::string(code_name(o.code)) + " but the error chain is empty"});
            if (code_is_ok(b.code) && (code_is_language(o.code) || (!o.codes.empty() && code_is_language(o.codes[0]))))
                v.push_back({"bogus", "memory exhaustion on a valid program was reported as " + std::string(code_name(o.code)) + ": " + o.chain_key.substr(0, 200)});
        }
    }
};
static void judge_resources(const JobOut &o, std::vector<Verdict> &v) {
    if (o.foreign) v.push_back({"foreign", o.foreign_desc});
    if (o.live) v.push_back({"leak", N(o.live) + " allocations (" + N(o.live_bytes) + " bytes) still live; first from " + o.leak_desc});
    if (o.fds) v.push_back({"fd", N(o.fds) + " descriptors still open"});
    if (o.maps) v.push_back({"map", N(o.maps) + " mappings still open"});
    if (o.cleanup_code) v.push_back({"release", "releasing the " + o.cleanup_what + " failed with " + code_name(o.cleanup_code)});
}
#include "checks.inc"

static Check *make_check(const std::string &n) {
    if (n == "C04") return new C04();
    if (n == "C05") return new C05();
    if (n == "C06") return new C06();
    if (n == "C07") return new C07();
    if (n == "C08") return new C08();
    if (n == "C09") return new C09();
    if (n == "C10") return new C10();
    if (n == "C11") return new C11();
    if (n == "C12") return new C12();
    if (n == "C13") return new C13();
    if (n == "C18") return new C18();

    if (n == "C01") return new C01();
    if (n == "C02") return new C02();
    if (n == "C03") return new C03();
    return nullptr;
}

// ================================================================= driver
static std::string arg(int c, char **v, const char *k, const char *d = "") {
    for (int i = 1; i + 1 < c; i++)
        if (!strcmp(v[i], k)) return v[i + 1];
    return d;
}
static uint64_t bbcap(const Scenario &s) {
    uint64_t t = 0;
    for (auto &j : s.jobs) {
        if (j.kind == JOB_LIB || j.kind == JOB_CLI) { const Baseline &b = baseline(j, 1700000000); t += b.code == CRASHED ? 50000000 : b.bb; }
    }
    return t * 30 + 20000000;
}
int main(int argc, char **argv) {
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string chk = arg(argc, argv, "--check"), tier = arg(argc, argv, "--tier", "quick");
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
    int jobsn = atoi(arg(argc, argv, "--jobs", "8").c_str());
    engine_init();
    std::string corp = arg(argc, argv, "--corpus", "/verif/corpus");
    if (cmd == "replay") {
        Scenario s = scenario_from_json(slurp(argv[2]));
        Check *c = make_check(s.check);
        if (!c) return 2;
        bool verbose = !arg(argc, argv, "--verbose").empty();
        RunOut r = engine_run(s, verbose, nullptr, bbcap(s));
        std::vector<Verdict> v;
        c->judge(s, r, v);
        printf("HASH %016lx\n", (unsigned long) r.log_hash);
        for (auto &o : r.jobs) {
            printf("JOB code=%d(%s) faults=%d allocfail=%lu live=%lu out=%zu err=%zu\n", o.code, code_name(o.code), o.faults_fired, (unsigned long) o.alloc_failed, (unsigned long) o.live, o.out.size(), o.err.size());
            if (verbose) printf("%s\n%s\n%s\n", o.chain.c_str(), o.out.c_str(), o.err.c_str());
            if (!arg(argc, argv, "--chain").empty()) printf("%s\n", o.chain.c_str());
        }
        for (auto &x : v) printf("VERDICT %s %s\n", x.cat.c_str(), jq(x.text).c_str());
        return v.empty() ? 0 : 1;
    }
    load_corpus(corp);
    Check *c = make_check(chk);
    if (!c) { fprintf(stderr, "unknown check\n"); return 2; }
    std::string bf = arg(argc, argv, "--base");
    if (cmd == "baseline") {
        // split over forked helpers; each runs every job in its own fresh process
        std::vector<Job> js = c->base_jobs();
        std::vector<pid_t> ps;
        for (int w = 0; w < jobsn; w++) {
            pid_t p = fork();
            if (p == 0) {
                for (size_t i = w; i < js.size(); i += jobsn) baseline(js[i]);
                base_save((bf + "." + std::to_string(w)).c_str());
                _exit(0);
            }
            ps.push_back(p);
        }
        for (auto p : ps) { int st; waitpid(p, &st, 0); if (st) return 2; }
        for (int w = 0; w < jobsn; w++) { std::string f = bf + "." + std::to_string(w); base_load(f.c_str()); unlink(f.c_str()); }
        base_save(bf.c_str());
        c->prepare(seed, tier);
        printf("TOTAL %lu\n", (unsigned long) c->total(tier));
        size_t bad = 0, okc = 0;
        for (auto &j : js) { auto &b = baseline(j); if (b.code == CRASHED) printf("CRASHED %s mode %d\n", j.name.c_str(), j.mode); (code_is_ok(b.code) ? okc : bad)++; if (!arg(argc, argv, "--list").empty()) printf("%s mode=%d kind=%d code=%d(%s) alloc=%lu bb=%lu classes=%zu out=%lu\n", j.name.c_str(), j.mode, j.kind, b.code, code_name(b.code), (unsigned long) b.nalloc, (unsigned long) b.bb, b.classes.size(), (unsigned long) b.out_len); }
        printf("JOBS %zu ok %zu failing %zu\n", js.size(), okc, bad);
        return 0;
    }
    if (!bf.empty()) base_load(bf.c_str());
    c->prepare(seed, tier);
    if (cmd == "gen") {
        uint64_t run = strtoull(arg(argc, argv, "--run").c_str(), 0, 10);
        Scenario s = c->gen(seed, run);
        s.check = chk; s.seed = seed; s.run = run;
        printf("%s", scenario_to_json(s).c_str());
        return 0;
    }
    if (cmd == "worker") {
        uint64_t from = strtoull(arg(argc, argv, "--from").c_str(), 0, 10), to = strtoull(arg(argc, argv, "--to").c_str(), 0, 10), step = strtoull(arg(argc, argv, "--step", "1").c_str(), 0, 10);
        std::string statf = arg(argc, argv, "--status"), outf = arg(argc, argv, "--out");
        uint64_t maxv = strtoull(arg(argc, argv, "--maxv", "1").c_str(), 0, 10);
        int fd = open(statf.c_str(), O_RDWR | O_CREAT, 0600);
        if (ftruncate(fd, 4096)) return 2;
        g_status = (Status *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        FILE *out = fopen(outf.c_str(), "a");
        uint64_t nv = 0;
        for (uint64_t run = from; run < to; run += step) {
            g_status->run = run;
            g_status->state = 1;
            Scenario s = c->gen(seed, run);
            s.check = chk;
            s.seed = seed;
            s.run = run;
            g_status->state = 2;
            RunOut r = engine_run(s, false, nullptr, bbcap(s));
            std::vector<Verdict> v;
            c->judge(s, r, v);
            g_status->state = 3;
            // per-run record: faults fired, signature, steps, hash
            std::map<std::string, int> fk;
            int ff = 0;
            std::string codes;
            uint64_t fail = 0;
            for (auto &o : r.jobs) { ff += o.faults_fired; for (auto &x : o.fired) fk[x]++; codes += (codes.empty() ? "" : ",") + N(o.code); fail += o.alloc_failed; }
            fprintf(out, "R %lu %016lx %016lx %016lx %lu %lu %lu %d %ld %s", (unsigned long) run, (unsigned long) r.log_hash, (unsigned long) c->sig(s, r), (unsigned long) r.inter_hash, (unsigned long) r.bb, (unsigned long) r.events, (unsigned long) r.switches, ff, (long) (r.jobs.back().t1 - s.clock), codes.c_str());
            for (auto &x : fk) fprintf(out, " %s*%d", x.first.c_str(), x.second);
            fprintf(out, "\n");
            if (!v.empty()) {
                if (s.threads) s.explicit_sched = true;
                std::string extra = ",\n \"verdicts\":[";
                for (size_t i = 0; i < v.size(); i++) extra += std::string(i ? "," : "") + "[" + jq(v[i].cat) + "," + jq(v[i].text) + "]";
                extra += "]";
                std::string js = scenario_to_json(s, extra);
                for (auto &ch : js) if (ch == '\n') ch = ' ';
                fprintf(out, "V %lu %s\n", (unsigned long) run, js.c_str());
                nv++;
            }
            fflush(out);
            g_status->runs_done = g_status->runs_done + 1;
            if (nv >= maxv) break;
        }
        uint64_t cov = 0;
        for (uint32_t i = 1; i <= g_nguards; i++) cov += g_cov[i];
        fprintf(out, "C %lu %u\n", (unsigned long) cov, g_nguards);
        fclose(out);
        g_status->state = 9;
        return 0;
    }
    return 2;
}
