// Campaign driver: many seeded runs in worker processes, crash isolation,
// minimisation, replay gate, statistics.
#include "exec.hpp"
#include "gen.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace sim {
void build_worlds();

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct PropCfg { const char * id; const char * kind; const char * worlds; GenCfg g; bool deep; };
// which worlds and which kinds of plans decide which property
static PropCfg props[] = {
    { "C01", "mixed", "native_strict,automatic_strict,cpp_8_16_16_32_64_strict,native_loose,automatic_loose,native_literals,automatic_literals,native_kinds,pairs,stream_native_strict,stream_automatic_loose", {}, false },
    { "C02", "mixed", "native_strict,automatic_strict,native_handlers,automatic_handlers,native_kinds,hpairs,stream_native_strict,stream_native_handlers,expr_native_handlers", {}, false },
    { "C03", "arith", "native_strict,automatic_strict,cpp_8_16_16_32_64_strict,native_loose,automatic_loose,native_literals,automatic_literals,native_kinds,pairs,automatic_kinds,cpp_8_16_32_64_64_strict", {}, false },
    { "C04", "arith", "native_strict,automatic_strict,cpp_8_16_16_32_64_strict,native_handlers,native_literals,automatic_literals,native_kinds,pairs,automatic_kinds,cpp_8_16_32_64_64_strict", {}, false },
    { "C05", "mixed", "native_handlers,automatic_handlers,hpairs,stream_native_handlers,expr_native_handlers", {}, false },
    { "C06", "mixed", "native_strict,automatic_strict,native_loose,stream_native_strict", {}, true },
    { "C11", "mixed", "native_strict,automatic_strict,native_handlers,native_loose,hpairs,stream_native_strict,stream_native_handlers,expr_native_handlers", {}, true },
    { "C13", "mixed", "native_handlers,automatic_handlers,hpairs,stream_native_handlers,expr_native_handlers", {}, false },
    { "C14", "expr", "expr_native_strict,expr_automatic_strict,expr_cpp_strict,triples", {}, false },
    { "C10", "threads", "native_handlers,automatic_loose,cpp_8_16_16_32_64_strict,stream_native_strict,stream_native_handlers,expr_automatic_strict", {}, true },
    { "C15", "checked", "checked", {}, false },
    { "C07", "stream", "stream_native_strict,stream_native_handlers,stream_automatic_loose", {}, false },
    { "C08", "stream", "stream_native_strict,stream_native_handlers,stream_automatic_loose", {}, false },
    { "C09", "stream", "stream_native_strict,stream_native_handlers,stream_automatic_loose", {}, false },
    { "C12", "stream", "stream_native_strict,stream_native_handlers,stream_automatic_loose", {}, false },
};
static PropCfg * prop_cfg(const std::string & id) {
    for (auto & p : props) if (id == p.id) return &p;
    return nullptr;
}
static std::vector<World *> prop_worlds(const PropCfg & c) {
    std::vector<World *> v; std::stringstream s(c.worlds); std::string t;
    while (std::getline(s, t, ',')) {
        static const struct { const char * name; std::vector<const char *> sets; int weight; } many[] = {     // sets that are linked in; the others count more
            { "pairs", { "native_pairs", "automatic_pairs", "cpp_pairs" }, 1 },
            { "hpairs", { "native_hpairs", "automatic_hpairs", "cpp_hpairs" }, 3 },
            { "nhpairs", { "native_hpairs" }, 3 },
            { "triples", { "expr_native_t", "expr_automatic_t", "expr_cpp_t" }, 4 } };
        bool set = false;
        for (auto & m : many) if (t == m.name) {
            set = true;
            std::vector<World *> big = v; for (int k = 1; k < m.weight; ++k) v.insert(v.end(), big.begin(), big.end());
            for (int k = 1; k <= 40; ++k) for (const char * n : m.sets) if (World * w = find_world(n + std::to_string(k))) v.push_back(w);
        }
        if (!set) if (World * w = find_world(t)) v.push_back(w);
    }
    return v;
}
static Plan raw_plan_of(const PropCfg & c, const std::vector<World *> & ws, uint64_t seed, const GenCfg & g) {
    if (!strcmp(c.kind, "checked")) return gen_checked(c.id, seed, ws, g);
    std::vector<World *> kinds[3];                     // arithmetic, streams, expressions
    for (World * w : ws) kinds[!strncmp(w->name, "stream_", 7) ? 1 : w->exprs.empty() ? 0 : 2].push_back(w);
    bool threads = !strcmp(c.kind, "threads");
    unsigned pick = unsigned(mix(seed, 77) % 100), share = threads ? 45 : 25;
    if (!kinds[1].empty() && ((kinds[0].empty() && kinds[2].empty()) || pick < share)) return gen_stream(c.id, seed, kinds[1], g);
    if (!kinds[2].empty() && (kinds[0].empty() || mix(seed, 78) % 100 < 25)) return gen_expr(c.id, seed, kinds[2], g);
    return gen_arith(c.id, seed, kinds[0], g);
}
static Plan make_plan_of(const PropCfg & c, const std::vector<World *> & ws, uint64_t seed, const GenCfg & g) {
    Plan p = raw_plan_of(c, ws, seed, g);
    Rng r(mix(seed, 91));                  // steps of programs that clean up after other exceptions
    if (r.chance(35)) { unsigned pct = r.chance(50) ? 8 : 40; for (auto & s : p.steps) if (r.chance(pct)) s.f.ctx = 1 + int(r.below(2)); }
    return p;
}
enum { COLD_RUNS = 2000 };                 // the first runs of a threaded campaign start in a process that has not used the library yet
static bool is_cold(const PropCfg & c, long run) { return run < COLD_RUNS && !strcmp(c.kind, "threads"); }
static Plan make_plan(const PropCfg & c, const std::vector<World *> & ws, uint64_t base, long run) {
    uint64_t seed = mix(base, uint64_t(run) + 1);
    GenCfg g = c.g; g.returning = !strcmp(c.id, "C13");
    if (strcmp(c.kind, "threads")) return make_plan_of(c, ws, seed, g);
    g.min_steps = 4; g.max_steps = 24; g.min_clients = 2; g.max_clients = 4;
    Plan p = make_plan_of(c, ws, seed, g); p.threaded = 1;
    if (is_cold(c, run)) { p.threaded = 2; for (auto & s : p.steps) s.f.alloc_from = s.f.alloc_count = 0; }
    Rng r(mix(seed, 4242));
    // how long a client runs before the next one goes on: swarm over scales
    static const long scales[] = { 3, 12, 60, 300, 1500 };
    int n = 1 + int(r.below(r.chance(30) ? 8 : r.chance(70) ? 60 : 250)), common = int(r.below(5));
    for (int i = 0; i < n; ++i) p.switches.push_back(Switch{1 + long(r.below(uint64_t(scales[r.chance(60) ? common : int(r.below(5))]))), int(r.below(uint64_t(p.clients)))});
    return p;
}
// What is set up once and for all at the first use of the library may cost an
// allocation then and not later; normal runs start after that.
static void warm_up() {
    static bool done = false; if (done) return; done = true;
    for (int pol = 0; pol <= 4; ++pol) for (int cls = 1; cls <= 4; ++cls) for (int c = 1; c < E_N; ++c) {
        try { raise_here(pol, cls, c); } catch (...) { catch_current(); }
        try { raise_there(pol, cls, c); } catch (...) { catch_current(); }
    }
}
static bool g_rehearse = false;
static RunResult execute_once(const Plan & p, bool want) { if (p.threaded) return execute_threads(p, want); if (p.world == "checked") return execute_checked(p, want); return p.world.compare(0, 7, "stream_") ? execute_arith(p, want) : execute_stream(p, want); }
RunResult execute(const Plan & p, bool want) {
    if (p.threaded != 2) warm_up();
    if (g_rehearse && p.threaded != 2) { Plan q = p; for (auto & s : q.steps) s.f.alloc_from = s.f.alloc_count = 0; execute_once(q, false); }
    RunResult r = execute_once(p, want);
    // memory taken by something that is set up once is neither lost nor a cost of every success
    if (r.v.found && (r.v.sig.compare(0, 15, "memory retained") == 0 || r.v.sig.compare(0, 20, "allocates on success") == 0)) r = execute_once(p, want);
    return r;
}

// ------------------------------------------------------------------ shared state of a campaign
struct Shared {
    volatile long cur[64];                   // run index a worker is executing
    volatile int stop;
    uint64_t runs[64]; RunStats st[64]; uint64_t shapes[64];
    uint64_t hash_sum[64]; uint64_t kinds[64][FK_N]; uint64_t world_runs[64][160], max_run_steps[64];
    Coverage cov, runs_cov;
};
static Shared * sh;

// ------------------------------------------------------------------ one candidate in a child
struct ChildVerdict { bool violated = false; bool crashed = false; int sig = 0; uint64_t hash = 0; char vsig[400] = {}; char text[1600] = {}; long step = -1; };
// Runs that came before in the same process: code with hidden state (which the
// library must not have) behaves differently because of them.
using Hist = std::vector<Plan>;
static ChildVerdict run_child(const Hist & before, const Plan & p, int timeout_s = 20) {
    int fd[2]; ChildVerdict v;
    if (pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0) {
        close(fd[0]); alarm(before.size() > 100 ? 120 : timeout_s);
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!freopen("/dev/null", "w", stderr)) {}
        for (auto & b : before) execute(b, false);
        alarm(timeout_s);
        RunResult r = execute(p, false);
        ChildVerdict o; o.violated = r.v.found; o.hash = r.hash; o.step = r.v.step;
        strncpy(o.vsig, r.v.sig.c_str(), sizeof o.vsig - 1); strncpy(o.text, r.v.text.c_str(), sizeof o.text - 1);
        ssize_t k = write(fd[1], &o, sizeof o); (void)k; _exit(0);
    }
    close(fd[1]);
    size_t got = 0; char * b = reinterpret_cast<char *>(&v);
    while (got < sizeof v) { ssize_t k = read(fd[0], b + got, sizeof v - got); if (k <= 0) break; got += size_t(k); }
    close(fd[0]);
    int st; waitpid(c, &st, 0);
    if (got < sizeof v) {
        v = ChildVerdict(); v.violated = true; v.crashed = true; v.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
        snprintf(v.vsig, sizeof v.vsig, "crash|%s", v.sig == SIGALRM ? "no progress" : strsignal(v.sig < 100 ? v.sig : 0));
        snprintf(v.text, sizeof v.text, "the process %s (signal %d)", v.sig == SIGALRM ? "made no progress" : v.sig == SIGILL || v.sig == SIGFPE ? "executed undefined behaviour" : "was terminated", v.sig);
        v.hash = 0xdead0000ull + unsigned(v.sig);
    }
    return v;
}
static std::string sig_class(const std::string & s) { return s.substr(0, s.find('|')); }

static Plan minimise(Hist & before, const Plan & p0, const ChildVerdict & v0, double budget) {
    double end = now() + budget;
    std::string cls = sig_class(v0.vsig);
    auto bad_h = [&](const Hist & h, const Plan & p) { ChildVerdict v = run_child(h, p, 10); return v.violated && sig_class(v.vsig) == cls && v.crashed == v0.crashed; };
    for (size_t chunk = std::max<size_t>(1, before.size() / 2); !before.empty() && now() < end; chunk = std::max<size_t>(1, chunk / 2)) {
        bool any = false;
        for (size_t i = 0; i < before.size() && now() < end;) {
            Hist h = before; h.erase(h.begin() + long(i), h.begin() + long(std::min(h.size(), i + chunk)));
            if (bad_h(h, p0)) { before = h; any = true; } else i += chunk;
        }
        if (chunk == 1 && !any) break;
    }
    end = std::max(end, now() + budget / 4);
    auto bad = [&](const Plan & p) { ChildVerdict v = run_child(before, p, 10); return v.violated && sig_class(v.vsig) == cls && v.crashed == v0.crashed; };
    Plan p = p0;
    if (!v0.crashed && v0.step >= 0 && !p.threaded && size_t(v0.step) + 1 < p.steps.size()) {
        Plan q = p; q.steps.resize(size_t(v0.step) + 1); if (bad(q)) p = q;
    }
    auto ddmin = [&](auto get) {
        size_t chunk = std::max<size_t>(1, get(p).size() / 2);
        while (now() < end) {
            bool any = false;
            for (size_t i = 0; i < get(p).size() && now() < end;) {
                Plan q = p; auto & v = get(q);
                v.erase(v.begin() + long(i), v.begin() + long(std::min(v.size(), i + chunk)));
                if (bad(q)) { p = q; any = true; } else i += chunk;
            }
            if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
        }
    };
    ddmin([](Plan & q) -> std::vector<Step> & { return q.steps; });
    ddmin([](Plan & q) -> std::vector<Init> & { return q.init; });
    ddmin([](Plan & q) -> std::vector<Switch> & { return q.switches; });
    for (size_t c = 0; c < p.streams.size(); ++c) {
        ddmin([c](Plan & q) -> std::vector<DevFault> & { return q.streams[c].faults; });
        // shorten the text
        for (size_t len = p.streams[c].text.size(); len > 0 && now() < end; len /= 2)
            for (size_t i = 0; i + len <= p.streams[c].text.size() && now() < end;) {
                Plan q = p; q.streams[c].text.erase(i, len); if (bad(q)) p = q; else i += len;
            }
        if (!p.streams[c].chunks.empty()) { Plan q = p; q.streams[c].chunks.clear(); if (bad(q)) p = q; }
        Plan q = p; q.streams[c].flags = 0; q.streams[c].base = 10; q.streams[c].iexc = q.streams[c].oexc = 0; q.streams[c].grouping = 0; if (bad(q)) p = q;
    }
    for (size_t i = 0; i < p.steps.size() && now() < end; ++i) {
        Plan q = p; q.steps[i].f = Fault(); if (bad(q)) p = q;
        if (p.steps[i].imm) {
            for (i128 v : { i128(0), i128(1), i128(-1), i128(2), p.steps[i].imm / 2 }) { q = p; q.steps[i].imm = v; if (bad(q)) { p = q; break; } }
        }
    }
    if (p.clients > 1) {
        std::set<int> used; for (auto & s : p.steps) used.insert(s.client);
        if (used.size() == 1 && p.streams.empty()) { Plan q = p; q.clients = 1; for (auto & s : q.steps) s.client = 0; for (auto & i : q.init) i.client = 0; if (bad(q)) p = q; }
    }
    return p;
}

static std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += char(c); }
    return o + "\"";
}

// findings that are on record, one signature per line of the file named by SIM_KNOWN
static std::vector<std::string> known_sigs;
static void load_known() { if (const char * f = getenv("SIM_KNOWN")) { std::ifstream k(f); std::string l; while (std::getline(k, l)) if (!l.empty()) known_sigs.push_back(l); } }
bool is_known(const std::string & sig) { for (auto & k : known_sigs) if (sig == k) return true; return false; }

static int campaign(int argc, char ** argv) {
    std::string prop, out = "result.json", rdir = "."; uint64_t seed = 1; long nruns = 1000; double tmax = 60; int nw = 8;
    double min_budget = 40;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--property") prop = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--runs") nruns = atol(v.c_str()); else if (a == "--max-seconds") tmax = atof(v.c_str());
        else if (a == "--workers") nw = atoi(v.c_str()); else if (a == "--out") out = v; else if (a == "--replay-dir") rdir = v;
        else if (a == "--rehearse") g_rehearse = v == "1"; else if (a == "--min-budget") min_budget = atof(v.c_str());
    }
    PropCfg * pc = prop_cfg(prop); if (!pc) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    std::vector<World *> ws = prop_worlds(*pc);
    if (ws.empty()) { fprintf(stderr, "no world for %s\n", prop.c_str()); return 2; }
    g_deep_catch = pc->deep;
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(static_cast<void *>(sh), 0, sizeof *sh);
    g_cov = &sh->cov;
    double t0 = now();
    nw = std::min(nw, 64);
    std::vector<pid_t> pids; std::vector<int> fds;
    struct Found { long run; bool crash; int sig; };
    auto start_worker = [&](int k, long from) -> pid_t {
        fflush(stdout); fflush(stderr);
        pid_t c = fork();
        if (c) return c;
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!freopen("/dev/null", "w", stderr)) {}
        for (long i = from; i < nruns; i += nw) {
            if (sh->stop || now() - t0 > tmax) break;
            sh->cur[k] = i;
            bool cold = is_cold(*pc, i);
            if (cold) {
                if (pid_t ch = fork()) {       // the worker itself stays as it was
                    int st; waitpid(ch, &st, 0);
                    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
                    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
                    continue;
                }
            }
            alarm(30);
            Plan p = make_plan(*pc, ws, seed, i);
            RunResult r = execute(p, false);
            sh->runs[k]++; sh->hash_sum[k] += mix(r.hash, uint64_t(i));
            if (r.st.reports || r.st.faults_alloc || r.st.faults_dev || r.st.faults_handler || r.st.switches) sh->runs_cov.hit(mix(r.shape, r.st.steps));
            for (int q = 0; q < FK_N; ++q) { sh->kinds[k][q] += g_kinds[q]; g_kinds[q] = 0; }
            for (size_t q = 0; q < ws.size() && q < 160; ++q) if (p.world == ws[q]->name) ++sh->world_runs[k][q];
            RunStats & s = sh->st[k];
            s.steps += r.st.steps; s.ops += r.st.ops; s.reports += r.st.reports; s.faults_alloc += r.st.faults_alloc; s.faults_handler += r.st.faults_handler;
            s.faults_dev += r.st.faults_dev; s.reent += r.st.reent; s.switches += r.st.switches; s.points += r.st.points; s.simtime += r.st.simtime; s.retries += r.st.retries;
            if (r.v.found && !is_known(r.v.sig)) { sh->stop = 1; _exit(3); }
            if (cold) _exit(0);
        }
        _exit(0);
    };
    for (int k = 0; k < nw; ++k) { sh->cur[k] = -1; pids.push_back(start_worker(k, k)); }
    std::vector<Found> found;
    for (int k = 0; k < nw; ++k) {
        int st; waitpid(pids[size_t(k)], &st, 0);
        if (WIFSIGNALED(st)) { found.push_back(Found{sh->cur[k], true, WTERMSIG(st)}); sh->stop = 1; }
        else if (WEXITSTATUS(st) == 3) found.push_back(Found{sh->cur[k], false, 0});
        else if (WEXITSTATUS(st) != 0) { fprintf(stderr, "worker %d ended with status %d at run %ld\n", k, WEXITSTATUS(st), sh->cur[k]); return 2; }
    }
    double t_search = now() - t0;
    g_rehearse = false;
    std::sort(found.begin(), found.end(), [](const Found & a, const Found & b) { return a.run < b.run; });
    std::ostringstream viol; int nv = 0; bool gate_fail = false;
    for (auto & f : found) {
        if (nv) break;                               // one well-examined violation is enough
        Plan p = make_plan(*pc, ws, seed, f.run);
        Hist before;
        ChildVerdict v = run_child(before, p);
        // alone it holds: add the runs this worker made before, the latest first
        for (long n = 8; !v.violated && n <= 40000 && long(before.size()) < f.run / nw; n *= 4) {
            before.clear();
            for (long j = std::min(n, f.run / nw); j > 0; --j) if (!is_cold(*pc, f.run - j * nw)) before.push_back(make_plan(*pc, ws, seed, f.run - j * nw));
            v = run_child(before, p);
        }
        if (!v.violated) { fprintf(stderr, "run %ld: violation did not reproduce\n", f.run); gate_fail = true; continue; }
        Plan q = minimise(before, p, v, min_budget);
        ChildVerdict a = run_child(before, q), b = run_child(before, q);
        if (!a.violated || !b.violated || a.hash != b.hash || strcmp(a.vsig, b.vsig)) { fprintf(stderr, "run %ld: minimised plan is not deterministic\n", f.run); gate_fail = true; continue; }
        std::string path = rdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(f.run) + ".plan";
        std::ofstream o(path); for (auto & e : before) o << e.to_text(); o << q.to_text(); o << "# violation: " << a.text << "\n# hash: " << a.hash << "\n"; o.close();
        if (viol.tellp() > 0) viol << ",";
        viol << "{\"run\":" << f.run << ",\"seed\":" << p.seed << ",\"signature\":" << jstr(a.vsig) << ",\"text\":" << jstr(a.text) << ",\"replay\":" << jstr(path)
             << ",\"hash\":\"" << a.hash << "\",\"steps\":" << q.steps.size() << ",\"runs_before\":" << before.size() << "}";
        ++nv;
    }
    uint64_t runs = 0, hs = 0; RunStats s;
    for (int k = 0; k < nw; ++k) { runs += sh->runs[k]; hs += sh->hash_sum[k]; RunStats & q = sh->st[k];
        s.steps += q.steps; s.ops += q.ops; s.reports += q.reports; s.faults_alloc += q.faults_alloc; s.faults_handler += q.faults_handler; s.faults_dev += q.faults_dev;
        s.reent += q.reent; s.switches += q.switches; s.points += q.points; s.simtime += q.simtime; s.retries += q.retries; }
    std::ofstream o(out);
    o << "{\"property\":\"" << prop << "\",\"seed\":" << seed << ",\"runs\":" << runs << ",\"planned_runs\":" << nruns << ",\"seconds\":" << t_search
      << ",\"steps\":" << s.steps << ",\"reports\":" << s.reports << ",\"faults_alloc\":" << s.faults_alloc << ",\"faults_handler\":" << s.faults_handler
      << ",\"simtime\":" << s.simtime << ",\"faults_dev\":" << s.faults_dev << ",\"reentrant\":" << s.reent << ",\"switches\":" << s.switches << ",\"points\":" << s.points
      << ",\"distinct\":" << sh->cov.count() << ",\"distinct_runs\":" << sh->runs_cov.count() << ",\"hash_sum\":\"" << hs << "\",\"gate_fail\":" << (gate_fail ? "true" : "false")
      << ",\"kinds\":{";
    static const char * const kn[FK_N] = { "allocation fails once or for a while", "allocation fails from some point on", "handler throws the simulator's exception", "handler throws int", "handler throws a foreign system_error",
        "handler returns", "handler re-enters the library", "handler allocates, then throws", "input device ends", "input device ends once, then goes on", "input device throws once", "input device throws from some point on",
        "output device refuses from some point on", "output device refuses once", "output device throws once", "output device throws from some point on", "nested library call inside a handler", "forced thread switch", "error injected into a chain", "step inside a destructor during unwinding", "step inside a catch block" };
    for (int q = 0; q < FK_N; ++q) { uint64_t t = 0; for (int k = 0; k < nw; ++k) t += sh->kinds[k][q]; o << (q ? "," : "") << jstr(kn[q]) << ":" << t; }
    o << "},\"worlds\":{";
    for (size_t q = 0; q < ws.size() && q < 160; ++q) { uint64_t t = 0; for (int k = 0; k < nw; ++k) t += sh->world_runs[k][q]; o << (q ? "," : "") << jstr(ws[q]->name) << ":" << t; }
    o << "},\"violations\":[" << viol.str() << "]}\n";
    o.close();
    return gate_fail && !nv ? 2 : nv ? 1 : 0;
}

static int replay(const char * file, bool trace) {
    std::ifstream in(file); std::stringstream ss; ss << in.rdbuf();
    Plan p; std::string err, line, part; Hist before; bool any = false;
    while (std::getline(ss, line)) {
        part += line + "\n";
        if (line != "end") continue;
        if (any) before.push_back(p);
        p = Plan();
        if (!Plan::from_text(part, p, err)) { fprintf(stderr, "%s: %s\n", file, err.c_str()); return 2; }
        part.clear(); any = true;
    }
    if (!any) { fprintf(stderr, "%s: no plan\n", file); return 2; }
    PropCfg * pc = prop_cfg(p.property); if (pc) g_deep_catch = pc->deep;
    ChildVerdict v = run_child(before, p);
    if (trace) { for (auto & b : before) execute(b, false); RunResult r = execute(p, true); fputs(r.trace.c_str(), stdout); }
    printf("hash %llu\n", (unsigned long long)v.hash);
    if (v.violated) { printf("VIOLATED %s\n%s\n", v.vsig, v.text); return 1; }
    printf("holds\n"); return 0;
}
} // sim

int main(int argc, char ** argv) {
    using namespace sim;
    // addresses are part of the input of a run: the same ones in every process, where the system permits it
    int pers = personality(0xffffffff);
    if (pers != -1 && ! (pers & ADDR_NO_RANDOMIZE) && ! getenv("SIM_EXECED") && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
        setenv("SIM_EXECED", "1", 1); execv("/proc/self/exe", argv);
    }
    build_worlds(); load_known();
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "campaign") return campaign(argc, argv);
    if (m == "replay" && argc > 2) return replay(argv[2], false);
    if (m == "trace" && argc > 2) return replay(argv[2], true);
    if (m == "plan" && argc > 4) {
        PropCfg * pc = prop_cfg(argv[2]); if (!pc) return 2;
        std::fputs(make_plan(*pc, prop_worlds(*pc), strtoull(argv[3], 0, 10), atol(argv[4])).to_text().c_str(), stdout); return 0;
    }
    fprintf(stderr, "usage: sim campaign|replay|trace|plan\n"); return 2;
}
