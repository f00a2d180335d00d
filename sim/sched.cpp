// The scheduler of threaded runs.  Every client is a real thread, but only the
// one that holds the baton runs; at schedule points (every memory access of the
// instrumented units, every allocation, handler call, device transfer and
// operation boundary) the plan decides who goes on.  The instrumentation is
// gcc's -fsanitize=thread calling the functions below instead of its runtime.
#include "exec.hpp"
#include <pthread.h>
#include <unistd.h>
#include <semaphore.h>
#include <sched.h>
#include <cerrno>
#include <cstring>
#include <unordered_map>
extern "C" { extern char __data_start[], _end[]; }
namespace sim {
enum { MAXC = 4 };
static __thread int t_client __attribute__((tls_model("initial-exec"))) = -1;
static __thread bool t_inside __attribute__((tls_model("initial-exec"))) = false;
struct Clock { unsigned c[MAXC]; };
struct Epochs { unsigned w[MAXC], r[MAXC]; };
static struct Sched {
    bool active = false, interleaved = false;
    int n = 0, cur = -1;
    sem_t sems[MAXC]; sem_t over; bool done[MAXC];
    const std::vector<Switch> * plan = nullptr; size_t ix = 0; long gap = 0;
    uint64_t points = 0, switches = 0, forced = 0;
    Clock vc[MAXC];
    bool race = false; uintptr_t race_at = 0; int race_a = 0, race_b = 0; bool race_w = false; long step[MAXC];
    std::unordered_map<uintptr_t, Epochs> * mem = nullptr;
    std::unordered_map<uintptr_t, Clock> * syncs = nullptr;
} S;

static void hand_over(int to) {
    int me = t_client, e = errno;
    S.cur = to; ++S.switches;
    sem_post(&S.sems[to]);
    while (sem_wait(&S.sems[me])) {}
    errno = e;
}
static void take_next() {
    if (S.plan && S.ix < S.plan->size()) S.gap = (*S.plan)[S.ix].at; else S.gap = -1;
}
void sched_point(int) {
    if (t_client < 0 || t_inside) return;
    ++S.points;
    if (!S.interleaved || S.gap < 0) return;
    if (--S.gap > 0) return;
    int to = (*S.plan)[S.ix].to; ++S.ix; take_next();
    if (to < 0 || to >= S.n || to == t_client || S.done[to]) return;
    ++g_kinds[FK_SWITCH];
    hand_over(to);
}
static void forced_yield() {                    // the running client waits for another one
    ++S.forced;
    for (int k = 1; k < S.n; ++k) { int to = (t_client + k) % S.n; if (!S.done[to]) { hand_over(to); return; } }
}
// ---- happens-before over the program's static storage
static void access(const void * p, size_t n, bool write) {
    if (t_client < 0 || t_inside) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (S.interleaved && !S.race && a >= uintptr_t(__data_start) && a < uintptr_t(_end)) {
        t_inside = true; int me = t_client; AllocCtl & al = alloc_ctl(); bool arm = al.armed; al.armed = false;
        for (size_t i = 0; i < n && !S.race; ++i) {
            Epochs & e = (*S.mem)[a + i];
            for (int k = 0; k < S.n; ++k) if (k != me && (e.w[k] > S.vc[me].c[k] || (write && e.r[k] > S.vc[me].c[k]))) {
                S.race = true; S.race_at = a; S.race_a = k; S.race_b = me; S.race_w = write; break; }
            (write ? e.w : e.r)[me] = S.vc[me].c[me];
        }
        t_inside = false; al.armed = arm;
    }
    sched_point(6);
}
static void sync_on(const void * p, bool acquire, bool release) {
    if (t_client < 0 || t_inside || !S.interleaved) return;
    t_inside = true; AllocCtl & al = alloc_ctl(); bool arm = al.armed; al.armed = false;
    Clock & l = (*S.syncs)[reinterpret_cast<uintptr_t>(p)]; Clock & v = S.vc[t_client];
    if (acquire) for (int k = 0; k < S.n; ++k) if (l.c[k] > v.c[k]) v.c[k] = l.c[k];
    if (release) { for (int k = 0; k < S.n; ++k) if (v.c[k] > l.c[k]) l.c[k] = v.c[k]; ++v.c[t_client]; }
    t_inside = false; al.armed = arm;
}

// ---- running clients
struct Job { ThreadClient * t; int client; };
static void * body(void * a) {
    Job * j = static_cast<Job *>(a);
    while (sem_wait(&S.sems[j->client])) {}
    t_client = j->client;
    j->t->go(j->client);
    t_client = -1;
    release_thread_state();
    S.done[j->client] = true;
    for (int k = 0; k < S.n; ++k) if (!S.done[k]) { S.cur = k; sem_post(&S.sems[k]); return nullptr; }
    sem_post(&S.over);
    return nullptr;
}
static void run(std::vector<Job> & jobs, bool interleaved, const std::vector<Switch> * plan) {
    S.n = interleaved ? int(jobs.size()) : MAXC; S.interleaved = interleaved; S.plan = plan; S.ix = 0; S.gap = -1; S.race = false;
    std::unordered_map<uintptr_t, Epochs> mem; std::unordered_map<uintptr_t, Clock> syncs; S.mem = &mem; S.syncs = &syncs;
    memset(S.vc, 0, sizeof S.vc); for (int k = 0; k < MAXC; ++k) { S.vc[k].c[k] = 1; S.done[k] = true; S.step[k] = -1; }
    if (interleaved) take_next();
    sem_init(&S.over, 0, 0);
    std::vector<pthread_t> th(jobs.size());
    for (auto & j : jobs) { S.done[j.client] = false; sem_init(&S.sems[j.client], 0, 0); }
    for (size_t i = 0; i < jobs.size(); ++i) if (pthread_create(&th[i], nullptr, body, &jobs[i])) _exit(2);
    S.cur = jobs[0].client; sem_post(&S.sems[jobs[0].client]);
    while (sem_wait(&S.over)) {}
    for (auto & t : th) pthread_join(t, nullptr);
}

RunResult execute_threads(const Plan & p, bool want) {
    RunResult r;
    bool cold = p.threaded == 2;
    bool stream = p.world.compare(0, 7, "stream_") == 0;
    auto make = [&](ThreadClient * share) { return stream ? make_stream_client(p, want, share) : make_arith_client(p, want, share); };
    int n = p.clients > MAXC ? int(MAXC) : p.clients;
    if (!find_world(p.world)) return r;
    std::vector<std::unique_ptr<ThreadClient>> solo, inter;
    uint64_t points0 = S.points, sw0 = S.switches;
    auto alone = [&] {
        for (int c = 0; c < n; ++c) {
            solo.push_back(make(nullptr));
            std::vector<Job> j{Job{solo.back().get(), c}};
            run(j, false, nullptr);
        }
    };
    auto together = [&] {
        std::vector<Job> jobs;
        for (int c = 0; c < n; ++c) { inter.push_back(make(c ? inter[0].get() : nullptr)); jobs.push_back(Job{inter.back().get(), c}); }
        run(jobs, true, &p.switches);
    };
    bool race = false;
    if (cold) { together(); race = S.race; alone(); } else { alone(); together(); race = S.race; }
    r.st.points = S.points - points0; r.st.switches = S.switches - sw0;
    uint64_t h = 7;
    for (int c = 0; c < n; ++c) {
        auto & a = solo[size_t(c)]->log; auto & b = inter[size_t(c)]->log;
        RunStats & q = inter[size_t(c)]->st; r.st.steps += q.steps; r.st.ops += q.ops; r.st.reports += q.reports; r.st.faults_alloc += q.faults_alloc; r.st.faults_handler += q.faults_handler; r.st.faults_dev += q.faults_dev; r.st.simtime += q.simtime;
        for (size_t i = 0; i < b.size(); ++i) h = mix(h, b[i].hash);
        if (want) r.trace += "client " + std::to_string(c) + " alone:\n" + solo[size_t(c)]->trace + "client " + std::to_string(c) + " with the others:\n" + inter[size_t(c)]->trace;
        for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
            if (i < a.size() && i < b.size() && a[i].hash == b[i].hash) continue;
            if (!r.v.found) {
                auto show = [](const std::vector<StepLog> & l, size_t i) { if (i >= l.size()) return std::string("nothing"); return std::string(outcome_name[l[i].kind]) + " code " + std::to_string(l[i].code) + " value " + str(l[i].v) + " digest " + std::to_string(l[i].hash % 1000000); };
                long st = i < b.size() ? b[i].step : i < a.size() ? a[i].step : -1;
                r.v.found = true; r.v.property = p.property; r.v.step = st;
                r.v.sig = "influenced by other threads|" + p.world + "|" + (st >= 0 && st < long(p.steps.size()) ? op_name[p.steps[size_t(st)].op] : "");
                r.v.text = p.world + " client " + std::to_string(c) + " step " + std::to_string(st) + " (" + (st >= 0 && st < long(p.steps.size()) ? op_name[p.steps[size_t(st)].op] : "") + "): alone it ends with " + show(a, i) + ", with other threads it ends with " + show(b, i);
            }
            break;
        }
    }
    if (race && !r.v.found) {
        r.v.found = true; r.v.property = p.property; r.v.step = -1;
        r.v.sig = "shared mutable state|" + std::to_string(S.race_at - uintptr_t(__data_start));
        r.v.text = p.world + ": clients " + std::to_string(S.race_a) + " and " + std::to_string(S.race_b) + " access the same static object (offset " + std::to_string(S.race_at - uintptr_t(__data_start)) + " of the data segment), one of them writing, without synchronisation";
    }
    r.hash = mix(h, race ? 1 : 0); r.shape = mix(h, r.st.points);
    return r;
}
} // sim

using namespace sim;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void * p) { access(p, n, false); } void __tsan_write##n(void * p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void * p) { access(p, n, false); } void __tsan_unaligned_write##n(void * p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void * p) { access(p, n, false); } void __tsan_volatile_write##n(void * p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { access(p, n, false); }
void __tsan_write_range(void * p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T * p, int) { sched_point(7); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); sync_on(const_cast<const T *>(p), true, false); return v; } \
    void __tsan_atomic##b##_store(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T * p, T v, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) { sched_point(7); sync_on(const_cast<const T *>(p), true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sched_point(7); } void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics: waits give the baton away
int __cxa_guard_acquire(uint64_t * g) {
    volatile char * b = reinterpret_cast<volatile char *>(g);
    for (;;) {
        if (b[0]) { sync_on(g, true, false); return 0; }
        if (!b[1]) { b[1] = 1; sync_on(g, true, false); return 1; }
        if (t_client >= 0) forced_yield(); else sched_yield();
    }
}
void __cxa_guard_release(uint64_t * g) { volatile char * b = reinterpret_cast<volatile char *>(g); sync_on(g, false, true); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t * g) { volatile char * b = reinterpret_cast<volatile char *>(g); sync_on(g, false, true); b[1] = 0; }
// linked with --wrap: locks taken by the instrumented units
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
    while (pthread_mutex_trylock(m) == EBUSY) { if (t_client >= 0) forced_yield(); else sched_yield(); }
    sync_on(m, true, false);
    sched_point(8);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { sync_on(m, false, true); int r = __real_pthread_mutex_unlock(m); sched_point(8); return r; }
int __wrap_pthread_once(pthread_once_t * o, void (*f)()) {
    volatile int * s = reinterpret_cast<volatile int *>(o);
    for (;;) {
        if (*s == 2) { sync_on(o, true, false); return 0; }
        if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } sync_on(o, false, true); *s = 2; return 0; }
        if (t_client >= 0) forced_yield(); else sched_yield();
    }
}
}
