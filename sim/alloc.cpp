// Allocation seam: malloc and friends of this process, with a per-thread region
// in which calls are counted, tracked and made to fail as the plan says.
#include "core.hpp"
#include <cstring>
#include <cerrno>
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t);
}
namespace sim {
static __thread AllocCtl t_ctl __attribute__((tls_model("initial-exec")));
static __thread void * t_track[256] __attribute__((tls_model("initial-exec")));
static __thread int t_ntrack __attribute__((tls_model("initial-exec")));
AllocCtl & alloc_ctl() { return t_ctl; }
static bool on_alloc() {            // true: fail this allocation
    AllocCtl & c = t_ctl;
    if (!c.armed) return false;
    ++c.n; ++c.total;
    c.armed = false; sched_point(2); c.armed = true;
    if (c.fail_from > 0 && c.n >= c.fail_from && (c.fail_count < 0 || c.n < c.fail_from + c.fail_count)) { ++c.failed; ++g_kinds[c.fail_count < 0 ? FK_ALLOC_ALL : FK_ALLOC_ONE]; return true; }
    return false;
}
static void track(void * p) {
    if (!t_ctl.armed || !p) return;
    if (t_ntrack < 256) t_track[t_ntrack++] = p;
    t_ctl.live = t_ntrack;
}
static void untrack(void * p) {
    if (!t_ntrack || !p) return;
    for (int i = t_ntrack - 1; i >= 0; --i) if (t_track[i] == p) { t_track[i] = t_track[--t_ntrack]; break; }
    t_ctl.live = t_ntrack;
}
void alloc_forget() { t_ntrack = 0; t_ctl.live = 0; }
}
extern "C" {
void * malloc(size_t n) {
    if (sim::on_alloc()) { errno = ENOMEM; return nullptr; }
    void * p = __libc_malloc(n); sim::track(p); return p;
}
void * calloc(size_t a, size_t b) {
    if (sim::on_alloc()) { errno = ENOMEM; return nullptr; }
    void * p = __libc_calloc(a, b); sim::track(p); return p;
}
void * realloc(void * q, size_t n) {
    if (sim::on_alloc()) { errno = ENOMEM; return nullptr; }
    sim::untrack(q);
    void * p = __libc_realloc(q, n); sim::track(p); return p;
}
void free(void * p) { sim::untrack(p); __libc_free(p); }
}
