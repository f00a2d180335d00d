#pragma once
#include "plan.hpp"
#include "model.hpp"
#include <memory>
namespace sim {
struct Coverage {                      // shared between workers (bitmap, OR-ed)
    enum { BITS = 1 << 25 };
    uint8_t map[BITS / 8];
    void hit(uint64_t h) { h %= BITS; map[h >> 3] |= uint8_t(1u << (h & 7)); }
    uint64_t count() const { uint64_t n = 0; for (uint8_t b : map) n += __builtin_popcount(b); return n; }
};
extern Coverage * g_cov;
extern bool g_deep_catch;
bool is_known(const std::string & sig);
World * find_world(const std::string & name);
RunResult execute(const Plan & p, bool want_trace);
RunResult execute_arith(const Plan & p, bool want_trace);
RunResult execute_stream(const Plan & p, bool want_trace);
RunResult execute_checked(const Plan & p, bool want_trace);
Plan generate(const std::string & property, uint64_t seed, int tier);
void alloc_forget();
void release_thread_state();
// a client of a threaded run: executes its own steps, on its own objects and the shared constant ones
struct StepLog { long step; uint64_t hash; uint8_t kind; int code; i128 v; };
struct ThreadClient { virtual ~ThreadClient() {} virtual void go(int client) = 0; std::vector<StepLog> log; RunStats st; std::string trace; };
std::unique_ptr<ThreadClient> make_arith_client(const Plan & p, bool want, ThreadClient * share);
std::unique_ptr<ThreadClient> make_stream_client(const Plan & p, bool want, ThreadClient * share);
RunResult execute_threads(const Plan & p, bool want);
enum { BUF = 16 };
// Runs a step (which lets no exception out) plainly, or where programs clean up:
// in a destructor while an unrelated exception is on its way, or in a catch block.
struct Unrelated { int n; };
template<class F> struct AtUnwind { F & f; ~AtUnwind() { f(); } };
template<class F> inline void in_context(int ctx, F f) {
    if (ctx == 1) { ++g_kinds[FK_UNWIND]; try { AtUnwind<F> u{f}; throw Unrelated{1}; } catch (const Unrelated &) {} }
    else if (ctx == 2) { ++g_kinds[FK_CATCH]; try { throw Unrelated{2}; } catch (const Unrelated &) { f(); } }
    else f();
}
} // sim
