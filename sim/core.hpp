// Core vocabulary of the simulator: exact integers, type descriptors, operation
// tables of a world (filled in by the world translation units, which are the
// only ones that include the library), plans, steps, outcomes.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

using i128 = __int128;
using u128 = unsigned __int128;

inline std::string str(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? u128(0) - u128(v) : u128(v);
    std::string s;
    while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; }
    return neg ? "-" + s : s;
}
inline i128 parse128(const std::string & s) {
    i128 v = 0; bool neg = false; size_t i = 0;
    if (i < s.size() && s[i] == '-') { neg = true; ++i; }
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') break; v = v * 10 + (s[i] - '0'); }
    return neg ? -v : v;
}

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
    i128 range(i128 lo, i128 hi) {          // inclusive
        u128 span = u128(hi) - u128(lo) + 1;
        u128 r = (u128(next()) << 64) | next();
        return lo + i128(span ? r % span : r);
    }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27;
    return z * 0x94D049BB133111EBull ^ (z >> 31);
}

// ---------------------------------------------------------------- operations
enum Op : uint8_t {
    ADD, SUB, MUL, DIV, MOD, SHL, SHR, OR, AND, XOR,          // 0..9   r = a op b
    LT, LE, GT, GE, EQ, NE,                                   // 10..15 bool
    ADDA, SUBA, MULA, DIVA, MODA, SHLA, SHRA, ORA, ANDA, XORA,// 16..25 a op= b
    ASSIGN,                                                   // 26     a = b (also the conversion operators)
    CONSTRUCT,                                                // 27     a := A(b)
    N_BIN,                                                    // 28
    NEG = N_BIN, POS, COMPL, PREINC, PREDEC, POSTINC, POSTDEC, DEFCTOR, COPY, // unary
    N_OP,
    // steps that are not operators
    SETV = N_OP,     // a := A(constant)     (construct from built-in constant, then assign)
    SIN,             // stream >> a
    SOUT,            // stream << a
    SCTL,            // stream recovery action
    EXPR,            // an expression template from the world's expression table
    NOPSTEP,
    N_STEP
};
extern const char * const op_name[N_STEP];
inline bool is_arith(int o)   { return o <= XOR; }
inline bool is_cmp(int o)     { return o >= LT && o <= NE; }
inline bool is_compound(int o){ return o >= ADDA && o <= XORA; }
inline int  base_op(int o)    { return is_compound(o) ? o - ADDA : o; }

// ---------------------------------------------------------------- results
struct Cap {                 // what an operation returned
    bool set = false, isbool = false, safe = false, sgn = false, self = false;
    uint8_t bits = 0;
    i128 v = 0, lo = 0, hi = 0;      // value; range declared by the result type
};
struct RInfo {               // static facts of an operation's result type
    bool present = false;    // the operation compiles for this pair
    bool sgn = false; uint8_t bits = 0;       // result base type as the library has it
    bool psgn = false; uint8_t pbits = 0;     // result base type according to the policy's documentation (0: unknown)
    i128 lo = 0, hi = 0;
};

enum Outcome : uint8_t { DONE, SYSERR, BADALLOC, SIMEX, IOSFAIL, DEVEX, OTHER, CRASH };
extern const char * const outcome_name[];

struct Caught {              // what left an operation
    Outcome kind = DONE;
    int code = 0;                 // error code (raw) for SYSERR, token for SIMEX/DEVEX
    bool cat_safe = false;        // category is the library's, seen from the catching unit
    uint32_t eq_codes = 0;        // bitmask of safe_numerics_error e with code == e, as seen by the unit that catches
    uint32_t eq_actions = 0;      // bitmask of safe_numerics_actions a with code == a
    uint32_t eq_codes2 = 0, eq_actions2 = 0;  // same, seen from another translation unit
    bool copy_ok = true;          // a copy / rethrow shows the same content
    bool what_ok = true;          // what() contains message text of the code
    std::string what, catname, msg;
};

// ---------------------------------------------------------------- type descriptors
using OpFn   = void (*)(void * a, const void * b, Cap & c);
using UnFn   = void (*)(void * a, Cap & c);
using SetFn  = void (*)(void * a, i128 v);        // through the library: assign from a built-in constant
using LoadFn = i128 (*)(const void * a);
using RawFn  = void (*)(void * a, i128 v);        // bypasses the library's checks
struct StreamFns;
struct TypeDesc {
    const char * name = "";
    bool safe = false, sgn = false, lit = false;
    uint8_t bits = 0, size = 0;
    uint8_t charlike = 0;     // 1: streamed as a number although a character type
    i128 lo = 0, hi = 0;      // declared range (from the harness's own spec, not asked of the library)
    LoadFn load = nullptr;
    RawFn  raw = nullptr;
    SetFn  set_ctor = nullptr, set_assign = nullptr;
    const StreamFns * st = nullptr;
};

// Runs op and turns whatever leaves it into a Caught.  Implemented in the world's
// translation unit, so that the catch is compiled with the library's headers.
struct World; struct Expect;
struct ExprDesc {
    const char * text = "";
    int ta = 0, tb = 0, tc = 0;                       // operand types
    void (*fn)(const void *, const void *, const void *, Cap &) = nullptr;
    int shape = 0;
    void (*model)(i128 a, i128 b, i128 c, Expect & e) = nullptr;     // exact evaluation of the same expression
};
struct World {
    const char * name = "";
    char promo = 'n';         // 'n'ative, 'a'utomatic, 'c'pp
    char errs = 's';          // 's'trict throw, 'l'oose throw, 'h'andlers of the simulator
    std::vector<TypeDesc> types;
    int nsafe = 0;
    std::vector<OpFn> ops;           // [ (ta * nt + tb) * N_BIN + op ]
    std::vector<RInfo> rinfo;        // same index
    std::vector<UnFn> uns;           // [ ta * (N_OP - N_BIN) + (op - N_BIN) ]
    std::vector<RInfo> unrinfo;
    std::vector<ExprDesc> exprs;
    int nt() const { return int(types.size()); }
    OpFn fn(int op, int a, int b) const { return ops[(size_t(a) * nt() + b) * N_BIN + op]; }
    const RInfo & ri(int op, int a, int b) const { return rinfo[(size_t(a) * nt() + b) * N_BIN + op]; }
    UnFn un(int op, int a) const { return uns[size_t(a) * (N_OP - N_BIN) + (op - N_BIN)]; }
    const RInfo & unri(int op, int a) const { return unrinfo[size_t(a) * (N_OP - N_BIN) + (op - N_BIN)]; }
    void resize() {
        ops.assign(size_t(nt()) * nt() * N_BIN, nullptr); rinfo.assign(ops.size(), RInfo());
        uns.assign(size_t(nt()) * (N_OP - N_BIN), nullptr); unrinfo.assign(uns.size(), RInfo());
    }
};

// ---------------------------------------------------------------- fault seams
// allocation seam (alloc.cpp interposes malloc and friends)
struct AllocCtl {
    bool armed = false;         // inside an observed region
    long n = 0;                 // allocations seen in the region
    long fail_from = -1;        // first allocation to fail (1-based), -1: never
    long fail_count = 0;        // how many consecutive ones fail (-1: all)
    long failed = 0;
    long live = 0;              // allocations minus frees of region-allocated blocks
    uint64_t total = 0;
};
AllocCtl & alloc_ctl();                     // per thread
// handler seam
enum HAct : uint8_t { H_THROW_SIM, H_THROW_INT, H_THROW_SYS, H_RETURN, H_REENTER, H_ALLOC_THROW, H_N };
struct HEvent { uint8_t cls; uint8_t code; bool msg; };
struct DevError { uint64_t token; };                       // thrown by simulated devices
struct SimError { uint64_t token; uint64_t check; };      // the simulator's own exception type
struct HandlerCtl {
    std::vector<HEvent> log;
    HAct act = H_THROW_SIM;
    uint64_t token = 0;
    int depth = 0, max_depth = 3, nested = 0, nested_bad = 0;
    void (*reenter)(void *) = nullptr; void * reenter_arg = nullptr;
};
HandlerCtl & handler_ctl();                 // per thread
void on_handler(int cls, int code, const char * msg);     // called by the simulator's exception policies; may throw
// scheduling seam
void sched_point(int kind);

Caught catch_current();                     // call inside a catch(...) block
void raise_here(int policy, int cls, int code); void raise_there(int policy, int cls, int code);   // NOPSTEP with a mode
uint32_t other_unit_eq(int what, const void * error_code);

// what was actually injected, by kind
enum { FK_ALLOC_ONE, FK_ALLOC_ALL, FK_HANDLER, FK_READ = FK_HANDLER + 6, FK_WRITE = FK_READ + 4, FK_REENTRY = FK_WRITE + 4, FK_SWITCH, FK_INJECT, FK_UNWIND, FK_CATCH, FK_N };
extern uint64_t g_kinds[FK_N];
void register_world(World *);
std::vector<World *> & worlds();
} // sim
