// The reference model: exact integer arithmetic plus the library's documented
// reporting rules.  Knows nothing of the library's code; static facts about
// result types come from the world's tables.
#pragma once
#include "core.hpp"

namespace sim {

// error codes as documented
enum { E_OK, E_POS, E_NEG, E_DOM, E_RANGE, E_PREC, E_UNDER, E_NEGVALSH, E_NEGSH, E_TOOLARGE, E_UNINIT, E_N };
// classes as documented (safe_numerics_actions)
enum { C_NONE, C_UNINIT, C_ARITH, C_IMPL, C_UNDEF };
inline int class_of(int code) {
    switch (code) {
    case E_POS: case E_NEG: case E_DOM: case E_RANGE: case E_PREC: case E_UNDER: return C_ARITH;
    case E_NEGVALSH: case E_NEGSH: case E_TOOLARGE: return C_IMPL;
    case E_UNINIT: return C_UNINIT;
    }
    return C_NONE;
}
inline bool fits(i128 v, int bits, bool sgn) {
    if (sgn) { i128 m = i128(1) << (bits - 1); return v >= -m && v < m; }
    return v >= 0 && (v >> bits) == 0;
}
inline i128 wrap(i128 v, int bits, bool sgn) {
    u128 m = (u128(1) << bits) - 1; u128 u = u128(v) & m;
    if (sgn && ((u >> (bits - 1)) & 1)) return i128(u) - (i128(1) << bits);
    return i128(u);
}
inline i128 tmax(int bits, bool sgn) { return sgn ? (i128(1) << (bits - 1)) - 1 : (i128(1) << bits) - 1; }
inline i128 tmin(int bits, bool sgn) { return sgn ? -(i128(1) << (bits - 1)) : 0; }

// exact mathematics, saturating far outside every type
const i128 HUGE_POS = (i128(1) << 120), HUGE_NEG = -(i128(1) << 120);
struct Math { bool defined = true; i128 z = 0; };
Math math(int op, i128 a, i128 b);          // op in ADD..SHR and comparisons; bitwise not handled

struct Expect {
    bool z_known = false;      // exact value of the operation
    i128 z = 0;
    bool has_target = false;   // the operation stores into a
    i128 target = 0;           // value a must hold after success
    bool must_report = false;  // no way to complete exactly
    bool must_succeed = false; // representable all the way
    uint32_t codes = 0;        // acceptable codes of a report
    bool value_unspecified = false;   // loose policy: ignored implementation-defined behaviour
    // the built-in counterpart, for handlers that return
    bool builtin_defined = false;
    i128 bz = 0, btarget = 0;
    int reports_min = 0, reports = 0;
};

Expect expect_bin(const World & w, int op, int ta, i128 va, int tb, i128 vb);
Expect expect_un(const World & w, int op, int ta, i128 va);
Expect expect_set(const World & w, int ta, i128 v, bool from_unsigned);
// one node of an expression: operands' types given explicitly
struct TInfo { bool sgn; int bits; };
Expect expect_core(char promo, int op, TInfo a, i128 va, TInfo b, i128 vb, const RInfo & r);
void apply_errs(char errs, Expect & e);
} // sim
