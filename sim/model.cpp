#include "model.hpp"
namespace sim {

const char * const op_name[N_STEP] = {
    "ADD","SUB","MUL","DIV","MOD","SHL","SHR","OR","AND","XOR","LT","LE","GT","GE","EQ","NE",
    "ADDA","SUBA","MULA","DIVA","MODA","SHLA","SHRA","ORA","ANDA","XORA","ASSIGN","CONSTRUCT",
    "NEG","POS","COMPL","PREINC","PREDEC","POSTINC","POSTDEC","DEFCTOR","COPY",
    "SETV","SIN","SOUT","SCTL","EXPR","NOP" };
const char * const outcome_name[] = { "done","system_error","bad_alloc","sim_error","ios_failure","device_error","other","crash" };

Math math(int op, i128 a, i128 b) {
    Math m;
    switch (op) {
    case ADD: m.z = a + b; break;
    case SUB: m.z = a - b; break;
    case MUL: if (__builtin_mul_overflow(a, b, &m.z)) m.z = ((a < 0) != (b < 0)) ? HUGE_NEG : HUGE_POS; break;
    case DIV: if (b == 0) m.defined = false; else m.z = a / b; break;
    case MOD: if (b == 0) m.defined = false; else m.z = a % b; break;
    case SHL:
        if (b < 0) m.defined = false;
        else if (a == 0) m.z = 0;
        else if (b > 64) m.z = a > 0 ? HUGE_POS : HUGE_NEG;
        else if (__builtin_mul_overflow(a, i128(1) << int(b), &m.z)) m.z = a > 0 ? HUGE_POS : HUGE_NEG;
        break;
    case SHR:
        if (b < 0) m.defined = false;
        else if (b > 120) m.z = a < 0 ? -1 : 0;
        else m.z = a >> int(b);
        break;
    case LT: m.z = a < b; break;
    case LE: m.z = a <= b; break;
    case GT: m.z = a > b; break;
    case GE: m.z = a >= b; break;
    case EQ: m.z = a == b; break;
    case NE: m.z = a != b; break;
    default: m.defined = false;
    }
    if (m.z > HUGE_POS) m.z = HUGE_POS;
    if (m.z < HUGE_NEG) m.z = HUGE_NEG;
    return m;
}

static uint32_t cast_codes(i128 v, int bits, bool sgn) {
    if (v > tmax(bits, sgn)) return 1u << E_POS;
    if (v < tmin(bits, sgn)) return sgn ? 1u << E_NEG : (1u << E_DOM | 1u << E_NEG);
    return 0;
}

// op between operands of the given types, without the store of a compound form
Expect expect_core(char promo, int op, TInfo ta, i128 va, TInfo tb, i128 vb, const RInfo & r) {
    Expect e;
    int bits; bool sgn;            // type the operation is carried out in
    if (op == OR || op == AND || op == XOR) {
        bits = r.pbits ? r.pbits : r.bits; sgn = r.pbits ? r.psgn : r.sgn;
        i128 a = wrap(va, bits, sgn), b = wrap(vb, bits, sgn);
        e.z = wrap(op == OR ? (a | b) : op == AND ? (a & b) : (a ^ b), bits, sgn);
        e.z_known = true; e.must_succeed = true;
        e.builtin_defined = true; e.bz = e.z;
        return e;
    }
    bool shift = op == SHL || op == SHR;
    int sbits = r.bits;            // width of the type a shift is really carried out in
    if (promo == 'a') {            // documented: widened as far as the widest type
        bits = 64; sgn = shift ? ta.sgn : (op == SUB ? true : (ta.sgn || tb.sgn));
    } else if (r.pbits) { bits = r.pbits; sgn = r.psgn; }
    else { bits = r.bits; sgn = r.sgn; }

    Math m = math(op, va, vb);
    uint32_t codes = cast_codes(va, bits, sgn) | cast_codes(vb, bits, sgn);
    bool conv_ok = codes == 0;
    if (shift && promo == 'a') codes |= cast_codes(va, r.bits, r.sgn) | cast_codes(vb, r.bits, r.sgn);     // the amount may be too large for the result type
    if (is_cmp(op)) {
        e.z_known = true; e.z = m.z; e.must_succeed = conv_ok; e.codes = codes;
        if (promo != 'a') {
            i128 a = wrap(va, bits, sgn), b = wrap(vb, bits, sgn);
            e.builtin_defined = true; e.bz = math(op, a, b).z;
            e.reports = e.reports_min = !fits(va, bits, sgn) + !fits(vb, bits, sgn);
        }
        return e;
    }
    bool op_err = false;
    if (!m.defined) {
        op_err = true;
        codes |= op == SHL || op == SHR ? 1u << E_NEGSH : 1u << E_DOM;
        e.must_report = true;
    } else {
        e.z_known = true; e.z = m.z;
        if (shift) {
            bool large = vb >= bits || vb >= sbits || (op == SHL && (vb >= bits - sgn || vb >= sbits - r.sgn));   // the last: only matters for 0
            if (large) codes |= 1u << E_TOOLARGE;
            // shifting a negative value (left: undefined; right: implementation defined) is reported
            if (va < 0) codes |= op == SHR ? 1u << E_NEGVALSH : 1u << E_NEGSH | 1u << E_NEGVALSH;
            if (op == SHL && !fits(m.z, bits, sgn)) { codes |= 1u << E_TOOLARGE; e.must_report = true; }
            if (va < 0 && vb != 0 && op == SHR) e.must_report = true;
            op_err = e.must_report || large || va < 0;
            e.must_succeed = conv_ok && va >= 0 && !large && !e.must_report;
        } else {
            if (m.z > tmax(bits, sgn)) codes |= 1u << E_POS;
            if (m.z < tmin(bits, sgn)) codes |= 1u << E_NEG;
            bool f = fits(m.z, bits, sgn);
            op_err = !f;
            // a value that the widest type cannot hold cannot be returned at all
            e.must_report = !f;
            e.must_succeed = f && conv_ok;
        }
    }
    e.codes = codes;
    // built-in counterpart: the built-in operation in the type the policy chose
    {
        if (promo == 'a' && op != DIV && op != MOD) { bits = r.bits; sgn = r.sgn; }
        i128 a = wrap(va, bits, sgn), b = wrap(vb, bits, sgn);
        int cast = !fits(va, bits, sgn) + !fits(vb, bits, sgn);
        Math bm = math(op, a, b);
        e.builtin_defined = bm.defined && !(promo == 'a' && cast);     // what automatic falls back to then is not documented
        if (shift && (b < 0 || b >= bits)) e.builtin_defined = false;
        if (op == SHL && a < 0) e.builtin_defined = false;
        if ((op == DIV || op == MOD) && (b == 0 || (sgn && b == -1 && a == tmin(bits, sgn)))) e.builtin_defined = false;
        if (op == MUL) { u128 p = u128(a) * u128(b); e.bz = wrap(i128(p), bits, sgn); }
        else if (op == SHL) e.bz = e.builtin_defined ? wrap(i128(u128(a) << int(b)), bits, sgn) : 0;
        else e.bz = wrap(bm.z, bits, sgn);
        bool berr;
        if (op == SHL) berr = a < 0 ? b != 0 : !fits(bm.z, bits, sgn);
        else if (op == SHR) berr = a < 0;
        else berr = !fits(bm.z, bits, sgn);
        e.reports = e.reports_min = cast + (berr ? 1 : 0);
        if (op == SHL && b == bits - sgn) e.reports++;        // shifting 0 by all value bits may be reported
        (void)op_err;
    }
    return e;
}

void apply_errs(char errs, Expect & e) {
    if (errs != 'l') return;
    // the loose policy ignores implementation-defined behaviour: the operation completes with an unspecified value
    uint32_t impl = 1u << E_NEGVALSH | 1u << E_NEGSH | 1u << E_TOOLARGE;
    if (e.codes & impl) { e.value_unspecified = true; e.must_report = false; e.must_succeed = false; e.codes &= ~impl; }
}

static void store(const World & w, int ta, Expect & e) {
    const TypeDesc & t = w.types[ta];
    e.has_target = true; e.target = e.z;
    i128 lo = t.lo, hi = t.hi;
    if (e.z_known) {
        if (e.z > hi) { e.codes |= 1u << E_POS; e.must_report = true; e.must_succeed = false; }
        if (e.z < lo) { e.codes |= 1u << E_NEG | (t.sgn ? 0 : 1u << E_DOM); e.must_report = true; e.must_succeed = false; }
    }
    e.btarget = wrap(e.bz, t.bits, t.sgn);
    // storing the value that a reported operation fell back to may be reported again
    if (e.bz > hi || e.bz < lo) { e.reports++; if (!e.reports_min) e.reports_min = 1; }
    if (e.value_unspecified) { e.codes |= 1u << E_POS | 1u << E_NEG | 1u << E_DOM; e.must_report = false; }
}

Expect expect_bin(const World & w, int op, int ta, i128 va, int tb, i128 vb) {
    const TypeDesc & A = w.types[ta]; const TypeDesc & B = w.types[tb];
    if (op == ASSIGN || op == CONSTRUCT) {
        Expect e; e.z_known = true; e.z = vb; e.must_succeed = true;
        e.bz = vb; e.builtin_defined = true;
        store(w, ta, e);
        return e;
    }
    int bop = base_op(op);
    Expect e = expect_core(w.promo, bop, TInfo{A.sgn, A.bits}, va, TInfo{B.sgn, B.bits}, vb, w.ri(bop, ta, tb));
    apply_errs(w.errs, e);
    if (is_compound(op)) store(w, ta, e);
    return e;
}

Expect expect_un(const World & w, int op, int ta, i128 va) {
    const TypeDesc & A = w.types[ta]; const RInfo & r = w.unri(op, ta);
    Expect e;
    switch (op) {
    case NEG: {
        // -x is 0 - x; the constant has the type int
        e = expect_core(w.promo, SUB, TInfo{true, 32}, 0, TInfo{A.sgn, A.bits}, va, r);
        break;
    }
    case POS: case COPY: e.z_known = true; e.z = va; e.must_succeed = true; e.bz = va; e.builtin_defined = true;
        if (op == COPY) { e.has_target = true; e.target = va; e.btarget = va; }
        break;
    case COMPL: {
        int bits = r.pbits ? r.pbits : r.bits; bool sgn = r.pbits ? r.psgn : r.sgn;
        e.z_known = true; e.z = wrap(~va, bits, sgn); e.must_succeed = true; e.bz = e.z; e.builtin_defined = true;
        break;
    }
    case PREINC: case PREDEC: case POSTINC: case POSTDEC: {
        int bop = (op == PREINC || op == POSTINC) ? ADD : SUB;
        e = expect_core(w.promo, bop, TInfo{A.sgn, A.bits}, va, TInfo{true, 32}, 1, r);
        store(w, ta, e);
        if (op == POSTINC || op == POSTDEC) { e.z = va; e.bz = va; }   // what is returned
        else { e.bz = e.btarget; }
        break;
    }
    case DEFCTOR:
        e.codes = 1u << E_UNINIT;
        if (w.errs == 'h') { e.must_report = true; e.reports = e.reports_min = 1; }
        else e.must_succeed = true;
        break;
    }
    apply_errs(w.errs, e);
    return e;
}

Expect expect_set(const World & w, int ta, i128 v, bool) {
    Expect e; e.z_known = true; e.z = v; e.must_succeed = true; e.bz = v; e.builtin_defined = true;
    store(w, ta, e);
    return e;
}
} // sim
