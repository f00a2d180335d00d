// Executes a plan of checked-result steps and judges every link of every chain
// against extended integers: known values, beyond the maximum (+), below the
// minimum (-), unknown (?).
#include "exec.hpp"
#include "checked.hpp"
#include <cstring>
namespace sim {
namespace {
enum XK { K_NUM, K_NEG, K_POS, K_UNK };                  // what a checked result stands for
struct X { XK k = K_UNK; i128 v = 0; };
X ext(const CState & s) { X x; x.k = !s.exc ? K_NUM : s.code == E_NEG ? K_NEG : s.code == E_POS ? K_POS : K_UNK; x.v = s.v; return x; }
X flip(X x) { if (x.k == K_NUM) x.v = -x.v; else if (x.k == K_NEG) x.k = K_POS; else if (x.k == K_POS) x.k = K_NEG; return x; }
const char * const kind_name[] = { "number", "-", "+", "?" };
// is v next to an infinity: sign of an operand, for ? : 0 and unknown
int sgn(const X & x) { return x.k == K_NEG ? -1 : x.k == K_POS ? 1 : x.k == K_NUM ? (x.v > 0) - (x.v < 0) : 0; }

// What extended arithmetic says about op applied to t and u.
struct Verdict {
    bool value = false; i128 v = 0;          // determined: this number (exactly)
    bool alt = false; i128 v2 = 0;           // or this one (rounding of negative values by a shift is not laid down)
    XK err = K_UNK;                          // otherwise: determined to be beyond a limit, or not determined
    bool must = false;                       // the number must be delivered (both operands are numbers)
};
X num(i128 v) { X x; x.k = K_NUM; x.v = v; return x; }
void shift_exact(i128 t, i128 n, Verdict & d) {          // t * 2^n, n may be negative
    d.value = true;
    if (t == 0 || n == 0) { d.v = t; return; }
    if (n > 0) { d.v = n > 70 || (t < 0 ? -t : t) >= (i128(1) << (120 - int(n))) ? (t > 0 ? HUGE_POS : HUGE_NEG) : t * (i128(1) << int(n)); return; }
    i128 m = -n;
    if (m > 100) { d.v = 0; d.alt = t < 0; d.v2 = -1; return; }
    i128 q = i128(1) << int(m);
    d.v = t / q; if (t < 0 && t % q) { d.alt = true; d.v2 = d.v - 1; }
}
Verdict judge(int op, X t, X u) {
    Verdict d;
    if (t.k == K_NUM && u.k == K_NUM) {
        d.must = true;
        switch (op) {
        case ADD: d.value = true; d.v = t.v + u.v; break;
        case SUB: d.value = true; d.v = t.v - u.v; break;
        case MUL: d.value = true; if (__builtin_mul_overflow(t.v, u.v, &d.v)) d.v = HUGE_POS; break;   // unsigned operands
        case DIV: if (u.v) { d.value = true; d.v = t.v / u.v; } break;
        case MOD: if (u.v) { d.value = true; d.v = t.v % u.v; } break;
        case OR: d.value = true; d.v = t.v | u.v; break;
        case AND: d.value = true; d.v = t.v & u.v; break;
        case XOR: d.value = true; d.v = t.v ^ u.v; break;
        case SHL: shift_exact(t.v, u.v, d); break;
        case SHR: shift_exact(t.v, -u.v, d); break;
        }
        return d;
    }
    if (t.k == K_UNK || u.k == K_UNK) return d;            // nothing is known: only "?" will do
    switch (op) {
    case SUB: u = flip(u); // fallthrough
    case ADD:
        if (t.k == K_NUM) d.err = u.k; else if (u.k == K_NUM || u.k == t.k) d.err = t.k;
        break;
    case MUL:
        if (!sgn(t) || !sgn(u)) { d.value = true; d.v = 0; }      // zero times a number of unknown size
        else d.err = sgn(t) * sgn(u) > 0 ? K_POS : K_NEG;
        break;
    case DIV:
        if (t.k == K_NUM) { d.value = true; d.v = 0; }
        else if (u.k == K_NUM && u.v) d.err = sgn(t) * sgn(u) > 0 ? K_POS : K_NEG;
        break;
    case MOD:
        if (t.k == K_NUM) { d.value = true; d.v = t.v; }
        else if (u.k == K_NUM && (u.v == 1 || u.v == -1)) { d.value = true; d.v = 0; }
        break;
    case SHR: u = flip(u); // fallthrough
    case SHL:
        if (t.k == K_NUM && t.v == 0) { d.value = true; d.v = 0; }
        else if (t.k == K_NUM) { if (u.k == K_NEG) { d.value = true; d.v = 0; d.alt = t.v < 0; d.v2 = -1; } else d.err = sgn(t) > 0 ? K_POS : K_NEG; }
        else if (u.k == K_NUM || u.k == K_POS) d.err = t.k;
        break;
    case AND:
        if ((t.k == K_NUM && t.v == 0) || (u.k == K_NUM && u.v == 0)) { d.value = true; d.v = 0; }
        break;
    case OR:
        if ((t.k == K_NUM && t.v == -1) || (u.k == K_NUM && u.v == -1)) { d.value = true; d.v = -1; }
        break;
    }
    return d;
}
int expect_cmp(int op, X t, X u) {                        // 0, 1, 2 undetermined
    if (t.k == K_UNK || u.k == K_UNK || (t.k != K_NUM && t.k == u.k)) return 2;
    auto rank = [](const X & x) { return x.k == K_NEG ? HUGE_NEG : x.k == K_POS ? HUGE_POS : x.v; };
    i128 a = rank(t), b = rank(u);
    switch (op) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; }
}
struct CExec {
    const Plan & p; bool want; RunResult r; const World & w; std::vector<CheckedType> & ty;
    struct Obj { alignas(16) unsigned char b[CSIZE]; };
    std::vector<Obj> slots; std::vector<CState> st;          // [client][type][slot], and what each was last seen to be
    uint64_t h = 0xc15, shape_prev = 0;
    size_t ix(int c, int t, int s) const { return (size_t(c) * CTYPES + size_t(t)) * CSLOTS + size_t(s); }
    CExec(const Plan & pl, bool tr, const World & wd) : p(pl), want(tr), w(wd), ty(checked_types()) {}
    std::string show(const CState & s) const { return s.exc ? "error " + std::to_string(s.code) : str(s.v); }
    std::string where(long n, const Step & s, const CState * a, const CState * b, const std::string & res) const {
        std::string t = "step " + std::to_string(n) + ": " + (s.mode == 1 ? "checked::" : "") + op_name[s.op] + " " + ty[size_t(s.ta)].name;
        if (a) t += " " + show(*a); if (b) t += ", " + show(*b);
        return t + " -> " + res;
    }
    void fail(long n, const std::string & sig, const std::string & text) {
        if (r.v.found || is_known(sig)) return;
        r.v.found = true; r.v.property = p.property; r.v.sig = sig; r.v.text = text; r.v.step = n;
    }
    void step(long n, const Step & s);
    RunResult run() {
        slots.resize(size_t(p.clients) * CTYPES * CSLOTS); st.resize(slots.size());
        for (int c = 0; c < p.clients; ++c) for (int t = 0; t < CTYPES; ++t) for (int k = 0; k < CSLOTS; ++k) {
            i128 v = 0; for (auto & i : p.init) if (i.client == c && i.type == t && i.slot == k && i.v >= w.types[size_t(t)].lo && i.v <= w.types[size_t(t)].hi) v = i.v;
            ty[size_t(t)].make(slots[ix(c, t, k)].b, v); ty[size_t(t)].read(slots[ix(c, t, k)].b, st[ix(c, t, k)]);
        }
        for (size_t n = 0; n < p.steps.size() && !r.v.found; ++n) step(long(n), p.steps[n]);
        // nothing but the targets of operations has changed
        for (size_t i = 0; i < slots.size() && !r.v.found; ++i) {
            CState x; ty[(i / CSLOTS) % CTYPES].read(slots[i].b, x);
            if (x.code != st[i].code || x.v != st[i].v) fail(-1, "changed without being assigned", "a checked result of type " + std::string(ty[(i / CSLOTS) % CTYPES].name) + " was " + show(st[i]) + " and is " + show(x));
        }
        r.hash = h; return r;
    }
};
void CExec::step(long n, const Step & s) {
    if (s.client >= p.clients || s.ta >= CTYPES || s.tb >= CTYPES) return;
    for (int k : { s.ia, s.ib, s.ic }) if (k < 0 || k >= CSLOTS) return;
    const CheckedType & T = ty[size_t(s.ta)]; const TypeDesc & D = w.types[size_t(s.ta)];
    Obj & A = slots[ix(s.client, s.ta, s.ia)]; Obj & B = slots[ix(s.client, s.ta, s.ib)]; size_t ri = ix(s.client, s.ta, s.ic); Obj & R = slots[ri];
    const CState a = st[ix(s.client, s.ta, s.ia)], b = st[ix(s.client, s.ta, s.ib)];
    Obj out; memset(out.b, 0xa5, sizeof out.b);
    CState res; int tri = -1; bool made = true, two = false, prim = s.mode == 1;
    Verdict d; X ta = ext(a), tb = ext(b);
    AllocCtl & al = alloc_ctl(); al.n = 0; al.failed = 0; al.fail_from = -1;
    bool threw = false, left = false;
    auto act = [&](auto f) { al.fail_from = 1; al.fail_count = -1; al.armed = true; try { f(); } catch (...) { threw = true; } al.armed = false; al.fail_from = -1; };   // no memory needed, none available
    if (s.op == SETV) {
        if (s.f.token > 0) { if (s.f.token >= E_N) return; T.error(out.b, s.f.token, s.mode & 1); ++r.st.faults_handler; ++g_kinds[FK_INJECT]; }
        else { if (s.imm < D.lo || s.imm > D.hi) return; T.make(out.b, s.imm); d.value = d.must = true; d.v = s.imm; }
    } else if (is_arith(s.op)) {
        two = true;
        if (prim) { if (ta.k != K_NUM || tb.k != K_NUM) return; act([&] { T.prim[s.op](out.b, ta.v, tb.v); }); }
        else act([&] { T.op[s.op](out.b, A.b, B.b); });
        d = judge(s.op, ta, tb);
        // the primitive shifts may refuse what is not defined for the built-in types
        if (prim && (s.op == SHL || s.op == SHR) && (ta.v < 0 || tb.v < 0 || tb.v >= D.bits - (D.sgn ? 1 : 0))) d.must = false;
    } else if (is_cmp(s.op)) {
        two = true; made = false; act([&] { tri = T.cmp[s.op - LT](A.b, B.b); });
    } else if (s.op == NEG || s.op == POS || s.op == COMPL) {
        if (prim) { if (ta.k != K_NUM || s.op == POS) return; act([&] { (s.op == NEG ? T.pminus : T.pnot)(out.b, ta.v); }); }
        else act([&] { T.un[s.op == NEG ? 0 : s.op == POS ? 1 : 2](out.b, A.b, nullptr); });
        if (ta.k == K_NUM) { d.value = d.must = true; d.v = s.op == NEG ? -ta.v : s.op == POS ? ta.v : D.sgn ? ~ta.v : D.hi - ta.v; }
        else if (s.op == NEG) d.err = flip(ta).k; else if (s.op == POS) d.err = ta.k;
    } else if (s.op == COPY) {
        act([&] { T.copy(out.b, A.b); }); if (ta.k == K_NUM) { d.value = d.must = true; d.v = ta.v; } else d.err = ta.k;
    } else if (s.op == CONSTRUCT) {                       // from another type: checked::cast, or the error as it is
        const CState & o = st[ix(s.client, s.tb, s.ib)];
        two = false; ta = ext(o);
        if (o.exc) { T.error(out.b, o.code, s.mode & 1); d.err = ta.k; }
        else { act([&] { T.cast[s.tb](out.b, o.v); }); d.value = d.must = true; d.v = o.v; }
    } else return;
    (void)left;
    if (made && !threw) T.read(out.b, res);
    const CState * pa = s.op == SETV ? nullptr : s.op == CONSTRUCT ? &st[ix(s.client, s.tb, s.ib)] : &a; const CState * pb = two ? &b : nullptr;
    auto text = [&] { return where(n, s, pa, pb, threw ? "an exception" : made ? show(res) : tri == 2 ? "indeterminate" : tri ? "true" : "false"); };
    std::string sb = std::string(prim ? "checked::" : "") + op_name[s.op] + "|" + kind_name[ta.k] + (two ? std::string("|") + kind_name[tb.k] : std::string());
    r.st.steps++; r.st.ops++;
    if (threw) fail(n, "throws|" + sb, text());
    else if (!made) {
        int want_tri = expect_cmp(s.op, ta, tb);
        if (tri != want_tri) fail(n, "comparison|" + sb, text() + (want_tri == 2 ? ", which the operands do not determine" : want_tri ? ", expected true" : ", expected false"));
    } else if (!res.exc) {
        bool ok = d.value && ((res.v == d.v) || (d.alt && res.v == d.v2)) && res.v >= D.lo && res.v <= D.hi;
        if (s.op == SETV && s.f.token > 0) ok = false;
        if (!ok) {
            bool had = (pa && pa->exc) || (pb && pb->exc) || s.op == SETV;
            std::string what = had ? "error became a number|" : "wrong value|";
            // the form of the number, for overflows: relative to the other operand
            std::string form; if (had && two && s.op == MOD && !b.exc) form = res.v == b.v - 1 ? "|u-1" : res.v == 1 - b.v ? "|1-u" : "|other";
            else if (had) form = res.v == 0 ? "|0" : "|other";
            fail(n, what + sb + form, text() + (d.value ? ", exact: " + str(d.v) : std::string()));
        }
    } else {
        X rx = ext(res); r.st.reports++;
        if (d.value && d.v >= D.lo && d.v <= D.hi && d.must) fail(n, "spurious error|" + sb, text() + ", exact: " + str(d.v));
        else if (res.code <= 0 || res.code >= E_N) fail(n, "undefined code|" + sb, text());
        else {
            // an error that says "beyond a limit" must not contradict what is known
            XK side = d.value ? (d.v > D.hi ? K_POS : d.v < D.lo ? K_NEG : K_UNK) : d.err;
            bool limit = rx.k == K_POS || rx.k == K_NEG;
            bool casting = s.op == CONSTRUCT || prim;
            if (side != K_UNK && limit && rx.k != side) fail(n, "wrong side|" + sb, text());
            else if (d.must && side != K_UNK && !limit && !casting) fail(n, "overflow loses its side|" + sb, text());
            else if (!d.must && !two && s.op != COMPL && s.op != SETV && rx.k != d.err) fail(n, "error changes|" + sb, text());
        }
        if ((s.op == SETV || s.op == COPY || s.op == POS || (s.op == CONSTRUCT && pa->exc)) && res.code != (s.op == SETV ? s.f.token : pa->code)) fail(n, "error changes|" + sb, text());
    }
    if (want) r.trace += text() + "\n";
    if (made && !threw) { T.copy(R.b, out.b); T.read(R.b, st[ri]); if (st[ri].code != res.code || st[ri].v != res.v) fail(n, "copy differs|" + sb, text()); }
    h = mix(h, uint64_t(n) * 64 + uint64_t(res.code)); h = mix(h, uint64_t(res.v)); h = mix(h, uint64_t(tri + 2));
    auto cls = [&](const X & x) { return x.k != K_NUM ? 10 + int(x.k) : x.v == D.lo ? 0 : x.v == D.hi ? 1 : x.v < 0 ? 2 : x.v == 0 ? 3 : 4; };
    uint64_t ab = mix(mix(uint64_t(s.op) * 16 + uint64_t(s.ta), uint64_t(s.mode * 64 + s.tb)), uint64_t(cls(ta)) * 4096 + uint64_t(two ? cls(tb) : 99) * 64 + uint64_t(res.code) * 3 + uint64_t(tri + 1) + (shape_prev << 20));
    shape_prev = uint64_t(res.exc ? 1 + res.code : 0);
    r.shape = mix(r.shape, ab); if (g_cov) g_cov->hit(ab);
}
} // anon
RunResult execute_checked(const Plan & p, bool want) {
    World * w = find_world(p.world);
    if (!w || !checked_types) return RunResult();
    CExec e(p, want, *w); return e.run();
}
} // sim
