// Draws a plan of arithmetic steps from a seed.  Random values come only from
// the generator handed in; the library is never called here.
#include "exec.hpp"
#include "gen.hpp"
#include <algorithm>
namespace sim {

static i128 clampv(i128 v, const TypeDesc & t) { return v < t.lo ? t.lo : v > t.hi ? t.hi : v; }

i128 pick_value(Rng & g, const TypeDesc & t) {
    i128 v;
    switch (g.below(12)) {
    case 0: v = t.lo; break;
    case 1: v = t.hi; break;
    case 2: v = t.lo + i128(g.below(4)); break;
    case 3: v = t.hi - i128(g.below(4)); break;
    case 4: v = i128(g.below(7)) - 3; break;
    case 5: { int k = int(g.below(65)); v = (i128(1) << k) + i128(g.below(3)) - 1; if (g.chance(50)) v = -v; break; }
    case 6: v = i128(g.below(400)) - 200; break;
    case 7: { static const i128 b[] = { 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL,
                  i128(9223372036854775807LL), i128(9223372036854775807LL) + 1, 46340, 46341, 65535, 3037000499LL, 3037000500LL };
              v = b[g.below(sizeof b / sizeof *b)] + i128(g.below(3)) - 1; if (g.chance(50)) v = -v; break; }
    case 8: v = g.range(t.lo, t.hi); break;
    case 9: { // log-uniform
              int k = int(g.below(64)) + 1; v = i128(g.next() >> (64 - k)); if (g.chance(50)) v = -v; break; }
    case 10: v = (t.lo + t.hi) / 2 + i128(g.below(3)) - 1; break;
    default: v = g.range(t.lo, t.hi); break;
    }
    return clampv(v, t);
}

// a value for the right operand that puts the exact result next to a limit
static i128 target_b(Rng & g, int op, i128 a, const World & w, int ta, int tb) {
    const TypeDesc & A = w.types[ta]; const TypeDesc & B = w.types[tb];
    const RInfo & ri = w.ri(base_op(op) < N_BIN ? base_op(op) : op, ta, tb);
    i128 cands[14]; int n = 0;
    cands[n++] = A.lo; cands[n++] = A.hi; cands[n++] = B.lo; cands[n++] = B.hi; cands[n++] = 0;
    if (ri.bits) { cands[n++] = tmin(ri.bits, ri.sgn); cands[n++] = tmax(ri.bits, ri.sgn); cands[n++] = ri.lo; cands[n++] = ri.hi; }
    cands[n++] = tmin(64, true); cands[n++] = tmax(64, true); cands[n++] = tmax(64, false);
    i128 lim = cands[g.below(n)] + i128(g.below(3)) - 1;
    i128 b;
    switch (base_op(op)) {
    case ADD: b = lim - a; break;
    case SUB: b = a - lim; break;
    case MUL: b = a ? lim / a + i128(g.below(3)) - 1 : lim; break;
    case DIV: { static const i128 d[] = { 0, 1, -1, 2, -2 }; b = g.chance(60) ? d[g.below(5)] : (g.chance(50) ? a : lim); break; }
    case MOD: { static const i128 d[] = { 0, 1, -1, 2, -2 }; b = g.chance(40) ? d[g.below(5)] : (g.chance(50) ? a + i128(g.below(3)) - 1 : lim); break; }
    case SHL: case SHR: {
        int sb = 0; for (i128 x = a < 0 ? -a : a; x; x >>= 1) ++sb;
        static const int wd[] = { 7, 8, 15, 16, 31, 32, 63, 64 };
        b = g.chance(50) ? wd[g.below(8)] - sb + i128(g.below(3)) - 1 : g.chance(60) ? wd[g.below(8)] + i128(g.below(3)) - 1 : i128(g.below(70)) - 2;
        break; }
    default: b = g.chance(50) ? a + i128(g.below(3)) - 1 : lim; break;
    }
    return clampv(b, B);
}

Plan gen_arith(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg) {
    Rng g(seed);
    Plan p; p.property = prop; p.seed = seed;
    const World & w = *ws[g.below(ws.size())];
    p.world = w.name;
    p.clients = 1 + int(g.below(3)); if (cfg.max_clients) p.clients = cfg.min_clients + int(g.below(uint64_t(cfg.max_clients - cfg.min_clients + 1)));
    int nt = w.nt();
    // swarm: every run concentrates on some types, operations and faults
    std::vector<int> types;
    int want = 2 + int(g.below(6));
    types.push_back(int(g.below(w.nsafe)));
    for (int i = 1; i < want; ++i) types.push_back(int(g.below(g.chance(70) ? w.nsafe : nt)));
    std::vector<int> ops;
    if (g.chance(30)) { for (int i = 0; i < N_OP; ++i) ops.push_back(i); }
    else {
        int k = 3 + int(g.below(9));
        for (int i = 0; i < k; ++i) ops.push_back(int(g.below(N_OP)));
    }
    bool faults = g.chance(cfg.fault_run_pct);
    unsigned alloc_pct = faults ? unsigned(g.below(40)) : 0;
    unsigned hact_pct = faults ? unsigned(g.below(60)) : 0;
    unsigned retry_pct = unsigned(g.below(50));
    unsigned set_pct = 30 + unsigned(g.below(60));
    unsigned oor_pct = unsigned(g.below(15));      // constants out of range
    p.hact = cfg.returning ? H_RETURN : H_THROW_SIM;
    if (cfg.returning && g.chance(30)) p.hact = H_THROW_SIM;
    for (int c = 0; c < p.clients; ++c)
        for (int t : types)
            for (int k = 0; k < K; ++k)
                if (g.chance(70)) p.init.push_back(Init{k == SHARED ? 0 : c, t, k, pick_value(g, w.types[t])});
    int len = cfg.min_steps + int(g.below(cfg.max_steps - cfg.min_steps + 1));
    auto setv = [&](int c, int t, int k, i128 v) {
        Step s; s.client = c; s.op = SETV; s.ta = t; s.ia = k; s.imm = v; s.mode = int(g.below(2)); p.steps.push_back(s);
    };
    unsigned raise_pct = (prop == "C06" || prop == "C11") ? (g.chance(60) ? 20 : 3) : 0;
    for (int tries = 0; int(p.steps.size()) < len && tries < 40 * len; ++tries) {
        if (g.chance(raise_pct)) {
            Step q; q.client = int(g.below(p.clients)); q.op = NOPSTEP; q.mode = g.chance(40) ? 1 : 1 + int(g.below(5)); q.imm = 1 + i128(g.below(E_N - 1));
            q.ta = g.chance(60) ? class_of(int(q.imm)) : 1 + int(g.below(4)); q.ib = int(g.below(2));
            if (g.chance(alloc_pct)) { q.f.alloc_from = 1 + int(g.below(6)); q.f.alloc_count = g.chance(50) ? -1 : 1; }
            p.steps.push_back(q);
        }
        Step s; s.client = int(g.below(p.clients));
        s.op = ops[g.below(ops.size())];
        bool bin = s.op < N_BIN;
        s.ta = types[g.below(types.size())]; s.tb = types[g.below(types.size())];
        if (bin && !w.fn(s.op, s.ta, s.tb)) { s.ta = types[0]; if (!w.fn(s.op, s.ta, s.tb)) continue; }
        if (!bin && !w.types[s.ta].safe) continue;
        s.ia = int(g.below(K)); s.ib = int(g.below(K));
        bool modifies = (s.op >= ADDA && s.op <= CONSTRUCT) || (s.op >= PREINC && s.op <= POSTDEC) || s.op == COPY;
        if (modifies && s.ia == SHARED) s.ia = int(g.below(K_OWN));
        if (g.chance(set_pct)) {
            i128 a = pick_value(g, w.types[s.ta]);
            i128 b = bin ? (g.chance(70) ? target_b(g, s.op, a, w, s.ta, s.tb) : pick_value(g, w.types[s.tb])) : 0;
            if (s.ia != SHARED) setv(s.client, s.ta, s.ia, a);
            if (bin && s.ib != SHARED && !(s.tb == s.ta && s.ib == s.ia)) setv(s.client, s.tb, s.ib, b);
        }
        if (g.chance(alloc_pct)) { s.f.alloc_from = 1 + int(g.below(6)); s.f.alloc_count = g.chance(50) ? -1 : 1 + int(g.below(2)); if (s.f.alloc_count < 0 && g.chance(50)) s.f.alloc_from = 1; }
        if (w.errs == 'h' && g.chance(hact_pct)) { do s.f.hact = int(g.below(H_N)); while (s.f.hact == H_RETURN && !cfg.returning); }
        if (w.errs == 'h') s.f.token = 1 + int(g.below(60000));
        p.steps.push_back(s);
        if (g.chance(oor_pct) && w.types[s.ta].safe) {
            const TypeDesc & t = w.types[s.ta]; i128 v = g.chance(50) ? t.hi + 1 + i128(g.below(3)) : t.lo - 1 - i128(g.below(3));
            if (g.chance(30)) v = g.range(tmin(64, true), tmax(64, false));
            if (v >= tmin(64, true) && v <= tmax(64, false)) setv(s.client, s.ta, int(g.below(K_OWN)), v);
        }
        if (g.chance(retry_pct)) { Step q = s; q.f = Fault(); if (w.errs == 'h') q.f.token = 1 + int(g.below(60000)); p.steps.push_back(q); }   // retry with the fault gone
    }
    return p;
}
} // sim
