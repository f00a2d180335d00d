// Draws a plan of expression steps from a seed.
#include "exec.hpp"
#include "gen.hpp"
#include <algorithm>
namespace sim {
Plan gen_expr(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg) {
    Rng g(seed);
    Plan p; p.property = prop; p.seed = seed;
    const World & w = *ws[g.below(ws.size())]; p.world = w.name;
    p.clients = 1 + int(g.below(2)); if (cfg.max_clients) p.clients = cfg.min_clients + int(g.below(uint64_t(cfg.max_clients - cfg.min_clients + 1)));
    std::vector<int> xs; int want = 1 + int(g.below(8)); for (int i = 0; i < want; ++i) xs.push_back(int(g.below(w.exprs.size())));
    bool faults = g.chance(cfg.fault_run_pct); unsigned alloc_pct = faults ? unsigned(g.below(40)) : 0;
    unsigned hact_pct = faults && w.errs == 'h' ? unsigned(g.below(60)) : 0;
    p.hact = cfg.returning && w.errs == 'h' && g.chance(85) ? H_RETURN : H_THROW_SIM;
    unsigned retry = unsigned(g.below(40));
    // magnitudes: small ones so that whole expressions succeed, large ones so that a chosen node overflows
    auto value = [&](const TypeDesc & t, int m) -> i128 {
        auto cl = [&](i128 v) { return v < t.lo ? t.lo : v > t.hi ? t.hi : v; };
        switch (m) {
        case 0: return cl(i128(g.below(21)) - 10);
        case 1: { int k = int(g.below(63)) + 1; i128 v = i128(g.next() >> (64 - k)); return cl(g.chance(50) ? -v : v); }
        case 2: { static const i128 r[] = { 46340, 46341, 3037000499LL, 3037000500LL, 65535, 65536, 2147483647LL, 4294967295LL, 2097151, 1048576 };
                  i128 v = r[g.below(10)] + i128(g.below(3)) - 1; return cl(g.chance(40) ? -v : v); }
        case 3: return g.range(t.lo, t.hi);
        default: return pick_value(g, t);
        }
    };
    int len = 6 + int(g.below(30));
    for (int i = 0; i < len; ++i) {
        Step s; s.client = int(g.below(p.clients)); s.op = EXPR; s.imm = xs[g.below(xs.size())];
        const ExprDesc & x = w.exprs[size_t(s.imm)];
        // operands of the same type take different slots, sometimes the same one (aliases)
        s.ia = 0; s.ib = x.tb == x.ta ? (g.chance(90) ? 1 : 0) : int(g.below(K_OWN));
        s.ic = x.tc == x.ta && x.ta == x.tb ? (g.chance(90) ? int(SHARED) : int(g.below(K))) : x.tc == x.tb ? 1 - s.ib : x.tc == x.ta ? 1 : int(g.below(K));
        int ts[3] = { x.ta, x.tb, x.tc }, is[3] = { s.ia, s.ib, s.ic };
        int m = int(g.below(8));
        for (int k = 0; k < 3; ++k) {
            i128 v = value(w.types[size_t(ts[k])], m < 4 ? m : int(g.below(5)));
            if (is[k] == SHARED) { if (p.steps.empty()) p.init.push_back(Init{0, ts[k], SHARED, v}); continue; }
            Step q; q.client = s.client; q.op = SETV; q.ta = ts[k]; q.ia = is[k]; q.imm = v; q.mode = 1; p.steps.push_back(q);
        }
        if (g.chance(alloc_pct)) { s.f.alloc_from = 1 + int(g.below(4)); s.f.alloc_count = g.chance(60) ? -1 : 1; }
        if (g.chance(hact_pct)) { do s.f.hact = int(g.below(H_N)); while (s.f.hact == H_RETURN && !cfg.returning); }
        p.steps.push_back(s);
        if (g.chance(retry)) { s.f = Fault(); p.steps.push_back(s); }
        if (g.chance(20)) { s.imm = xs[g.below(xs.size())]; if (w.exprs[size_t(s.imm)].ta == x.ta) p.steps.push_back(s); }
    }
    return p;
}
} // sim
