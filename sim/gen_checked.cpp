// Draws chains of checked-result operations, with errors injected into them.
#include "exec.hpp"
#include "gen.hpp"
#include "checked.hpp"
namespace sim {
Plan gen_checked(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg) {
    Rng g(seed); (void)cfg;
    Plan p; p.property = prop; p.seed = seed; const World & w = *ws[0]; p.world = w.name;
    p.clients = 1 + int(g.below(2));
    int main_type[2] = { int(g.below(CTYPES)), int(g.below(CTYPES)) };
    unsigned inject = g.chance(40) ? 0 : unsigned(g.below(25)), fresh = 5 + unsigned(g.below(45)), other = g.chance(60) ? 0 : unsigned(g.below(30)), prim = g.chance(50) ? 0 : unsigned(g.below(60));
    int style = int(g.below(4));                           // sizes of fresh values
    std::vector<int> ops; int nop = 1 + int(g.below(6));
    static const int all[] = { ADD, SUB, MUL, DIV, MOD, SHL, SHR, OR, AND, XOR, NEG, POS, COMPL };
    for (int i = 0; i < nop; ++i) ops.push_back(all[g.below(13)]);
    auto value = [&](const TypeDesc & t) -> i128 {
        i128 v;
        switch (style == 3 ? int(g.below(3)) : style) {
        case 0: v = i128(g.below(9)) - 4; break;
        case 1: { int k = int(g.below(unsigned(t.bits))); v = (i128(1) << k) + i128(g.below(3)) - 1; if (g.chance(50)) v = -v; break; }
        default: v = pick_value(g, t);
        }
        return v < t.lo ? (t.lo == 0 ? (-v > t.hi ? t.hi : -v) : t.lo) : v > t.hi ? t.hi : v;
    };
    int len = 6 + int(g.below(50));
    for (int i = 0; i < len; ++i) {
        Step s; s.client = int(g.below(uint64_t(p.clients)));
        s.ta = g.chance(other) ? int(g.below(CTYPES)) : main_type[s.client];
        s.ia = int(g.below(CSLOTS)); s.ib = int(g.below(CSLOTS)); s.ic = int(g.below(CSLOTS)); s.tb = s.ta;
        const TypeDesc & t = w.types[size_t(s.ta)];
        auto setv = [&](int slot) {
            Step q = s; q.op = SETV; q.ic = slot; q.mode = int(g.below(2));
            if (g.chance(inject)) { static const int common[] = { 1, 2, 1, 2, 3, 4 }; q.f.token = g.chance(80) ? common[g.below(6)] : 1 + int(g.below(10)); }
            else q.imm = value(t);
            p.steps.push_back(q);
        };
        if (g.chance(fresh)) setv(s.ia);
        if (g.chance(fresh)) setv(s.ib);
        if (g.chance(15)) { s.op = LT + int(g.below(6)); p.steps.push_back(s); continue; }
        if (g.chance(other)) { s.op = CONSTRUCT; s.tb = int(g.below(CTYPES)); s.mode = int(g.below(2)) * 2; p.steps.push_back(s); continue; }
        if (g.chance(4)) { s.op = COPY; p.steps.push_back(s); continue; }
        s.op = g.chance(80) ? ops[g.below(ops.size())] : all[g.below(13)];
        if (g.chance(prim)) s.mode = 1;
        if ((s.op == SHL || s.op == SHR) && g.chance(60)) {    // a sensible count
            Step q = s; q.op = SETV; q.ic = s.ib; q.mode = 0; q.imm = i128(g.below(unsigned(t.bits) + 3)) - (t.sgn ? 3 : 0); if (q.imm < t.lo) q.imm = 0; if (q.imm > t.hi) q.imm = t.hi; p.steps.push_back(q);
        }
        p.steps.push_back(s);
        if (g.chance(10)) { Step c = s; c.op = LT + int(g.below(6)); c.mode = 0; c.ia = s.ic; p.steps.push_back(c); }
    }
    return p;
}
} // sim
