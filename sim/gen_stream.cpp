// Draws a plan of stream steps from a seed.
#include "exec.hpp"
#include "gen.hpp"
#include "devices.hpp"
namespace sim {
static std::string in_base(i128 v, int base, bool upper, bool prefix) {
    bool neg = v < 0; u128 u = neg ? u128(0) - u128(v) : u128(v); std::string s;
    const char * dg = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    if (!u) s = "0";
    while (u) { s.insert(s.begin(), dg[int(u % unsigned(base))]); u /= unsigned(base); }
    if (prefix) { if (base == 16) s = (upper ? "0X" : "0x") + s; else if (base == 8 && s != "0") s = "0" + s; }
    return neg ? "-" + s : s;
}
static std::string grouped(std::string s, int kind, Rng & g) {
    if (!kind || s.find('x') != std::string::npos) return s;
    std::string o; int n = 0, size = kind == 1 ? 3 : 2, done = 0;
    for (size_t i = s.size(); i-- > 0;) {
        if (s[i] == '-' || s[i] == '+') { o.insert(o.begin(), s[i]); continue; }
        if (n == size && i < s.size() - 1) { o.insert(o.begin(), kind == 1 ? ',' : '.'); n = 0; if (kind == 2) size = ++done ? 1 : 2; }
        if (g.chance(1)) n = 0;
        o.insert(o.begin(), s[i]); ++n;
    }
    return o;
}
static std::string token(Rng & g, const TypeDesc & t, const StreamCfg & c) {
    int b = c.base ? c.base : (g.chance(60) ? 10 : g.chance(50) ? 16 : 8);
    bool pre = c.base == 0 || g.chance(20), up = g.chance(40);
    i128 v = pick_value(g, t);
    std::string s;
    switch (g.below(16)) {
    case 0: v = t.hi + 1 + i128(g.below(2)); break;
    case 1: v = t.lo - 1 - i128(g.below(2)); break;
    case 2: { static const i128 e[] = { 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, tmax(64, true), tmax(64, true) + 1, tmax(64, false), tmax(64, false) + 1 };
              v = e[g.below(16)]; if (g.chance(50)) v = -v; break; }
    case 3: v = g.range(-(i128(1) << 66), i128(1) << 66); break;
    case 4: { static const char * const bad[] = { "abc", "-", "+", "--1", "+-2", "0x", "x", ".", "1.5", "12abc", "-0", "+0", "00", "-00012", "#", "1e5", ",", "1,,2", ",1", "7-", "0x-1", "-0x10", "'" };
              return bad[g.below(sizeof bad / sizeof *bad)]; }
    case 5: s = in_base(v, b, up, pre); return v >= 0 ? "+" + s : s;
    case 6: s = in_base(v, b, up, false); { size_t z = s[0] == '-'; s.insert(z, std::string(1 + g.below(25), '0')); } return s;
    case 7: { int n = 1 + int(g.below(6)); static const char al[] = "0123456789-+xXaAfF,. g"; for (int i = 0; i < n; ++i) s += al[g.below(sizeof al - 1)]; return s; }
    default: break;
    }
    s = in_base(v, b, up, pre);
    return g.chance(c.grouping ? 60 : 3) ? grouped(s, c.grouping ? c.grouping : 1, g) : s;
}
static std::string space(Rng & g) {
    static const char * const sp[] = { " ", "\n", "\t", "  ", "\r\n", " \t\v\f ", "\n\n\n", " " };
    return sp[g.below(8)];
}
static void faults(Rng & g, StreamCfg & c, int dir, size_t len, const std::vector<size_t> & starts) {
    int n = 1 + int(g.below(3));
    for (int i = 0; i < n; ++i) {
        DevFault f; f.dir = dir; f.len = 0;
        size_t at = starts.empty() || g.chance(30) ? g.below(len + 1) : starts[g.below(starts.size())] + g.below(4);
        f.at = long(at);
        static const int kinds[] = { DF_STOP, DF_ONCE, DF_ONCE, DF_THROW, DF_THROW, DF_DEAD };
        f.kind = kinds[g.below(6)];
        c.faults.push_back(f);
    }
}
Plan gen_stream(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg) {
    Rng g(seed);
    Plan p; p.property = prop; p.seed = seed;
    const World & w = *ws[g.below(ws.size())]; p.world = w.name;
    bool trip = prop == "C09" || (prop != "C07" && prop != "C12" && g.chance(25));
    bool outs = prop == "C08" || trip || g.chance(20);
    p.clients = g.chance(70) ? 1 : 2; if (cfg.max_clients) p.clients = cfg.min_clients + int(g.below(uint64_t(cfg.max_clients - cfg.min_clients + 1)));
    p.hact = cfg.returning ? H_RETURN : H_THROW_SIM;
    bool faulty = g.chance(prop == "C09" ? 25 : 60);
    unsigned alloc_pct = g.chance(40) ? unsigned(g.below(30)) : 0;
    unsigned hact_pct = unsigned(g.below(50));
    std::vector<int> types; int want = 1 + int(g.below(6)); for (int i = 0; i < want; ++i) types.push_back(int(g.below(w.nsafe)));
    auto fault = [&](Step & s) {
        if (g.chance(alloc_pct)) { s.f.alloc_from = 1 + int(g.below(4)); s.f.alloc_count = g.chance(50) ? -1 : 1; }
        if (w.errs == 'h') { s.f.token = 1 + int(g.below(60000)); if (g.chance(hact_pct)) { do s.f.hact = int(g.below(H_N)); while (s.f.hact == H_REENTER || (s.f.hact == H_RETURN && !cfg.returning)); } }
    };
    std::vector<std::vector<int>> toks(size_t(p.clients)); 
    for (int c = 0; c < p.clients; ++c) {
        StreamCfg s; s.wide = g.chance(25);
        static const int bases[] = { 10, 10, 10, 10, 16, 8, 0 };
        s.base = bases[g.below(7)];
        s.grouping = g.chance(70) ? 0 : 1 + int(g.below(2));
        if (g.chance(40)) { int n = 1 + int(g.below(4)); for (int i = 0; i < n; ++i) s.chunks.push_back(1 + int(g.below(g.chance(60) ? 3 : 12))); }
        if (g.chance(30)) s.iexc = unsigned(g.below(8));
        if (g.chance(30)) s.oexc = unsigned(g.below(8));
        if (g.chance(40)) s.flags = unsigned(g.below(512)) & ~unsigned(SF_NOSKIPWS | SF_INTERNAL);
        if (!trip && g.chance(20)) s.flags |= SF_NOSKIPWS;
        if (!trip && g.chance(30)) s.flags |= SF_INTERNAL;
        s.seekable = g.chance(50) ? 0 : 1 + int(g.below(24));          // size of the output buffer
        std::vector<size_t> starts;
        int nt = 3 + int(g.below(12));
        if (g.chance(20)) s.text += space(g);
        for (int i = 0; i < nt; ++i) {
            int t = types[g.below(types.size())]; toks[size_t(c)].push_back(t);
            starts.push_back(s.text.size());
            s.text += token(g, w.types[size_t(t)], s);
            if (i + 1 < nt || g.chance(40)) s.text += g.chance(4) ? std::string() : space(g);
            if (g.chance(2)) s.text += std::string(1, '\0');
        }
        if (faulty) { faults(g, s, 0, s.text.size(), starts); if (outs) faults(g, s, 1, 40, {}); }
        p.streams.push_back(s);
    }
    for (int c = 0; c < p.clients; ++c) for (int t : types) for (int k = 0; k < K; ++k) if (g.chance(80)) p.init.push_back(Init{k == SHARED ? 0 : c, t, k, pick_value(g, w.types[size_t(t)])});
    std::vector<size_t> nexttok(size_t(p.clients), 0);
    unsigned recover = g.chance(88) ? 60 + unsigned(g.below(40)) : 0;
    int rounds = trip ? 1 + int(g.below(2)) : 1;
    for (int rd = 0; rd < rounds; ++rd) {
        std::vector<std::vector<int>> written(size_t(p.clients));
        int len = 4 + int(g.below(24));
        for (int i = 0; i < len; ++i) {
            Step s; s.client = int(g.below(p.clients)); size_t c = size_t(s.client);
            if (outs && (trip || g.chance(prop == "C08" ? 90 : 40))) {
                s.op = SOUT; s.ta = types[g.below(types.size())]; s.ia = int(g.below(K)); s.imm = trip ? 1 + i128(g.below(5)) : i128(g.below(6)); fault(s);
                if (prop == "C09") s.f.alloc_from = 0;
                if (!trip && int(w.types.size()) > w.nsafe && g.chance(12)) s.ta = w.nsafe + int(g.below(w.types.size() - size_t(w.nsafe)));      // a literal
                if (s.ia != SHARED && g.chance(50)) { Step v; v.client = s.client; v.op = SETV; v.ta = s.ta; v.ia = s.ia; v.imm = pick_value(g, w.types[size_t(s.ta)]); p.steps.push_back(v); }
                if (!trip && g.chance(25)) { Step q; q.client = s.client; q.op = SCTL; q.mode = 7; q.imm = i128(g.below(1 << 15)); p.steps.push_back(q); }
                p.steps.push_back(s); written[c].push_back(s.ta);
                if (g.chance(recover / 2)) { Step q; q.client = s.client; q.op = SCTL; q.mode = 6; p.steps.push_back(q); }
            } else {
                s.op = SIN; s.ia = int(g.below(K_OWN));
                s.ta = nexttok[c] < toks[c].size() && g.chance(85) ? toks[c][nexttok[c]] : types[g.below(types.size())]; ++nexttok[c];
                fault(s); p.steps.push_back(s);
                if (g.chance(recover)) { Step q; q.client = s.client; q.op = SCTL; q.mode = g.chance(60) ? 1 : g.chance(50) ? 0 : 2; p.steps.push_back(q); if (g.chance(15)) { p.steps.push_back(s); } }
                if (g.chance(4)) { Step q; q.client = s.client; q.op = SCTL; q.mode = 3; static const int b[] = { 10, 8, 16, 0 }; q.imm = b[g.below(4)]; p.steps.push_back(q); }
                if (g.chance(4)) { Step q; q.client = s.client; q.op = SCTL; q.mode = 4; q.imm = i128(g.below(64)); p.steps.push_back(q); }
                if (g.chance(4)) { Step q; q.client = s.client; q.op = SCTL; q.mode = 5; q.imm = i128(g.below(2)); p.steps.push_back(q); }
            }
        }
        if (trip) for (int c = 0; c < p.clients; ++c) {
            Step q; q.client = c; q.op = SCTL; q.mode = 9; q.imm = g.chance(20) ? i128(1 + g.below(1 << 22)) : 0; p.steps.push_back(q);
            for (int t : written[size_t(c)]) {
                Step s; s.client = c; s.op = SIN; s.ta = t; s.ia = int(g.below(K_OWN)); fault(s); s.f.alloc_from = 0; p.steps.push_back(s);
                if (q.imm && g.chance(70)) { Step z; z.client = c; z.op = SCTL; z.mode = 1; p.steps.push_back(z); }
            }
        }
    }
    return p;
}
} // sim
