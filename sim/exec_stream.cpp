// Executes a plan of stream steps: the library's stream code on simulated
// devices, next to the built-in stream code on identical devices.
#include "exec.hpp"
#include "devices.hpp"
#include <memory>
#include <deque>
#include <cstring>
namespace sim {
namespace {
template<class C> struct Punct : std::numpunct<C> {
    int kind; explicit Punct(int k) : std::numpunct<C>(1), kind(k) {}
    std::string do_grouping() const override { return kind == 1 ? "\3" : "\1\2"; }
    C do_thousands_sep() const override { return kind == 1 ? C(',') : C('.'); }
};
const std::locale & loc(int k) {
    static Punct<char> p1(1), p2(2); static Punct<wchar_t> w1(1), w2(2);
    static std::locale l0 = std::locale::classic(), l1(std::locale(std::locale::classic(), &p1), &w1), l2(std::locale(std::locale::classic(), &p2), &w2);
    return k == 1 ? l1 : k == 2 ? l2 : l0;
}
template<class C> void warm1(int k) {                // fill the facet caches, they belong to the platform
    SimBuf<C> b; std::basic_iostream<C> s(&b); s.imbue(loc(k));
    long v = 1234567; unsigned long u = 7654321; s << v << C(' ') << u;
    std::vector<C> t(b.out); b.set_text(t); s >> v >> u;
}

struct SExec;
struct Side { int state; long pos; };
struct ClientBase {
    virtual ~ClientBase() {}
    virtual Caught in(const StreamFns & f, void * obj, const Fault & ft, i128 & rv, Caught & rct, bool & lenient, AllocCtl & lib) = 0;
    virtual Caught out(const StreamFns & f, const void * obj, i128 v, const Fault & ft, Caught & rct, AllocCtl & lib) = 0;
    virtual void ctl(int mode, i128 imm) = 0;
    virtual void sep(int k) = 0;
    virtual std::string diff_in(bool lenient) = 0;       // "" if both sides agree
    virtual std::string diff_out() = 0;
    virtual bool ref_in_fail() = 0;
    virtual bool in_good() = 0;
    virtual void transfer(i128 damage, bool & damaged) = 0;
    virtual uint64_t digest() = 0;
    virtual std::string describe() = 0;
    virtual uint64_t fired() = 0;
    virtual uint64_t refills() = 0;
    virtual uint64_t format() = 0;                       // formatting state relevant for reading back
    virtual bool readable_format() = 0;
    virtual int base() = 0;
    virtual bool out_good() = 0;
    bool lost() const { return lost_; }
    bool lost_ = false; uint64_t ofired0 = 0;
    bool yields = false;
};
static void arm(AllocCtl & al, const Fault & ft) { al.n = 0; al.failed = 0; al.fail_from = ft.alloc_from ? ft.alloc_from : -1; al.fail_count = ft.alloc_count; al.armed = true; }
static void disarm(AllocCtl & al) { al.armed = false; al.fail_from = -1; }

template<class C> struct Client : ClientBase {
    SimBuf<C> ib, rib, ob, rob; std::basic_istream<C> is, ris; std::basic_ostream<C> os, ros;
    static int bits(std::ios_base::iostate s) { return ((s & std::ios_base::eofbit) ? 1 : 0) | ((s & std::ios_base::failbit) ? 2 : 0) | ((s & std::ios_base::badbit) ? 4 : 0); }
    static std::ios_base::iostate mask(unsigned m) { std::ios_base::iostate s = std::ios_base::goodbit; if (m & 1) s |= std::ios_base::eofbit; if (m & 2) s |= std::ios_base::failbit; if (m & 4) s |= std::ios_base::badbit; return s; }
    static void set_base(std::ios_base & s, int b) { s.setf(b == 8 ? std::ios_base::oct : b == 16 ? std::ios_base::hex : b == 10 ? std::ios_base::dec : std::ios_base::fmtflags(0), std::ios_base::basefield); }
    static void set_flags(std::ios_base & s, unsigned f) {
        auto bit = [&](unsigned k, std::ios_base::fmtflags v) { if (f & k) s.setf(v); else s.unsetf(v); };
        bit(SF_SHOWBASE, std::ios_base::showbase); bit(SF_SHOWPOS, std::ios_base::showpos); bit(SF_UPPER, std::ios_base::uppercase);
        bit(SF_BOOLALPHA, std::ios_base::boolalpha); bit(SF_UNITBUF, std::ios_base::unitbuf);
        if (f & SF_NOSKIPWS) s.unsetf(std::ios_base::skipws); else s.setf(std::ios_base::skipws);
        s.setf(f & SF_LEFT ? std::ios_base::left : f & SF_INTERNAL ? std::ios_base::internal : f & SF_RIGHT ? std::ios_base::right : std::ios_base::fmtflags(0), std::ios_base::adjustfield);
    }
    explicit Client(const StreamCfg & c) : is(&ib), ris(&rib), os(&ob), ros(&rob) {
        std::vector<C> t; for (unsigned char ch : c.text) t.push_back(C(ch));
        ib.config(c.chunks, c.faults, c.seekable); ib.counted = true; rib.config({}, c.faults, 0);
        ob.config({}, c.faults, c.seekable); ob.counted = true; rob.config({}, c.faults, c.seekable);
        ib.set_text(t); rib.set_text(t);
        for (std::basic_ios<C> * s : { static_cast<std::basic_ios<C> *>(&is), static_cast<std::basic_ios<C> *>(&ris), static_cast<std::basic_ios<C> *>(&os), static_cast<std::basic_ios<C> *>(&ros) }) {
            s->imbue(loc(c.grouping)); set_base(*s, c.base); set_flags(*s, c.flags);
        }
        is.exceptions(mask(c.iexc)); ris.exceptions(mask(c.iexc)); os.exceptions(mask(c.oexc)); ros.exceptions(mask(c.oexc));
    }
    static void ext(const StreamFns & f, void * o, std::istream & s) { f.in(o, s); }
    static void ext(const StreamFns & f, void * o, std::wistream & s) { f.win(o, s); }
    static void rext(const StreamFns & f, i128 & v, std::istream & s) { f.rin(v, s); }
    static void rext(const StreamFns & f, i128 & v, std::wistream & s) { f.rwin(v, s); }
    static void ins(const StreamFns & f, const void * o, std::ostream & s) { f.out(o, s); }
    static void ins(const StreamFns & f, const void * o, std::wostream & s) { f.wout(o, s); }
    static void rins(const StreamFns & f, i128 v, std::ostream & s) { f.rout(v, s); }
    static void rins(const StreamFns & f, i128 v, std::wostream & s) { f.rwout(v, s); }

    Caught in(const StreamFns & f, void * obj, const Fault & ft, i128 & rv, Caught & rct, bool & lenient, AllocCtl & lib) override {
        AllocCtl & al = alloc_ctl();
        size_t p0 = rib.consumed(); bool noskip = !(ris.flags() & std::ios_base::skipws);
        in_context(ft.ctx, [&] { arm(al, ft);
        try {
            if (f.rejects_minus) {      // the documented difference: a minus sign is refused before it is consumed
                typename std::basic_istream<C>::sentry s(ris);
                if (s && ris.peek() == typename std::char_traits<C>::int_type('-')) ris.setstate(std::ios_base::failbit);
            }
            rext(f, rv, ris); disarm(al);
        } catch (...) { disarm(al); rct = catch_current(); } });
        alloc_forget();
        lenient = f.rejects_minus && noskip && rib.consumed() == p0;
        Caught ct; ib.yields = yields;
        sched_point(0);
        in_context(ft.ctx, [&] { arm(al, ft); try { ext(f, obj, is); disarm(al); } catch (...) { disarm(al); ct = catch_current(); } });
        sched_point(1);
        lib = al; if (al.live) alloc_forget();
        return ct;
    }
    Caught out(const StreamFns & f, const void * obj, i128 v, const Fault & ft, Caught & rct, AllocCtl & lib) override {
        AllocCtl & al = alloc_ctl(); Caught ct; ob.yields = yields;
        in_context(ft.ctx, [&] { arm(al, ft); try { rins(f, v, ros); disarm(al); } catch (...) { disarm(al); rct = catch_current(); } });
        alloc_forget();
        sched_point(0);
        in_context(ft.ctx, [&] { arm(al, ft); try { ins(f, obj, os); disarm(al); } catch (...) { disarm(al); ct = catch_current(); } });
        sched_point(1);
        lib = al; if (al.live) alloc_forget();
        return ct;
    }
    static void skip_token(std::basic_istream<C> & s, bool one) {
        s.exceptions(std::ios_base::goodbit); s.clear();
        try {
            auto * b = s.rdbuf();
            for (int i = 0; i < 400; ++i) {
                auto c = b->sgetc(); if (c == std::char_traits<C>::eof()) break;
                if (!one && std::isspace(std::char_traits<C>::to_char_type(c), std::locale::classic())) break;
                b->sbumpc(); if (one) break;
            }
        } catch (const DevError &) {}
    }
    void both(int mode, i128 imm, std::basic_istream<C> & i, std::basic_ostream<C> & o) {
        auto im = i.exceptions(); auto om = o.exceptions();
        switch (mode) {
        case 0: i.exceptions(std::ios_base::goodbit); i.clear(); i.exceptions(im); break;
        case 1: skip_token(i, false); i.exceptions(im); break;
        case 2: skip_token(i, true); i.exceptions(im); break;
        case 3: set_base(i, int(imm)); set_base(o, int(imm)); break;
        case 4: i.exceptions(std::ios_base::goodbit); i.clear(); i.exceptions(mask(unsigned(imm) & 7));
                o.exceptions(std::ios_base::goodbit); o.clear(); o.exceptions(mask(unsigned(imm >> 3) & 7)); break;
        case 5: if (imm & 1) i.unsetf(std::ios_base::skipws); else i.setf(std::ios_base::skipws); break;
        case 6: o.exceptions(std::ios_base::goodbit); o.clear(); o.exceptions(om); break;
        case 7: set_flags(o, unsigned(imm) & 511); o.width(int(imm >> 9) & 31); o.fill((imm >> 14) & 1 ? C('*') : C(' ')); break;
        }
    }
    void ctl(int mode, i128 imm) override { both(mode, imm, is, os); both(mode, imm, ris, ros); }
    void sep(int k) override {
        static const char * const seps[] = { "", " ", "\n", "\t  ", "\v\f\r", " \n\n " };
        for (auto * o : { &os, &ros }) {
            try { for (const char * s = seps[k % 6]; *s; ++s) o->put(C(*s)); } catch (...) {}
        }
    }
    std::string diff_in(bool lenient) override {
        int a = bits(is.rdstate()), b = bits(ris.rdstate());
        if (lenient ? is.fail() != ris.fail() : a != b) return "stream state " + std::to_string(a) + ", built-in extraction leaves " + std::to_string(b);
        size_t p = ib.consumed(), q = rib.consumed();
        if (p != q) return "consumed up to character " + std::to_string(p) + ", built-in extraction up to " + std::to_string(q);
        if (is.flags() != ris.flags() || is.width() != ris.width() || is.exceptions() != ris.exceptions()) return "formatting state changed";
        return "";
    }
    static std::string show(SimBuf<C> & b) { std::string s; for (C c : b.out) s += char(c); if (!b.obuf.empty()) { s += '|'; s += std::to_string(b.obuf.size()); } return s; }
    static std::vector<C> pending(SimBuf<C> & b) { return b.pending(); }
    std::string diff_out() override {
        int a = bits(os.rdstate()), b = bits(ros.rdstate());
        if (ob.out != rob.out || pending(ob) != pending(rob)) return "wrote \"" + show(ob) + "\", built-in insertion \"" + show(rob) + "\"";
        if (a != b) return "stream state " + std::to_string(a) + ", built-in insertion leaves " + std::to_string(b);
        if (os.flags() != ros.flags() || os.width() != ros.width() || os.fill() != ros.fill() || os.precision() != ros.precision() || os.exceptions() != ros.exceptions()) return "formatting state differs";
        return "";
    }
    bool ref_in_fail() override { return ris.fail(); }
    bool in_good() override { return is.good(); }
    bool out_good() override { return os.good(); }
    void transfer(i128 damage, bool & damaged) override {
        std::vector<C> t = ob.out; auto p = pending(ob); t.insert(t.end(), p.begin(), p.end());
        damaged = false;
        if (damage && !t.empty()) {
            size_t pos = size_t(damage >> 9) % t.size(); int kind = int(damage & 1); C c = C((damage >> 1) & 0x7f);
            damaged = true;
            if (kind) t.resize(pos); else t[pos] = c;
        }
        for (auto * s : { &os, &ros }) { auto m = s->exceptions(); s->exceptions(std::ios_base::goodbit); s->clear(); s->exceptions(m); }
        lost_ = ob.ofired != ofired0; ofired0 = ob.ofired;
        for (auto * s : { &is, &ris }) { auto m = s->exceptions(); s->exceptions(std::ios_base::goodbit); s->clear(); s->exceptions(m); }
        ib.set_text(t); rib.set_text(t); ib.drop_faults(); rib.drop_faults();
        ob.reset_out(); rob.reset_out();
    }
    uint64_t digest() override {
        uint64_t h = mix(uint64_t(bits(is.rdstate())) * 64 + bits(os.rdstate()), ib.consumed());
        for (C c : ob.out) h = mix(h, uint64_t(c));
        return mix(h, uint64_t(ob.ofired) * 1000 + ib.fired);
    }
    std::string describe() override {
        std::string s = "at character " + std::to_string(ib.consumed()) + " of \"";
        for (C c : ib.text) { char b[8]; if (c >= 32 && c < 127) s += char(c); else { snprintf(b, sizeof b, "\\x%02x", unsigned(c) & 255); s += b; } }
        return s + "\"";
    }
    uint64_t fired() override { return ib.fired + ob.ofired; }
    uint64_t refills() override { return ib.refills; }
    uint64_t format() override { return uint64_t(os.flags() & std::ios_base::basefield) ; }
    bool readable_format() override {
        return os.width() == 0 && (is.flags() & std::ios_base::skipws) && (is.flags() & std::ios_base::basefield) == (os.flags() & std::ios_base::basefield);
    }
    int base() override { auto b = os.flags() & std::ios_base::basefield; return b == std::ios_base::hex ? 16 : b == std::ios_base::oct ? 8 : 10; }
};

static uint32_t range_codes(i128 v, const TypeDesc & t) {
    if (v > t.hi) return 1u << E_POS;
    if (v < t.lo) return 1u << E_NEG | 1u << E_DOM;
    return 0;
}

struct SExec {
    const Plan & p; bool want; RunResult r; const World & w; int nt;
    struct Obj { alignas(16) unsigned char b[BUF]; };
    std::vector<std::vector<Obj>> own; std::vector<std::vector<i128>> mv; std::vector<Obj> shared_own; std::vector<Obj> & shared; std::vector<i128> msh;
    std::vector<std::unique_ptr<ClientBase>> cl;
    struct Written { int type; i128 v; uint64_t fmt; bool ok; };
    std::vector<std::deque<Written>> wrote, inflight; std::vector<char> damaged;
    uint64_t h = 1; int prop; int last = 0;
    std::vector<StepLog> * slog = nullptr;
    SExec(const Plan & p_, bool wt, const World & w_, SExec * sharing = nullptr) : p(p_), want(wt), w(w_), nt(w_.nt()), shared(sharing ? sharing->shared_own : shared_own) { prop = atoi(p.property.c_str() + 1); }
    i128 deflt(int t) const { const TypeDesc & d = w.types[t]; return d.lo > 0 ? d.lo : d.hi < 0 ? d.hi : 0; }
    void * at(int c, int t, int s) { return s == SHARED ? shared[size_t(t)].b : own[size_t(c)][size_t(t) * K_OWN + s].b; }
    void fail(int pr, long step, const std::string & sig, const std::string & text) {
        if (pr != prop || r.v.found) return;
        r.v.found = true; r.v.property = p.property; r.v.sig = sig; r.v.text = text; r.v.step = step;
    }
    void setup() {
        static const bool warm = [] { for (int k = 0; k < 3; ++k) { warm1<char>(k); warm1<wchar_t>(k); } return true; }(); (void)warm;
        own.resize(size_t(p.clients)); mv.resize(own.size()); shared_own.resize(size_t(nt)); msh.resize(size_t(nt)); wrote.resize(own.size()); inflight.resize(own.size()); damaged.resize(own.size());
        for (int c = 0; c < p.clients; ++c) {
            own[c].resize(size_t(nt) * K_OWN); mv[c].resize(size_t(nt) * K_OWN);
            for (int t = 0; t < nt; ++t) for (int k = 0; k < K_OWN; ++k) { mv[c][t * K_OWN + k] = deflt(t); w.types[t].raw(own[c][t * K_OWN + k].b, deflt(t)); }
            StreamCfg cfg; if (size_t(c) < p.streams.size()) cfg = p.streams[size_t(c)];
            if (cfg.wide && w.types[0].st->win) cl.emplace_back(new Client<wchar_t>(cfg)); else cl.emplace_back(new Client<char>(cfg));
        }
        for (int t = 0; t < nt; ++t) { msh[t] = deflt(t); w.types[t].raw(shared_own[t].b, msh[t]); }
        for (auto & i : p.init) {
            if (i.type >= nt || i.v < w.types[i.type].lo || i.v > w.types[i.type].hi) continue;
            if (i.slot == SHARED) { msh[i.type] = i.v; w.types[i.type].raw(shared_own[i.type].b, i.v); }
            else if (i.client < p.clients) { mv[i.client][i.type * K_OWN + i.slot] = i.v; w.types[i.type].raw(own[i.client][i.type * K_OWN + i.slot].b, i.v); }
        }
    }
    void step(long n, const Step & s);
};

static bool has_internal(unsigned) { return false; }

void SExec::step(long n, const Step & s) {
    if (s.client >= p.clients || s.ta >= nt || s.ia > SHARED) return;
    int c = s.client; ClientBase & k = *cl[size_t(c)];
    if (s.op == SCTL) {
        if (s.mode == 9) {
            bool d; k.transfer(s.imm, d); if (k.lost()) for (auto & x : wrote[size_t(c)]) x.ok = false;
            damaged[size_t(c)] = d; inflight[size_t(c)] = wrote[size_t(c)]; wrote[size_t(c)].clear();
        } else k.ctl(s.mode, s.imm);
        if (want) r.trace += "step " + std::to_string(n) + ": control " + std::to_string(s.mode) + " " + str(s.imm) + "\n";
        return;
    }
    const TypeDesc & t = w.types[s.ta];
    if (s.op == SETV) {
        if (s.ia == SHARED || s.imm < t.lo || s.imm > t.hi) return;
        t.raw(at(c, s.ta, s.ia), s.imm); mv[c][s.ta * K_OWN + s.ia] = s.imm; return;
    }
    if (s.op != SIN && s.op != SOUT) return;
    if (s.op == SIN && s.ia == SHARED) return;
    if (!t.st) return;
    const StreamFns & f = *t.st;
    if (s.op == SIN && !f.in) return;                     // literals are only written
    i128 va = s.ia == SHARED ? msh[s.ta] : mv[c][s.ta * K_OWN + s.ia];
    HandlerCtl & hc = handler_ctl();
    int act = s.f.hact >= 0 ? s.f.hact : p.hact;
    if (w.errs != 'h' || act == H_REENTER) act = H_THROW_SIM;
    hc.act = HAct(act); hc.token = uint64_t(s.f.token ? s.f.token : n + 1); hc.log.clear(); hc.depth = 0; hc.nested_bad = 0;
    std::string pre = k.describe(); int base = k.base(); bool fmtok = k.readable_format();
    uint64_t fired0 = k.fired(), refills0 = k.refills();
    Caught ct, rct; AllocCtl al; i128 rv = va; bool lenient = false;
    if (s.op == SIN) ct = k.in(f, at(c, s.ta, s.ia), s.f, rv, rct, lenient, al);
    else ct = k.out(f, at(c, s.ta, s.ia), va, s.f, rct, al);
    const int sepk = int(((s.imm % 6) + 6) % 6);
    if (s.op == SOUT) k.sep(sepk);
    r.st.steps++; r.st.ops++; if (ct.kind != DONE) r.st.reports++; if (al.failed) r.st.faults_alloc++;
    if (!hc.log.empty() && act != H_THROW_SIM) r.st.faults_handler++;
    uint64_t fired = k.fired() - fired0; if (fired) r.st.faults_dev += fired;
    r.st.simtime += k.refills() - refills0;
    bool done = ct.kind == DONE;
    auto where = [&] {
        std::string x = std::string(w.name) + " step " + std::to_string(n) + ": " + op_name[s.op] + " " + t.name + "#" + std::to_string(c) + "." + std::to_string(s.ia) + "=" + str(va);
        if (s.op == SIN) x += " " + pre;
        x += std::string(" -> ") + outcome_name[ct.kind]; if (ct.kind == SYSERR) x += " code " + std::to_string(ct.code);
        if (fired) x += " [device fault]"; if (al.failed) x += " [" + std::to_string(al.failed) + " allocations failed]";
        return x;
    };
    std::string sb = std::string(w.name) + "|" + op_name[s.op] + "|" + t.name;
    // objects
    i128 newa = va; bool coll = false;
    for (int q = 0; q < nt; ++q) {
        for (int j = 0; j < K_OWN; ++j) {
            i128 now = w.types[q].load(own[c][q * K_OWN + j].b), old = mv[c][q * K_OWN + j];
            if (s.op == SIN && q == s.ta && j == s.ia) newa = now; else if (now != old) coll = true;
            bool returned = act == H_RETURN && !hc.log.empty();
            if ((now < w.types[q].lo || now > w.types[q].hi) && old >= w.types[q].lo && old <= w.types[q].hi && !returned)
                fail(1, n, "object out of range|" + sb, where() + ": " + w.types[q].name + " holds " + str(now));
            mv[c][q * K_OWN + j] = now;
        }
        i128 now = w.types[q].load(shared[q].b); if (now != msh[q]) coll = true; msh[q] = now;
    }
    bool returned = act == H_RETURN && !hc.log.empty();
    if (!done && (coll || newa != va)) { fail(2, n, "changed by a failed operation|" + sb, where() + ": value is now " + str(newa)); fail(7, n, "changed by a failed extraction|" + sb, where() + ": value is now " + str(newa)); }
    if (al.live) fail(11, n, "memory retained|" + sb, where() + ": " + std::to_string(al.live) + " blocks");
    auto reported = [&](uint32_t codes) {        // "" if the outcome is a proper report with one of the codes
        if (al.failed && ct.kind == BADALLOC) return std::string();
        if (w.errs != 'h') {
            if (ct.kind != SYSERR) return std::string("must be reported");
            if (!(codes >> ct.code & 1)) return "wrong error code " + std::to_string(ct.code);
            return std::string();
        }
        if (hc.log.size() != 1) return std::to_string(hc.log.size()) + " handler calls instead of one";
        if (hc.log[0].cls != C_ARITH) return std::string("wrong handler called");
        if (!(codes >> hc.log[0].code & 1)) return "wrong error code " + std::to_string(hc.log[0].code);
        if (!hc.log[0].msg) return std::string("no message");
        bool ok = returned ? done : act == H_THROW_SYS ? ct.kind == SYSERR : ct.kind == SIMEX && ct.code == int(hc.token & 0xffff);
        return ok ? std::string() : std::string("exception of the handler not delivered");
    };
    if (s.op == SIN) {
        if (rct.kind != DONE) {                         // built-in extraction throws: the stream's own exception
            bool ok = ct.kind == rct.kind && (rct.kind != DEVEX || rct.code == ct.code);
            if (lenient && !done) ok = true;
            if (al.failed && !done) ok = true;
            if (!ok) fail(7, n, "stream exception|" + sb, where() + ": built-in extraction ends with " + outcome_name[rct.kind]);
        } else if (k.ref_in_fail()) {
            std::string e = reported(1u << E_DOM);
            if (!e.empty() && !(lenient && !done)) { fail(7, n, "failed extraction|" + sb, where() + ": " + e + " (built-in extraction fails)"); fail(5, n, "failed extraction|" + sb, where() + ": " + e); fail(6, n, "failed extraction|" + sb, where() + ": " + e); }
            if (returned && !al.failed && !e.empty()) fail(13, n, "reports of a failed extraction|" + sb, where() + ": " + e);
            if (returned && newa != wrap(rv, t.bits, t.sgn)) fail(13, n, "failed extraction|" + sb, where() + ": value " + str(newa) + ", built-in extraction stores " + str(rv));
        } else if (uint32_t codes = range_codes(rv, t)) {
            std::string e = reported(codes);
            if (!e.empty()) { fail(7, n, "out of range text|" + sb, where() + ": " + e + " (text denotes " + str(rv) + ")"); fail(5, n, "out of range text|" + sb, where() + ": " + e); fail(6, n, "out of range text|" + sb, where() + ": " + e); }
            if (returned && !al.failed && !e.empty()) fail(13, n, "reports of out of range text|" + sb, where() + ": " + e);
            if (returned && newa != wrap(rv, t.bits, t.sgn)) fail(13, n, "out of range text|" + sb, where() + ": value " + str(newa) + ", built-in conversion gives " + str(wrap(rv, t.bits, t.sgn)));
        } else {
            if (!done) { fail(7, n, "rejected|" + sb, where() + ": text denotes " + str(rv)); fail(4, n, "rejected|" + sb, where() + ": text denotes " + str(rv)); }
            else if (newa != rv) { fail(7, n, "wrong value|" + sb, where() + ": stored " + str(newa) + ", text denotes " + str(rv)); fail(3, n, "wrong value|" + sb, where()); }
            if (!hc.log.empty()) { fail(5, n, "handler called on success|" + sb, where()); fail(13, n, "handler called on success|" + sb, where()); }
        }
        std::string d = k.diff_in(lenient);
        if (!d.empty() && !(al.failed && k.ref_in_fail())) fail(12, n, "stream position or state|" + sb, where() + ": " + d);
        auto & q = inflight[size_t(c)];
        if (!q.empty()) {
            if (q.front().type != s.ta) q.clear();
            else {
                Written x = q.front(); q.pop_front();
                if (!x.ok) q.clear();
                else if (!damaged[size_t(c)] && x.fmt == k.format() && fmtok && !al.failed) {
                    if (!done || newa != x.v) { fail(9, n, "not restored|" + sb, where() + ": written " + str(x.v) + ", read " + str(newa)); q.clear(); }
                } else if (!damaged[size_t(c)]) q.clear();
            }
        }
        if (prop == 9 && damaged[size_t(c)] && done && !returned && (rct.kind != DONE || k.ref_in_fail() || rv != newa)) fail(9, n, "damaged text read|" + sb, where() + ": stored " + str(newa) + " which the text does not denote");
    } else {
        bool ok = ct.kind == rct.kind && (rct.kind != DEVEX || rct.code == ct.code);
        std::string d = k.diff_out();
        if (!ok) fail(8, n, "exception|" + sb, where() + ": built-in insertion ends with " + outcome_name[rct.kind]);
        else if (!d.empty()) fail(8, n, "output differs|" + sb, where() + ": " + d);
        if (newa != va || coll) fail(8, n, "modified by output|" + sb, where());
        if (!hc.log.empty()) fail(5, n, "handler called by output|" + sb, where());
        bool good = ct.kind == DONE && k.out_good() && !fired && !al.failed && !(va < 0 && base != 10) && fmtok && !has_internal(0);
        wrote[size_t(c)].push_back(Written{s.ta, va, k.format(), good && sepk != 0});
    }
    h = mix(h, uint64_t(n) << 8 | ct.kind); h = mix(h, uint64_t(ct.code)); h = mix(h, uint64_t(newa)); h = mix(h, k.digest()); for (auto & ev : hc.log) h = mix(h, ev.cls * 64u + ev.code);
    for (char ch : ct.what) h = h * 131 + uint8_t(ch);
    if (slog) slog->push_back(StepLog{n, h, uint8_t(ct.kind), ct.code, newa});
    if (want) { r.trace += where() + " now " + str(newa) + " / reference " + outcome_name[rct.kind] + " " + str(rv) + " digest " + std::to_string(k.digest()) + "\n"; }
    auto sg = [](i128 v, const TypeDesc & d) { return v == d.lo ? 0 : v == d.hi ? 1 : v < 0 ? 2 : v == 0 ? 3 : 4; };
    uint64_t ab = mix(mix(w.errs * 7919u + s.op * 64u + s.ta, uint64_t(ct.kind) << 16 | uint64_t(ct.code) << 8 | sg(newa, t)), (fired ? 1 : 0) + (al.failed ? 2 : 0) + 4 * rct.kind + 64 * (last & 15) + 1024 * act + 8192 * base + (k.in_good() ? 1 << 20 : 0) + (p.streams.size() > size_t(c) && p.streams[size_t(c)].wide ? 1 << 21 : 0));
    r.shape = mix(r.shape, ab); if (g_cov) g_cov->hit(ab); last = ct.kind;
}
struct StreamClient : ThreadClient {
    SExec e;
    StreamClient(const Plan & p, bool want, const World & w, StreamClient * share) : e(p, want, w, share ? &share->e : nullptr) { e.setup(); log.reserve(p.steps.size()); for (auto & c : e.cl) c->yields = true; }
    void go(int client) override {
        e.slog = &log;
        for (size_t n = 0; n < e.p.steps.size(); ++n) if (e.p.steps[n].client == client) e.step(long(n), e.p.steps[n]);
        st = e.r.st; trace = e.r.trace;
    }
};
} // anon
std::unique_ptr<ThreadClient> make_stream_client(const Plan & p, bool want, ThreadClient * share) {
    return std::unique_ptr<ThreadClient>(new StreamClient(p, want, *find_world(p.world), static_cast<StreamClient *>(share)));
}

RunResult execute_stream(const Plan & p, bool want) {
    World * w = find_world(p.world);
    if (!w) return RunResult();
    SExec e(p, want, *w);
    e.setup();
    for (size_t n = 0; n < p.steps.size() && !e.r.v.found; ++n) e.step(long(n), p.steps[n]);
    e.r.hash = e.h;
    return std::move(e.r);
}
} // sim
