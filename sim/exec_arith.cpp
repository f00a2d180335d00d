// Executes a plan of arithmetic steps against the real library and judges every
// step against the model.
#include "exec.hpp"
#include <cstring>
#include <cstdio>
#include <system_error>
namespace sim {
Coverage * g_cov = nullptr;
uint64_t g_kinds[FK_N];
bool g_deep_catch = false;
static __thread HandlerCtl * t_hc;
HandlerCtl & handler_ctl() { if (!t_hc) t_hc = new HandlerCtl; return *t_hc; }
void release_thread_state() { delete t_hc; t_hc = nullptr; }

void on_handler(int cls, int code, const char * msg) {
    HandlerCtl & h = handler_ctl();
    AllocCtl & a = alloc_ctl(); bool arm = a.armed; a.armed = false;
    h.log.push_back(HEvent{uint8_t(cls), uint8_t(code), msg != nullptr && msg[0] != 0});
    sched_point(3);
    a.armed = arm;
    HAct act = h.act;
    if (h.depth == 0) ++g_kinds[FK_HANDLER + act];
    switch (act) {
    case H_RETURN: return;
    case H_THROW_INT: throw int(h.token & 0xffff);
    case H_THROW_SYS: throw std::system_error(std::make_error_code(std::errc::io_error));
    case H_ALLOC_THROW: { char * p = static_cast<char *>(malloc(64)); if (!p) throw std::bad_alloc(); p[0] = 1; asm volatile("" : : "r"(p) : "memory"); free(p); break; }
    case H_REENTER:
        if (h.reenter && h.depth < h.max_depth) {
            ++h.depth;
            size_t keep = h.log.size(); HEvent mine = h.log[keep - 1];
            h.reenter(h.reenter_arg);
            --h.depth;
            if (h.log.size() < keep || h.log[keep - 1].code != mine.code || h.log[keep - 1].cls != mine.cls) ++h.nested_bad;
            h.log.resize(keep);
        }
        break;
    default: break;
    }
    throw SimError{h.token, h.token * 31 + 7};
}

World * find_world(const std::string & n) { for (World * w : worlds()) if (n == w->name) return w; return nullptr; }
std::vector<World *> & worlds() { static std::vector<World *> v; return v; }
struct Filler { std::string world; void (*fill)(World &, int); };
static std::vector<Filler> & fillers() { static std::vector<Filler> v; return v; }
struct RowReg { RowReg(const char * world, void (*fill)(World &, int)); };
RowReg::RowReg(const char * world, void (*fill)(World &, int)) { fillers().push_back(Filler{world, fill}); }
void build_worlds() {
    for (auto & f : fillers()) {
        World * w = find_world(f.world);
        if (!w) { w = new World; worlds().push_back(w); f.fill(*w, 0); }
        f.fill(*w, 1);
    }
}

namespace {
// does a caught error identify itself, wherever it is looked at?
std::string identity(const Caught & ct) {
    static const char * const names[] = { "success", "positive overflow error", "negative overflow error", "domain error", "range error",
        "precision overflow error", "underflow error", "negative value shift", "negative shift", "shift too large", "uninitialized value" };
    if (ct.kind != SYSERR) return "not a system_error";
    if (ct.code <= 0 || ct.code >= E_N) return "undefined code";
    std::string m; for (char ch : ct.msg) m += ch == '_' ? ' ' : ch;
    if (!ct.cat_safe || ct.eq_codes != (1u << ct.code)) return "code not recognised where caught";
    if (ct.eq_actions != (1u << class_of(ct.code))) return "wrong error group";
    if (ct.eq_codes2 != ct.eq_codes || ct.eq_actions2 != ct.eq_actions) return "differs between translation units";
    if (ct.catname != "safe numerics error" || m != names[ct.code]) return "wrong description";
    if (!ct.what_ok || ct.what.size() <= ct.msg.size()) return "what() lacks the message";
    if (!ct.copy_ok) return "copy differs";
    return "";
}
std::string identity_detail(const Caught & ct) {
    return " (code " + std::to_string(ct.code) + ", equals codes mask " + std::to_string(ct.eq_codes) + "/" + std::to_string(ct.eq_codes2) + ", groups mask " + std::to_string(ct.eq_actions) + "/" + std::to_string(ct.eq_actions2) + ", category \"" + ct.catname + "\", message \"" + ct.msg + "\", what \"" + ct.what + "\")";
}
struct Exec {
    const Plan & p; bool want; RunResult r; const World & w; int nt;
    struct Obj { alignas(16) unsigned char b[BUF]; };
    std::vector<std::vector<Obj>> own;          // [client][type*K_OWN+slot]
    std::vector<Obj> shared_own; std::vector<Obj> & shared;     // [type]
    std::vector<std::vector<i128>> mv;          // model values, same index; tainted objects are resynchronised
    std::vector<i128> msh;
    std::vector<Obj> scratch;                   // for re-entrant handlers
    int prop;
    int last_kind = 0;
    uint64_t h = 0x5151;

    std::vector<StepLog> * slog = nullptr;
    Exec(const Plan & pl, bool tr, const World & wd, Exec * sharing = nullptr) : p(pl), want(tr), w(wd), nt(wd.nt()), shared(sharing ? sharing->shared_own : shared_own) {
        prop = p.property.size() >= 2 ? atoi(p.property.c_str() + 1) : 0;
    }
    i128 deflt(int t) const { i128 v = 0; if (v < w.types[t].lo) v = w.types[t].lo; if (v > w.types[t].hi) v = w.types[t].hi; return v; }
    void * at(int c, int t, int s) { return s == SHARED ? shared[t].b : own[c][t * K_OWN + s].b; }
    i128 val(int c, int t, int s) const { return s == SHARED ? msh[t] : mv[c][t * K_OWN + s]; }
    std::string slot(int c, int t, int s) const {
        char b[96]; snprintf(b, sizeof b, "%s#%d.%s%d", w.types[t].name, c, s == SHARED ? "shared" : "o", s); return b; }
    void fail(int pr, long step, const std::string & sig, const std::string & text) {
        if (pr != prop || r.v.found) return;
        r.v.found = true; r.v.property = p.property; r.v.sig = sig; r.v.text = text; r.v.step = step;
    }
    static void reenter_(void * a) { static_cast<Exec *>(a)->reenter(); }
    int re_type = 0;
    bool usable(int t) const { return t < nt && w.types[t].safe && w.types[t].lo < w.types[t].hi && w.un(PREINC, t); }
    void reenter() {
        // inside a handler: use the library again, failing and catching
        HandlerCtl & hc = handler_ctl();
        if (re_type < 0) return;
        ++hc.nested; ++r.st.reent; ++g_kinds[FK_REENTRY];
        const TypeDesc & t = w.types[re_type];
        Obj o; t.raw(o.b, t.hi);
        size_t before = hc.log.size();
        bool threw = false;
        Cap c;
        try { w.un(PREINC, re_type)(o.b, c); } catch (const SimError & e) { threw = e.token == hc.token; } catch (...) {}
        if (!threw || hc.log.size() != before + 1 || hc.log.back().cls != C_ARITH || t.load(o.b) != t.hi) ++hc.nested_bad;
        t.raw(o.b, t.lo);
        Cap c2;
        try { w.un(PREINC, re_type)(o.b, c2); if (t.load(o.b) != t.lo + 1) ++hc.nested_bad; } catch (...) { ++hc.nested_bad; }
    }

    void step(long n, const Step & s);
    void expr_step(long n, const Step & s);
    void raise_step(long n, const Step & s);
    void setup();
    RunResult run();
};

void Exec::step(long n, const Step & s) {
    if (s.op == EXPR) { expr_step(n, s); return; }
    if (s.op == NOPSTEP && s.mode > 0) { raise_step(n, s); return; }
    if (s.op == NOPSTEP || s.client >= p.clients || s.ta >= nt || s.tb >= nt) return;
    bool bin = s.op < N_BIN, un = s.op >= N_BIN && s.op < N_OP;
    UnFn uf = nullptr; OpFn bf = nullptr;
    if (bin) { bf = w.fn(s.op, s.ta, s.tb); if (!bf) return; }
    else if (un) { uf = w.un(s.op, s.ta); if (!uf) return; }
    else if (s.op != SETV) return;
    if (s.op == SETV && !w.types[s.ta].safe) {          // the program's own built-in variable: no library involved
        if (s.ia == SHARED || s.imm < w.types[s.ta].lo || s.imm > w.types[s.ta].hi) return;
        w.types[s.ta].raw(at(s.client, s.ta, s.ia), s.imm); mv[s.client][s.ta * K_OWN + s.ia] = s.imm; return;
    }
    if (s.op == SETV) {                                   // a constant of type (unsigned) long long that cannot be in range does not compile
        const TypeDesc & t = w.types[s.ta]; i128 lm = tmax(64, true);
        if (s.imm > lm ? t.hi < 0 : (t.lo > lm)) return;
    }
    bool modifies = s.op >= ADDA && s.op <= CONSTRUCT;
    if (s.op >= PREINC && s.op <= POSTDEC) modifies = true;
    if (s.op == COPY || s.op == SETV) modifies = true;
    if (modifies && s.ia == SHARED) return;
    int c = s.client;
    i128 va = val(c, s.ta, s.ia), vb = bin ? val(c, s.tb, s.ib) : 0;
    Expect e = bin ? expect_bin(w, s.op, s.ta, va, s.tb, vb)
             : un ? expect_un(w, s.op, s.ta, va)
             : expect_set(w, s.ta, s.imm, false);
    // an object that left its range because a handler returned, used where the built-in operation is undefined
    bool in_range = va >= w.types[s.ta].lo && va <= w.types[s.ta].hi && (!bin || (vb >= w.types[s.tb].lo && vb <= w.types[s.tb].hi));
    int bop = bin ? base_op(s.op) : N_BIN;
    if (!in_range && (!e.builtin_defined || bop == DIV || bop == MOD) && s.op != DEFCTOR) return;
    // which handler action: a return only where the built-in operation is defined
    HandlerCtl & hc = handler_ctl();
    int act = s.f.hact >= 0 ? s.f.hact : p.hact;
    if (w.errs != 'h') act = H_THROW_SIM;
    if (act == H_RETURN && (!e.builtin_defined || s.op == DEFCTOR)) act = H_THROW_SIM;
    hc.act = HAct(act); hc.token = uint64_t(s.f.token ? s.f.token : n + 1); hc.log.clear();
    hc.depth = 0; hc.nested = 0; hc.nested_bad = 0; hc.reenter = &reenter_; hc.reenter_arg = this;
    re_type = usable(s.ta) ? s.ta : usable(s.tb) ? s.tb : usable(0) ? 0 : -1;

    Obj copy_ctor_target = own[c][0];
    void * pa = at(c, s.ta, s.ia); const void * pb = bin ? at(c, s.tb, s.ib) : nullptr;
    AllocCtl & al = alloc_ctl();
    al.n = 0; al.failed = 0; al.fail_from = s.f.alloc_from ? s.f.alloc_from : -1; al.fail_count = s.f.alloc_count;
    Cap cap; Caught ct;
    sched_point(0);
    in_context(s.f.ctx, [&] {
    al.armed = true;
    try {
        if (bin) bf(pa, pb, cap);
        else if (un) uf(pa, cap);
        else if (s.mode) w.types[s.ta].set_assign(pa, s.imm);
        else w.types[s.ta].set_ctor(pa, s.imm);
        al.armed = false;
    } catch (...) {
        al.armed = false;
        ct = catch_current();
    }
    });
    sched_point(1);
    long nalloc = al.n, nfailed = al.failed, live = al.live;
    al.fail_from = -1;
    if (live) alloc_forget();
    (void)copy_ctor_target;
    r.st.steps++; r.st.ops++;
    if (ct.kind != DONE) r.st.reports++;
    if (nfailed) r.st.faults_alloc++;
    if (!hc.log.empty() && act != H_THROW_SIM) r.st.faults_handler++;

    auto where = [&] {
        std::string t = std::string(w.name) + " step " + std::to_string(n) + ": " + op_name[s.op] + " " + slot(c, s.ta, s.ia) + "=" + str(va);
        if (bin) t += ", " + slot(c, s.tb, s.ib) + "=" + str(vb);
        if (s.op == SETV) t += " := " + str(s.imm);
        t += std::string(" -> ") + outcome_name[ct.kind];
        if (ct.kind == SYSERR) t += " code " + std::to_string(ct.code) + " \"" + ct.what + "\"";
        if (cap.set) t += " result " + str(cap.v);
        if (nfailed) t += " [" + std::to_string(nfailed) + " allocations failed]";
        return t;
    };
    std::string sigbase = std::string(w.name) + "|" + op_name[s.op] + "|" + w.types[s.ta].name + "|" + (bin ? w.types[s.tb].name : "-");
    bool returned = act == H_RETURN && !hc.log.empty();
    bool done = ct.kind == DONE;

    // ---- state after the step
    i128 newa = 0; bool collateral = false; std::string coll;
    for (int t = 0; t < nt; ++t) {
        for (int k = 0; k < K_OWN; ++k) {
            i128 now = w.types[t].load(own[c][t * K_OWN + k].b), old = mv[c][t * K_OWN + k];
            bool target = modifies && t == s.ta && k == s.ia;
            if (target) newa = now;
            else if (now != old && !collateral) { collateral = true; coll = slot(c, t, k) + " changed from " + str(old) + " to " + str(now); }
            if (w.types[t].safe && (now < w.types[t].lo || now > w.types[t].hi)) {
                bool was = old < w.types[t].lo || old > w.types[t].hi;
                if (!was && !returned)
                    fail(1, n, "object out of range|" + sigbase, where() + ": object " + slot(c, t, k) + " holds " + str(now) + ", declared range [" + str(w.types[t].lo) + "," + str(w.types[t].hi) + "]");
            }
            mv[c][t * K_OWN + k] = now;
        }
        i128 now = w.types[t].load(shared[t].b);
        if (now != msh[t] && !collateral) { collateral = true; coll = "shared " + std::string(w.types[t].name) + " changed"; }
        msh[t] = now;
    }
    // ---- oracles
    // an operation that returns its operand's own type: what numeric_limits says is what the type was declared with
    bool same = cap.self || s.op == COPY || s.op == CONSTRUCT || s.op == PREINC || s.op == PREDEC || s.op == POSTINC || s.op == POSTDEC;
    if (cap.set && cap.safe && !cap.isbool && done && same && w.types[s.ta].safe && (cap.lo != w.types[s.ta].lo || cap.hi != w.types[s.ta].hi))
        fail(1, n, "declared range differs|" + sigbase, where() + ": numeric_limits says [" + str(cap.lo) + "," + str(cap.hi) + "], declared is [" + str(w.types[s.ta].lo) + "," + str(w.types[s.ta].hi) + "]");
    if (cap.set && !cap.isbool && done && !e.value_unspecified && !returned && (cap.v < cap.lo || cap.v > cap.hi))
        fail(1, n, "result out of range|" + sigbase, where() + ": result type declares [" + str(cap.lo) + "," + str(cap.hi) + "]");
    if (!done && (collateral || (modifies && newa != va)))
        fail(2, n, "changed by a failed operation|" + sigbase, where() + ": " + (modifies && newa != va ? slot(c, s.ta, s.ia) + " changed from " + str(va) + " to " + str(newa) : coll));
    if (done && !returned) {
        if (e.must_report)
            fail(3, n, "completed without a representable result|" + sigbase, where() + ": exact value " + (e.z_known ? str(e.z) : std::string("undefined")) + " must be reported");
        else if (e.z_known && !e.value_unspecified) {
            if (cap.set && cap.v != e.z)
                fail(3, n, "wrong value|" + sigbase, where() + ": exact value is " + str(e.z));
            if (e.has_target && newa != e.target)
                fail(3, n, "wrong stored value|" + sigbase, where() + ": stored " + str(newa) + ", exact value is " + str(e.target));
            if ((s.op == PREINC || s.op == PREDEC) && !cap.self)
                fail(3, n, "increment returns another object|" + sigbase, where());
        }
        if (collateral) fail(3, n, "modified another object|" + sigbase, where() + ": " + coll);
    }
    if (!done && e.must_succeed)
        fail(4, n, "rejected|" + sigbase, where() + ": exact value " + str(e.z) + " is representable");
    if (w.errs == 'h' && prop == 5) {
        if (done && !returned && !hc.log.empty()) fail(5, n, "handler invoked by an operation that completes|" + sigbase, where());
        if (done && !returned && e.must_report) fail(5, n, "no handler invoked|" + sigbase, where());
        if (!done && act != H_RETURN) {
            if (hc.log.size() != 1) fail(5, n, "handler calls|" + sigbase, where() + ": handlers invoked " + std::to_string(hc.log.size()) + " times");
            else {
                HEvent ev = hc.log[0];
                if (ev.cls != class_of(ev.code)) fail(5, n, "wrong class|" + sigbase, where() + ": code " + std::to_string(ev.code) + " sent to handler of class " + std::to_string(ev.cls));
                else if (e.codes && !(e.codes >> ev.code & 1)) fail(5, n, "wrong code|" + sigbase, where() + ": code " + std::to_string(ev.code) + ", acceptable mask " + std::to_string(e.codes));
                else if (!ev.msg) fail(5, n, "no message|" + sigbase, where());
            }
            bool ok = false;
            switch (act) {
            case H_THROW_SIM: case H_REENTER: case H_ALLOC_THROW: ok = ct.kind == SIMEX && ct.code == int(hc.token & 0xffff); break;
            case H_THROW_INT: ok = ct.kind == SIMEX && ct.code == int(hc.token & 0xffff); break;
            case H_THROW_SYS: ok = ct.kind == SYSERR && !ct.cat_safe; break;
            }
            if (nfailed && ct.kind == BADALLOC) ok = true;
            if (!ok) fail(5, n, "handler's exception not delivered|" + sigbase, where());
        }
        if (hc.nested_bad) fail(5, n, "nested report disturbed|" + sigbase, where());
    }
    if (w.errs != 'h' && prop == 6) {
        if (done && e.must_report) fail(6, n, "silent continuation|" + sigbase, where());
        if (!done && ct.kind == BADALLOC && !nfailed) fail(6, n, "bad_alloc with memory available|" + sigbase, where());
        if (!done && ct.kind != BADALLOC) {
            if (ct.kind != SYSERR) fail(6, n, "not a system_error|" + sigbase, where());
            else {
                std::string bad, t = where();
                if (e.codes && !(ct.code > 0 && ct.code < E_N && (e.codes >> ct.code & 1)))
                    fail(6, n, "wrong code|" + sigbase, t + ": acceptable codes mask " + std::to_string(e.codes));
                else if (!(bad = identity(ct)).empty()) fail(6, n, bad + "|" + std::to_string(ct.code), t + ": " + bad + identity_detail(ct));
            }
        }
    }
    if (live) fail(11, n, "memory retained|" + sigbase, where() + ": " + std::to_string(live) + " blocks still allocated after the exception is gone");
    if (done && nalloc && hc.log.empty()) fail(11, n, "allocates on success|" + sigbase, where() + ": " + std::to_string(nalloc) + " allocations");
    if (w.errs == 'h' && act == H_RETURN && e.builtin_defined && (in_range || (w.promo == 'n' && !is_cmp(s.op)))) {
        bool inr = va >= w.types[s.ta].lo && va <= w.types[s.ta].hi && (!bin || (vb >= w.types[s.tb].lo && vb <= w.types[s.tb].hi));
        // ranges which do not overlap are compared by their limits: exactly and without a report
        bool exact = is_cmp(s.op) && hc.log.empty() && e.z_known && cap.set && cap.v == e.z;
        if (!done) fail(13, n, "did not complete|" + sigbase, where());
        else if (exact) {}
        else if (cap.set && cap.v != (is_compound(s.op) || s.op == CONSTRUCT ? e.btarget : e.bz)) fail(13, n, "not the built-in value|" + sigbase, where() + ": built-in gives " + str(is_compound(s.op) || s.op == CONSTRUCT ? e.btarget : e.bz));
        else if (e.has_target && newa != e.btarget) fail(13, n, "not the built-in stored value|" + sigbase, where() + ": stored " + str(newa) + ", built-in gives " + str(e.btarget));
        else if (collateral) fail(13, n, "modified another object|" + sigbase, where() + ": " + coll);
        else if (inr && (int(hc.log.size()) > e.reports || int(hc.log.size()) < e.reports_min)) fail(13, n, "number of reports|" + sigbase, where() + ": " + std::to_string(hc.log.size()) + " reports for " + std::to_string(e.reports) + " problems");
    }
    // ---- trace and coverage
    h = mix(h, uint64_t(n) << 8 | ct.kind); h = mix(h, uint64_t(ct.code)); h = mix(h, uint64_t(cap.v)); h = mix(h, uint64_t(newa) ^ (uint64_t(collateral) << 63));
    for (auto & ev : hc.log) h = mix(h, ev.cls * 64 + ev.code);
    h = mix(h, p.threaded == 2 ? 0 : uint64_t(nalloc));
    for (char ch : ct.what) h = h * 131 + uint8_t(ch);
    if (slog) slog->push_back(StepLog{n, h, uint8_t(ct.kind), ct.code, cap.set ? cap.v : newa});
    if (want) {
        r.trace += where(); if (modifies) r.trace += " now " + str(newa);
        for (auto & ev : hc.log) r.trace += " handler(" + std::to_string(ev.cls) + "," + std::to_string(ev.code) + ")";
        r.trace += "\n";
    }
    auto sg = [](i128 v, const TypeDesc & t) { return v == t.lo ? 0 : v == t.hi ? 1 : v < 0 ? 2 : v == 0 ? 3 : 4; };
    uint64_t ab = mix(mix(uint64_t(&w - (const World *)nullptr) * 0 + uint64_t(w.promo) * 256 + w.errs, s.op * 4096 + s.ta * 64 + s.tb),
                      (uint64_t(ct.kind) << 32 | uint64_t(ct.code) << 24) + sg(va, w.types[s.ta]) * 8 + (bin ? sg(vb, w.types[s.tb]) : 7) + uint64_t(last_kind) * 64 + uint64_t(nfailed != 0) * 512 + uint64_t(act) * 1024);
    r.shape = mix(r.shape, ab);
    if (g_cov) g_cov->hit(ab);
    last_kind = ct.kind;
}

// a report raised directly with one of the ready-made policies, in one of two
// units, so that codes no integer operation raises are seen as well
void Exec::raise_step(long n, const Step & s) {
    int policy = s.mode - 1, cls = s.ta, code = int(s.imm), unit = s.ib;
    if (policy > 4 || cls < 1 || cls > 4 || code < 1 || code >= E_N) return;
    AllocCtl & al = alloc_ctl(); al.n = 0; al.failed = 0; al.fail_from = s.f.alloc_from ? s.f.alloc_from : -1; al.fail_count = s.f.alloc_count;
    Caught ct;
    sched_point(0);
    in_context(s.f.ctx, [&] { al.armed = true;
    try { (unit ? raise_there : raise_here)(policy, cls, code); al.armed = false; } catch (...) { al.armed = false; ct = catch_current(); } });
    sched_point(1);
    long nfailed = al.failed, live = al.live; al.fail_from = -1; if (live) alloc_forget();
    r.st.steps++; r.st.ops++; if (ct.kind != DONE) r.st.reports++; if (nfailed) r.st.faults_alloc++;
    static const char * const pn[] = { "throw_exception", "strict_exception_policy", "loose_exception_policy", "default_exception_policy", "ignore_exception" };
    static const char * const cn[] = { "", "on_uninitialized_value", "on_arithmetic_error", "on_implementation_defined_behavior", "on_undefined_behavior" };
    auto where = [&] { return "step " + std::to_string(n) + ": " + pn[policy] + (policy >= 1 && policy <= 3 ? std::string("::") + cn[cls] : std::string()) + " with code " + std::to_string(code) + " in unit " + std::to_string(unit) + " -> " + outcome_name[ct.kind] + (nfailed ? " [" + std::to_string(nfailed) + " allocations failed]" : ""); };
    std::string sb = std::to_string(policy) + "|" + std::to_string(cls) + "|" + std::to_string(code), bad;
    bool throws = policy == 0 || ((policy == 1 || policy == 3) && cls >= 2) || (policy == 2 && cls == 2);
    if (!throws) { if (ct.kind != DONE) fail(6, n, "ignored class throws|" + sb, where()); }
    else if (ct.kind == DONE) fail(6, n, "silent continuation|" + sb, where());
    else if (ct.kind == BADALLOC) { if (!nfailed) fail(6, n, "bad_alloc with memory available|" + sb, where()); }
    else if (ct.kind == SYSERR && ct.code != code) fail(6, n, "other code|" + sb, where() + identity_detail(ct));
    else if (!(bad = identity(ct)).empty()) fail(6, n, bad + "|" + sb, where() + ": " + bad + identity_detail(ct));
    if (live) fail(11, n, "memory retained|" + sb, where());
    h = mix(h, uint64_t(n) << 8 | ct.kind); h = mix(h, uint64_t(ct.code) * 4096 + ct.eq_codes); h = mix(h, ct.eq_actions);
    for (char ch : ct.what) h = h * 131 + uint8_t(ch);
    if (slog) slog->push_back(StepLog{n, h, uint8_t(ct.kind), ct.code, 0});
    if (want) r.trace += where() + identity_detail(ct) + "\n";
    uint64_t ab = mix(99991, mix(uint64_t(policy * 8 + cls) * 64 + code * 4 + unit, ct.kind * 2 + (nfailed != 0)));
    r.shape = mix(r.shape, ab); if (g_cov) g_cov->hit(ab);
    last_kind = ct.kind;
}

// a compound expression: operands a, b, c; its temporaries are the library's
void Exec::expr_step(long n, const Step & s) {
    if (s.client >= p.clients || s.imm < 0 || s.imm >= i128(w.exprs.size())) return;
    const ExprDesc & x = w.exprs[size_t(s.imm)];
    int c = s.client;
    i128 va = val(c, x.ta, s.ia), vb = val(c, x.tb, s.ib), vc = val(c, x.tc, s.ic);
    Expect e; x.model(va, vb, vc, e);
    HandlerCtl & hc = handler_ctl(); hc.token = uint64_t(n + 1); hc.log.clear(); hc.depth = 0; hc.reenter = nullptr;
    int act = w.errs != 'h' ? int(H_THROW_SIM) : s.f.hact >= 0 ? s.f.hact : p.hact;
    if (act == H_RETURN && !e.builtin_defined) act = H_THROW_SIM;
    hc.act = HAct(act);
    AllocCtl & al = alloc_ctl(); al.n = 0; al.failed = 0; al.fail_from = s.f.alloc_from ? s.f.alloc_from : -1; al.fail_count = s.f.alloc_count;
    Cap cap; Caught ct;
    sched_point(0);
    in_context(s.f.ctx, [&] { al.armed = true;
    try { x.fn(at(c, x.ta, s.ia), at(c, x.tb, s.ib), at(c, x.tc, s.ic), cap); al.armed = false; } catch (...) { al.armed = false; ct = catch_current(); } });
    sched_point(1);
    long nalloc = al.n, nfailed = al.failed, live = al.live; al.fail_from = -1; if (live) alloc_forget();
    r.st.steps++; r.st.ops++; if (ct.kind != DONE) r.st.reports++; if (nfailed) r.st.faults_alloc++;
    bool done = ct.kind == DONE, returned = act == H_RETURN && !hc.log.empty();
    if (!hc.log.empty() && act != H_THROW_SIM) r.st.faults_handler++;
    auto where = [&] {
        std::string t = std::string(w.name) + " step " + std::to_string(n) + ": " + x.text + " with a=" + slot(c, x.ta, s.ia) + "=" + str(va) + ", b=" + slot(c, x.tb, s.ib) + "=" + str(vb) + ", c=" + slot(c, x.tc, s.ic) + "=" + str(vc) + " -> " + outcome_name[ct.kind];
        if (ct.kind == SYSERR) t += " code " + std::to_string(ct.code) + " \"" + ct.what + "\"";
        if (cap.set) t += " result " + str(cap.v);
        if (nfailed) t += " [" + std::to_string(nfailed) + " allocations failed]";
        return t; };
    std::string sb = std::string(w.name) + "|" + x.text + "|" + w.types[x.ta].name + "|" + w.types[x.tb].name + "|" + w.types[x.tc].name;
    bool coll = false;
    for (int t = 0; t < nt; ++t) { for (int k = 0; k < K_OWN; ++k) if (w.types[t].load(own[c][t * K_OWN + k].b) != mv[c][t * K_OWN + k]) { coll = true; mv[c][t * K_OWN + k] = w.types[t].load(own[c][t * K_OWN + k].b); } if (w.types[t].load(shared[t].b) != msh[t]) coll = true; }
    if (coll) { fail(14, n, "operand modified|" + sb, where()); fail(done ? 3 : 2, n, "operand modified|" + sb, where()); }
    if (done && !returned && e.must_report) fail(14, n, "completed without a representable result|" + sb, where() + ": an intermediate or final value is not representable");
    if (done && !returned && !e.must_report && e.z_known && cap.set && cap.v != e.z) fail(14, n, "wrong value|" + sb, where() + ": exact value is " + str(e.z));
    if (!done && e.must_succeed) fail(14, n, "rejected|" + sb, where() + ": exact value " + str(e.z) + " and all intermediate values are representable");
    if (!done && w.errs != 'h' && ct.kind != SYSERR && !(ct.kind == BADALLOC && nfailed)) fail(14, n, "not a report|" + sb, where());
    if (done && !returned && cap.set && !cap.isbool && (cap.v < cap.lo || cap.v > cap.hi)) { fail(14, n, "result out of range|" + sb, where() + ": result type declares [" + str(cap.lo) + "," + str(cap.hi) + "]"); fail(1, n, "result out of range|" + sb, where()); }
    if (live) fail(11, n, "memory retained|" + sb, where());
    if (done && nalloc && hc.log.empty()) fail(11, n, "allocates on success|" + sb, where());
    if (w.errs == 'h') {
        int reports = int(hc.log.size());
        if (act == H_RETURN) {
            if (!done) fail(13, n, "did not complete|" + sb, where());
            else if (cap.isbool && !reports && !e.must_report && e.z_known && cap.v == e.z) {}
            else if (cap.set && cap.v != e.bz) fail(13, n, "not the built-in value|" + sb, where() + ": built-in gives " + str(e.bz));
            // what a reported temporary holds may lie outside its declared range:
            // problems met because of it may go unreported, the first one may not
            else if ((e.reports_min && !reports) || reports > e.reports) fail(13, n, "number of reports|" + sb, where() + ": " + std::to_string(reports) + " reports for " + std::to_string(e.reports_min) + " to " + std::to_string(e.reports) + " problems");
            for (auto & ev : hc.log) if (ev.cls != class_of(ev.code) || !ev.msg) fail(5, n, "wrong class or no message|" + sb, where());
        } else if (done) {
            if (reports) fail(5, n, "handler invoked by an operation that completes|" + sb, where());
            if (e.must_report) fail(5, n, "no handler invoked|" + sb, where());
        } else {
            if (reports != 1) fail(5, n, "handler calls|" + sb, where() + ": handlers invoked " + std::to_string(reports) + " times");
            else if (hc.log[0].cls != class_of(hc.log[0].code) || !hc.log[0].msg) fail(5, n, "wrong class or no message|" + sb, where());
            bool ok = act == H_THROW_SYS ? ct.kind == SYSERR && !ct.cat_safe : ct.kind == SIMEX && ct.code == int(hc.token & 0xffff);
            if (!ok && !(nfailed && ct.kind == BADALLOC)) fail(5, n, "handler's exception not delivered|" + sb, where());
        }
    }
    h = mix(h, uint64_t(n) << 8 | ct.kind); h = mix(h, uint64_t(ct.code)); h = mix(h, uint64_t(cap.v)); h = mix(h, p.threaded == 2 ? 0 : uint64_t(nalloc));
    for (char ch : ct.what) h = h * 131 + uint8_t(ch);
    if (slog) slog->push_back(StepLog{n, h, uint8_t(ct.kind), ct.code, cap.v});
    if (want) r.trace += where() + (returned ? " [handlers returned]" : e.must_report ? " [must report]" : e.must_succeed ? " [must succeed]" : "") + "\n";
    auto sg = [](i128 v, const TypeDesc & t) { return v == t.lo ? 0 : v == t.hi ? 1 : v < 0 ? 2 : v == 0 ? 3 : 4; };
    uint64_t ab = mix(mix(uint64_t(w.promo) * 256 + 3, uint64_t(s.imm)), (uint64_t(ct.kind) << 32 | uint64_t(ct.code) << 24) + sg(va, w.types[x.ta]) * 64 + sg(vb, w.types[x.tb]) * 8 + sg(vc, w.types[x.tc]) + uint64_t(nfailed != 0) * 512 + uint64_t(last_kind) * 1024);
    r.shape = mix(r.shape, ab); if (g_cov) g_cov->hit(ab);
    last_kind = ct.kind;
}

void Exec::setup() {
    own.resize(p.clients); mv.resize(p.clients); shared_own.resize(nt); msh.resize(nt);
    for (int c = 0; c < p.clients; ++c) {
        own[c].resize(size_t(nt) * K_OWN); mv[c].resize(size_t(nt) * K_OWN);
        for (int t = 0; t < nt; ++t) for (int k = 0; k < K_OWN; ++k) { mv[c][t * K_OWN + k] = deflt(t); w.types[t].raw(own[c][t * K_OWN + k].b, deflt(t)); }
    }
    for (int t = 0; t < nt; ++t) { msh[t] = deflt(t); w.types[t].raw(shared_own[t].b, msh[t]); }
    for (auto & i : p.init) {
        if (i.type >= nt) continue;
        if (i.v < w.types[i.type].lo || i.v > w.types[i.type].hi) continue;
        if (i.slot == SHARED) { msh[i.type] = i.v; w.types[i.type].raw(shared_own[i.type].b, i.v); }
        else if (i.client < p.clients) { mv[i.client][i.type * K_OWN + i.slot] = i.v; w.types[i.type].raw(own[i.client][i.type * K_OWN + i.slot].b, i.v); }
    }
}
RunResult Exec::run() {
    setup();
    for (size_t n = 0; n < p.steps.size() && !r.v.found; ++n) step(long(n), p.steps[n]);
    r.hash = h;
    return r;
}
struct ArithClient : ThreadClient {
    Exec e;
    ArithClient(const Plan & p, bool want, const World & w, ArithClient * share) : e(p, want, w, share ? &share->e : nullptr) { e.setup(); log.reserve(p.steps.size()); }
    void go(int client) override {
        e.slog = &log;
        for (size_t n = 0; n < e.p.steps.size(); ++n) if (e.p.steps[n].client == client) e.step(long(n), e.p.steps[n]);
        st = e.r.st; trace = e.r.trace;
    }
};
} // anon
std::unique_ptr<ThreadClient> make_arith_client(const Plan & p, bool want, ThreadClient * share) {
    return std::unique_ptr<ThreadClient>(new ArithClient(p, want, *find_world(p.world), static_cast<ArithClient *>(share)));
}

RunResult execute_arith(const Plan & p, bool want) {
    World * w = find_world(p.world);
    RunResult r;
    if (!w) { r.v.found = false; return r; }
    Exec e(p, want, *w);
    return e.run();
}
} // sim
