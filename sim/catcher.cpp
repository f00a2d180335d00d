// Catching side: a translation unit of its own, so that an error raised in a
// world unit is always examined in another unit.
#include <boost/safe_numerics/exception.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
#include <system_error>
#include <ios>
#include <new>
#include "core.hpp"
namespace sim {
namespace sn = boost::safe_numerics;

static uint32_t codes_eq(const std::error_code & c) {
    uint32_t m = 0;
    for (int i = 0; i < int(sn::safe_numerics_error_count); ++i)
        if (c == sn::make_error_code(static_cast<sn::safe_numerics_error>(i))) m |= 1u << i;
    return m;
}
// comparison with a group as users write it, c == safe_numerics_actions::..., which needs make_error_condition
template<class A> static auto equals_group(const std::error_code & c, A a, int) -> decltype(make_error_condition(a), bool()) { return c == a; }
template<class A> static bool equals_group(const std::error_code &, A, long) { return false; }
static uint32_t actions_eq(const std::error_code & c) {
    uint32_t m = 0;
    for (int i = 0; i <= int(sn::safe_numerics_actions::undefined_behavior); ++i) {
        std::error_condition cond(i, sn::safe_numerics_actions_category);
        if (c == cond) m |= 1u << i;
        if (equals_group(c, static_cast<sn::safe_numerics_actions>(i), 0) != (c == cond)) m |= 1u << (16 + i);   // the two ways disagree
    }
    return m;
}
// raises an error with a ready-made policy, in this unit
#ifdef SECOND_UNIT
#define RAISE raise_there
#else
#define RAISE raise_here
#endif
template<class EP> static void raise(int cls, sn::safe_numerics_error e) {
    switch (cls) {
    case 1: EP::on_uninitialized_value(e, "simulated report"); break;
    case 2: EP::on_arithmetic_error(e, "simulated report"); break;
    case 3: EP::on_implementation_defined_behavior(e, "simulated report"); break;
    case 4: EP::on_undefined_behavior(e, "simulated report"); break;
    }
}
void RAISE(int policy, int cls, int code) {
    sn::safe_numerics_error e = static_cast<sn::safe_numerics_error>(code);
    if (policy == 0) sn::throw_exception()(e, "simulated report");
    else if (policy == 1) raise<sn::strict_exception_policy>(cls, e);
    else if (policy == 2) raise<sn::loose_exception_policy>(cls, e);
    else if (policy == 3) raise<sn::default_exception_policy>(cls, e);
    else sn::ignore_exception()(e, "simulated report");
}
#ifdef SECOND_UNIT
uint32_t other_unit_eq(int what, const void * ec) {
    const std::error_code & c = *static_cast<const std::error_code *>(ec);
    return what == 0 ? codes_eq(c) : actions_eq(c);
}
#else
extern bool g_deep_catch;
static void fill(Caught & r, const std::system_error & e) {
    r.kind = SYSERR; r.code = e.code().value();
    r.catname = e.code().category().name();
    r.cat_safe = r.catname == "safe numerics error";
    if (!g_deep_catch) return;
    r.eq_codes = codes_eq(e.code()); r.eq_actions = actions_eq(e.code());
    r.eq_codes2 = other_unit_eq(0, &e.code()); r.eq_actions2 = other_unit_eq(1, &e.code());
    r.cat_safe = e.code().category() == sn::make_error_code(sn::safe_numerics_error::success).category();
    r.msg = e.code().message();
    r.what = e.what();
    r.what_ok = r.what.find(r.msg) != std::string::npos;
    std::system_error copy(e);
    try { throw copy; } catch (const std::system_error & e2) {
        r.copy_ok = e2.code() == e.code() && r.what == e2.what();
    } catch (...) { r.copy_ok = false; }
    // keep a reference past the handler and rethrow
    try {
        std::exception_ptr p = std::current_exception();
        std::rethrow_exception(p);
    } catch (const std::system_error & e3) { if (!(e3.code() == e.code() && r.what == e3.what())) r.copy_ok = false; }
    catch (...) { r.copy_ok = false; }
}
Caught catch_current() {
    Caught r;
    try { throw; }
    catch (const std::bad_alloc &) { r.kind = BADALLOC; }
    catch (const SimError & e) { r.kind = SIMEX; r.code = int(e.token & 0xffff); if (e.check != e.token * 31 + 7) r.kind = OTHER; }
    catch (const DevError & e) { r.kind = DEVEX; r.code = int(e.token & 0xffff); }
    catch (int v) { r.kind = SIMEX; r.code = v; }
    catch (const std::ios_base::failure &) { r.kind = IOSFAIL; }
    catch (const std::system_error & e) { fill(r, e); }
    catch (...) { r.kind = OTHER; }
    return r;
}
#endif
} // sim
