// Generates the operation tables of a world from a list of types.  This header
// (and the world_*.cpp units that include it) is where the real library is
// compiled; nothing of it is stubbed.
#pragma once
#include <limits>
#include <type_traits>
#include <cstring>
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
#include "core.hpp"

namespace sim {
namespace sn = boost::safe_numerics;

// ------------------------------------------------------------ policies of the simulator
// Handlers hand every report to the handler seam, which logs it and then throws,
// returns or re-enters as the plan says.
template<int Cls> struct H {
    constexpr H() = default;
    void operator()(const sn::safe_numerics_error & e, const char * msg) {
        on_handler(Cls, static_cast<int>(e), msg);
    }
};
using sim_policy = sn::exception_policy<H<2>, H<3>, H<4>, H<1>>;   // class numbers: see safe_numerics_actions in the docs

// ------------------------------------------------------------ type entries
template<class S> struct Full {
    template<class P, class E> using type = sn::safe<S, P, E>;
    using base = S; static constexpr bool safe = true, lit = false;
    static constexpr i128 lo() { return std::numeric_limits<S>::min(); }
    static constexpr i128 hi() { return std::numeric_limits<S>::max(); }
};
template<std::intmax_t L, std::intmax_t U> struct SR {
    template<class P, class E> using type = sn::safe_signed_range<L, U, P, E>;
    static constexpr bool safe = true, lit = false;
    static constexpr i128 lo() { return L; }
    static constexpr i128 hi() { return U; }
};
template<std::uintmax_t L, std::uintmax_t U> struct UR {
    template<class P, class E> using type = sn::safe_unsigned_range<L, U, P, E>;
    static constexpr bool safe = true, lit = false;
    static constexpr i128 lo() { return L; }
    static constexpr i128 hi() { return U; }
};
template<class S, S L, S U> struct SB {            // sub-range of a chosen stored type
    template<class P, class E> using type = sn::safe_base<S, L, U, P, E>;
    static constexpr bool safe = true, lit = false;
    static constexpr i128 lo() { return L; }
    static constexpr i128 hi() { return U; }
};
template<class S> struct BI {
    template<class P, class E> using type = S;
    static constexpr bool safe = false, lit = false;
    static constexpr i128 lo() { return std::numeric_limits<S>::min(); }
    static constexpr i128 hi() { return std::numeric_limits<S>::max(); }
};
template<std::intmax_t N, bool V = false> struct LIT {      // a literal; V: without policies of its own
    template<class P, class E> using type = sn::safe_signed_literal<N, typename std::conditional<V, void, P>::type, typename std::conditional<V, void, E>::type>;
    static constexpr bool safe = false, lit = true;
    static constexpr i128 lo() { return N; }
    static constexpr i128 hi() { return N; }
};
template<std::uintmax_t N, bool V = false> struct ULIT {
    template<class P, class E> using type = sn::safe_unsigned_literal<N, typename std::conditional<V, void, P>::type, typename std::conditional<V, void, E>::type>;
    static constexpr bool safe = false, lit = true;
    static constexpr i128 lo() { return N; }
    static constexpr i128 hi() { return N; }
};
// a type with policies of its own: it can only be converted to and from the others
template<class En, class P2, class E2> struct MX : En {
    template<class P, class E> using type = typename En::template type<P2, E2>;
    static constexpr bool mixed = true;
};
template<class En, class = void> struct is_mixed : std::false_type {};
template<class En> struct is_mixed<En, typename std::enable_if<En::mixed>::type> : std::true_type {};
template<class... Es> struct TL { static constexpr int size = sizeof...(Es); };
template<int I, class L> struct at_;
template<int I, class H0, class... T> struct at_<I, TL<H0, T...>> : at_<I - 1, TL<T...>> {};
template<class H0, class... T> struct at_<0, TL<H0, T...>> { using type = H0; };

// ------------------------------------------------------------ raw access to the stored value
template<class T> struct base_of { using type = typename sn::base_type<T>::type; };
template<class T> inline i128 raw_load(const T & t) {
    using S = typename base_of<T>::type;
    static_assert(sizeof(T) == sizeof(S), "safe object has the size of its stored type");
    S s; std::memcpy(&s, &t, sizeof s); return i128(s);
}
template<class T, T N, class P, class E> inline i128 raw_load(const sn::safe_literal_impl<T, N, P, E> &) { return N; }
template<class T, T N, class P, class E> inline void raw_store(sn::safe_literal_impl<T, N, P, E> &, i128) {}
template<class T> inline void raw_store(T & t, i128 v) {
    using S = typename base_of<T>::type;
    S s = S(v); std::memcpy(static_cast<void *>(&t), &s, sizeof s);
}

// ------------------------------------------------------------ captures
inline void cap(Cap & c, bool r) { c.set = true; c.isbool = true; c.v = r; c.lo = 0; c.hi = 1; }
template<class R> inline typename std::enable_if<sn::is_safe<R>::value>::type cap(Cap & c, const R & r) {
    using S = typename base_of<R>::type;
    c.set = true; c.safe = true; c.sgn = std::is_signed<S>::value; c.bits = sizeof(S) * 8;
    c.v = raw_load(r);
    c.lo = raw_load(std::numeric_limits<R>::min()); c.hi = raw_load(std::numeric_limits<R>::max());
}
template<class R> inline typename std::enable_if<std::is_integral<R>::value && !std::is_same<R, bool>::value>::type
cap(Cap & c, const R & r) {
    c.set = true; c.sgn = std::is_signed<R>::value; c.bits = sizeof(R) * 8; c.v = r;
    c.lo = std::numeric_limits<R>::min(); c.hi = std::numeric_limits<R>::max();
}
template<class R> inline typename std::enable_if<sn::is_safe<R>::value, RInfo>::type rinfo_of() {
    using S = typename base_of<R>::type;
    RInfo i; i.present = true; i.sgn = std::is_signed<S>::value; i.bits = sizeof(S) * 8;
    i.lo = raw_load(std::numeric_limits<R>::min()); i.hi = raw_load(std::numeric_limits<R>::max());
    return i;
}
template<class R> inline typename std::enable_if<!sn::is_safe<R>::value, RInfo>::type rinfo_of() {
    RInfo i; i.present = true; i.sgn = std::is_signed<R>::value; i.bits = sizeof(R) * 8;
    i.lo = std::numeric_limits<R>::min(); i.hi = std::numeric_limits<R>::max();
    return i;
}

constexpr bool overlap(i128 al, i128 ah, i128 bl, i128 bh) { return al <= bh && bl <= ah; }
template<class R> constexpr typename std::enable_if<sn::is_safe<R>::value, i128>::type lim_lo() { return i128(sn::base_value(std::numeric_limits<R>::min())); }
template<class R> constexpr typename std::enable_if<sn::is_safe<R>::value, i128>::type lim_hi() { return i128(sn::base_value(std::numeric_limits<R>::max())); }
template<class R> constexpr typename std::enable_if<!sn::is_safe<R>::value, i128>::type lim_lo() { return i128(std::numeric_limits<R>::min()); }
template<class R> constexpr typename std::enable_if<!sn::is_safe<R>::value, i128>::type lim_hi() { return i128(std::numeric_limits<R>::max()); }

// ------------------------------------------------------------ operators
#define SIM_BIN(NAME, OP) \
    template<class A, class B> struct F_##NAME { \
        using R = decltype(std::declval<const A &>() OP std::declval<const B &>()); \
        static void run(void * a, const void * b, Cap & c) { \
            auto r = *static_cast<const A *>(a) OP *static_cast<const B *>(b); cap(c, r); } };
#define SIM_CMP(NAME, OP) \
    template<class A, class B> struct F_##NAME { using R = bool; \
        static void run(void * a, const void * b, Cap & c) { \
            bool r = *static_cast<const A *>(a) OP *static_cast<const B *>(b); cap(c, r); } };
#define SIM_CMPD(NAME, OP) \
    template<class A, class B> struct F_##NAME { \
        static void run(void * a, const void * b, Cap & c) { \
            auto r = (*static_cast<A *>(a) OP *static_cast<const B *>(b)); cap(c, r); c.self = true; } };
SIM_BIN(ADD, +) SIM_BIN(SUB, -) SIM_BIN(MUL, *) SIM_BIN(DIV, /) SIM_BIN(MOD, %)
SIM_BIN(SHL, <<) SIM_BIN(SHR, >>) SIM_BIN(OR, |) SIM_BIN(AND, &) SIM_BIN(XOR, ^)
SIM_CMP(LT, <) SIM_CMP(LE, <=) SIM_CMP(GT, >) SIM_CMP(GE, >=) SIM_CMP(EQ, ==) SIM_CMP(NE, !=)
SIM_CMPD(ADDA, +=) SIM_CMPD(SUBA, -=) SIM_CMPD(MULA, *=) SIM_CMPD(DIVA, /=) SIM_CMPD(MODA, %=)
SIM_CMPD(SHLA, <<=) SIM_CMPD(SHRA, >>=) SIM_CMPD(ORA, |=) SIM_CMPD(ANDA, &=) SIM_CMPD(XORA, ^=)
template<class A, class B> struct F_ASSIGN {
    static void run(void * a, const void * b, Cap & c) { *static_cast<A *>(a) = *static_cast<const B *>(b); (void)c; }
};
template<class A, class B> struct F_CONSTRUCT {
    static void run(void * a, const void * b, Cap & c) {
        A t(*static_cast<const B *>(b)); cap(c, t); std::memcpy(a, static_cast<const void *>(&t), sizeof t); }
};
template<class A> struct U_ops {
    static void NEG_(void * a, Cap & c) { auto r = -*static_cast<const A *>(a); cap(c, r); }
    static void POS_(void * a, Cap & c) { auto r = +*static_cast<const A *>(a); cap(c, r); }
    static void COMPL_(void * a, Cap & c) { auto r = ~*static_cast<const A *>(a); cap(c, r); }
    static void PREINC_(void * a, Cap & c) { A & r = ++*static_cast<A *>(a); cap(c, r); c.self = &r == a; }
    static void PREDEC_(void * a, Cap & c) { A & r = --*static_cast<A *>(a); cap(c, r); c.self = &r == a; }
    static void POSTINC_(void * a, Cap & c) { A r = (*static_cast<A *>(a))++; cap(c, r); }
    static void POSTDEC_(void * a, Cap & c) { A r = (*static_cast<A *>(a))--; cap(c, r); }
    static void DEFCTOR_(void *, Cap &) { A t; asm volatile("" : : "r"(&t) : "memory"); }
    static void COPY_(void * a, Cap & c) {
        A t(*static_cast<const A *>(a)); A u(t); u = t; A w(std::move(u)); u = std::move(w);
        cap(c, u); *static_cast<A *>(a) = u; }
};

template<class A> void setv_ctor(void * a, i128 v);
template<class A, class X, bool ok> struct setv_impl { static void ctor(void *, i128) {} static void assign(void *, i128) {} };
template<class A, class X> struct setv_impl<A, X, true> {
    static void ctor(void * a, i128 v) { X x = X(v); A t(x); std::memcpy(a, static_cast<const void *>(&t), sizeof t); }
    static void assign(void * a, i128 v) { X x = X(v); *static_cast<A *>(a) = x; }
};
template<class A> struct setv {
    static constexpr bool oks = overlap(lim_lo<A>(), lim_hi<A>(), lim_lo<long long>(), lim_hi<long long>());
    static constexpr bool oku = overlap(lim_lo<A>(), lim_hi<A>(), 0, lim_hi<unsigned long long>());
    static void ctor(void * a, i128 v) {
        if (v <= lim_hi<long long>()) setv_impl<A, long long, oks>::ctor(a, v); else setv_impl<A, unsigned long long, oku>::ctor(a, v); }
    static void assign(void * a, i128 v) {
        if (v <= lim_hi<long long>()) setv_impl<A, long long, oks>::assign(a, v); else setv_impl<A, unsigned long long, oku>::assign(a, v); }
};
template<class A, bool safe> struct setv_sel { static void put(TypeDesc & d) { d.set_ctor = &setv<A>::ctor; d.set_assign = &setv<A>::assign; } };
template<class A> struct setv_sel<A, false> { static void put(TypeDesc &) {} };

// ------------------------------------------------------------ table filling
template<class W> struct Gen {
    using P = typename W::P; using E = typename W::E; using L = typename W::types;
    static constexpr int N = L::size;
    template<int I> using ent = typename at_<I, L>::type;
    template<int I> using ty = typename ent<I>::template type<P, E>;

    template<int I> static void type_desc(TypeDesc & d, const char * name) {
        using T = ty<I>; using S = typename base_of<T>::type;
        d.name = name; d.safe = ent<I>::safe; d.lit = ent<I>::lit; d.sgn = std::is_signed<S>::value;
        d.bits = sizeof(S) * 8; d.size = sizeof(T); d.lo = ent<I>::lo(); d.hi = ent<I>::hi();
        d.load = [](const void * p) { return raw_load(*static_cast<const T *>(p)); };
        d.raw = [](void * p, i128 v) { raw_store(*static_cast<T *>(p), v); };
        setv_sel<T, ent<I>::safe>::put(d);
    }
    template<int I> static typename std::enable_if<(I == N)>::type types_(World &, const char * const *) {}
    template<int I> static typename std::enable_if<(I < N)>::type types_(World & w, const char * const * names) {
        type_desc<I>(w.types[I], names[I]); types_<I + 1>(w, names);
    }
    static void types(World & w, const char * const * names) {
        w.types.resize(N); types_<0>(w, names); w.resize();
        w.nsafe = 0; for (auto & t : w.types) if (t.safe) ++w.nsafe;
    }

    // one arithmetic operator and its compound form
    template<template<class, class> class F, template<class, class> class FA, int I, int J>
    static void put_bin(World & w, int op) {
        using A = ty<I>; using B = ty<J>; using R = typename F<A, B>::R;
        size_t ix = (size_t(I) * N + J) * N_BIN;
        w.ops[ix + op] = &F<A, B>::run;
        w.rinfo[ix + op] = rinfo_of<R>();
        // what the built-in operator does to the stored types
        using NR = decltype(typename base_of<A>::type() + typename base_of<B>::type());
        using NS = decltype(+typename base_of<A>::type());
        if (W::promo == 'n') {
            RInfo & i = w.rinfo[ix + op];
            bool sh = op == SHL || op == SHR;
            i.pbits = sh ? sizeof(NS) * 8 : sizeof(NR) * 8;
            i.psgn = sh ? std::is_signed<NS>::value : std::is_signed<NR>::value;
        }
        put_compound<FA, A, B, R>(w, ix + op + ADDA,
            std::integral_constant<bool, W::compound && !ent<I>::lit && !std::is_same<A, bool>::value && overlap(lim_lo<R>(), lim_hi<R>(), ent<I>::lo(), ent<I>::hi())>());
    }
    template<template<class, class> class FA, class A, class B, class R> static void put_compound(World & w, size_t ix, std::true_type) {
        w.ops[ix] = &FA<A, B>::run; w.rinfo[ix] = w.rinfo[ix - ADDA];
    }
    template<template<class, class> class FA, class A, class B, class R> static void put_compound(World &, size_t, std::false_type) {}
    template<template<class, class> class F, int I, int J> static void put_cmp(World & w, int op) {
        using A = ty<I>; using B = ty<J>;
        size_t ix = (size_t(I) * N + J) * N_BIN;
        w.ops[ix + op] = &F<A, B>::run;
        using NR = decltype(typename base_of<A>::type() + typename base_of<B>::type());
        RInfo & i = w.rinfo[ix + op]; i.present = true;
        i.bits = sizeof(NR) * 8; i.sgn = std::is_signed<NR>::value;
        if (W::promo == 'n') { i.pbits = i.bits; i.psgn = i.sgn; }
        if (W::promo == 'c') cmp_info<A, B>(i, std::integral_constant<bool, W::promo == 'c'>());
    }
    template<class A, class B> static void cmp_info(RInfo & i, std::true_type) {
        using R = typename P::template comparison_result<A, B>::type;
        i.bits = sizeof(R) * 8; i.sgn = std::is_signed<R>::value;
    }
    template<class A, class B> static void cmp_info(RInfo &, std::false_type) {}
    template<int I, int J> static void put_conv(World & w, std::true_type) {
        size_t ix = (size_t(I) * N + J) * N_BIN;
        w.ops[ix + ASSIGN] = &F_ASSIGN<ty<I>, ty<J>>::run;
        w.ops[ix + CONSTRUCT] = &F_CONSTRUCT<ty<I>, ty<J>>::run;
        w.rinfo[ix + ASSIGN] = w.rinfo[ix + CONSTRUCT] = rinfo_of<ty<I>>();
    }
    template<int I, int J> static void put_conv(World &, std::false_type) {}
    template<int I, int J> static void pair_(World & w, std::true_type) {
        put_ops<I, J>(w, std::integral_constant<bool, !is_mixed<ent<I>>::value && !is_mixed<ent<J>>::value>());
        put_conv<I, J>(w, std::integral_constant<bool, !ent<I>::lit && overlap(ent<I>::lo(), ent<I>::hi(), ent<J>::lo(), ent<J>::hi())>());
    }
    template<int I, int J> static void put_ops(World &, std::false_type) {}
    template<int I, int J> static void put_ops(World & w, std::true_type) {
        put_bin<F_ADD, F_ADDA, I, J>(w, ADD); put_bin<F_SUB, F_SUBA, I, J>(w, SUB);
        put_bin<F_MUL, F_MULA, I, J>(w, MUL); put_bin<F_DIV, F_DIVA, I, J>(w, DIV);
        put_bin<F_MOD, F_MODA, I, J>(w, MOD); put_bin<F_SHL, F_SHLA, I, J>(w, SHL);
        put_bin<F_SHR, F_SHRA, I, J>(w, SHR); put_bin<F_OR, F_ORA, I, J>(w, OR);
        put_bin<F_AND, F_ANDA, I, J>(w, AND); put_bin<F_XOR, F_XORA, I, J>(w, XOR);
        put_cmp<F_LT, I, J>(w, LT); put_cmp<F_LE, I, J>(w, LE); put_cmp<F_GT, I, J>(w, GT);
        put_cmp<F_GE, I, J>(w, GE); put_cmp<F_EQ, I, J>(w, EQ); put_cmp<F_NE, I, J>(w, NE);
    }
    template<int I, int J> static void pair_(World &, std::false_type) {}
    template<int I, int J> static typename std::enable_if<(J == N)>::type row_(World &) {}
    template<int I, int J> static typename std::enable_if<(J < N)>::type row_(World & w) {
        pair_<I, J>(w, std::integral_constant<bool, (ent<I>::safe || ent<J>::safe) && (!W::pairs || I / 2 == J / 2)>());
        row_<I, J + 1>(w);
    }
    template<class T> static void inc_(UnFn * f, std::true_type) { f[3] = &U_ops<T>::PREINC_; f[5] = &U_ops<T>::POSTINC_; }
    template<class T> static void inc_(UnFn *, std::false_type) {}
    template<class T> static void dec_(UnFn * f, std::true_type) { f[4] = &U_ops<T>::PREDEC_; f[6] = &U_ops<T>::POSTDEC_; }
    template<class T> static void dec_(UnFn *, std::false_type) {}
    template<int I> static void unary_(World & w, std::true_type) {
        using T = ty<I>; using U = U_ops<T>;
        size_t ix = size_t(I) * (N_OP - N_BIN);
        // a step that never succeeds (the only value is the highest of all) does not compile
        using Inc = decltype(std::declval<const T &>() + 1); using Dec = decltype(std::declval<const T &>() - 1);
        UnFn f[] = { &U::NEG_, &U::POS_, &U::COMPL_, nullptr, nullptr, nullptr, nullptr, &U::DEFCTOR_, &U::COPY_ };
        inc_<T>(f, std::integral_constant<bool, overlap(lim_lo<Inc>(), lim_hi<Inc>(), ent<I>::lo(), ent<I>::hi())>());
        dec_<T>(f, std::integral_constant<bool, overlap(lim_lo<Dec>(), lim_hi<Dec>(), ent<I>::lo(), ent<I>::hi())>());
        for (int k = 0; k < N_OP - N_BIN; ++k) { w.uns[ix + k] = f[k]; w.unrinfo[ix + k] = rinfo_of<T>(); }
        using S = typename base_of<T>::type;
        w.unrinfo[ix + NEG - N_BIN] = rinfo_of<decltype(-std::declval<const T &>())>();
        w.unrinfo[ix + COMPL - N_BIN] = rinfo_of<decltype(~std::declval<const T &>())>();
        RInfo inc = rinfo_of<decltype(std::declval<const T &>() + 1)>();
        for (int k : { PREINC, PREDEC, POSTINC, POSTDEC }) { w.unrinfo[ix + k - N_BIN] = inc; }
        if (W::promo == 'n')
            for (int k = 0; k < N_OP - N_BIN; ++k) {
                using NR = decltype(S() + 1);
                w.unrinfo[ix + k].pbits = sizeof(NR) * 8; w.unrinfo[ix + k].psgn = std::is_signed<NR>::value;
            }
    }
    template<int I> static void unary_(World &, std::false_type) {}
    template<int I, int HI> static typename std::enable_if<(I >= HI || I >= N)>::type rows(World &) {}
    template<int I, int HI> static typename std::enable_if<(I < HI && I < N)>::type rows(World & w) {
        unary_<I>(w, std::integral_constant<bool, ent<I>::safe && !is_mixed<ent<I>>::value>());
        row_<I, 0>(w);
        rows<I + 1, HI>(w);
    }
};

struct RowReg { RowReg(const char * world, void (*fill)(World &, int)); };
} // sim
