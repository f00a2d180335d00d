// Stream worlds: types and their streaming functions, compiled against the library.
//   -DSWORLD=1..3
#include "world_gen.hpp"
#include "devices.hpp"
namespace sim {
using schar = signed char; using uchar = unsigned char; using ushort = unsigned short; using ulong_ = unsigned long;
using llong = long long; using ullong = unsigned long long; using uint_ = unsigned int;
#define STREAM_TYPES Full<char>, Full<schar>, Full<uchar>, Full<wchar_t>, Full<short>, Full<ushort>, Full<int>, Full<uint_>, \
    Full<long>, Full<ulong_>, Full<llong>, Full<ullong>, SR<-100, 100>, UR<0, 200>, SR<-1000, 1000>, UR<10, 50000>, \
    SR<-60000, -5>, UR<7, 5000000000ULL>, SR<-5000000000LL, 5>, SB<char, 'A', 'Z'>, SB<uchar, 5, 250>
#define STREAM_NAMES "char", "signed char", "unsigned char", "wchar_t", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", \
    "long long", "unsigned long long", "s[-100,100]", "u[0,200]", "s[-1000,1000]", "u[10,50000]", "s[-60000,-5]", "u[7,5e9]", "s[-5e9,5]", "char[A,Z]", "uchar[5,250]"
// literals can be written, but not read
#define STREAM_LITERALS LIT<65>, LIT<-1>, LIT<-700>, LIT<2000000000>, LIT<-3000000000LL>, LIT<7, true>, ULIT<200>, ULIT<50000>, ULIT<4000000000u>, ULIT<18446744073709551615ULL>, ULIT<9, true>
#define STREAM_LITERAL_NAMES "lit 65", "lit -1", "lit -700", "lit 2e9", "lit -3e9", "lit 7 (no policies)", "ulit 200", "ulit 50000", "ulit 4e9", "ulit 2^64-1", "ulit 9 (no policies)"
static const char * const names[] = { STREAM_NAMES, STREAM_LITERAL_NAMES };
#if SWORLD == 1
struct SW_1 { using P = sn::native; using E = sn::strict_exception_policy; static constexpr const char * nm = "stream_native_strict"; static constexpr char promo = 'n', errs = 's'; };
using SW = SW_1;
#elif SWORLD == 2
struct SW_2 { using P = sn::native; using E = sim_policy; static constexpr const char * nm = "stream_native_handlers"; static constexpr char promo = 'n', errs = 'h'; };
using SW = SW_2;
#else
struct SW_3 { using P = sn::automatic; using E = sn::loose_exception_policy; static constexpr const char * nm = "stream_automatic_loose"; static constexpr char promo = 'a', errs = 'l'; };
using SW = SW_3;
#endif
template<class S> struct charlike : std::integral_constant<bool, std::is_same<S, char>::value || std::is_same<S, schar>::value
    || std::is_same<S, uchar>::value || std::is_same<S, wchar_t>::value> {};
template<class SWx, class A> struct SF {
    using S = typename base_of<A>::type;
    using R = typename std::conditional<charlike<S>::value, int, S>::type;
    static void in(void * a, std::istream & s) { s >> *static_cast<A *>(a); }
#ifndef NO_WIDE
    static void win(void * a, std::wistream & s) { s >> *static_cast<A *>(a); }
    static void wout(const void * a, std::wostream & s) { s << *static_cast<const A *>(a); }
    static constexpr void (*pwin)(void *, std::wistream &) = &win; static constexpr void (*pwout)(const void *, std::wostream &) = &wout;
#else
    static constexpr void (*pwin)(void *, std::wistream &) = nullptr; static constexpr void (*pwout)(const void *, std::wostream &) = nullptr;
#endif
    static void out(const void * a, std::ostream & s) { s << *static_cast<const A *>(a); }
    struct Back { i128 & v; R & x; ~Back() { v = x; } };
    static void rin(i128 & v, std::istream & s) { R x = R(v); Back b{v, x}; s >> x; }
    static void rwin(i128 & v, std::wistream & s) { R x = R(v); Back b{v, x}; s >> x; }
    static void rout(i128 v, std::ostream & s) { s << R(v); }
    static void rwout(i128 v, std::wostream & s) { s << R(v); }
    static const StreamFns * fns() {
        static const StreamFns f = { &in, pwin, &out, pwout, &rin, &rwin, &rout, &rwout,
            !charlike<S>::value && std::is_unsigned<S>::value, std::is_signed<R>::value, int(sizeof(R) * 8) };
        return &f;
    }
};
template<class SWx, class A> struct LF {         // a literal is written as the constant it stands for
    using R = decltype(+typename base_of<A>::type());
    static void out(const void * a, std::ostream & s) { s << *static_cast<const A *>(a); }
    static void rout(i128 v, std::ostream & s) { s << R(v); }
    static void rwout(i128 v, std::wostream & s) { s << R(v); }
#ifndef NO_WIDE
    static void wout(const void * a, std::wostream & s) { s << *static_cast<const A *>(a); }
    static constexpr void (*pwout)(const void *, std::wostream &) = &wout;
#else
    static constexpr void (*pwout)(const void *, std::wostream &) = nullptr;
#endif
    static const StreamFns * fns() {
        static const StreamFns f = { nullptr, nullptr, &out, pwout, nullptr, nullptr, &rout, &rwout, false, std::is_signed<R>::value, int(sizeof(R) * 8) };
        return &f;
    }
};
template<class SWx, class E, class T> struct fns_of { using type = typename std::conditional<E::lit, LF<SWx, T>, SF<SWx, T>>::type; };
using L = TL<STREAM_TYPES, STREAM_LITERALS>;
static const int NREAD = TL<STREAM_TYPES>::size;
template<class SWx, int I> static typename std::enable_if<(I == L::size)>::type fill_(World &) {}
template<class SWx, int I> static typename std::enable_if<(I < L::size)>::type fill_(World & w) {
    using E = typename at_<I, L>::type; using T = typename E::template type<typename SWx::P, typename SWx::E>;
    using S = typename base_of<T>::type;
    TypeDesc & d = w.types[I];
    d.name = names[I]; d.safe = !E::lit; d.sgn = std::is_signed<S>::value; d.bits = sizeof(S) * 8; d.size = sizeof(T);
    d.lo = E::lo(); d.hi = E::hi(); d.charlike = charlike<S>::value;
    d.load = [](const void * p) { return raw_load(*static_cast<const T *>(p)); };
    d.raw = [](void * p, i128 v) { raw_store(*static_cast<T *>(p), v); };
    d.st = fns_of<SWx, E, T>::type::fns();
    fill_<SWx, I + 1>(w);
}
static void fill(World & w, int step) {
    if (step) return;
    w.name = SW::nm; w.promo = SW::promo; w.errs = SW::errs;
    w.types.resize(L::size); w.nsafe = NREAD; fill_<SW, 0>(w);
}
static RowReg reg(SW::nm, &fill);
} // sim
