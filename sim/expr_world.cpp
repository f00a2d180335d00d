// Expression worlds: compound expressions over safe types, their temporaries
// being of whatever types the promotion policy produces, and the same
// expressions over exact model integers.
//   -DEWORLD=1 native, 2 automatic, 3 cpp, 4 native with the simulator's handlers      -DTRIPLE_LO= -DTRIPLE_HI=
//   -DTRIPLE_SET=k   random triples of types
#include "world_gen.hpp"
#include "model.hpp"
namespace sim {
// ------------------------------------------------------------ model integers
namespace {
// wraps: evaluation as the built-in operations do it, when handlers return
struct Ctx { char promo; int intbits; bool rep, suc, known; bool wraps, undef; int rmin, rmax; };
static __thread Ctx mc;
struct MI { i128 v; bool sgn; int bits; MI(i128 v_, bool s, int b) : v(v_), sgn(s), bits(b) {} MI(int x) : v(x), sgn(true), bits(32) {} };
static void note(const Expect & e) { if (e.must_report) { mc.rep = true; mc.known = false; } if (!e.must_succeed) mc.suc = false; }
static MI mbin(int op, const MI & a, const MI & b) {
    if (!mc.known && !mc.wraps) return MI(0, true, 64);
    bool shift = op == SHL || op == SHR;
    if (mc.promo == 'a') {
        if (op == OR || op == AND || op == XOR) {
            if (a.v < 0 || b.v < 0 || a.v > tmax(64, true) || b.v > tmax(64, true)) { mc.known = mc.suc = false; return MI(0, true, 64); }
            return MI(op == OR ? a.v | b.v : op == AND ? a.v & b.v : a.v ^ b.v, true, 64);
        }
        Math m = math(op, a.v, b.v);
        i128 lo = tmin(64, true), hi = tmax(64, false), shi = tmax(64, true);
        if (!m.defined) { mc.rep = true; mc.known = false; return MI(0, true, 64); }
        if (is_cmp(op)) { if (a.v > shi || b.v > shi) mc.suc = false; return MI(m.z, true, 32); }
        if (shift) { if (a.v < 0 || b.v > 4) mc.suc = false; }
        if (m.z < lo || m.z > hi) { mc.rep = true; mc.known = false; }
        if (m.z > shi || a.v > shi || b.v > shi) mc.suc = false;
        return MI(m.z, true, 64);
    }
    // usual arithmetic conversions
    // (the fixed-width policy keeps an operand unsigned where C++ would promote
    // it to int; result types as such are not judged here, see C19)
    auto prom = [](MI x) { if (x.bits < mc.intbits) { x.bits = mc.intbits; x.sgn = mc.promo == 'c' ? x.sgn : true; } return x; };
    MI p = prom(a), q = prom(b);
    RInfo r; r.present = true;
    if (shift) { r.bits = p.bits; r.sgn = p.sgn; }
    else { r.bits = p.bits > q.bits ? p.bits : q.bits; r.sgn = p.bits > q.bits ? p.sgn : q.bits > p.bits ? q.sgn : p.sgn && q.sgn; }
    r.pbits = r.bits; r.psgn = r.sgn;
    Expect e = expect_core(mc.promo, op, TInfo{a.sgn, a.bits}, a.v, TInfo{b.sgn, b.bits}, b.v, r);
    if (mc.wraps) {
        if (!e.builtin_defined) mc.undef = true;
        mc.rmin += e.reports_min; mc.rmax += e.reports;
        return is_cmp(op) ? MI(e.bz, true, 32) : MI(e.builtin_defined ? e.bz : 0, r.sgn, r.bits);
    }
    if (op == OR || op == AND || op == XOR) { if (a.v < 0 || b.v < 0 || !fits(a.v, r.bits, r.sgn) || !fits(b.v, r.bits, r.sgn)) { mc.known = false; mc.suc = false; } }
    note(e);
    if (shift && !e.must_succeed) mc.suc = false;
    return is_cmp(op) ? MI(e.z, true, 32) : MI(e.z, r.sgn, r.bits);
}
#define M_OP(o, n) static inline MI operator o(const MI & a, const MI & b) { return mbin(n, a, b); }
M_OP(+, ADD) M_OP(-, SUB) M_OP(*, MUL) M_OP(/, DIV) M_OP(%, MOD) M_OP(<<, SHL) M_OP(>>, SHR) M_OP(|, OR) M_OP(&, AND) M_OP(^, XOR)
M_OP(<, LT) M_OP(<=, LE) M_OP(>, GT) M_OP(>=, GE) M_OP(==, EQ) M_OP(!=, NE)
static inline MI operator-(const MI & a) { return mbin(SUB, MI(0), a); }
static inline MI operator+(const MI & a) { return a; }
struct ML : MI { using MI::MI; };       // a literal: unary operators give a literal of the same type
static inline ML operator-(const ML & a) { return ML(-a.v, a.sgn, a.bits); }
static inline ML operator~(const ML & a) { return ML(~a.v, a.sgn, a.bits); }
static inline ML operator+(const ML & a) { return a; }
static MI mstore(const MI & x, i128 lo, i128 hi, bool sgn, int bits) {
    if (mc.wraps) {      // storing what a reported operation fell back to may be reported again
        if (x.v < lo || x.v > hi) { if (!mc.rmax) ++mc.rmin; ++mc.rmax; }
        return MI(wrap(x.v, bits, sgn), sgn, bits);
    }
    if (mc.known && (x.v < lo || x.v > hi)) { mc.rep = true; mc.known = false; mc.suc = false; }
    return MI(x.v, sgn, bits);
}

// ------------------------------------------------------------ targets of conversions inside expressions
#define ESTR2(x) #x
#define ESTR(x) ESTR2(x)
#ifdef TRIPLE_SET
#define ECAT2(a, b) EW_##a##_##b
#define ECAT(a, b) ECAT2(a, b)
#define EWN ECAT(EWORLD, TRIPLE_SET)
#ifdef TRIPLES_FILE
#include TRIPLES_FILE
#else
#include "triples.hpp"
#endif
#define EWNAME(n) "expr_" n "_t" ESTR(TRIPLE_SET)
#else
#define ECAT2(a) EW_##a
#define ECAT(a) ECAT2(a)
#define EWN ECAT(EWORLD)
#define EWNAME(n) "expr_" n "_strict"
#endif
#if EWORLD == 4
struct EWN { static constexpr char promo = 'n', errs = 'h'; static constexpr int ib = 32; static constexpr const char * nm = "expr_native_handlers"; using P = sn::native; using E = sim_policy; };
#elif EWORLD == 1
struct EWN { static constexpr char promo = 'n', errs = 's'; static constexpr int ib = 32; static constexpr const char * nm = EWNAME("native"); using P = sn::native; using E = sn::strict_exception_policy; };
#elif EWORLD == 2
struct EWN { static constexpr char promo = 'a', errs = 's'; static constexpr int ib = 32; static constexpr const char * nm = EWNAME("automatic"); using P = sn::automatic; using E = sn::strict_exception_policy; };
#else
struct EWN { static constexpr char promo = 'c', errs = 's'; static constexpr int ib = 16; static constexpr const char * nm = EWNAME("cpp"); using P = sn::cpp<8, 16, 16, 32, 64>; using E = sn::strict_exception_policy; };
#endif
using EW = EWN;
template<int K> struct tgt;
template<> struct tgt<0> : SR<-100, 100> { static constexpr bool sgn = true; static constexpr int bits = 8; };
template<> struct tgt<1> : Full<std::int32_t> { static constexpr bool sgn = true; static constexpr int bits = 32; };
template<> struct tgt<2> : Full<std::uint16_t> { static constexpr bool sgn = false; static constexpr int bits = 16; };
template<> struct tgt<3> : Full<std::int64_t> { static constexpr bool sgn = true; static constexpr int bits = 64; };
template<> struct tgt<4> : BI<std::int32_t> { static constexpr bool sgn = true; static constexpr int bits = 32; };     // built-in
template<> struct tgt<5> : BI<std::uint8_t> { static constexpr bool sgn = false; static constexpr int bits = 8; };
template<> struct tgt<6> : Full<std::uint64_t> { static constexpr bool sgn = false; static constexpr int bits = 64; };

struct QLib {         // the real library
    template<int K> using T = typename tgt<K>::template type<EW::P, EW::E>;
    template<int K, class X> static T<K> to(const X & x) { return static_cast<T<K>>(x); }
    template<std::intmax_t N> static auto lit() { return sn::safe_signed_literal<N, EW::P, EW::E>(); }
    template<std::uintmax_t N> static auto ulit() { return sn::safe_unsigned_literal<N, EW::P, EW::E>(); }
    template<int K, class X> static void addto(T<K> & t, const X & x) { t += x; }
    template<int K, class X> static void subto(T<K> & t, const X & x) { t -= x; }
    template<int K, class X> static void multo(T<K> & t, const X & x) { t *= x; }
};
struct QMod {         // the model
    template<int K> using T = MI;
    template<int K> static MI to(const MI & x) { return mstore(x, tgt<K>::lo(), tgt<K>::hi(), tgt<K>::sgn, tgt<K>::bits); }
    template<int K, class X> static MI to(const X & x) { return to<K>(MI(x)); }
    template<std::intmax_t N> static ML lit() { return ML(N, true, N >= -128 && N < 128 ? 8 : N >= -32768 && N < 32768 ? 16 : N >= -2147483647 - 1 && N <= 2147483647 ? 32 : 64); }
    template<std::uintmax_t N> static ML ulit() { return ML(N, false, N < 256 ? 8 : N < 65536 ? 16 : N < 4294967296u ? 32 : 64); }
    template<int K> static void addto(MI & t, const MI & x) { t = to<K>(t + x); }
    template<int K> static void subto(MI & t, const MI & x) { t = to<K>(t - x); }
    template<int K> static void multo(MI & t, const MI & x) { t = to<K>(t * x); }
};
// ------------------------------------------------------------ shapes
#define SHAPE(n, txt, ...) struct S##n { static const char * text() { return txt; } \
    template<class Q, class A, class B, class C> static auto run(const A & a, const B & b, const C & c) { (void)a; (void)b; (void)c; __VA_ARGS__ } };
SHAPE(0, "a*b+c", return a * b + c;)
SHAPE(1, "(a+b)*c", return (a + b) * c;)
SHAPE(2, "a*b-c*a", return a * b - c * a;)
SHAPE(3, "(a-b)/c", return (a - b) / c;)
SHAPE(4, "(a+b)%c", return (a + b) % c;)
SHAPE(5, "a*b/c", return a * b / c;)
SHAPE(6, "(a-b)*(b-c)", return (a - b) * (b - c);)
SHAPE(7, "-(a+b)-c", return -(a + b) - c;)
SHAPE(8, "a*a+b*b", return a * a + b * b;)
SHAPE(9, "(a+b)>>2", return (a + b) >> Q::template lit<2>();)
SHAPE(10, "(a*b)<<3", return (a * b) << Q::template lit<3>();)
SHAPE(11, "a*b<c", return a * b < c;)
SHAPE(12, "a-b==c-a", return a - b == c - a;)
SHAPE(13, "(a&b)+c", return (a & b) + c;)
SHAPE(14, "a+5-b", return a + Q::template lit<5>() - b;)
SHAPE(15, "a*-3+b", return a * Q::template lit<-3>() + b;)
SHAPE(16, "a/7*b+c%7", return a / Q::template lit<7>() * b + c % Q::template lit<7>();)
SHAPE(17, "a+1-b*2", return a + 1 - b * 2;)
SHAPE(18, "a+b+c-a-b", return a + b + c - a - b;)
SHAPE(19, "(a+b+c)/3", return (a + b + c) / 3;)
SHAPE(20, "d=a*b; d+=c; d-=a  (d in [-100,100])", auto d = Q::template to<0>(a * b); Q::template addto<0>(d, c); Q::template subto<0>(d, a); return d;)
SHAPE(21, "int(a*b-c)", return Q::template to<4>(a * b - c);)
SHAPE(22, "uint8(a+b+c)", return Q::template to<5>(a + b + c);)
SHAPE(23, "a*b*c", return a * b * c;)
SHAPE(24, "a%b+c/b", return a % b + c / b;)
SHAPE(25, "int16-like: u16(a-b)*c", return Q::template to<2>(a - b) * c;)
SHAPE(26, "i64(a*b)+u64(c)", return Q::template to<3>(a * b) + Q::template to<6>(c);)
SHAPE(27, "x=i32(a); x*=b; x+=c; x", auto d = Q::template to<1>(a); Q::template multo<1>(d, b); Q::template addto<1>(d, c); return d;)
SHAPE(28, "(a-b)-(c-a) > a-c", return (a - b) - (c - a) > a - c;)
SHAPE(29, "a/b-a%b", return a / b - a % b;)
SHAPE(30, "(a|b)-(a^c)", return (a | b) - (a ^ c);)
SHAPE(31, "(a*4u)/(b+200u)", return (a * Q::template ulit<4>()) / (b + Q::template ulit<200>());)
SHAPE(32, "((a-b)*c)%(a+7)", return ((a - b) * c) % (a + Q::template lit<7>());)
SHAPE(34, "a/40000+b%40000", return a / Q::template lit<40000>() + b % Q::template lit<40000>();)
SHAPE(35, "a*0+b*1-c", return a * Q::template lit<0>() + b * Q::template lit<1>() - c;)
SHAPE(36, "(a-40000)*(b-c)/(c-b+1)", return (a - Q::template lit<40000>()) * (b - c) / (c - b + Q::template lit<1>());)
SHAPE(37, "(a-b)+(b-c)-(a-c)", return (a - b) + (b - c) - (a - c);)
SHAPE(38, "(a-b)*a+(c-a)", return (a - b) * a + (c - a);)
SHAPE(39, "(a+2147483648u)/(b-c)", return (a + Q::template ulit<2147483648u>()) / (b - c);)
SHAPE(40, "a*-lit7+-(-lit300)*b", return a * -Q::template lit<7>() + -(-Q::template lit<300>()) * b;)
SHAPE(41, "(a+~lit5)*+lit3-c", return (a + ~Q::template lit<5>()) * +Q::template lit<3>() - c;)
SHAPE(33, "(a>>1)+(b>>2)*c", return (a >> Q::template lit<1>()) + (b >> Q::template lit<2>()) * c;)

using I8 = std::int8_t; using U8 = std::uint8_t; using I16 = std::int16_t; using U16 = std::uint16_t; using I32 = std::int32_t; using U32 = std::uint32_t; using I64 = std::int64_t; using U64 = std::uint64_t;
// leaf types and the triples made of them
template<int A_, int B_, int C_, bool N = (A_ > 12 || B_ > 12 || C_ > 12)> struct Tr { static constexpr int a = A_, b = B_, c = C_; static constexpr bool narrow = N; };
#ifdef TRIPLE_SET
using L = TL<TRIPLE_TYPES>;
static const char * const names[] = { TRIPLE_NAMES };
using Triples = TL<TRIPLES>;
#else
using L = TL<Full<I8>, Full<U8>, Full<U16>, Full<I32>, Full<U32>, Full<I64>, Full<U64>, SR<-100, 100>, UR<10, 1000>, SR<-3, 5>, SR<-3000000000LL, 5000000000LL>, BI<I32>, BI<U8>,
    SR<100000, 100010>, UR<65000, 65535>, SR<-2147483647LL - 1, -2147483640LL>>;
static const char * const names[] = { "i8", "u8", "u16", "i32", "u32", "i64", "u64", "s[-100,100]", "u[10,1000]", "s[-3,5]", "s[-3e9,5e9]", "int32", "uint8", "s[100000,100010]", "u[65000,65535]", "s[-2^31,-2^31+8]" };
#if EWORLD == 4          // full types only: what is left behind is in range
using Triples = TL<Tr<0, 0, 0>, Tr<3, 3, 3>, Tr<5, 5, 5>, Tr<6, 6, 6>, Tr<1, 2, 0>, Tr<4, 3, 11>, Tr<3, 5, 6>, Tr<0, 6, 4>, Tr<2, 6, 12>, Tr<5, 1, 3>, Tr<4, 4, 5>, Tr<4, 4, 4>, Tr<2, 2, 2>>;
#else
using Triples = TL<Tr<0, 0, 0>, Tr<3, 3, 3>, Tr<5, 5, 5>, Tr<6, 6, 6>, Tr<7, 8, 9>, Tr<9, 7, 3>, Tr<1, 2, 0>, Tr<4, 3, 11>, Tr<10, 9, 7>, Tr<5, 4, 8>, Tr<8, 8, 12>, Tr<2, 6, 9>,
    Tr<13, 13, 13>, Tr<13, 14, 15>, Tr<15, 3, 13>, Tr<14, 13, 9>>;
#endif
#endif
#ifndef TRIPLE_LO
#define TRIPLE_LO 0
#define TRIPLE_HI 1000
#endif
template<class EWx, class Sh, int IA, int IB, int IC> struct Fn {
    template<int I> using ty = typename at_<I, L>::type::template type<EW::P, EW::E>;
    template<int I> static MI leaf(i128 v) { using S = typename base_of<ty<I>>::type; return MI(v, std::is_signed<S>::value, sizeof(S) * 8); }
    static void run(const void * a, const void * b, const void * c, Cap & k) {
        auto r = Sh::template run<QLib>(*static_cast<const ty<IA> *>(a), *static_cast<const ty<IB> *>(b), *static_cast<const ty<IC> *>(c)); cap(k, r); }
    static void model(i128 a, i128 b, i128 c, Expect & e) {
        if (EW::errs == 'h') {
            mc = Ctx{EW::promo, EW::ib, false, true, true, true, false, 0, 0};
            MI r = Sh::template run<QMod>(leaf<IA>(a), leaf<IB>(b), leaf<IC>(c));
            e.builtin_defined = !mc.undef; e.bz = r.v; e.reports_min = mc.rmin; e.reports = mc.rmax;
        }
        mc = Ctx{EW::promo, EW::ib, false, true, true, false, false, 0, 0};
        MI r = Sh::template run<QMod>(leaf<IA>(a), leaf<IB>(b), leaf<IC>(c));
        e.must_report = mc.rep; e.must_succeed = mc.suc && !mc.rep; e.z_known = mc.known; e.z = r.v;
    }
};
template<class EWx, class T, class Sh> static void put(World & w, int shape) {
    ExprDesc d; d.text = Sh::text(); d.ta = T::a; d.tb = T::b; d.tc = T::c; d.shape = shape;
    using F = Fn<EWx, Sh, T::a, T::b, T::c>; d.fn = &F::run; d.model = &F::model; w.exprs.push_back(d);
}
// shapes which convert to small types cannot be compiled for ranges which exclude these
template<class EWx, class T> static void put_small(World &, std::true_type) {}
#define P(n) put<EWx, T, S##n>(w, n);
template<class EWx, class T> static void put_small(World & w, std::false_type) { if (EW::errs != 'h') { P(20) } P(21) P(22) P(25) P(27) }
template<class EWx, class T> static void put_all(World & w) {
    P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15) P(16) P(17) P(18) P(19) P(23) P(24) P(26) P(28) P(29) P(30) P(31) P(32) P(33)
    P(34) P(35) P(36) P(37) P(38) P(39) P(40) P(41)
    put_small<EWx, T>(w, std::integral_constant<bool, T::narrow>());
}
template<class EWx, int I> static typename std::enable_if<(I >= TRIPLE_HI || I >= Triples::size)>::type triples(World &) {}
template<class EWx, int I> static typename std::enable_if<(I < TRIPLE_HI && I < Triples::size)>::type triples(World & w) { put_all<EWx, typename at_<I, Triples>::type>(w); triples<EWx, I + 1>(w); }
template<class EWx, int I> static typename std::enable_if<(I == L::size)>::type leafs(World &) {}
template<class EWx, int I> static typename std::enable_if<(I < L::size)>::type leafs(World & w) {
    using En = typename at_<I, L>::type; using T = typename En::template type<EW::P, EW::E>; using S = typename base_of<T>::type;
    TypeDesc & d = w.types[I]; d.name = names[I]; d.safe = En::safe; d.sgn = std::is_signed<S>::value; d.bits = sizeof(S) * 8; d.size = sizeof(T); d.lo = En::lo(); d.hi = En::hi();
    d.load = [](const void * p) { return raw_load(*static_cast<const T *>(p)); };
    d.raw = [](void * p, i128 v) { raw_store(*static_cast<T *>(p), v); };
    setv_sel<T, En::safe>::put(d);
    leafs<EWx, I + 1>(w);
}
static void fill(World & w, int step) {
    if (step == 0) { w.name = EW::nm; w.promo = EW::promo; w.errs = EW::errs; w.types.resize(L::size); leafs<EW, 0>(w); w.resize(); w.nsafe = 0; for (auto & t : w.types) if (t.safe) ++w.nsafe; }
    else triples<EW, TRIPLE_LO>(w);
}
static RowReg reg(EW::nm, &fill);
} // anon: everything depends on EWORLD, nothing may be shared between units
} // sim
