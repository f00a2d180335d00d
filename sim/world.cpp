// One slice of one world: compiled once per (world, slice of rows).
//   -DWORLD=1..n  -DROW_LO=.. -DROW_HI=..
#include "world_gen.hpp"
#ifndef ROW_LO
#define ROW_LO 0
#define ROW_HI 1000
#endif
namespace sim {
#define STR2(x) #x
#define STR(x) STR2(x)
#define I8  std::int8_t
#define U8  std::uint8_t
#define I16 std::int16_t
#define U16 std::uint16_t
#define I32 std::int32_t
#define U32 std::uint32_t
#define I64 std::int64_t
#define U64 std::uint64_t

// full set of operand types
#define FULL_TYPES \
    Full<I8>, Full<U8>, Full<I16>, Full<U16>, Full<I32>, Full<U32>, Full<I64>, Full<U64>, \
    SR<-100, 100>, UR<0, 50000>, SR<1, 10>, SR<-50, -10>, UR<1, 64>, SR<-3000000000LL, 5000000000LL>, SR<-3, 5>
#define FULL_NAMES \
    "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", \
    "s[-100,100]", "u[0,50000]", "s[1,10]", "s[-50,-10]", "u[1,64]", "s[-3e9,5e9]", "s[-3,5]"
#define FULL_BI BI<I8>, BI<U8>, BI<U16>, BI<I32>, BI<U32>, BI<I64>, BI<U64>
#define FULL_BI_NAMES "int8", "uint8", "uint16", "int32", "uint32", "int64", "uint64"
// smaller set
#define SMALL_TYPES Full<I8>, Full<U16>, Full<I32>, Full<U32>, Full<I64>, Full<U64>, SR<-100, 100>, UR<10, 1000>, SR<-3, 5>
#define SMALL_NAMES "i8", "u16", "i32", "u32", "i64", "u64", "s[-100,100]", "u[10,1000]", "s[-3,5]"
#define SMALL_BI BI<I8>, BI<I32>, BI<U64>
#define SMALL_BI_NAMES "int8", "int32", "uint64"

// literals as operands
#define LIT_TYPES(V) Full<I8>, Full<U16>, Full<I32>, Full<U32>, Full<I64>, Full<U64>, SR<-100, 100>, UR<10, 20>, SR<-5, -1>, SR<100000, 100010>, UR<65000, 65535>, SR<-9223372036854775807LL - 1, -9223372036854775800LL>, \
    LIT<0, V>, LIT<1, V>, LIT<-1, V>, LIT<7, V>, LIT<-128, V>, LIT<40000, V>, LIT<-2147483647LL - 1, V>, ULIT<3, V>, ULIT<200, V>, ULIT<18446744073709551615ULL, V>
#define LIT_NAMES "i8", "u16", "i32", "u32", "i64", "u64", "s[-100,100]", "u[10,20]", "s[-5,-1]", "s[100000,100010]", "u[65000,65535]", "s[-2^63,-2^63+8]", \
    "lit0", "lit1", "lit-1", "lit7", "lit-128", "lit40000", "lit-2^31", "ulit3", "ulit200", "ulit2^64-1"

// integer types which are not one of the fixed-width types, and types with other policies
#define KIND_TYPES Full<char>, Full<long long>, Full<unsigned long long>, Full<char16_t>, Full<wchar_t>, Full<bool>, Full<I32>
#define KIND_NAMES "char", "llong", "ullong", "char16", "wchar", "bool", "i32"
#define KIND_BI BI<char>, BI<unsigned long long>, BI<bool>
#define KIND_BI_NAMES "b_char", "b_ullong", "b_bool"

#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
// every world is its own type: templates over it must not be merged between units of different worlds
#ifdef PAIR_SET
#define WN CAT(CAT(CAT(World_, WORLD), _), PAIR_SET)
#else
#define WN CAT(World_, WORLD)
#endif
struct W_base { static constexpr bool compound = true, pairs = false; };      // pairs: operators only between types 2k and 2k+1
#if WORLD == 1
struct WN : W_base { static constexpr char promo = 'n', errs = 's'; static constexpr const char * nm = "native_strict";
    using P = sn::native; using E = sn::strict_exception_policy; using types = TL<FULL_TYPES, FULL_BI>; };
static const char * const names[] = { FULL_NAMES, FULL_BI_NAMES };
#elif WORLD == 2
struct WN : W_base { static constexpr char promo = 'a', errs = 's'; static constexpr const char * nm = "automatic_strict";
    using P = sn::automatic; using E = sn::strict_exception_policy; using types = TL<FULL_TYPES, FULL_BI>; };
static const char * const names[] = { FULL_NAMES, FULL_BI_NAMES };
#elif WORLD == 3
struct WN : W_base { static constexpr char promo = 'c', errs = 's'; static constexpr const char * nm = "cpp_8_16_16_32_64_strict";
    using P = sn::cpp<8, 16, 16, 32, 64>; using E = sn::strict_exception_policy; using types = TL<SMALL_TYPES, SMALL_BI>; };
static const char * const names[] = { SMALL_NAMES, SMALL_BI_NAMES };
#elif WORLD == 4
struct WN : W_base { static constexpr char promo = 'n', errs = 'h'; static constexpr const char * nm = "native_handlers";
    using P = sn::native; using E = sim_policy; using types = TL<SMALL_TYPES, SMALL_BI>; };
static const char * const names[] = { SMALL_NAMES, SMALL_BI_NAMES };
#elif WORLD == 5
struct WN : W_base { static constexpr char promo = 'a', errs = 'h'; static constexpr const char * nm = "automatic_handlers";
    using P = sn::automatic; using E = sim_policy; using types = TL<SMALL_TYPES, SMALL_BI>; };
static const char * const names[] = { SMALL_NAMES, SMALL_BI_NAMES };
#elif WORLD == 6
struct WN : W_base { static constexpr char promo = 'n', errs = 'l'; static constexpr const char * nm = "native_loose";
    using P = sn::native; using E = sn::loose_exception_policy; using types = TL<SMALL_TYPES, SMALL_BI>; };
static const char * const names[] = { SMALL_NAMES, SMALL_BI_NAMES };
#elif WORLD == 7
struct WN : W_base { static constexpr char promo = 'a', errs = 'l'; static constexpr const char * nm = "automatic_loose";
    using P = sn::automatic; using E = sn::loose_exception_policy; using types = TL<SMALL_TYPES, SMALL_BI>; };
static const char * const names[] = { SMALL_NAMES, SMALL_BI_NAMES };
#elif WORLD == 8
struct WN : W_base { static constexpr char promo = 'n', errs = 's'; static constexpr const char * nm = "native_literals";
    using P = sn::native; using E = sn::strict_exception_policy; using types = TL<LIT_TYPES(true)>; };
static const char * const names[] = { LIT_NAMES };
#elif WORLD == 9
struct WN : W_base { static constexpr char promo = 'a', errs = 's'; static constexpr const char * nm = "automatic_literals";
    using P = sn::automatic; using E = sn::strict_exception_policy; using types = TL<LIT_TYPES(false)>; };
static const char * const names[] = { LIT_NAMES };
#elif WORLD == 10
using Fixed = sn::cpp<8, 16, 16, 32, 64>;
struct WN : W_base { static constexpr char promo = 'n', errs = 's'; static constexpr const char * nm = "native_kinds";
    using P = sn::native; using E = sn::strict_exception_policy;
    using types = TL<KIND_TYPES, MX<Full<I16>, sn::automatic, E>, MX<Full<U32>, P, sn::loose_exception_policy>, MX<SR<-3, 5>, Fixed, E>, MX<UR<10, 1000>, sn::automatic, sn::loose_exception_policy>, KIND_BI>; };
static const char * const names[] = { KIND_NAMES, "i16/auto", "u32/loose", "s[-3,5]/cpp", "u[10,1000]/auto,loose", KIND_BI_NAMES };
#elif WORLD == 11
struct WN : W_base { static constexpr char promo = 'a', errs = 's'; static constexpr const char * nm = "automatic_kinds";
    using P = sn::automatic; using E = sn::strict_exception_policy; using types = TL<KIND_TYPES, KIND_BI>; };
static const char * const names[] = { KIND_NAMES, KIND_BI_NAMES };
#elif WORLD == 12
struct WN : W_base { static constexpr char promo = 'c', errs = 's'; static constexpr const char * nm = "cpp_8_16_32_64_64_strict";
    using P = sn::cpp<8, 16, 32, 64, 64>; using E = sn::strict_exception_policy; using types = TL<SMALL_TYPES, SMALL_BI>; };
static const char * const names[] = { SMALL_NAMES, SMALL_BI_NAMES };
#elif WORLD >= 13 && WORLD <= 18
#ifdef PAIRS
#include PAIRS
#define PN ""
#else
#include "pairs.hpp"
#define PN STR(PAIR_SET)
#endif
#if WORLD <= 15
using PairErrors = sn::strict_exception_policy;
#define PERR 's'
#define PH ""
#else
using PairErrors = sim_policy;
#define PERR 'h'
#define PH "h"
#endif
#if WORLD == 13 || WORLD == 16
struct WN : W_base { static constexpr bool pairs = true; static constexpr char promo = 'n', errs = PERR; static constexpr const char * nm = "native_" PH "pairs" PN;
    using P = sn::native; using E = PairErrors; using types = TL<PAIR_TYPES>; };
#elif WORLD == 14 || WORLD == 17
struct WN : W_base { static constexpr bool pairs = true; static constexpr char promo = 'a', errs = PERR; static constexpr const char * nm = "automatic_" PH "pairs" PN;
    using P = sn::automatic; using E = PairErrors; using types = TL<PAIR_TYPES>; };
#else
struct WN : W_base { static constexpr bool pairs = true; static constexpr char promo = 'c', errs = PERR; static constexpr const char * nm = "cpp_" PH "pairs" PN;
    using P = sn::cpp<8, 16, 32, 32, 64>; using E = PairErrors; using types = TL<PAIR_TYPES>; };
#endif
static const char * const names[] = { PAIR_NAMES };
#endif

static void fill(World & w, int step) {
    if (step == 0) { w.name = WN::nm; w.promo = WN::promo; w.errs = WN::errs; Gen<WN>::types(w, names); }
    else Gen<WN>::rows<ROW_LO, ROW_HI>(w);
}
static RowReg reg(WN::nm, &fill);
} // sim
