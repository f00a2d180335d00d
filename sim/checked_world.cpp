// The only unit that includes the checked-result headers.
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <cstring>
#include <new>
#include <type_traits>
#include "checked.hpp"
namespace sim {
namespace sn = boost::safe_numerics;
namespace {
using sn::checked_result;
template<class T> const checked_result<T> & cr(const void * p) { return *static_cast<const checked_result<T> *>(p); }
template<class T> void put(void * out, const checked_result<T> & r) { static_assert(sizeof(checked_result<T>) <= CSIZE, ""); new (out) checked_result<T>(r); }
int tri(boost::logic::tribool t) { return boost::logic::indeterminate(t) ? 2 : t ? 1 : 0; }

#define TYPES(X) X(std::int8_t) X(std::uint8_t) X(std::int16_t) X(std::uint16_t) X(std::int32_t) X(std::uint32_t) X(std::int64_t) X(std::uint64_t)
template<class T> void fill(CheckedType & c, const char * name) {
    c.name = name; c.sgn = std::is_signed<T>::value; c.bits = int(sizeof(T) * 8);
    c.make = [](void * o, i128 v) { put(o, checked_result<T>(static_cast<T>(v))); };
    c.error = [](void * o, int code, bool m) {
        sn::safe_numerics_error e = static_cast<sn::safe_numerics_error>(code);
        if (m) put(o, checked_result<T>(e, "simulated error")); else put(o, checked_result<T>(e)); };
    c.copy = [](void * o, const void * a) { put(o, cr<T>(a)); };
    c.read = [](const void * a, CState & s) {
        const checked_result<T> & r = cr<T>(a);
        s.code = int(static_cast<sn::safe_numerics_error>(r)); s.exc = r.exception();
        if (!s.exc) s.v = static_cast<T>(r); else { s.v = 0; s.msg_len = std::strlen(static_cast<const char *>(r)); } };
#define BIN(i, o) c.op[i] = [](void * out, const void * a, const void * b) { put<T>(out, cr<T>(a) o cr<T>(b)); };
    BIN(ADD, +) BIN(SUB, -) BIN(MUL, *) BIN(DIV, /) BIN(MOD, %) BIN(SHL, <<) BIN(SHR, >>) BIN(OR, |) BIN(AND, &) BIN(XOR, ^)
#define CMP(i, o) c.cmp[i - LT] = [](const void * a, const void * b) { return tri(cr<T>(a) o cr<T>(b)); };
    CMP(LT, <) CMP(LE, <=) CMP(GT, >) CMP(GE, >=) CMP(EQ, ==) CMP(NE, !=)
    c.un[0] = [](void * out, const void * a, const void *) { put<T>(out, -cr<T>(a)); };
    c.un[1] = [](void * out, const void * a, const void *) { put<T>(out, +cr<T>(a)); };
    c.un[2] = [](void * out, const void * a, const void *) { put<T>(out, ~cr<T>(a)); };
#define PRIM(i, f) c.prim[i] = [](void * out, i128 a, i128 b) { put<T>(out, sn::checked::f<T>(static_cast<T>(a), static_cast<T>(b))); };
    PRIM(ADD, add) PRIM(SUB, subtract) PRIM(MUL, multiply) PRIM(DIV, divide) PRIM(MOD, modulus) PRIM(SHL, left_shift) PRIM(SHR, right_shift)
    PRIM(OR, bitwise_or) PRIM(AND, bitwise_and) PRIM(XOR, bitwise_xor)
    c.pminus = [](void * out, i128 a) { put<T>(out, sn::checked::minus<T>(static_cast<T>(a))); };
    c.pnot = [](void * out, i128 a) { put<T>(out, sn::checked::bitwise_not<T>(static_cast<T>(a))); };
    int k = 0;
#define CAST(F) c.cast[k++] = [](void * out, i128 v) { put<T>(out, sn::checked::cast<T, F>(static_cast<F>(v))); };
    TYPES(CAST)
}
} // anon
std::vector<CheckedType> & checked_types() {
    static std::vector<CheckedType> t;
    if (t.empty()) {
        t.resize(CTYPES); static const char * const n[] = { "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64" }; int k = 0;
#define ONE(T) fill<T>(t[size_t(k)], n[k]); ++k;
        TYPES(ONE)
    }
    return t;
}
struct RowReg { RowReg(const char * world, void (*fill)(World &, int)); };
static void fill_world(World & w, int step) {
    if (step) return;
    w.name = "checked"; w.promo = 'k';
    for (auto & c : checked_types()) { TypeDesc d; d.name = c.name; d.sgn = c.sgn; d.bits = uint8_t(c.bits);
        d.lo = c.sgn ? -(i128(1) << (c.bits - 1)) : 0; d.hi = c.sgn ? (i128(1) << (c.bits - 1)) - 1 : (i128(1) << c.bits) - 1; w.types.push_back(d); }
}
static RowReg reg("checked", &fill_world);
} // sim
