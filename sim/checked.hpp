// Checked results: type-erased operations on boost::safe_numerics::checked_result<T>.
#pragma once
#include "core.hpp"
namespace sim {
struct CState { int code = 0; i128 v = 0; bool exc = false; size_t msg_len = 0; };
using COut = void (*)(void * out, const void * a, const void * b);
struct CheckedType {
    const char * name = ""; bool sgn = false; int bits = 0;
    void (*make)(void * out, i128 v) = nullptr;
    void (*error)(void * out, int code, bool with_msg) = nullptr;
    void (*copy)(void * out, const void * a) = nullptr;
    void (*read)(const void * a, CState & s) = nullptr;
    COut op[10] = {};                                  // ADD..XOR on checked results
    int (*cmp[6])(const void *, const void *) = {};    // LT..NE: 0 no, 1 yes, 2 indeterminate
    COut un[3] = {};                                   // NEG, POS, COMPL
    void (*prim[10])(void * out, i128 a, i128 b) = {}; // checked::add<T> and so on
    void (*pminus)(void * out, i128 a) = nullptr; void (*pnot)(void * out, i128 a) = nullptr;
    void (*cast[8])(void * out, i128 v) = {};          // checked::cast<T>(value of type k)
};
enum { CSIZE = 32, CTYPES = 8, CSLOTS = 4 };
std::vector<CheckedType> & checked_types() __attribute__((weak));   // absent unless the world is linked
}
