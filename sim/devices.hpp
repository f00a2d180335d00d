// Simulated stream devices: the seam between the library's stream code and the
// outside world.  A device delivers or accepts characters exactly as its plan
// says, in buffers of any size, with faults at chosen characters.
#pragma once
#include <streambuf>
#include <istream>
#include <ostream>
#include <locale>
#include <vector>
#include <string>
#include "core.hpp"
#include "plan.hpp"
namespace sim {
// kinds of device faults
enum { DF_STOP = 0,     // reading: end of file from here on; writing: device full from here on
       DF_ONCE = 1,     // one end of file / one refused write, then it works again
       DF_THROW = 2,    // one exception, then it works again
       DF_DEAD = 3,     // exceptions from here on
       DF_N };
// formatting flags of a plan
enum { SF_SHOWBASE = 1, SF_SHOWPOS = 2, SF_UPPER = 4, SF_NOSKIPWS = 8, SF_LEFT = 16, SF_INTERNAL = 32, SF_RIGHT = 64, SF_BOOLALPHA = 128, SF_UNITBUF = 256 };

// the device's own work is not part of the observed region
struct Quiet { AllocCtl & a; bool was; Quiet() : a(alloc_ctl()), was(a.armed) { a.armed = false; } ~Quiet() { a.armed = was; } };

template<class C> class SimBuf : public std::basic_streambuf<C> {
    using T = std::char_traits<C>; using I = typename T::int_type;
public:
    std::vector<C> text; std::vector<int> chunks; std::vector<DevFault> faults; std::vector<char> spent;
    size_t next = 0, base = 0, chunk_ix = 0; bool interrupted = false;
    uint64_t fired = 0, refills = 0; bool counted = false;     // not counted: the reference device
    // writing
    std::vector<C> out, obuf; uint64_t ofired = 0; bool yields = false;
    SimBuf() { text.reserve(512); out.reserve(1024); }
    void config(const std::vector<int> & ch, const std::vector<DevFault> & f, int obufsize) {
        chunks = ch; faults = f; spent.assign(f.size(), 0);
        obuf.assign(size_t(obufsize), C()); if (obufsize) this->setp(obuf.data(), obuf.data() + obufsize);
    }
    size_t consumed() const { return base + size_t(this->gptr() - this->eback()); }
    void set_text(const std::vector<C> & t) { text = t; next = base = 0; this->setg(nullptr, nullptr, nullptr); }
    std::vector<C> pending() const { return std::vector<C>(this->pbase(), this->pptr()); }
    void reset_out() { out.clear(); if (!obuf.empty()) this->setp(obuf.data(), obuf.data() + obuf.size()); }
    void drop_faults() { spent.assign(faults.size(), 1); }
protected:
    // does a fault of direction d fire at character pos?
    int fault_at(int d, size_t pos, size_t & stop) {
        stop = size_t(-1); int k = -1;
        for (size_t i = 0; i < faults.size(); ++i) {
            DevFault & f = faults[i];
            if (f.dir != d || spent[i]) continue;
            bool lasting = f.kind == DF_STOP || f.kind == DF_DEAD;
            if (size_t(f.at) == pos || (lasting && size_t(f.at) <= pos)) { if (k < 0) k = int(i); }
            else if (size_t(f.at) > pos && size_t(f.at) < stop) stop = size_t(f.at);
        }
        return k;
    }
    I underflow() override {
        if (this->gptr() && this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        Quiet q;
        if (yields) sched_point(4);
        ++refills;
        size_t pos = next, stop; int k = fault_at(0, pos, stop);
        if (k >= 0) {
            ++fired;
            int kind = faults[size_t(k)].kind; if (counted) ++g_kinds[FK_READ + (kind & 3)];
            if (kind == DF_ONCE || kind == DF_THROW) spent[size_t(k)] = 1;
            if (kind == DF_THROW || kind == DF_DEAD) throw DevError{uint64_t(k) + 1};
            return T::eof();
        }
        if (pos >= text.size()) return T::eof();
        size_t n = text.size() - pos;
        if (!chunks.empty()) { size_t c = size_t(chunks[chunk_ix++ % chunks.size()]); if (c && c < n) n = c; }
        if (stop - pos < n) n = stop - pos;
        base = pos; next = pos + n;
        this->setg(text.data() + pos, text.data() + pos, text.data() + pos + n);
        return T::to_int_type(*this->gptr());
    }
    bool put(const C * s, size_t n, size_t & done) {         // false: device refused
        done = 0; Quiet q;
        while (done < n) {
            size_t stop; int k = fault_at(1, out.size(), stop);
            if (k >= 0) {
                ++ofired; int kind = faults[size_t(k)].kind; if (counted) ++g_kinds[FK_WRITE + (kind & 3)];
                if (kind == DF_ONCE || kind == DF_THROW) spent[size_t(k)] = 1;
                if (kind == DF_THROW || kind == DF_DEAD) throw DevError{uint64_t(k) + 1};
                return false;
            }
            size_t m = n - done; if (stop - out.size() < m) m = stop - out.size();
            out.insert(out.end(), s + done, s + done + m); done += m;
        }
        return true;
    }
    bool flush_() {
        size_t n = size_t(this->pptr() - this->pbase()), done = 0; bool ok = false;
        if (yields) sched_point(5);
        struct Keep { SimBuf & b; size_t & d; size_t n; ~Keep() {
            if (d && d < n) T::move(b.obuf.data(), b.obuf.data() + d, n - d);
            if (b.obuf.size()) { b.setp(b.obuf.data(), b.obuf.data() + b.obuf.size()); b.pbump(int(n - d)); } } } keep{*this, done, n};
        ok = put(this->pbase(), n, done);
        return ok;
    }
    I overflow(I c) override {
        if (obuf.empty()) {
            if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
            if (yields) sched_point(5);
            C x = T::to_char_type(c); size_t d; return put(&x, 1, d) ? c : T::eof();
        }
        if (!flush_()) return T::eof();
        if (!T::eq_int_type(c, T::eof())) { *this->pptr() = T::to_char_type(c); this->pbump(1); }
        return T::not_eof(c);
    }
    std::streamsize xsputn(const C * s, std::streamsize n) override {
        if (obuf.empty()) { if (yields) sched_point(5); size_t d = 0; put(s, size_t(n), d); return std::streamsize(d); }
        return std::basic_streambuf<C>::xsputn(s, n);
    }
    int sync() override {           // called from destructors of the platform's library: does not throw
        try { if (!obuf.empty()) flush_(); } catch (const DevError &) {}
        return 0;                     // a failure reported here with badbit among the exceptions terminates the platform's stream library
    }
};

// streaming entry points of a type, filled in by the stream world
struct StreamFns {
    void (*in)(void *, std::istream &); void (*win)(void *, std::wistream &);
    void (*out)(const void *, std::ostream &); void (*wout)(const void *, std::wostream &);
    // the built-in type whose streaming is the reference (int for character types)
    void (*rin)(i128 &, std::istream &); void (*rwin)(i128 &, std::wistream &);
    void (*rout)(i128, std::ostream &); void (*rwout)(i128, std::wostream &);
    bool rejects_minus;          // unsigned and not a character type
    bool rsgn; int rbits;        // type of the reference
};
} // sim
