// Objects with a text form behind one interface, and stream buffers whose chunking and failures the plan decides.
#ifndef TEXT_HPP
#define TEXT_HPP
#include <cstdint>
#include <memory>
#include <cmath>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <limits>
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/aabb.hpp>
#include "sim.hpp"

namespace text {
using namespace vmml;

struct Obj {
    virtual ~Obj() {}
    virtual char* data() = 0;
    virtual size_t bytes() const = 0;
    virtual size_t n() const = 0;                        // elements, in text order
    virtual void put(size_t i, double v) = 0;
    virtual void put_bits(size_t i, uint64_t v) = 0;     // integers: this value, as far as it fits
    virtual void copy(size_t i, const Obj& o) = 0;       // the other's element, bit for bit; the same kind
    virtual double get(size_t i) const = 0;
    virtual void show(std::ostream& os, size_t i) const = 0;   // element i by plain insertion
    virtual bool take(std::istream& is, size_t i) = 0;         // element i by plain extraction
    virtual bool same(const Obj& o, size_t i) const = 0;       // bit for bit
    virtual int digits() const = 0;                      // decimal digits that carry a value exactly, 0 for integers
    virtual bool has_stream() const { return true; }
    virtual void write(std::ostream&) const {}
    virtual void read(std::istream&) {}
    virtual void print(std::ostream&) const = 0;
    virtual void model(std::ostream&) const = 0;         // what print is documented to give
    virtual const char* kind() const = 0;
    virtual bool has_files() const { return false; }
    virtual void write_raw(const std::string&, const std::string&) const {}
    virtual void read_raw(const std::string&, const std::string&) {}
    virtual void write_csv(const std::string&, const std::string&) const {}
    virtual char* elements() { return 0; }
    virtual size_t element_bytes() const { return 0; }
    virtual size_t columns() const { return 0; }
    virtual std::string image() { return std::string(data(), bytes()); }
};
// bytes of an element that carry its value: an 80-bit float has six bytes of padding
template <class T> struct Wide { enum { v = false, bytes = sizeof(T) }; };
template <> struct Wide<long double> { enum { v = true, bytes = 10 }; };
template <class X, class T> struct ObjOf : Obj {
    struct Held { char before[48]; X x; char after[48]; };
    Held* h;
    ObjOf() : h(new Held) { memset(h->before, 0x77, sizeof h->before); memset(h->after, 0x77, sizeof h->after); }
    ~ObjOf() { delete h; }
    X& x() { return h->x; }
    const X& x() const { return h->x; }
    char* data() { return reinterpret_cast<char*>(h); }
    size_t bytes() const { return sizeof(Held); }
    virtual T* at(size_t i) = 0;
    const T* at(size_t i) const { return const_cast<ObjOf*>(this)->at(i); }
    void put(size_t i, double v) { *at(i) = T(v); }
    void put_bits(size_t i, uint64_t v) {
        if (std::numeric_limits<T>::is_integer) *at(i) = T(v);
        else if (Wide<T>::v) *at(i) = T(std::ldexp((long double)(v), v % 5 ? int(v % 128) - 100 : int(v % 4000) - 2000));
    }
    std::string image() {
        std::string s = Obj::image();
        if (Wide<T>::v) for (size_t i = 0; i < n(); ++i) memset(&s[size_t(reinterpret_cast<char*>(at(i)) - data()) + Wide<T>::bytes], 0, sizeof(T) - Wide<T>::bytes);
        return s;
    }
    virtual size_t n() const = 0;
    void copy(size_t i, const Obj& o) { if (const ObjOf* p = dynamic_cast<const ObjOf*>(&o)) memcpy(static_cast<void*>(at(i)), p->at(i), sizeof(T)); }
    double get(size_t i) const { return double(*at(i)); }
    void show(std::ostream& os, size_t i) const { os << *at(i); }
    bool take(std::istream& is, size_t i) { T t = T(); is >> t; if (is.fail()) return false; *at(i) = t; return true; }
    bool same(const Obj& o, size_t i) const { const ObjOf* p = dynamic_cast<const ObjOf*>(&o); return p && memcmp(p->at(i), at(i), Wide<T>::bytes) == 0; }
    int digits() const { return std::numeric_limits<T>::is_integer ? 0 : std::numeric_limits<T>::max_digits10; }
    void print(std::ostream& os) const { os << x(); }
    static void five(std::ostream& os) { os.setf(std::ios::right, std::ios::adjustfield); os.precision(5); }
};
template <size_t M, class T> struct VecObj : ObjOf<Vector<M, T>, T> {
    using ObjOf<Vector<M, T>, T>::at;
    T* at(size_t i) { return this->h->x.array + i; }
    size_t n() const { return M; }
    void write(std::ostream& os) const { this->x().write_to_stream(os); }
    void read(std::istream& is) { this->x().read_from_stream(is); }
    static void bracket(std::ostream& os, const T* p) {
        VecObj::five(os);
        os << "[ ";
        for (size_t i = 0; i < M; ++i) { os.width(10); os << p[i]; os << " "; }
        os << "]";
    }
    void model(std::ostream& os) const { bracket(os, this->x().array); }
    const char* kind() const { return "vector"; }
};
template <size_t M, size_t N, class T> struct MatObj : ObjOf<Matrix<M, N, T>, T> {
    using ObjOf<Matrix<M, N, T>, T>::at;
    T* at(size_t i) { return this->h->x.array + (i % N) * M + i / N; }
    size_t n() const { return M * N; }
    void write(std::ostream& os) const { this->x().write_to_stream(os); }
    void read(std::istream& is) { this->x().read_from_stream(is); }
    void model(std::ostream& os) const {
        MatObj::five(os);
        for (size_t r = 0; r < M; ++r) {
            os << "|";
            for (size_t c = 0; c < N; ++c) { os.width(10); os << this->x().array[c * M + r]; os << " "; }
            os << "|" << "\n";
        }
    }
    const char* kind() const { return "matrix"; }
    bool has_files() const { return true; }
    void write_raw(const std::string& d, const std::string& n) const { this->x().write_to_raw(d, n); }
    void read_raw(const std::string& d, const std::string& n) { this->x().read_from_raw(d, n); }
    void write_csv(const std::string& d, const std::string& n) const { this->x().write_csv_file(d, n); }
    char* elements() { return reinterpret_cast<char*>(this->h->x.array); }
    size_t element_bytes() const { return sizeof this->h->x.array; }
    size_t columns() const { return N; }
};
template <class T> struct QuatObj : ObjOf<Quaternion<T>, T> {
    using ObjOf<Quaternion<T>, T>::at;
    T* at(size_t i) { return this->h->x.array + i; }
    size_t n() const { return 4; }
    bool has_stream() const { return false; }
    void model(std::ostream& os) const { os << "("; for (size_t i = 0; i < 4; ++i) { os << this->x().array[i]; os << (i < 3 ? ", " : ") "); } }
    const char* kind() const { return "quaternion"; }
};
template <class T> struct FrustumObj : ObjOf<Frustum<T>, T> {
    using ObjOf<Frustum<T>, T>::at;
    T* at(size_t i) { return this->h->x.array + i; }
    size_t n() const { return 6; }
    bool has_stream() const { return false; }
    void model(std::ostream& os) const {
        FrustumObj::five(os);
        os << "[";
        for (size_t i = 0; i < 6; ++i) { os.width(10); os << this->x().array[i]; os << (i < 5 ? " " : "]"); }
    }
    const char* kind() const { return "frustum"; }
};
template <class T> struct BoxObj : ObjOf<AABB<T>, T> {
    using ObjOf<AABB<T>, T>::at;
    T* at(size_t i) { return reinterpret_cast<T*>(&this->h->x) + i; }
    size_t n() const { return 6; }
    bool has_stream() const { return false; }
    void model(std::ostream& os) const {
        const T* p = reinterpret_cast<const T*>(&this->h->x);
        const std::ios_base::fmtflags f = os.flags();
        const std::streamsize k = os.precision();
        VecObj<3, T>::bracket(os, p);
        os.flags(f); os.precision(k);
        os << " - ";
        VecObj<3, T>::bracket(os, p + 3);
    }
    const char* kind() const { return "box"; }
};
// cullers of exactly known planes: scales are powers of two, translations whole numbers
template <class T> struct CullObj : ObjOf<FrustumCuller<T>, T> {
    using ObjOf<FrustumCuller<T>, T>::at;
    T param[6];
    CullObj() { for (int i = 0; i < 6; ++i) param[i] = T(i % 2 ? 0 : 1); set(); }
    void set() {
        Matrix<4, 4, T> m;
        for (size_t i = 0; i < 16; ++i) m.array[i] = T(0);
        for (size_t i = 0; i < 3; ++i) { m.array[i * 4 + i] = param[2 * i]; m.array[12 + i] = param[2 * i + 1]; }
        m.array[15] = T(1);
        this->h->x.setup(m);
    }
    T* at(size_t i) { return param + i; }
    size_t n() const { return 6; }
    void put(size_t i, double v) {
        const int64_t k = v == v && v < 1e15 && v > -1e15 ? int64_t(v) : 3;
        param[i] = i % 2 ? T(k % 1000) : T(1) / T(1 << (k & 7));
        set();
    }
    bool has_stream() const { return false; }
    void model(std::ostream& os) const {
        static const char* const names[] = {"left", "right", "top", "bottom", "near", "far"};
        static const int axis[] = {0, 0, 1, 1, 2, 2}, sign[] = {1, -1, -1, 1, 1, -1};
        os << "Frustum cull planes: " << "\n";
        for (int i = 0; i < 6; ++i) {
            const std::ios_base::fmtflags f = os.flags();
            const std::streamsize k = os.precision();
            T p[4] = {T(0), T(0), T(0), T(0)};
            p[axis[i]] = T(sign[i]);
            p[3] = (T(1) + T(sign[i]) * param[2 * axis[i] + 1]) / param[2 * axis[i]];
            os << "    " << names[i] << std::string(7 - strlen(names[i]), ' ');
            VecObj<4, T>::bracket(os, p);
            os.flags(f); os.precision(k);
            os << "\n";
        }
    }
    const char* kind() const { return "culler"; }
};
struct VisObj : ObjOf<vmml::Visibility, int> {
    int value;
    VisObj() : value(0) { h->x = vmml::VISIBILITY_NONE; }
    using ObjOf<vmml::Visibility, int>::at;
    int* at(size_t) { return &value; }
    size_t n() const { return 1; }
    void put(size_t, double v) {
        const int64_t k = v == v && v < 1e15 && v > -1e15 ? int64_t(v) : 1;
        value = int((k % 3 + 3) % 3);
        h->x = value == 0 ? vmml::VISIBILITY_NONE : value == 1 ? vmml::VISIBILITY_PARTIAL : vmml::VISIBILITY_FULL;
    }
    bool has_stream() const { return false; }
    void print(std::ostream& os) const { vmml::operator<<(os, h->x); }
    void model(std::ostream& os) const { os << (value == 0 ? "not visible      " : value == 1 ? "partially visible" : "fully visible    "); }
    const char* kind() const { return "visibility"; }
};
enum { STREAM_KINDS = 25, KINDS = 38 };
inline Obj* make(int64_t k) {
    switch (((k % KINDS) + KINDS) % KINDS) {
        case 0: return new VecObj<2, float>;
        case 1: return new VecObj<3, float>;
        case 2: return new VecObj<4, double>;
        case 3: return new VecObj<7, double>;
        case 4: return new VecObj<1, double>;
        case 5: return new VecObj<3, int>;
        case 6: return new VecObj<5, short>;
        case 7: return new VecObj<2, unsigned short>;
        case 8: return new VecObj<2, long long>;
        case 9: return new MatObj<2, 2, float>;
        case 10: return new MatObj<3, 3, double>;
        case 11: return new MatObj<4, 4, float>;
        case 12: return new MatObj<3, 4, double>;
        case 13: return new MatObj<4, 3, int>;
        case 14: return new MatObj<7, 3, float>;
        case 15: return new MatObj<1, 5, double>;
        case 16: return new MatObj<2, 3, unsigned>;
        case 17: return new VecObj<4, bool>;
        case 18: return new VecObj<3, unsigned long>;
        case 19: return new MatObj<2, 2, long long>;
        case 20: return new VecObj<37, float>;
        case 21: return new VecObj<3, long double>;
        case 22: return new MatObj<2, 2, long double>;
        case 23: return new VecObj<16, double>;
        case 24: return new MatObj<1, 1, float>;
        case 25: return new QuatObj<float>;
        case 26: return new QuatObj<double>;
        case 27: return new FrustumObj<float>;
        case 28: return new FrustumObj<double>;
        case 29: return new BoxObj<float>;
        case 30: return new BoxObj<double>;
        case 31: return new BoxObj<int>;
        case 32: return new CullObj<float>;
        case 33: return new CullObj<double>;
        case 34: return new VisObj;
        case 35: return new FrustumObj<int>;
        case 36: return new BoxObj<long long>;
        default: return new VecObj<33, float>;
    }
}
enum { FILE_KINDS = 10 };
inline Obj* make_file(int64_t k) {
    k = ((k % FILE_KINDS) + FILE_KINDS) % FILE_KINDS;
    return k < 8 ? make(9 + k) : k == 8 ? static_cast<Obj*>(new MatObj<33, 35, double>) : static_cast<Obj*>(new MatObj<40, 60, float>);
}
// values that survive any precision without leaving the type's range
inline void fill(Obj& o, uint64_t seed, bool finite) {
    sim::Rng r(seed * 77 + 5);
    static const double spec[] = {0, -0.0, 1, -1, 1e-30, -1e-30, 1e30, 123456.0, 99999.5, 0.000123456789, 1e-37, 3.14159265358979, -2.5e10};
    const int style = int(r.below(6));
    for (size_t i = 0; i < o.n(); ++i) {
        double v;
        switch (style == 4 ? int(r.below(4)) : style) {
            case 0: v = double(r.range(-999, 999)); break;
            case 1: v = r.unit() * 2 - 1; break;
            case 2: v = spec[r.below(13)]; break;
            case 5: v = std::ldexp(r.unit() * 2 - 1, o.digits() > 10 ? int(r.range(-1070, 1020)) : int(r.range(-145, 126))); break;    // down to denormals
            default: v = std::ldexp(r.unit() * 2 - 1, int(r.range(-90, 90))); break;
        }
        if (!finite && r.chance(5)) v = r.chance(50) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
        if (!o.digits()) v = double(r.range(0, r.chance(50) ? 9 : 32000)) * (style == 1 && o.data() && r.chance(50) ? 1 : 1);
        o.put(i, v);
        if (!o.digits() && o.has_stream() && r.chance(15)) {            // the type's extremes and values no double holds
            const uint64_t bits = r.next();
            static const uint64_t ends[] = {0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x7fffffffull, 0xffffffff80000000ull, 0x7fff, 0xffffffffffff8000ull, (1ull << 53) + 1, (1ull << 24) + 1};
            o.put_bits(i, r.chance(50) ? bits >> r.below(64) : ends[r.below(9)]);
            continue;
        }
        if (o.digits() > 17 && r.chance(60)) { const uint64_t bits = r.next(); o.put_bits(i, bits); if (r.chance(50)) o.put_bits(i, bits | 1ull << 63); continue; }
        if (!o.digits() && r.chance(40)) { o.put(i, -v); if (o.get(i) != -v) o.put(i, v); }      // unsigned stays positive
    }
}

// ---------------------------------------------------------------- stream buffers
struct Broken {};
// A stream buffer may use the library itself while an operation on its stream is under way (a log that formats, say).
// Every so many callbacks another object is printed, written and read on streams of its own.
struct Nest { int64_t every, n, depth; };
inline Nest& nest() { static Nest x = {0, 0, 0}; return x; }
inline void nested(uint64_t seed);
inline void callback() {
    Nest& x = nest();
    if (!x.every || x.depth || ++x.n % x.every || x.n > 4000) return;
    ++x.depth;
    nested(uint64_t(x.n));
    --x.depth;
}
struct Source : std::streambuf {
    std::string s; size_t pos; uint64_t chunk, salt, n; int64_t fail_at; int how;   // how: 0 none, 1 ends there, 2 throws there
    size_t limit; bool starved;                                                     // the peer has sent this much so far; more was asked for
    char buf[80]; bool fired, once;                                                 // once: delivers again after it failed
    Source() : pos(0), chunk(1), salt(0), n(0), fail_at(-1), how(0), limit(std::string::npos), starved(false), fired(false), once(false) { setg(buf, buf, buf); }
    void supply(const std::string& t) { s = t; pos = 0; fail_at = -1; how = 0; once = false; limit = std::string::npos; starved = false; setg(buf, buf, buf); }
    size_t consumed() const { return pos - size_t(egptr() - gptr()); }
    int_type underflow() {
        sim::Pause q;
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t end = s.size();
        if (how && fail_at >= 0 && size_t(fail_at) < end) end = size_t(fail_at);
        if (pos >= end) {
            if (end < s.size()) {
                if (!fired) sim::count(how == 2 ? "fault.source_throws" : "fault.source_ends");
                fired = true;
                sim::event("source", pos);
                const int h = how;
                if (once) how = 0;
                if (h == 2) throw Broken();
            }
            return traits_type::eof();
        }
        size_t k = 1 + size_t(sim::mix(sim::mix(salt, 3), n++) % chunk);
        if (pos >= limit) starved = true;
        else if (limit < end) end = limit;
        callback();
        k = std::min(std::min(k, end - pos), sizeof buf);
        if (k < s.size() - pos) sim::count("fault.chunked_input");
        memcpy(buf, s.data() + pos, k);
        pos += k;
        setg(buf, buf, buf + k);
        return traits_type::to_int_type(buf[0]);
    }
};
struct Sink : std::streambuf {
    std::string out; size_t area; int64_t room; int how; int64_t sync_fail; bool once; bool fired;   // how: 1 refuses, 2 throws
    char buf[80];
    explicit Sink(size_t a = 0) : area(std::min<size_t>(a, sizeof buf)), room(-1), how(0), sync_fail(-1), once(false), fired(false) { setp(buf, buf + area); }
    void heal() { room = -1; how = 0; sync_fail = -1; }
    std::string all() const { return out + std::string(pbase(), size_t(pptr() - pbase())); }
    bool fail() {
        if (!fired) sim::count(how == 2 ? "fault.sink_throws" : "fault.sink_refuses");
        fired = true;
        sim::event("sink", out.size());
        const int h = how;
        if (once) heal();
        if (h == 2) throw Broken();
        return false;
    }
    // moves n bytes to the device; says how many it took
    size_t accept(const char* p, size_t n) {
        size_t k = n;
        if (room >= 0 && int64_t(k) > room) k = size_t(room);
        out.append(p, k);
        if (room >= 0) room -= int64_t(k);
        callback();
        return k;
    }
    bool drain() {
        const size_t n = size_t(pptr() - pbase()), k = accept(pbase(), n);
        if (k < n) {
            memmove(buf, buf + k, n - k);
            setp(buf, buf + area);
            pbump(int(n - k));
            return fail();
        }
        setp(buf, buf + area);
        return true;
    }
    int_type overflow(int_type c) {
        sim::Pause q;
        if (!drain()) return traits_type::eof();
        if (c == traits_type::eof()) return 0;
        char ch = traits_type::to_char_type(c);
        if (area) { *pptr() = ch; pbump(1); }
        else if (!accept(&ch, 1)) { fail(); return traits_type::eof(); }
        return c;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) {
        sim::Pause q;
        std::streamsize done = 0;
        while (done < n) {
            if (pptr() < epptr()) { *pptr() = p[done++]; pbump(1); continue; }
            if (!area) {
                size_t k = accept(p + done, size_t(n - done));
                done += std::streamsize(k);
                if (done < n && !fail()) return done;
            } else if (!drain()) return done;
        }
        return done;
    }
    int sync() {
        sim::Pause q;
        if (sync_fail == 0) { sync_fail = -1; fail(); return -1; }
        if (sync_fail > 0) --sync_fail;
        return drain() ? 0 : -1;
    }
};
struct Comma : std::numpunct<char> { char do_decimal_point() const { return ','; } std::string do_grouping() const { return ""; } };

struct Groups : std::numpunct<char> { char do_decimal_point() const { return ','; } char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3\2"; } };
inline bool& grouping() { static bool b = false; return b; }    // whether locales with digit groups take part

// stream settings from one number
inline void settings(std::ios& s, int64_t code, bool with_fill) {
    sim::Rng r{uint64_t(code)};
    s.imbue(std::locale::classic());
    std::ios_base::fmtflags f = std::ios::dec | std::ios::skipws;
    if (code == 0) { s.flags(f); s.precision(6); return; }
    switch (r.below(5)) { case 0: f |= std::ios::fixed; break; case 1: f |= std::ios::scientific; break; default: break; }
    if (r.chance(20)) f |= std::ios::showpos;
    if (r.chance(20)) f |= std::ios::showpoint;
    if (r.chance(20)) f |= std::ios::uppercase;
    if (r.chance(20)) f |= std::ios::boolalpha;
    if (r.chance(20)) f |= std::ios::showbase;
    switch (r.below(4)) { case 0: f |= std::ios::left; break; case 1: f |= std::ios::internal; break; case 2: f |= std::ios::right; break; default: break; }
    if (with_fill) switch (r.below(6)) { case 0: f = (f & ~std::ios::basefield) | std::ios::hex; break; case 1: f = (f & ~std::ios::basefield) | std::ios::oct; break; case 2: f &= ~std::ios::basefield; break; default: break; }
    if (with_fill && r.chance(10)) f |= std::ios::fixed | std::ios::scientific;   // hexadecimal floats
    if (with_fill && r.chance(20)) f &= ~std::ios::skipws;
    s.flags(f);
    s.precision(std::streamsize(r.pick({1, 3, 5, 6, 9, 12, 17, 20, 0, 23})));
    if (with_fill && r.chance(30)) s.fill(r.pick({'*', '0', '_'}));
    if (r.chance(10)) s.imbue(std::locale(std::locale::classic(), new Comma));
    else if (r.chance(8) && grouping()) s.imbue(std::locale(std::locale::classic(), new Groups));
}
inline void nested(uint64_t seed) {
    sim::Rng r(seed);
    const int64_t kind = r.below(KINDS), code = r.chance(40) ? 0 : r.below(100000);
    std::unique_ptr<Obj> o(make(kind));
    fill(*o, r.next() % 100000, true);
    std::ostringstream os, model;
    settings(os, code, false);
    if (code == 0) os.imbue(std::locale::classic());
    model.flags(os.flags()); model.precision(os.precision()); model.fill(os.fill()); model.imbue(os.getloc());
    const std::ios_base::fmtflags flags = os.flags();
    const std::streamsize precision = os.precision();
    const Obj* co = o.get();
    o->model(model);
    co->print(os);
    if (os.str() != model.str()) sim::violate("nested", sim::fmt("a %s printed while another operation on another stream was under way gave \"%s\" instead of \"%s\"", o->kind(), os.str().c_str(), model.str().c_str()));
    if (os.flags() != flags || os.precision() != precision || !os.good()) sim::violate("nested", sim::fmt("printing a %s while another operation was under way left its stream in another state", o->kind()));
    if (kind < STREAM_KINDS) {
        std::ostringstream plain;
        plain.precision(20);
        std::string want;
        for (size_t i = 0; i < o->n(); ++i) {
            std::ostringstream one;
            one.precision(20);
            o->show(one, i);
            want += one.str() + " ";
        }
        co->write(plain);
        if (plain.str() != want) sim::violate("nested", sim::fmt("a %s written while another operation was under way gave \"%s\" instead of \"%s\"", o->kind(), plain.str().c_str(), want.c_str()));
        std::istringstream is(want), each(want);
        std::unique_ptr<Obj> a(make(kind)), b(make(kind));
        a->read(is);
        if (is.fail()) sim::violate("nested", sim::fmt("reading a %s while another operation was under way failed", o->kind()));
        for (size_t i = 0; i < o->n(); ++i)
            if (b->take(each, i) && !a->same(*b, i)) sim::violate("nested", sim::fmt("element %d of a %s read while another operation was under way is %.17g instead of %.17g", int(i), o->kind(), a->get(i), b->get(i)));
    }
    sim::count("op.nested");
}
} // namespace text
#endif
