// Programs of public operations over register files: the common part of the isolation checks (C10-C13), the constants
// (C19), the random draws (C09) and the running-out-of-memory check (C18).
#ifndef CONC_HPP
#define CONC_HPP
#include <cstdint>
#include <cmath>
#include <cassert>
#include <functional>
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/aabb.hpp>
#include <vmmlib/intersection.hpp>
#include <vmmlib/math.hpp>
#include <vmmlib/matrix_functors.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <vmmlib/util.hpp>
#include <vmmlib/exception.hpp>
#include "sim.hpp"

namespace conc {
using vmml::Vector; using vmml::Matrix; using vmml::Quaternion; using vmml::Frustum; using vmml::FrustumCuller;
using vmml::AABB; using vmml::Intersection; using vmml::Visibility;

typedef long double LongDouble;
// the bytes of an object that hold no value
template <class T> struct Padding { static void set(void*, size_t, int) {} };
template <> struct Padding<LongDouble> {
    static void set(void* p, size_t n, int c) { for (size_t i = 0; i + sizeof(LongDouble) <= n; i += sizeof(LongDouble)) memset(static_cast<char*>(p) + i + 10, c, sizeof(LongDouble) - 10); }
};

enum { NV = 5, NM = 4, NQ = 4, NG = 3, ARGS = 6 };

// one thread's objects (or the shared ones) of one element type
template <class T> struct Bank {
    Vector<2, T> v2[NV]; Vector<3, T> v3[NV]; Vector<4, T> v4[NV]; Vector<7, T> v7[NV]; Vector<10, T> v10[NV]; Vector<12, T> v12[NV];
    Matrix<2, 2, T> m22[NM]; Matrix<3, 3, T> m33[NM]; Matrix<4, 4, T> m44[NM];
    Matrix<3, 4, T> m34[NM]; Matrix<4, 3, T> m43[NM]; Matrix<7, 3, T> m73[NM]; Matrix<12, 10, T> mcx[NM]; Matrix<10, 10, T> mxx[NM];
    Quaternion<T> q[NQ]; Frustum<T> fr[NG]; FrustumCuller<T> cu[NG]; AABB<T> bb[NG];
};
struct Regs { Bank<float> f; Bank<double> d; Bank<int> i;
#if defined(PROP_C10) || defined(PROP_C11) || defined(PROP_C12) || defined(PROP_C13)
    Bank<LongDouble> l;
#endif
};

#define ARR(X, m, n) template <class T> inline X* arr(Bank<T>& b, X*) { return b.m; } template <class T> inline int cnt(const Bank<T>&, X*) { return n; }
#define CM ,
ARR(Vector<2 CM T>, v2, NV) ARR(Vector<3 CM T>, v3, NV) ARR(Vector<4 CM T>, v4, NV) ARR(Vector<7 CM T>, v7, NV) ARR(Vector<10 CM T>, v10, NV) ARR(Vector<12 CM T>, v12, NV)
ARR(Matrix<2 CM 2 CM T>, m22, NM) ARR(Matrix<3 CM 3 CM T>, m33, NM) ARR(Matrix<4 CM 4 CM T>, m44, NM)
ARR(Matrix<3 CM 4 CM T>, m34, NM) ARR(Matrix<4 CM 3 CM T>, m43, NM) ARR(Matrix<7 CM 3 CM T>, m73, NM) ARR(Matrix<12 CM 10 CM T>, mcx, NM) ARR(Matrix<10 CM 10 CM T>, mxx, NM)
ARR(Quaternion<T>, q, NQ) ARR(Frustum<T>, fr, NG) ARR(FrustumCuller<T>, cu, NG) ARR(AABB<T>, bb, NG)
#undef ARR

// the library's constants of a type
template <class X> struct Consts { static int n() { return 0; } static const X* at(int) { return 0; } };
template <size_t M, class T> struct Consts<Vector<M, T> > {
    static int n() { return 2; }
    static const Vector<M, T>* at(int i) { return i ? &Vector<M, T>::ONE : &Vector<M, T>::ZERO; }
};
template <class T> struct Consts<Vector<3, T> > {
    static int n() { return 11; }
    static const Vector<3, T>* at(int i) {
        typedef Vector<3, T> V;
        switch (i) { case 0: return &V::ZERO; case 1: return &V::ONE; case 2: return &V::FORWARD; case 3: return &V::BACKWARD; case 4: return &V::UP;
            case 5: return &V::DOWN; case 6: return &V::LEFT; case 7: return &V::RIGHT; case 8: return &V::UNIT_X; case 9: return &V::UNIT_Y; default: return &V::UNIT_Z; }
    }
};
template <size_t M, size_t N, class T> struct Consts<Matrix<M, N, T> > {
    static int n() { return 1; }
    static const Matrix<M, N, T>* at(int) { return &Matrix<M, N, T>::ZERO; }
};
template <size_t M, class T> struct Consts<Matrix<M, M, T> > {
    static int n() { return 2; }
    static const Matrix<M, M, T>* at(int i) { return i ? &Matrix<M, M, T>::IDENTITY : &Matrix<M, M, T>::ZERO; }
};
template <class T> struct Consts<Quaternion<T> > {
    static int n() { return 4; }
    static const Quaternion<T>* at(int i) {
        typedef Quaternion<T> Q;
        return i == 0 ? &Q::IDENTITY : i == 1 ? &Q::QUATERI : i == 2 ? &Q::QUATERJ : &Q::QUATERK;
    }
};
template <class T> struct Consts<Frustum<T> > { static int n() { return 1; } static const Frustum<T>* at(int) { return &Frustum<T>::DEFAULT; } };

// what an operation may touch while it runs; lives on the thread's own stack
struct Env {
    int64_t a[ARGS];
    char* base; size_t size;             // the own registers
    bool fresh;                          // sources are fresh copies (the operation alone) instead of the objects themselves
    int old;                             // what pure outputs hold before the operation: 0 as they are, 1 locals of the program, 2.. of the operation alone
    struct Saved { const void* p; const void* copy; } saved[4];
    int nsaved;
    char* arena; size_t used;
    struct Range { size_t off, len; } dst[8];
    int ndst;
    char obuf[1024]; size_t outn; uint64_t outh;
    void mark(const void* p, size_t n) {
        if (ndst == 8) sim::invalid();
        dst[ndst].off = size_t(static_cast<const char*>(p) - base);
        dst[ndst++].len = n;
    }
    // an output's old contents must not matter: other ones in the program and alone
    void scramble(void* p, size_t n, int pattern) {
        unsigned char* b = static_cast<unsigned char*>(p);
        static const unsigned char fixed[] = {0xFF, 0x00, 0x7F, 0x3F};
        for (size_t i = 0; i < n; ++i)
            b[i] = pattern < 4 ? fixed[pattern] : pattern == 4 ? (unsigned char)(~b[i]) : (unsigned char)(sim::hash_bytes(&i, sizeof i, uint64_t(pattern)));
    }
    void* bump(size_t n) { char* p = arena + used; used += (n + 31) & ~size_t(15); return p; }
};

template <class T> struct is_int { enum { v = std::numeric_limits<T>::is_integer }; };
inline int64_t wrap(int64_t i, int64_t n) { return n <= 0 ? 0 : ((i % n) + n) % n; }

template <class T> struct C : Env {
    Bank<T>* own; Bank<T>* shared; int64_t consts_only;
    template <class X> X& dst(int k) {
        X* p = arr(*own, (X*)0) + wrap(a[k], cnt(*own, (X*)0));
        mark(p, sizeof(X));
        return *p;
    }
    // an own object that the operation overwrites entirely without reading it
    template <class X> X& wdst(int k) {
        sim::Pause q;
        X& x = dst<X>(k);
        if (old < 2) return x;
        bool known = false;
        for (int i = 0; i < nsaved; ++i) known = known || saved[i].p == &x;
        if (!known) {
            if (nsaved == 4) sim::invalid();
            void* copy = bump(sizeof(X));
            memcpy(copy, static_cast<void*>(&x), sizeof(X));
            saved[nsaved].p = &x; saved[nsaved++].copy = copy;
        }
        scramble(static_cast<void*>(&x), sizeof(X), old - 2);
        return x;
    }
    // a local object that only receives a result
    template <class X> X& pre(X& x) {
        sim::Pause q;
        if (old) scramble(static_cast<void*>(&x), sizeof(X), old == 1 ? 3 : old == 5 ? 0 : old - 2);
        return x;
    }
    // a local object too large for a register, with values that the argument decides
    template <class X> X& local(X& x, int k) {
        sim::Pause q;
        sim::Rng r{uint64_t(a[k]) * 77 + 5};
        const int style = int(r.below(3));
        for (size_t i = 0; i < sizeof(x.array) / sizeof(x.array[0]); ++i) {
            const int64_t v = r.range(-999, 999);
            x.array[i] = style == 0 || is_int<T>::v ? T(v % 10) : T(double(v) * (style == 1 ? 0.013 : 7.1));
        }
        return x;
    }
    // the operation said that it has no result: what the output holds is its own affair
    template <class X> bool result(bool ok, X& x) {
        if (!ok) { sim::Pause q; memset(static_cast<void*>(&x), 0, sizeof(X)); }
        flag(ok);
        return ok;
    }
    // an own object that the operation does not write although it is not const
    template <class X> X& mut(int k) {
        X* p = arr(*own, (X*)0) + wrap(a[k], cnt(*own, (X*)0));
        for (int i = 0; i < nsaved; ++i) if (saved[i].p == p) {
            p = static_cast<X*>(bump(sizeof(X)));
            memcpy(static_cast<void*>(p), saved[i].copy, sizeof(X));
        }
        return *p;
    }
    template <class X> const X& pick(int64_t sel, int not_own) {
        const int n = cnt(*own, (X*)0);
        int64_t i = wrap(sel, 2 * n + Consts<X>::n());
        const X* p;
        if (i < n) { if (i == not_own) i = (i + 1) % n; p = arr(*own, (X*)0) + i; }
        else if (i < 2 * n) p = arr(*shared, (X*)0) + (i - n);
        else p = Consts<X>::at(int(i - 2 * n));
        if (!fresh) return *p;
        for (int k = 0; k < nsaved; ++k) if (saved[k].p == p) p = static_cast<const X*>(saved[k].copy);
        X* c = static_cast<X*>(bump(sizeof(X)));
        memcpy(static_cast<void*>(c), static_cast<const void*>(p), sizeof(X));
        Padding<T>::set(c, sizeof(X), int(a[0] & 0xFF));
        return *c;
    }
    template <class X> const X& src(int k) { return pick<X>(a[k], -1); }
    // a source that is not the destination j
    template <class X> const X& srcx(int k, int j) { return pick<X>(a[k], int(wrap(a[j], cnt(*own, (X*)0)))); }
    T num(int k) const {
        static const double pool[] = {1, 2, -1, 3, 0.5, -0.75, 0, 0.25, 1.5, -2, 7, 0.1, 1e-3, 100, -3.25, 5};
        const int64_t i = wrap(a[k], 32);
        const T v = T(pool[i & 15]);
        // the upper half: neighbours that differ from the lower half in the last digits only
        if (i < 16 || is_int<T>::v) return v;
        if (v == T(0)) return T(-0.0);
        return sizeof(T) == 4 || (i & 1) ? T(v * (T(1) + std::numeric_limits<T>::epsilon())) : T(v * (1 + 1e-9));
    }
    T nz(int k) const { T v = num(k); return v == T(0) ? T(4) : v; }
    size_t idx(int k, size_t n) const { return size_t(wrap(a[k], int64_t(n))); }
    void raw(const void* p, size_t n) {
        sim::Pause q;
        if (outn + n <= sizeof obuf) { memcpy(obuf + outn, p, n); outn += n; }
        outh = sim::hash_bytes(p, n, outh);
    }
    void elements(const T* p, size_t n) {
        if (sizeof(T) != sizeof(LongDouble)) { raw(p, n * sizeof(T)); return; }
        for (size_t i = 0; i < n; ++i) {
            char b[sizeof(T)];
            { sim::Pause q; memcpy(b, p + i, sizeof(T)); Padding<T>::set(b, sizeof(T), 0); }
            raw(b, sizeof b);
        }
    }
    void out(const T& v) { elements(&v, 1); }
    void put(double v) { raw(&v, sizeof v); }
    void flag(bool b) { char c = b ? 1 : 0; raw(&c, 1); }
    void cn(size_t v) { uint64_t x = v; raw(&x, sizeof x); }
    template <size_t M> void out(const Vector<M, T>& v) { elements(v.array, M); }
    template <size_t M, size_t N> void out(const Matrix<M, N, T>& m) { elements(m.array, M * N); }
    template <class X> void bytes(const X& x) { raw(&x, sizeof x); }
    // in integer banks divisors must not be zero
    template <size_t M> Vector<M, T> divisor(const Vector<M, T>& v) const {
        sim::Pause q;
        Vector<M, T> r(v);
        if (std::numeric_limits<T>::is_integer) for (size_t i = 0; i < M; ++i) { int64_t x = int64_t(r.array[i]); r.array[i] = T((x < 0 ? -x : x) % 9 + 1); }
        return r;
    }
};

template <class T> struct Op {
    std::string name;
    void (*fn)(C<T>&);
    Op(const std::string& n, void (*f)(C<T>&)) : name(n), fn(f) {}
};
template <class T> struct Table { std::vector<Op<T> > ops; };

// the families, one translation unit each
template <class T> void reg_vector(Table<T>&);
template <class T> void reg_matrix(Table<T>&);
template <class T> void reg_matrix2(Table<T>&);
template <class T> void reg_square(Table<T>&);
template <class T> void reg_big(Table<T>&);
template <class T> void reg_quaternion(Table<T>&);
template <class T> void reg_geometry(Table<T>&);

#define OP(NAME) t.ops.push_back(Op<T>(NAME, [](C<T>& c)
#define END ));
#define S(X, k) (c.template src<X>(k))
#define SX(X, k, j) (c.template srcx<X>(k, j))
#define D(X, k) (c.template dst<X>(k))
#define W(X, k) (c.template wdst<X>(k))
#define PRE(x) (c.pre(x))
#define LOC(X, x, k) X x; (c.local(x, k))
#define MUT(X, k) (c.template mut<X>(k))

// A source whose iterator uses the library itself, on an object of its own, each time it is asked for an element.
template <class T, class F> struct Calling {
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T* p;
    explicit Calling(const T* q) : p(q) {}
    const T& operator*() const { sim::Pause q; static int depth = 0; if (!depth) { ++depth; F::call(); --depth; } return *p; }
    Calling& operator++() { ++p; return *this; }
    Calling operator++(int) { Calling c(*this); ++p; return c; }
    bool operator==(const Calling& o) const { return p == o.p; }
    bool operator!=(const Calling& o) const { return p != o.p; }
};
template <class T> inline bool alike(const T& a, const T& b) { return a == b || (a != a && b != b); }
template <class T, size_t M> struct SetVector { static void call() {
    T d[M];
    for (size_t i = 0; i < M; ++i) d[i] = T(i + 11);
    Vector<M, T> u;
    typedef Calling<T, SetVector> I;
    u.iter_set(I(d), I(d + M));
    for (size_t i = 0; i < M; ++i) if (!alike(u.array[i], d[i])) sim::violate("nested", "a vector set while another one takes its elements from a source got other values");
} };
template <class T, size_t M, size_t N> struct SetMatrix { static void call() {
    T d[M * N];
    for (size_t i = 0; i < M * N; ++i) d[i] = T(i + 11);
    Matrix<M, N, T> u;
    typedef Calling<T, SetMatrix> I;
    u.set(I(d), I(d + M * N));
    for (size_t i = 0; i < M * N; ++i) if (!alike(u.array[(i % N) * M + i / N], d[i])) sim::violate("nested", "a matrix set while another one takes its elements from a source got other values");
} };

} // namespace conc
#endif
