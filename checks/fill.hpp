// Initial contents of register files, from a seed. Called outside operations only.
#ifndef FILL_HPP
#define FILL_HPP
#include "conc.hpp"
namespace conc {
template <class T> struct Filler {
    enum { WILD = 6 };
    sim::Rng r; int style;
    Filler(uint64_t seed, int st) : r(seed), style(st) {}
    T val(int st) {
        static const double spec[] = {0, -0.0, 1, -1, 1e-30, -1e-30, 1e30, 1e-6, 0.5, 2, -3, 1.0000001};
        if (is_int<T>::v) return T(r.range(-6, 6));
        switch (st) {
            case 0: return T(r.range(-4, 4));
            case 1: return T(r.range(-8, 8)) / T(2);
            case 2: return T(r.unit() * 2 - 1);
            case 3: return T(spec[r.below(12)]);
            case 4: return T(r.range(-200, 200)) / T(8);
            default: return T(r.unit() * 20 - 10);
        }
    }
    int pick() { return style >= 0 && style < 6 && r.chance(70) ? style : int(r.below(6)); }
    // anything a floating-point number can be
    T wild() {
        typedef std::numeric_limits<T> L;
        switch (r.below(8)) {
            case 0: return L::infinity();
            case 1: return -L::infinity();
            case 2: return L::quiet_NaN();
            case 3: return r.chance(50) ? L::max() : -L::max();
            case 4: return r.chance(50) ? L::denorm_min() : -L::min();
            case 5: return T(-0.0);
            default: return val(int(r.below(6)));
        }
    }
    void numbers(T* p, size_t n) {
        if (style == WILD && !is_int<T>::v && r.chance(70)) {
            const bool all = r.chance(30);
            for (size_t i = 0; i < n; ++i) p[i] = all || r.chance(30) ? wild() : val(0);
            return;
        }
        const int st = pick();
        for (size_t i = 0; i < n; ++i) p[i] = val(st);
        if (r.chance(10)) for (size_t i = 1; i < n; ++i) p[i] = p[0];
        else if (r.chance(5)) for (size_t i = 0; i < n; ++i) p[i] = T(0);
    }
    // like another object: the same, one element different, permuted, or negated
    void related(T* p, const T* q, size_t n) {
        for (size_t i = 0; i < n; ++i) p[i] = q[i];
        switch (r.below(7)) {
            case 0: break;
            case 1: { size_t i = size_t(r.below(int64_t(n))); p[i] = T(p[i] + T(1)); break; }
            case 2: { size_t i = size_t(r.below(int64_t(n))), j = size_t(r.below(int64_t(n))); std::swap(p[i], p[j]); break; }
            case 3: for (size_t i = 0; i < n; ++i) p[i] = T(-p[i]); break;
            case 4: case 5: {                                               // almost the same
                if (is_int<T>::v) break;
                const size_t i = size_t(r.below(int64_t(n)));
                const bool all = r.chance(30);
                const T eps = r.chance(60) ? std::numeric_limits<T>::epsilon() : T(1e-6);
                for (size_t k = 0; k < n; ++k) if (all || k == i) p[k] = T(p[k] * (T(1) + eps));
                break;
            }
            default: { size_t i = n - 1; p[i] = val(pick()); break; }
        }
    }
    void special(T*, size_t, void*) {}
    template <size_t M> void special(T* p, size_t, Matrix<M, M, T>*) {
        const int k = int(r.below(4));
        for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) p[j * M + i] = T(i == j);
        if (k == 0) return;                                             // identity
        if (k == 1) { for (size_t i = 0; i < M; ++i) p[i * M + i] = val(0); return; }   // diagonal, perhaps singular
        if (k == 2 && M > 2) { for (size_t i = 0; i < M; ++i) { p[i] = val(1); p[M + i] = T(p[i] * 2); } return; }    // singular
        if (is_int<T>::v) return;
        const double a = r.unit() * 6.283;                              // rotation about an axis, perhaps moved
        size_t x = size_t(r.below(int64_t(std::min<size_t>(M, 3)))), y = (x + 1) % std::min<size_t>(M, 3);
        p[x * M + x] = p[y * M + y] = T(std::cos(a)); p[x * M + y] = T(std::sin(a)); p[y * M + x] = T(-std::sin(a));
        if (M == 4) for (size_t i = 0; i < 3; ++i) p[12 + i] = val(0);
    }
    void special(T* p, size_t n, Quaternion<T>*) {
        double s = 0, v[4];
        for (size_t i = 0; i < 4; ++i) { v[i] = r.unit() * 2 - 1; if (r.chance(30)) v[i] = 0; s += v[i] * v[i]; }
        if (s == 0) { v[3] = s = 1; }
        for (size_t i = 0; i < 4; ++i) p[i] = T(v[i] / std::sqrt(s));
    }
    void special(T* p, size_t n, Frustum<T>*) {
        if (r.chance(25)) return;
        const double w = r.unit() * 3 + 0.1, h = r.unit() * 3 + 0.1, d = r.unit() * 2 + 0.1;
        p[0] = T(-w); p[1] = T(w * (0.5 + r.unit())); p[2] = T(-h); p[3] = T(h * (0.5 + r.unit())); p[4] = T(d); p[5] = T(d + 1 + r.unit() * 100);
    }
    void special(T* p, size_t n, AABB<T>*) {
        if (r.chance(25)) return;
        for (size_t i = 0; i < 3; ++i) if (p[3 + i] < p[i]) std::swap(p[i], p[3 + i]);
    }
    template <class X> void array(X* x, int n) {
        const size_t k = sizeof(X) / sizeof(T);
        for (int i = 0; i < n; ++i) {
            T* p = reinterpret_cast<T*>(x + i);
            numbers(p, k);
            if (i && r.chance(40)) related(p, reinterpret_cast<T*>(x + r.below(i)), k);
            else if (r.chance(45)) special(p, k, (X*)0);
        }
    }
    void bank(Bank<T>& b) {
        array(b.v2, NV); array(b.v3, NV); array(b.v4, NV); array(b.v7, NV); array(b.v10, NV); array(b.v12, NV);
        array(b.m22, NM); array(b.m33, NM); array(b.m44, NM); array(b.m34, NM); array(b.m43, NM); array(b.m73, NM); array(b.mcx, NM); array(b.mxx, NM);
        array(b.q, NQ); array(b.fr, NG); array(b.cu, NG); array(b.bb, NG);
    }
    // values stay within reach: no infinities pile up, integers cannot overflow in one operation
    void tame(Bank<T>& b) {
        T* p = reinterpret_cast<T*>(&b);
        for (size_t i = 0; i < sizeof(b) / sizeof(T); ++i)
            if (is_int<T>::v) { if (p[i] > T(30) || p[i] < T(-30)) p[i] = T(int64_t(p[i]) % 13); }
            else if (style == WILD) continue;
            else if (!(p[i] < T(1e31) && p[i] > T(-1e31))) p[i] = T(i % 5) - T(2);
    }
};
} // namespace conc
#endif
