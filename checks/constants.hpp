// The library's constants and their documented values, written out.
#ifndef CONSTANTS_HPP
#define CONSTANTS_HPP
#include "conc.hpp"
#include <cmath>
namespace conc {
// Which zeros were negative when the process started: a value comparison cannot see one turn into the other.
struct Signs {
    std::vector<bool> neg;
    size_t at;
    bool taken;
    Signs() : at(0), taken(false) {}
};
inline Signs& signs() { static Signs s; return s; }
template <class T, size_t N> inline void want(std::string& w, const char* name, const T* got, const double (&exp)[N]) {
    Signs& s = signs();
    for (size_t i = 0; i < N; ++i) {
        bool neg = std::signbit(double(got[i])), was = neg;
        if (!s.taken) s.neg.push_back(neg); else was = s.neg[s.at++];
        if (!(got[i] == T(exp[i])) && w.empty())
            w = sim::fmt("%s element %d is %.9g instead of %.9g", name, int(i), double(got[i]), exp[i]);
        else if (neg != was && w.empty())
            w = sim::fmt("%s element %d was %s and is %.9g", name, int(i), was ? "-0" : "0", double(got[i]));
    }
}
template <class T, size_t N> inline void filled(std::string& w, const char* name, const T* got, double exp) {
    double e[N];
    for (size_t i = 0; i < N; ++i) e[i] = exp;
    want<T, N>(w, name, got, e);
}
template <class T, size_t M> inline void vec(std::string& w) {
    filled<T, M>(w, "Vector::ZERO", Vector<M, T>::ZERO.array, 0);
    filled<T, M>(w, "Vector::ONE", Vector<M, T>::ONE.array, 1);
}
template <class T, size_t M, size_t N> inline void mat(std::string& w) { filled<T, M * N>(w, "Matrix::ZERO", Matrix<M, N, T>::ZERO.array, 0); }
template <class T, size_t M> inline void sq(std::string& w) {
    mat<T, M, M>(w);
    double e[M * M];
    for (size_t i = 0; i < M * M; ++i) e[i] = i % (M + 1) == 0;
    want<T, M * M>(w, "Matrix::IDENTITY", Matrix<M, M, T>::IDENTITY.array, e);
}
template <class T> inline void base(std::string& w) {
    typedef Vector<3, T> V;
    vec<T, 2>(w); vec<T, 3>(w); vec<T, 4>(w); vec<T, 7>(w); vec<T, 10>(w); vec<T, 12>(w);
    sq<T, 2>(w); sq<T, 3>(w); sq<T, 4>(w);
    mat<T, 3, 4>(w); mat<T, 4, 3>(w); mat<T, 7, 3>(w); mat<T, 12, 10>(w); sq<T, 10>(w);
    const double x[] = {1, 0, 0}, y[] = {0, 1, 0}, z[] = {0, 0, 1}, mx[] = {-1, 0, 0}, my[] = {0, -1, 0}, mz[] = {0, 0, -1};
    want<T, 3>(w, "UNIT_X", V::UNIT_X.array, x); want<T, 3>(w, "UNIT_Y", V::UNIT_Y.array, y); want<T, 3>(w, "UNIT_Z", V::UNIT_Z.array, z);
    want<T, 3>(w, "RIGHT", V::RIGHT.array, x); want<T, 3>(w, "LEFT", V::LEFT.array, mx);
    want<T, 3>(w, "UP", V::UP.array, y); want<T, 3>(w, "DOWN", V::DOWN.array, my);
    want<T, 3>(w, "FORWARD", V::FORWARD.array, mz); want<T, 3>(w, "BACKWARD", V::BACKWARD.array, z);
}
template <class T> inline void real(std::string& w) {
    typedef Quaternion<T> Q;
    base<T>(w);
    const double id[] = {0, 0, 0, 1}, i[] = {1, 0, 0, 0}, j[] = {0, 1, 0, 0}, k[] = {0, 0, 1, 0}, fr[] = {-1, 1, -1, 1, 0.1, 100};
    want<T, 4>(w, "Quaternion::IDENTITY", &Q::IDENTITY.array[0], id);
    want<T, 4>(w, "QUATERI", &Q::QUATERI.array[0], i); want<T, 4>(w, "QUATERJ", &Q::QUATERJ.array[0], j); want<T, 4>(w, "QUATERK", &Q::QUATERK.array[0], k);
    want<T, 6>(w, "Frustum::DEFAULT", Frustum<T>::DEFAULT.array, fr);
}
inline std::string check_constants() {
    std::string w;
    signs().at = 0;
    real<float>(w); real<double>(w); base<int>(w);
    signs().taken = true;
    return w;
}
// copies of constants that are then changed, and rejected operations on constants
template <class T> void reg_constants(Table<T>& t) {
    typedef Vector<3, T> V3; typedef Vector<4, T> V4; typedef Matrix<3, 3, T> M33; typedef Matrix<4, 4, T> M44;
    OP("k.copy_v3") { D(V3, 0) = V3::ONE; D(V3, 0) *= c.num(1); V3 v(V3::UP); v += c.num(2); c.out(v); } END
    OP("k.copy_v4") { V4 v(V4::ZERO); v.at(c.idx(1, 4)) = c.num(2); D(V4, 0) = v; } END
    OP("k.copy_m4") { M44 m(M44::IDENTITY); m(c.idx(1, 4), c.idx(2, 4)) = c.num(3); m *= c.num(4); D(M44, 0) = m; } END
    OP("k.copy_m3") { M33 m(M33::ZERO); m = c.num(1); c.out(m); D(M33, 0) = M33::IDENTITY; D(M33, 0) += c.num(2); } END
    OP("k.bad_index") { c.out(V3::ONE.at(3 + c.idx(1, 3))); } END
    OP("k.bad_element") { c.out(M44::IDENTITY.at(4 + c.idx(1, 3), c.idx(2, 4))); } END
    OP("k.bad_row") { V4 v; M44::IDENTITY.get_row(4 + c.idx(1, 3), v); c.out(v); } END
    OP("k.bad_column") { V3 v = M33::IDENTITY.get_column(3 + c.idx(1, 3)); c.out(v); } END
    OP("k.bad_sub") { Matrix<2, 2, T> m = M33::IDENTITY.template get_sub_matrix<2, 2>(2 + c.idx(1, 3), c.idx(2, 3)); c.out(m); } END
    OP("k.bad_minor") { Matrix<2, 2, T> m; c.out(M33::IDENTITY.get_minor(m, 3 + c.idx(1, 3), c.idx(2, 3))); } END
    OP("k.bad_vector") { std::vector<T> v(c.idx(1, 9), c.num(2)); M33 m(M33::IDENTITY); m = v; c.out(m); } END
}
} // namespace conc
#endif
