// the operations that every shape of matrix has
#ifndef SHAPE_HPP
#define SHAPE_HPP
#include "conc.hpp"
namespace conc {
template <class T> struct Near { bool operator()(const T& a, const T& b) { return !(a < b - 1) && !(b < a - 1); } };
// every shape
template <class T, size_t M, size_t N> void shape(Table<T>& t) {
    typedef Matrix<M, N, T> X; typedef Vector<M, T> VM; typedef Vector<N, T> VN;
    const std::string p = "m" + std::to_string(M) + std::to_string(N) + ".";
    OP(p + "default") { W(X, 0) = X(); } END
    OP(p + "ctor_copy") { X x(S(X, 1)); W(X, 0) = x; } END
    OP(p + "ctor_convert") { Matrix<M, N, double> u(S(X, 1)); W(X, 0) = X(u); } END
    OP(p + "assign_convert") { Matrix<M, N, float> u(S(X, 1)); W(X, 0) = u; } END
    OP(p + "assign_resize") { W(X, 0) = S(Matrix<2 CM 2 CM T>, 1); } END
    OP(p + "ctor_resize") { X x(S(Matrix<4 CM 4 CM T>, 1)); c.out(x); } END
    OP(p + "cast_from") { Matrix<M, N, float> u(S(X, 1)); W(X, 0).cast_from(u); } END
    OP(p + "call") { const X& x = S(X, 0); c.out(x(c.idx(1, M), c.idx(2, N))); } END
    OP(p + "at") { const X& x = S(X, 0); c.out(x.at(c.idx(1, M), c.idx(2, N))); } END
    OP(p + "call_write") { D(X, 0)(c.idx(1, M), c.idx(2, N)) = c.num(3); } END
    OP(p + "at_write") { D(X, 0).at(c.idx(1, M), c.idx(2, N)) = c.num(3); } END
    OP(p + "brackets") { X& x = MUT(X, 0); c.out(x[c.idx(1, M)][c.idx(2, N)]); c.out(x[int(c.idx(3, M))][c.idx(4, N)]); } END
    OP(p + "brackets_const") { X& x = MUT(X, 0); const typename X::row_accessor r = x[c.idx(1, M)]; c.out(r[c.idx(2, N)]); c.out(r[c.idx(3, N)]); } END
    OP(p + "brackets_write") { D(X, 0)[c.idx(1, M)][c.idx(2, N)] = c.num(3); } END
    OP(p + "iterate") { const X& x = S(X, 0); T s = 0; for (typename X::const_iterator i = x.begin(); i != x.end(); ++i) s = s * 3 + *i; c.out(s); } END
    OP(p + "pointer") { const X& x = S(X, 0); const T* q = x; c.out(q[c.idx(1, M * N)]); } END
    OP(p + "pointer_write") { X& x = D(X, 0); T* q = x; q[c.idx(1, M * N)] = c.num(2); } END
    OP(p + "eq") { c.flag(S(X, 0) == S(X, 1)); } END
    OP(p + "ne") { c.flag(S(X, 0) != S(X, 1)); } END
    OP(p + "equals") { c.flag(S(X, 0).equals(S(X, 1), c.num(2))); c.flag(vmml::equals(S(X, 3), S(X, 4), c.num(2))); } END
    OP(p + "multiply_piecewise") { D(X, 0).multiply_piecewise(S(X, 1)); } END
    OP(p + "add") { W(X, 0) = S(X, 1) + S(X, 2); } END
    OP(p + "sub") { W(X, 0) = S(X, 1) - S(X, 2); } END
    OP(p + "add_in") { D(X, 0) += S(X, 1); } END
    OP(p + "sub_in") { D(X, 0) -= S(X, 1); } END
    OP(p + "add_s_in") { D(X, 0) += c.num(1); } END
    OP(p + "sub_s_in") { D(X, 0) -= c.num(1); } END
    OP(p + "mul_s") { W(X, 0) = MUT(X, 1) * c.num(2); } END
    OP(p + "mul_s_in") { D(X, 0) *= c.num(1); } END
    OP(p + "div_s") { W(X, 0) = MUT(X, 1) / c.nz(2); } END
    OP(p + "div_s_in") { D(X, 0) /= c.nz(1); } END
    OP(p + "mul_v") { VM r = S(X, 0) * S(VN, 1); c.out(r); } END
    OP(p + "minus") { W(X, 0) = -S(X, 1); } END
    OP(p + "negate") { X r = S(X, 0).negate(); c.out(r); } END
    OP(p + "tensor") { W(X, 0).tensor(S(VM, 1), S(VN, 2)); } END
    OP(p + "transpose_to") { Matrix<N, M, T> r; PRE(r); S(X, 0).transpose_to(r); c.out(r); } END
    OP(p + "covariance") { Matrix<M, M, T> r; PRE(r); S(X, 0).symmetric_covariance(r); c.out(r); } END
    OP(p + "assign") { W(X, 0) = S(X, 1); } END
    OP(p + "assign_2d") { const X& s = SX(X, 1, 0); T a[M][N]; { sim::Pause q; memcpy(a, s.array, sizeof a); } W(X, 0) = a; } END
    OP(p + "assign_array") { W(X, 0) = static_cast<const T*>(SX(X, 1, 0).array); } END
    OP(p + "assign_vector") { const X& s = S(X, 1); std::vector<T> v(s.begin(), s.end()); W(X, 0) = v; } END
    OP(p + "assign_fill") { W(X, 0) = c.num(1); } END
    OP(p + "fill") { W(X, 0).fill(c.num(1)); } END
    OP(p + "zero") { W(X, 0).zero(); } END
    OP(p + "set_rows") { const X& s = SX(X, 1, 0); W(X, 0).set(s.begin(), s.end()); } END
    OP(p + "set_nested") {
        typedef Calling<T CM SetMatrix<T CM M CM N> > I;
        const X& s = SX(X, 1, 0);
        X& x = W(X, 0);
        x.set(I(s.array), I(s.array + M * N));
        sim::Pause q;
        for (size_t k = 0; k < M * N; ++k) if (!alike(x.array[(k % N) * M + k / N], s.array[k])) sim::violate("nested", "a matrix took other values than its source gave, which uses the library itself");
    } END
    OP(p + "set_cols") { const X& s = SX(X, 1, 0); D(X, 0).set(s.begin(), s.begin() + c.idx(2, M * N) + 1, false); } END
    OP(p + "frobenius") { c.put(S(X, 0).frobenius_norm()); } END
    OP(p + "p_norm") { c.put(S(X, 0).p_norm(2.0 + double(c.idx(1, 3)))); } END
    OP(p + "columnwise_sum") { VN r; PRE(r); S(X, 0).columnwise_sum(r); c.out(r); } END
    OP(p + "sum_elements") { c.put(S(X, 0).sum_elements()); } END
    OP(p + "khatri_rao") { Matrix<M * 2, N, T> r; Matrix<2, N, T> o(S(X, 1)); PRE(r); S(X, 0).khatri_rao_product(o, r); c.out(r); } END
    OP(p + "kronecker") { Matrix<M * 2, N * 2, T> r; PRE(r); S(X, 0).kronecker_product(S(Matrix<2 CM 2 CM T>, 1), r); c.out(r); } END
    OP(p + "get_min") { c.out(S(X, 0).get_min()); c.out(S(X, 1).get_max()); } END
    OP(p + "get_abs_min") { c.out(S(X, 0).get_abs_min()); c.out(S(X, 1).get_abs_max()); } END
    OP(p + "nnz") { c.cn(S(X, 0).nnz()); c.cn(S(X, 1).nnz(c.num(2))); c.cn(S(X, 0).size()); c.cn(S(X, 0).get_number_of_rows()); c.cn(S(X, 0).get_number_of_columns()); } END
    OP(p + "threshold") { D(X, 0).threshold(c.num(1)); } END
    OP(p + "get_column") { VM r = S(X, 0).get_column(c.idx(1, N)); c.out(r); } END
    OP(p + "get_column_to") { VM r; PRE(r); S(X, 0).get_column(c.idx(1, N), r); c.out(r); } END
    OP(p + "get_column_m") { Matrix<M, 1, T> r; PRE(r); S(X, 0).get_column(c.idx(1, N), r); c.out(r); } END
    OP(p + "set_column") { D(X, 0).set_column(c.idx(1, N), S(VM, 2)); } END
    OP(p + "set_column_m") { Matrix<M, 1, T> k; k = S(VM, 2).array; D(X, 0).set_column(c.idx(1, N), k); } END
    OP(p + "get_row") { VN r = S(X, 0).get_row(c.idx(1, M)); c.out(r); } END
    OP(p + "get_row_to") { VN r; PRE(r); S(X, 0).get_row(c.idx(1, M), r); c.out(r); } END
    OP(p + "get_row_m") { Matrix<1, N, T> r; PRE(r); S(X, 0).get_row(c.idx(1, M), r); c.out(r); } END
    OP(p + "set_row") { D(X, 0).set_row(c.idx(1, M), S(VN, 2)); } END
    OP(p + "set_row_m") { Matrix<1, N, T> k; k = S(VN, 2).array; D(X, 0).set_row(c.idx(1, M), k); } END
    OP(p + "get_sub") { Matrix<2, 2, T> r = S(X, 0).template get_sub_matrix<2, 2>(c.idx(1, M - 1), c.idx(2, N - 1)); c.out(r); } END
    OP(p + "get_sub_to") { S(X, 0).get_sub_matrix(W(Matrix<2 CM 2 CM T>, 1), c.idx(2, M - 1), c.idx(3, N - 1)); } END
    OP(p + "set_sub") { D(X, 0).set_sub_matrix(S(Matrix<2 CM 2 CM T>, 1), c.idx(2, M - 1), c.idx(3, N - 1)); } END
    OP(p + "sum_rows") { Matrix<M / 2, N, T> r; PRE(r); S(X, 0).sum_rows(r); c.out(r); } END
    OP(p + "sum_columns") { Matrix<M, N / 2, T> r; PRE(r); S(X, 0).sum_columns(r); c.out(r); } END
    OP(p + "set_zero_functor") { vmml::set_to_zero_functor<X>()(W(X, 0)); } END
    OP(p + "rows_functor") { vmml::matrix_equals_allow_inverted_rows<X> f; c.flag(f(S(X, 0), S(X, 1))); c.flag(f(S(X, 0), S(X, 1), c.num(2))); } END
    OP(p + "columns_functor") { vmml::matrix_equals_allow_inverted_columns<X> f; c.flag(f(S(X, 0), S(X, 1))); c.flag(f(S(X, 0), S(X, 1), c.num(2))); } END
    OP(p + "equals_functor") { Near<T> f; c.flag(S(X, 0).equals(S(X, 1), f)); } END
    if (!is_int<T>::v) {
        OP(p + "set_dct") { W(X, 0).set_dct(); } END
        OP(p + "quantize") { Matrix<M, N, unsigned char> r; T lo, hi; PRE(lo); PRE(hi); PRE(r); S(X, 0).quantize(r, lo, hi); c.bytes(r.array); c.out(lo); c.out(hi); } END
        OP(p + "quantize_to") { Matrix<M, N, short> r; PRE(r); S(X, 0).quantize_to(r, T(-3), T(5)); c.bytes(r.array); } END
        OP(p + "dequantize") { Matrix<M, N, unsigned char> s; const X& from = S(X, 0); { sim::Pause q; for (size_t i = 0; i < M * N; ++i) s.array[i] = (unsigned char)(from.array[i] * 8); }
            Matrix<M, N, float> f; PRE(f); s.dequantize(f, -2.f, 3.f); c.bytes(f.array); } END
        OP(p + "dequantize_signed") { Matrix<M, N, short> s; const X& from = S(X, 0); { sim::Pause q; for (size_t i = 0; i < M * N; ++i) { const T v = from.array[i]; s.array[i] = v > -30 && v < 30 ? short(v * 1000) : short(i); } }
            Matrix<M, N, float> f; PRE(f); s.dequantize(f, -2.f, 3.f); c.bytes(f.array); } END
    }
}
} // namespace conc
#endif
