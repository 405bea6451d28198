#include "shape.hpp"
namespace conc {
// more than a page or a small stack buffer; kept in the program's own locals
template <class T> void huge(Table<T>& t) {
    typedef Matrix<40, 40, T> X; typedef Matrix<40, 24, T> Y; typedef Matrix<24, 40, T> Z; typedef Vector<40, T> V;
    const std::string p = "m4040.";
    OP(p + "default") { X x; c.out(x); X y(x); c.flag(x == y); } END
    OP(p + "mul") { LOC(X, x, 0); LOC(X, y, 1); X r(x * y); c.out(r); } END
    OP(p + "mul_in") { LOC(X, x, 0); LOC(X, y, 1); x *= y; c.out(x); } END
    OP(p + "multiply") { LOC(Y, x, 0); LOC(Z, y, 1); X r; PRE(r); r.multiply(x, y); c.out(r); } END
    OP(p + "mul_rect") { LOC(Y, x, 0); LOC(Z, y, 1); c.out(x * y); } END
    OP(p + "mul_v") { LOC(X, x, 0); LOC(V, v, 1); V r = x * v; c.out(r); } END
    OP(p + "arith") { LOC(X, x, 0); LOC(X, y, 1); c.out(x + y); c.out(x - y); x += y; x -= c.num(2); x *= c.num(3); x /= c.nz(4); c.out(x); x.multiply_piecewise(y); c.out(-x); } END
    OP(p + "eq") { LOC(X, x, 0); LOC(X, y, 1); c.flag(x == y); c.flag(x != y); c.flag(x.equals(y, c.num(2))); } END
    OP(p + "transpose") { LOC(Y, x, 0); Z r; PRE(r); x.transpose_to(r); c.out(r); LOC(X, y, 1); X s; PRE(s); y.transpose_to(s); c.out(s); } END
    OP(p + "covariance") { LOC(Y, x, 0); X r; PRE(r); x.symmetric_covariance(r); c.out(r); } END
    OP(p + "tensor") { LOC(V, v, 0); LOC(V, u, 1); X r; PRE(r); r.tensor(v, u); c.out(r); } END
    OP(p + "diag") { LOC(V, v, 0); X r; PRE(r); r.diag(v); c.out(r); } END
    OP(p + "convolve") { LOC(X, x, 0); Matrix<3, 3, T> k(S(Matrix<3 CM 3 CM T>, 1)); x.convolve(k); c.out(x); } END
    OP(p + "kronecker") { LOC(Matrix<8 CM 6 CM T>, x, 0); LOC(Matrix<5 CM 4 CM T>, y, 1); Y r; PRE(r); x.kronecker_product(y, r); c.out(r); } END
    OP(p + "khatri_rao") { LOC(Matrix<8 CM 24 CM T>, x, 0); LOC(Matrix<5 CM 24 CM T>, y, 1); Y r; PRE(r); x.khatri_rao_product(y, r); c.out(r); } END
    OP(p + "direct_sum") { LOC(Matrix<16 CM 16 CM T>, x, 0); LOC(Matrix<24 CM 24 CM T>, y, 1); X r; PRE(r); r.direct_sum(x, y); c.out(r); } END
    OP(p + "sub") { LOC(X, x, 0); Matrix<20, 30, T> r = x.template get_sub_matrix<20, 30>(c.idx(1, 20), c.idx(2, 10)); c.out(r); x.set_sub_matrix(r, c.idx(3, 20), c.idx(4, 10)); c.out(x); } END
    OP(p + "rows") { LOC(X, x, 0); V v = x.get_row(c.idx(1, 40)); x.set_column(c.idx(2, 40), v); v = x.get_column(c.idx(3, 40)); x.set_row(c.idx(4, 40), v); c.out(x); } END
    OP(p + "assign_vector") { LOC(X, x, 0); std::vector<T> v(x.begin(), x.end()); X y; PRE(y); y = v; c.out(y); X z; PRE(z); z.set(v.begin(), v.end()); c.out(z); } END
    OP(p + "resize") { LOC(X, x, 0); Matrix<41, 39, T> y; y.zero(); y = x; c.out(y); Matrix<30, 30, T> z(x); c.out(z); } END
    OP(p + "convert") { LOC(X, x, 0); Matrix<40, 40, double> y(x); X z; z.cast_from(y); c.out(z); c.bytes(y.array); } END
    OP(p + "reduce") { LOC(X, x, 0); V r; PRE(r); x.columnwise_sum(r); c.out(r); c.put(x.sum_elements()); c.put(x.frobenius_norm()); c.put(x.p_norm(3.0)); c.out(x.get_min()); c.out(x.get_abs_max()); c.cn(x.nnz()); } END
    OP(p + "sums") { LOC(X, x, 0); Matrix<20, 40, T> r; PRE(r); x.sum_rows(r); c.out(r); Matrix<40, 20, T> s; PRE(s); x.sum_columns(s); c.out(s); } END
    OP(p + "fill") { X x; PRE(x); x = c.num(0); x.threshold(c.num(1)); c.out(x); x.zero(); c.out(x); vmml::identity(x); c.out(x); } END
    OP(p + "functors") { LOC(X, x, 0); LOC(X, y, 1); vmml::matrix_equals_allow_inverted_rows<X> f; c.flag(f(x, y)); c.flag(f(x, x)); vmml::matrix_equals_allow_inverted_columns<X> g; c.flag(g(x, y)); X z; PRE(z); vmml::set_to_identity_functor<X>()(z); c.out(z); } END
    if (!is_int<T>::v) {
        OP(p + "set_dct") { X x; PRE(x); x.set_dct(); c.out(x); } END
        OP(p + "quantize") { LOC(X, x, 0); Matrix<40, 40, unsigned char> r; T lo, hi; PRE(lo); PRE(hi); PRE(r); x.quantize(r, lo, hi); c.bytes(r.array); c.out(lo); c.out(hi);
            Matrix<40, 40, float> f; PRE(f); r.dequantize(f, -2.f, 3.f); c.bytes(f.array); } END
        OP(p + "qr") { LOC(Matrix<14 CM 14 CM T>, x, 0); Matrix<14, 14, T> q, r; PRE(q); PRE(r); vmml::qr_decompose_gram_schmidt(x, q, r); c.out(q); c.out(r); } END
    }
}
// larger than a few registers or a cache line
template <class T> void reg_big(Table<T>& t) {
    shape<T, 12, 10>(t);
    huge<T>(t);
    typedef Matrix<10, 10, T> X; typedef Vector<10, T> V;
    const std::string p = "m1010.";
    OP(p + "default") { W(X, 0) = X(); } END
    OP(p + "assign") { W(X, 0) = S(X, 1); } END
    OP(p + "call_write") { D(X, 0)(c.idx(1, 10), c.idx(2, 10)) = c.num(3); } END
    OP(p + "add") { W(X, 0) = S(X, 1) + S(X, 2); } END
    OP(p + "eq") { c.flag(S(X, 0) == S(X, 1)); c.flag(S(X, 0).equals(S(X, 1), c.num(2))); } END
    OP(p + "mul_v") { V r = S(X, 0) * S(V, 1); c.out(r); } END
    OP(p + "multiply") { W(X, 0).multiply(SX(X, 1, 0), SX(X, 2, 0)); } END
    OP(p + "mul") { W(X, 0) = S(X, 1) * S(X, 2); } END
    OP(p + "mul_in") { D(X, 0) *= S(X, 1); } END
    OP(p + "convolve3") { D(X, 0).convolve(S(Matrix<3 CM 3 CM T>, 1)); } END
    OP(p + "diag") { W(X, 0).diag(S(V, 1)); } END
    OP(p + "transpose_sq") { SX(X, 1, 0).transpose_to(W(X, 0)); } END
    OP(p + "covariance_sq") { SX(X, 1, 0).symmetric_covariance(W(X, 0)); } END
    OP(p + "identity_free") { vmml::identity(W(X, 0)); } END
    OP(p + "initialized") { W(X, 0) = X::template get_initialized_matrix<vmml::set_to_identity_functor<X> >(); } END
    OP(p + "mul_s") { W(X, 0) = MUT(X, 1) * c.num(2); } END
    OP(p + "sub9") { Matrix<9, 9, T> a = S(X, 1).template get_sub_matrix<9, 9>(c.idx(2, 2), c.idx(3, 2)); c.out(a); } END
    if (!is_int<T>::v) {
        OP(p + "qr") { X q, r; PRE(q); PRE(r); vmml::qr_decompose_gram_schmidt(S(X, 0), q, r); c.out(q); c.out(r); } END
    }
    OP("m1210.multiply") { Matrix<12, 10, T>& x = W(Matrix<12 CM 10 CM T>, 0); x.multiply(SX(Matrix<12 CM 10 CM T>, 1, 0), S(X, 2)); } END
}
#ifdef TYPE
template void reg_big<TYPE>(Table<TYPE>&);
#endif
}
