#include "conc.hpp"
namespace conc {
template <class T, size_t M> struct Small { static void reg(Table<T>& t) {
    typedef Matrix<M, M, T> X;
    const std::string p = "m" + std::to_string(M) + std::to_string(M) + ".";
    OP(p + "positive_definite") { c.flag(vmml::is_positive_definite(S(X, 0))); c.flag(vmml::is_positive_definite(S(X, 1), c.num(2))); } END
} };
template <class T, size_t M> void square(Table<T>& t) {
    typedef Matrix<M, M, T> X; typedef Vector<M, T> V;
    const std::string p = "m" + std::to_string(M) + std::to_string(M) + ".";
    OP(p + "multiply") { W(X, 0).multiply(SX(X, 1, 0), SX(X, 2, 0)); } END
    OP(p + "mul") { W(X, 0) = S(X, 1) * S(X, 2); } END
    OP(p + "mul_in") { D(X, 0) *= S(X, 1); } END
    OP(p + "convolve2") { D(X, 0).convolve(S(Matrix<2 CM 2 CM T>, 1)); } END
    OP(p + "convolve3") { D(X, 0).convolve(S(Matrix<3 CM 3 CM T>, 1)); } END
    OP(p + "diag") { W(X, 0).diag(S(V, 1)); } END
    OP(p + "transpose_sq") { SX(X, 1, 0).transpose_to(W(X, 0)); } END
    OP(p + "det") { c.out(S(X, 0).det()); } END
    OP(p + "det_free") { c.out(vmml::compute_determinant(S(X, 0))); } END
    OP(p + "adjugate") { SX(X, 1, 0).get_adjugate(W(X, 0)); } END
    OP(p + "cofactors") { SX(X, 1, 0).get_cofactors(W(X, 0)); } END
    OP(p + "minor") { Matrix<M - 1, M - 1, T> r; PRE(r); c.out(S(X, 0).get_minor(r, c.idx(1, M), c.idx(2, M))); c.out(r); } END
    OP(p + "identity_free") { vmml::identity(W(X, 0)); } END
    OP(p + "identity_functor") { vmml::set_to_identity_functor<X>()(W(X, 0)); } END
    OP(p + "initialized") { W(X, 0) = X::template get_initialized_matrix<vmml::set_to_identity_functor<X> >(); } END
    OP(p + "covariance_sq") { SX(X, 1, 0).symmetric_covariance(W(X, 0)); } END
    if (!is_int<T>::v) {
        OP(p + "inverse") { X& x = W(X, 0); c.result(SX(X, 1, 0).inverse(x), x); } END
        OP(p + "inverse_tol") { X& x = W(X, 0); c.result(SX(X, 1, 0).inverse(x, T(0.5)), x); } END
        OP(p + "inverse_free") { X& x = W(X, 0); c.result(vmml::compute_inverse(SX(X, 1, 0), x), x); } END
        OP(p + "qr") { X q, r; PRE(q); PRE(r); vmml::qr_decompose_gram_schmidt(S(X, 0), q, r); c.out(q); c.out(r); } END
    }
}
template <class T> void four(Table<T>& t) {
    typedef Matrix<4, 4, T> X; typedef Vector<3, T> V3;
    OP("m44.tensor3") { W(X, 0).tensor(S(V3, 1), S(V3, 2)); } END
    OP("m44.mul_v3") { V3 r = S(X, 0) * S(V3, 1); c.out(r); } END
    OP("m44.rotate") { c.out(D(X, 0).rotate(c.num(1), S(V3, 2))); } END
    OP("m44.rotate_x") { c.out(D(X, 0).rotate_x(c.num(1))); } END
    OP("m44.rotate_y") { c.out(D(X, 0).rotate_y(c.num(1))); } END
    OP("m44.rotate_z") { c.out(D(X, 0).rotate_z(c.num(1))); } END
    OP("m44.pre_rotate_x") { c.out(D(X, 0).pre_rotate_x(c.num(1))); } END
    OP("m44.pre_rotate_y") { c.out(D(X, 0).pre_rotate_y(c.num(1))); } END
    OP("m44.pre_rotate_z") { c.out(D(X, 0).pre_rotate_z(c.num(1))); } END
    OP("m44.scale3") { T s[3] = {c.num(1), c.num(2), c.num(3)}; D(X, 0).scale(s); } END
    OP("m44.scale_xyz") { D(X, 0).scale(c.num(1), c.num(2), c.num(3)); } END
    OP("m44.scale_v") { D(X, 0).scale(S(V3, 1)); } END
    OP("m44.scale_translation") { D(X, 0).scale_translation(S(V3, 1)); } END
    OP("m44.scale_translation3") { T s[3] = {c.num(1), c.num(2), c.num(3)}; D(X, 0).scale_translation(s); } END
    OP("m44.set_translation") { D(X, 0).set_translation(S(V3, 1)); } END
    OP("m44.set_translation3") { T s[3] = {c.num(1), c.num(2), c.num(3)}; D(X, 0).set_translation(s); } END
    OP("m44.set_translation_xyz") { D(X, 0).set_translation(c.num(1), c.num(2), c.num(3)); } END
    OP("m44.get_translation") { V3 r = S(X, 0).get_translation(); c.out(r); } END
    OP("m44.get_translation_to") { S(X, 0).get_translation(W(V3, 1)); } END
    OP("m44.xyz") { X& x = D(X, 0); c.out(x.x()); x.y() = c.num(1); x.z() = c.num(2); } END
    OP("m44.create_translation") { W(X, 0) = vmml::create_translation(S(V3, 1)); } END
    OP("m44.create_rotation") { W(X, 0) = vmml::create_rotation(c.num(1), S(V3, 2)); } END
    OP("m44.create_scaling") { W(X, 0) = vmml::create_scaling(S(V3, 1)); } END
    OP("m44.create_scaling_s") { W(X, 0) = vmml::create_scaling(c.num(1)); } END
    OP("m44.apply_translation") { vmml::apply_translation(D(X, 0), c.num(1), c.num(2), c.num(3)); } END
    OP("m44.apply_rotation") { vmml::apply_rotation(D(X, 0), c.num(1), c.num(2), c.num(3), c.num(4)); } END
}
template <class T> void mixed(Table<T>& t) {
    typedef Matrix<2, 2, T> M22; typedef Matrix<3, 3, T> M33; typedef Matrix<4, 4, T> M44; typedef Matrix<3, 4, T> M34; typedef Matrix<4, 3, T> M43;
    OP("m33.multiply_rect") { W(M33, 0).multiply(S(M34, 1), S(M43, 2)); } END
    OP("m44.multiply_rect") { W(M44, 0).multiply(S(M43, 1), S(M34, 2)); } END
    OP("m34.multiply_free") { vmml::multiply(S(M33, 1), SX(M34, 2, 0), D(M34, 0)); } END
    OP("m34.mul_rect") { W(M33, 0) = S(M34, 1) * S(M43, 2); } END
    OP("m43.mul_rect") { W(M44, 0) = S(M43, 1) * S(M34, 2); } END
    OP("m34.transpose") { S(M43, 1).transpose_to(W(M34, 0)); } END
    OP("m43.transpose") { S(M34, 1).transpose_to(W(M43, 0)); } END
    OP("direct_sum") { W(M44, 0).direct_sum(S(M22, 1), S(M22, 2)); } END
    OP("direct_sum64") { Matrix<6, 6, T> r; PRE(r); r.direct_sum(S(M22, 0), S(M44, 1)); c.out(r); } END
    OP("kronecker44") { S(M22, 1).kronecker_product(S(M22, 2), W(M44, 0)); } END
    OP("kronecker66") { Matrix<6, 6, T> r; PRE(r); S(M22, 0).kronecker_product(S(M33, 1), r); c.out(r); } END
    OP("m44.resize") { D(M44, 0) = S(M33, 1); D(M33, 2) = S(M44, 3); } END
    OP("m44.sub3") { M33 r = S(M44, 0).template get_sub_matrix<3, 3>(c.idx(1, 2), c.idx(2, 2)); c.out(r); D(M44, 3).set_sub_matrix(S(M33, 4), c.idx(1, 2), c.idx(2, 2)); } END
    if (!is_int<T>::v) {
        OP("m43.qr") { M44 q; M33 r; PRE(q); PRE(r); vmml::qr_decompose_gram_schmidt(S(M43, 0), q, r); c.out(q); c.out(r); } END
        OP("m44.inverse_twice") { M44 a, b; c.flag(S(M44, 0).inverse(a)); c.flag(a.inverse(b)); c.out(a); c.out(b); } END
    }
}
template <class T> void reg_square(Table<T>& t) {
    Small<T, 3>::reg(t);
    square<T, 2>(t); square<T, 3>(t); square<T, 4>(t);
    if (!is_int<T>::v) four<T>(t);
    mixed<T>(t);
}
#ifdef TYPE
template void reg_square<TYPE>(Table<TYPE>&);
#endif
}
