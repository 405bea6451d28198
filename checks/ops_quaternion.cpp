#include "conc.hpp"
namespace conc {
template <class T> void reg_quaternion(Table<T>& t) {
    typedef Quaternion<T> Q; typedef Vector<3, T> V3; typedef Vector<4, T> V4; typedef Matrix<3, 3, T> M33; typedef Matrix<4, 4, T> M44;
    OP("q.default") { W(Q, 0) = Q(); } END
    OP("q.ctor") { W(Q, 0) = Q(c.num(1), c.num(2), c.num(3), c.num(4)); } END
    OP("q.ctor_v_w") { W(Q, 0) = Q(S(V3, 1), c.num(2)); } END
    OP("q.ctor_v") { W(Q, 0) = Q(S(V3, 1)); } END
    OP("q.ctor_m3") { W(Q, 0) = Q(S(M33, 1)); } END
    OP("q.ctor_m4") { W(Q, 0) = Q(S(M44, 1)); } END
    OP("q.ctor_copy") { Q q(S(Q, 1)); W(Q, 0) = q; } END
    OP("q.zero") { W(Q, 0).zero(); } END
    OP("q.identity") { W(Q, 0).identity(); } END
    OP("q.set_m3") { W(Q, 0).set(S(M33, 1)); } END
    OP("q.set_m4") { W(Q, 0).set(S(M44, 1)); } END
    OP("q.set4") { W(Q, 0).set(c.num(1), c.num(2), c.num(3), c.num(4)); } END
    OP("q.set_v_w") { W(Q, 0).set(MUT(V3, 1), c.num(2)); } END
    OP("q.iter_set") { const V4& v = S(V4, 1); W(Q, 0).iter_set(v.begin(), v.end()); } END
    OP("q.call_write") { D(Q, 0)(c.idx(1, 4)) = c.num(2); } END
    OP("q.at_write") { D(Q, 0).at(c.idx(1, 4)) = c.num(2); } END
    OP("q.at") { c.out(S(Q, 0).at(c.idx(1, 4))); c.out(S(Q, 0)(c.idx(2, 4))); } END
    OP("q.xyzw") { const Q& q = S(Q, 0); c.out(q.x()); c.out(q.y()); c.out(q.z()); c.out(q.w()); } END
    OP("q.xyzw_write") { Q& q = D(Q, 0); q.x() = c.num(1); q.w() = c.num(2); } END
    OP("q.find") { const Q& q = S(Q, 0); c.out(q.find_min()); c.out(q.find_max()); c.cn(q.find_min_index()); c.cn(q.find_max_index()); } END
    OP("q.eq_s") { c.flag(S(Q, 0) == c.num(1)); c.flag(S(Q, 0) != c.num(1)); } END
    OP("q.eq") { c.flag(S(Q, 0) == S(Q, 1)); } END
    OP("q.ne") { c.flag(S(Q, 0) != S(Q, 1)); } END
    OP("q.eq_v") { c.flag(S(Q, 0) == S(V4, 1)); c.flag(S(Q, 0) != S(V4, 1)); } END
    OP("q.is_akin") { c.flag(MUT(Q, 0).is_akin(S(Q, 1))); c.flag(MUT(Q, 0).is_akin(S(Q, 2), c.num(3))); } END
    OP("q.conjugate") { D(Q, 0).conjugate(); } END
    OP("q.get_conjugate") { W(Q, 0) = S(Q, 1).get_conjugate(); } END
    OP("q.abs") { c.out(S(Q, 0).abs()); } END
    OP("q.squared_abs") { c.out(S(Q, 0).squared_abs()); } END
    OP("q.normalize") { c.out(D(Q, 0).normalize()); } END
    OP("q.get_normalized") { W(Q, 0) = S(Q, 1).get_normalized(); } END
    OP("q.minus") { W(Q, 0) = -S(Q, 1); } END
    OP("q.assign") { W(Q, 0) = S(Q, 1); } END
    OP("q.assign_v") { W(Q, 0) = S(V4, 1); } END
    OP("q.add") { W(Q, 0) = S(Q, 1) + S(Q, 2); } END
    OP("q.sub") { W(Q, 0) = S(Q, 1) - S(Q, 2); } END
    OP("q.mul") { W(Q, 0) = S(Q, 1) * S(Q, 2); } END
    OP("q.add_in") { D(Q, 0) += S(Q, 1); } END
    OP("q.sub_in") { D(Q, 0) -= S(Q, 1); } END
    OP("q.mul_in") { D(Q, 0) *= S(Q, 1); } END
    OP("q.mul_s") { W(Q, 0) = S(Q, 1) * c.num(2); } END
    OP("q.div_s") { W(Q, 0) = S(Q, 1) / c.nz(2); } END
    OP("q.mul_s_in") { D(Q, 0) *= c.num(1); } END
    OP("q.div_s_in") { D(Q, 0) /= c.nz(1); } END
    OP("q.div_maybe_zero") { W(Q, 0) = S(Q, 1) / c.num(2); } END
    OP("q.add_v") { W(Q, 0) = S(Q, 1) + S(V3, 2); } END
    OP("q.sub_v") { W(Q, 0) = S(Q, 1) - S(V3, 2); } END
    OP("q.mul_v") { W(Q, 0) = S(Q, 1) * S(V3, 2); } END
    OP("q.add_v_in") { D(Q, 0) += S(V3, 1); } END
    OP("q.sub_v_in") { D(Q, 0) -= S(V3, 1); } END
    OP("q.mul_v_in") { D(Q, 0) *= S(V3, 1); } END
    OP("q.cross") { W(V3, 0) = S(Q, 1).cross(S(Q, 2)); } END
    OP("q.dot") { c.out(S(Q, 0).dot(S(Q, 1))); c.out(Q::dot(S(Q, 2), S(Q, 3))); } END
    OP("q.inverse") { W(Q, 0) = MUT(Q, 1).inverse(); } END
    OP("q.normal") { D(Q, 0).normal(SX(Q, 1, 0), SX(Q, 2, 0), SX(Q, 3, 0), SX(Q, 4, 0)); } END
    OP("q.normal3") { W(Q, 0) = MUT(Q, 1).normal(S(Q, 2), S(Q, 3), S(Q, 4)); } END
    OP("q.slerp") { W(Q, 0) = Q::slerp(c.num(1), S(Q, 2), S(Q, 3)); } END
    OP("q.slerp_eps") { W(Q, 0) = Q::slerp(c.num(1), S(Q, 2), S(Q, 3), T(1e-4)); } END
    OP("q.rotation_matrix") { W(M33, 0) = S(Q, 1).get_rotation_matrix(); } END
    OP("q.rotation_matrix3") { S(Q, 1).get_rotation_matrix(W(M33, 0)); } END
    OP("q.rotation_matrix4") { S(Q, 1).get_rotation_matrix(D(M44, 0)); } END
    OP("q.there_and_back") { M33 m = S(Q, 1).get_rotation_matrix(); W(Q, 0).set(m); } END
}
#ifdef TYPE
template void reg_quaternion<TYPE>(Table<TYPE>&);
#endif
}
