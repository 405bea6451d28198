#include "conc.hpp"
namespace conc {
template <class T, size_t M> void any(Table<T>& t) {
    typedef Vector<M, T> V;
    const std::string p = "v" + std::to_string(M) + ".";
    OP(p + "default") { W(V, 0) = V(); } END
    OP(p + "ctor_fill") { W(V, 0) = V(c.num(1)); } END
    OP(p + "ctor_array") { W(V, 0) = V(S(V, 1).array); } END
    OP(p + "ctor_copy") { V v(S(V, 1)); W(V, 0) = v; } END
    OP(p + "ctor_convert") { Vector<M, double> u(S(V, 1)); W(V, 0) = V(u); } END
    OP(p + "assign_convert") { Vector<M, float> u(S(V, 1)); W(V, 0) = u; } END
    OP(p + "cast_from") { Vector<M, float> u(S(V, 1)); W(V, 0).cast_from(u); } END
    OP(p + "iterate") { const V& v = S(V, 0); T s = 0; for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) s = s * 3 + *i; c.out(s); } END
    OP(p + "iterate_write") { V& v = D(V, 0); T s = c.num(1); for (typename V::iterator i = v.begin(); i != v.end(); ++i) *i = s; } END
    OP(p + "pointer") { const V& v = S(V, 0); const T* q = v; c.out(q[c.idx(1, M)]); } END
    OP(p + "pointer_write") { V& v = D(V, 0); T* q = v; q[c.idx(1, M)] = c.num(2); } END
    OP(p + "call") { const V& v = S(V, 0); c.out(v(c.idx(1, M))); } END
    OP(p + "at") { const V& v = S(V, 0); c.out(v.at(c.idx(1, M))); } END
    OP(p + "call_write") { D(V, 0)(c.idx(1, M)) = c.num(2); } END
    OP(p + "at_write") { D(V, 0).at(c.idx(1, M)) = c.num(2); } END
    OP(p + "eq") { c.flag(S(V, 0) == S(V, 1)); } END
    OP(p + "ne") { c.flag(S(V, 0) != S(V, 1)); } END
    OP(p + "equals") { c.flag(S(V, 0).equals(S(V, 1))); c.flag(S(V, 0).equals(S(V, 2), c.num(3))); } END
    OP(p + "less") { c.flag(S(V, 0) < S(V, 1)); } END
    OP(p + "assign_array") { W(V, 0) = S(V, 1).array; } END
    OP(p + "assign_fill") { c.out(T(W(V, 0) = c.num(1))); } END
    OP(p + "assign") { W(V, 0) = S(V, 1); } END
    OP(p + "mul") { W(V, 0) = S(V, 1) * S(V, 2); } END
    OP(p + "div") { W(V, 0) = S(V, 1) / c.divisor(S(V, 2)); } END
    OP(p + "add") { W(V, 0) = S(V, 1) + S(V, 2); } END
    OP(p + "sub") { W(V, 0) = S(V, 1) - S(V, 2); } END
    OP(p + "mul_in") { D(V, 0) *= S(V, 1); } END
    OP(p + "div_in") { D(V, 0) /= c.divisor(S(V, 1)); } END
    OP(p + "add_in") { D(V, 0) += S(V, 1); } END
    OP(p + "sub_in") { D(V, 0) -= S(V, 1); } END
    OP(p + "mul_s") { W(V, 0) = S(V, 1) * c.num(2); } END
    OP(p + "div_s") { W(V, 0) = S(V, 1) / c.nz(2); } END
    OP(p + "add_s") { W(V, 0) = S(V, 1) + c.num(2); } END
    OP(p + "sub_s") { W(V, 0) = S(V, 1) - c.num(2); } END
    OP(p + "mul_s_in") { D(V, 0) *= c.num(1); } END
    OP(p + "div_s_in") { D(V, 0) /= c.nz(1); } END
    OP(p + "add_s_in") { D(V, 0) += c.num(1); } END
    OP(p + "sub_s_in") { D(V, 0) -= c.num(1); } END
    OP(p + "s_mul") { W(V, 0) = c.num(2) * S(V, 1); } END
    OP(p + "minus") { W(V, 0) = -S(V, 1); } END
    OP(p + "negate") { c.out(D(V, 0).negate()); } END
    OP(p + "set_fill") { W(V, 0).set(c.num(1)); } END
    OP(p + "set_other") { D(V, 0).set(S(Vector<2 CM T>, 1)); D(V, 2).set(S(Vector<7 CM T>, 3)); } END
    OP(p + "iter_set") { const V& s = SX(V, 1, 0); W(V, 0).iter_set(s.begin(), s.end()); } END
    OP(p + "iter_set_nested") {
        typedef Calling<T CM SetVector<T CM M> > I;
        const V& s = SX(V, 1, 0);
        V& v = W(V, 0);
        v.iter_set(I(s.array), I(s.array + M));
        sim::Pause q;
        for (size_t k = 0; k < M; ++k) if (!alike(v.array[k], s.array[k])) sim::violate("nested", "a vector took other values than its source gave, which uses the library itself");
    } END
    OP(p + "dot") { c.out(S(V, 0).dot(S(V, 1))); } END
    OP(p + "dot_free") { c.out(vmml::dot(S(V, 0), S(V, 1))); } END
    OP(p + "length") { c.out(S(V, 0).length()); } END
    OP(p + "squared_length") { c.out(S(V, 0).squared_length()); } END
    OP(p + "distance") { c.out(S(V, 0).distance(S(V, 1))); } END
    OP(p + "squared_distance") { c.out(S(V, 0).squared_distance(S(V, 1))); } END
    OP(p + "product") { c.out(S(V, 0).product()); } END
    OP(p + "norm") { c.put(S(V, 0).norm()); } END
    OP(p + "find_index") { const V& v = S(V, 0); c.cn(v.find_min_index()); c.cn(v.find_max_index()); } END
    OP(p + "find_abs_index") { const V& v = S(V, 0); c.cn(v.find_abs_min_index()); c.cn(v.find_abs_max_index()); } END
    OP(p + "find") { const V& v = S(V, 0); c.out(v.find_min()); c.out(v.find_max()); } END
    OP(p + "find_write") { D(V, 0).find_max() = c.num(1); D(V, 2).find_min() = c.num(3); } END
    OP(p + "clamp") { D(V, 0).clamp(); } END
    OP(p + "clamp2") { D(V, 0).clamp(T(-1), T(2)); } END
    OP(p + "is_unit") { c.flag(S(V, 0).is_unit_vector()); } END
    OP(p + "nnz") { c.cn(S(V, 0).nnz()); c.cn(V::size()); } END
    OP(p + "equals_free") { c.flag(vmml::equals(S(V, 0), S(V, 1))); } END
    OP(p + "min_free") { W(V, 0) = vmml::min(S(V, 1), S(V, 2)); } END
    OP(p + "max_free") { W(V, 0) = vmml::max(S(V, 1), S(V, 2)); } END
    OP(p + "manhattan") { c.out(vmml::manhattan(S(V, 0))); } END
    OP(p + "zero_free") { vmml::zero(W(V, 0)); } END
    OP(p + "sub_vector") { const V& v = S(V, 0); c.out(v.template get_sub_vector<2>(c.idx(1, M - 1))); } END
    OP(p + "sub_vector_write") { D(V, 0).template get_sub_vector<2>(c.idx(1, M - 1)) = S(Vector<2 CM T>, 2); } END
    if (!is_int<T>::v) {
        OP(p + "normalize") { c.out(D(V, 0).normalize()); } END
        OP(p + "normalize_free") { W(V, 0) = vmml::normalize(S(V, 1)); } END
        OP(p + "sqrt") { D(V, 0).sqrt_elementwise(); } END
        OP(p + "reciprocal") { D(V, 0).reciprocal(); } END
        OP(p + "reciprocal_safe") { D(V, 0).reciprocal_safe(); } END
        OP(p + "scale_to") { Vector<M, unsigned char> r; PRE(r); S(V, 0).scale_to(r, T(-4), T(4)); c.bytes(r.array); } END
    }
}
template <class T, size_t M> struct Acc2 { static void reg(Table<T>& t) {
    typedef Vector<M, T> V;
    const std::string p = "v" + std::to_string(M) + ".";
    OP(p + "xy") { const V& v = S(V, 0); c.out(v.x()); c.out(v.y()); c.out(v.r()); c.out(v.g()); } END
    OP(p + "xy_write") { V& v = D(V, 0); v.x() = c.num(1); v.y() = c.num(2); } END
    OP(p + "rg_write") { V& v = D(V, 0); v.r() = c.num(1); v.g() = c.num(2); } END
} };
// more than a small stack buffer; kept in the program's own locals
template <class T> void huge_vector(Table<T>& t) {
    typedef Vector<700, T> V;
    const std::string p = "v700.";
    OP(p + "arith") { LOC(V, v, 0); LOC(V, u, 1); c.out(v + u); c.out(v - u); c.out(v * u); c.out(v / c.divisor(u)); c.out(-v); } END
    OP(p + "in_place") { LOC(V, v, 0); LOC(V, u, 1); v += u; v *= u; v -= u; v /= c.divisor(u); c.out(v); } END
    OP(p + "scalars") { LOC(V, v, 0); c.out(v * c.num(1)); c.out(v / c.nz(2)); c.out(v + c.num(3)); v -= c.num(4); v /= c.nz(2); c.out(v); } END
    OP(p + "dot") { LOC(V, v, 0); LOC(V, u, 1); c.out(v.dot(u)); c.out(v.length()); c.out(v.squared_length()); c.out(v.distance(u)); c.out(v.squared_distance(u)); c.put(v.norm()); c.out(v.product()); } END
    OP(p + "compare") { LOC(V, v, 0); LOC(V, u, 1); c.flag(v == u); c.flag(v != u); c.flag(v < u); c.flag(v.equals(u, c.num(2))); } END
    OP(p + "find") { LOC(V, v, 0); c.cn(v.find_min_index()); c.cn(v.find_max_index()); c.cn(v.find_abs_min_index()); c.cn(v.find_abs_max_index()); c.out(v.find_min()); c.out(v.find_max()); c.cn(v.nnz()); } END
    OP(p + "fill") { V v; PRE(v); v.set(c.num(0)); c.out(v); v = c.num(1); v.clamp(); c.out(v); vmml::zero(v); c.out(v); } END
    OP(p + "set") { LOC(V, v, 0); V u; PRE(u); u = v.array; c.out(u); u.iter_set(v.begin(), v.end()); V w(v.array); c.flag(u == w); } END
    OP(p + "convert") { LOC(V, v, 0); Vector<700, double> u(v); V w; PRE(w); w.cast_from(u); c.out(w); w = u; c.bytes(u.array); } END
    OP(p + "free") { LOC(V, v, 0); LOC(V, u, 1); c.out(vmml::min(v, u)); c.out(vmml::max(v, u)); c.out(vmml::manhattan(v)); c.out(vmml::dot(v, u)); } END
    OP(p + "sub_vector") { LOC(V, v, 0); c.out(v.template get_sub_vector<20>(c.idx(1, 680))); } END
    if (!is_int<T>::v) {
        OP(p + "normalize") { LOC(V, v, 0); c.out(v.normalize()); c.out(v); } END
        OP(p + "elementwise") { LOC(V, v, 0); v.reciprocal_safe(); c.out(v); v.sqrt_elementwise(); c.out(v); } END
        OP(p + "scale_to") { LOC(V, v, 0); Vector<700, unsigned char> r; PRE(r); v.scale_to(r, T(-4), T(4)); c.bytes(r.array); } END
    }
}
template <class T> void reg_vector(Table<T>& t) {
    typedef Vector<2, T> V2; typedef Vector<3, T> V3; typedef Vector<4, T> V4;
    huge_vector<T>(t);
    any<T, 2>(t); any<T, 3>(t); any<T, 4>(t); any<T, 7>(t); any<T, 12>(t);
    Acc2<T, 2>::reg(t); Acc2<T, 3>::reg(t); Acc2<T, 4>::reg(t);
    OP("v3.zb") { const V3& v = S(V3, 0); c.out(v.z()); c.out(v.b()); D(V3, 1).z() = c.num(2); D(V3, 3).b() = c.num(4); } END
    OP("v4.wa") { const V4& v = S(V4, 0); c.out(v.w()); c.out(v.a()); D(V4, 1).w() = c.num(2); D(V4, 3).a() = c.num(4); } END
    OP("v2.ctor") { W(V2, 0) = V2(c.num(1), c.num(2)); W(V2, 3).set(c.num(4), c.num(5)); } END
    OP("v3.ctor") { W(V3, 0) = V3(c.num(1), c.num(2), c.num(3)); W(V3, 4).set(c.num(5), c.num(1), c.num(2)); } END
    OP("v4.ctor") { W(V4, 0) = V4(c.num(1), c.num(2), c.num(3), c.num(4)); W(V4, 5).set(c.num(1), c.num(2), c.num(5), c.num(3)); } END
    OP("v3.ctor_last") { W(V3, 0) = V3(S(V2, 1), c.num(2)); W(V3, 3).set(S(V2, 4), c.num(5)); } END
    OP("v4.ctor_last") { W(V4, 0) = V4(S(V3, 1), c.num(2)); W(V4, 3).set(S(V3, 4), c.num(5)); } END
    OP("v4.to_homogenous") { W(V4, 0) = V4(S(V3, 1)); } END
    OP("v4.assign_to_homogenous") { W(V4, 0) = S(V3, 1); } END
    OP("v3.cross") { W(V3, 0) = S(V3, 1).cross(S(V3, 2)); } END
    OP("v3.cross_in") { D(V3, 0).cross(SX(V3, 1, 0), SX(V3, 2, 0)); } END
    OP("v3.cross_free") { W(V3, 0) = vmml::cross<3>(S(V3, 1), S(V3, 2)); } END
    OP("v4.sphere_center") { const V4& v = S(V4, 0); c.out(v.template get_sub_vector<3>(c.idx(1, 2))); } END
    if (!is_int<T>::v) {
        OP("v3.from_homogenous") { W(V3, 0) = V3(S(V4, 1)); } END
        OP("v3.assign_from_homogenous") { W(V3, 0) = S(V4, 1); } END
        OP("v3.rotate") { W(V3, 0) = S(V3, 1).template rotate<T>(c.num(2), S(V3, 3)); } END
        OP("v3.compute_normal") { W(V3, 0) = S(V3, 1).compute_normal(S(V3, 2), S(V3, 3)); } END
        OP("v3.compute_normal_in") { W(V3, 0).compute_normal(SX(V3, 1, 0), SX(V3, 2, 0), SX(V3, 3, 0)); } END
        OP("v4.project_sphere") { W(V3, 0) = S(V4, 1).project_point_onto_sphere(S(V3, 2)); } END
        OP("v4.distance_sphere") { c.out(S(V4, 0).distance_to_sphere(S(V3, 1))); } END
        OP("v4.distance_plane") { c.out(S(V4, 0).distance_to_plane(S(V3, 1))); } END
        OP("v4.project_plane") { W(V3, 0) = S(V4, 1).project_point_onto_plane(S(V3, 2)); } END
        OP("v4.compute_plane") { W(V4, 0) = vmml::compute_plane(S(V3, 1), S(V3, 2), S(V3, 3)); } END
        OP("math.pythag") { c.out(vmml::math::pythag(c.num(0), c.num(1))); c.out(T(vmml::math::squared(c.num(2)))); c.out(vmml::math::sign(c.num(3), c.num(4))); } END
        OP("math.abs_cmp") { vmml::math::abs_less<T> l; vmml::math::abs_greater<T> g; c.flag(l(c.num(0), c.num(1))); c.flag(g(c.num(2), c.num(3))); } END
    }
}
#ifdef TYPE
template void reg_vector<TYPE>(Table<TYPE>&);
#endif
}
