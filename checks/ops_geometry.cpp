#include "conc.hpp"
namespace conc {
template <class T> void reg_geometry(Table<T>& t) {
    typedef Vector<2, T> V2; typedef Vector<3, T> V3; typedef Vector<4, T> V4; typedef Matrix<4, 4, T> M44;
    typedef Frustum<T> F; typedef FrustumCuller<T> U; typedef AABB<T> B; typedef Intersection<T> I;
    OP("f.default") { W(F, 0) = F(); } END
    OP("f.ctor") { W(F, 0) = F(c.num(1), c.num(2), c.num(3), c.num(4), c.num(5), T(100)); } END
    OP("f.ctor_copy") { F f(S(F, 1)); W(F, 0) = f; } END
    OP("f.ctor_convert") { Frustum<float> u(S(F, 1)); W(F, 0) = F(u); } END
    OP("f.assign_convert") { Frustum<double> u(S(F, 1)); W(F, 0) = u; } END
    OP("f.ctor_array") { W(F, 0) = F(S(F, 1).array); } END
    OP("f.assign") { W(F, 0) = S(F, 1); } END
    OP("f.set") { W(F, 0).set(c.num(1), c.num(2), c.num(3), c.num(4), c.num(5), T(50)); } END
    OP("f.set_perspective") { D(F, 0).set_perspective(c.num(1) * 20, c.num(2), c.num(3), T(200)); } END
    OP("f.compute_matrix") { W(M44, 0) = S(F, 1).compute_matrix(); } END
    OP("f.compute_matrix_to") { S(F, 1).compute_matrix(W(M44, 0)); } END
    OP("f.compute_ortho") { W(M44, 0) = S(F, 1).compute_ortho_matrix(); } END
    OP("f.compute_ortho_to") { S(F, 1).compute_ortho_matrix(W(M44, 0)); } END
    OP("f.jitter") { D(F, 0).apply_jitter(S(V2, 1)); } END
    OP("f.adjust_near") { D(F, 0).adjust_near(c.nz(1)); } END
    OP("f.planes") { const F& f = S(F, 0); c.out(f.left()); c.out(f.right()); c.out(f.bottom()); c.out(f.top()); c.out(f.near_plane()); c.out(f.far_plane()); } END
    OP("f.planes_write") { F& f = D(F, 0); f.left() = c.num(1); f.right() = c.num(2); f.bottom() = c.num(3); f.top() = c.num(4); f.near_plane() = c.num(5); f.far_plane() = T(90); } END
    OP("f.size") { const F& f = S(F, 0); c.out(f.get_width()); c.out(f.get_height()); } END

    OP("u.setup_m") { W(U, 0).setup(S(M44, 1)); } END
    OP("u.setup_f") { W(U, 0).setup(S(F, 1).compute_matrix()); } END
    OP("u.setup_default") { W(U, 0).setup(F::DEFAULT.compute_matrix()); } END
    OP("u.setup_points") { V3 p[8]; { sim::Pause q; const V3& b = S(V3, 1); const T w = T(1) + T(c.idx(2, 4)), h = T(1) + T(c.idx(3, 4)), n = b.z(), f = n - T(10);
            p[0] = V3(b.x() - w, b.y() + h, n); p[1] = V3(b.x() + w, b.y() + h, n); p[2] = V3(b.x() - w, b.y() - h, n); p[3] = V3(b.x() + w, b.y() - h, n);
            p[4] = V3(b.x() - w * 5, b.y() + h * 5, f); p[5] = V3(b.x() + w * 5, b.y() + h * 5, f); p[6] = V3(b.x() - w * 5, b.y() - h * 5, f); p[7] = V3(b.x() + w * 5, b.y() - h * 5, f); }
        W(U, 0).setup(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); } END
    OP("u.setup_any_points") { W(U, 0).setup(S(V3, 1), S(V3, 2), S(V3, 3), S(V3, 4), S(V3, 5), S(V3, 1), S(V3, 3), S(V3, 2)); } END
    OP("u.assign") { W(U, 0) = S(U, 1); } END
    OP("u.sphere") { c.cn(S(U, 0).test_sphere(S(V4, 1))); } END
    OP("u.box") { c.cn(S(U, 0).test_aabb(S(V2, 1), S(V2, 2), S(V2, 3))); } END
    OP("u.setup_sphere") { U u; u.setup(S(F, 0).compute_matrix()); c.cn(u.test_sphere(S(V4, 1))); c.bytes(u); } END
    OP("u.setup_box") { U u; u.setup(S(M44, 0)); c.cn(u.test_aabb(S(V2, 1), S(V2, 2), S(V2, 3))); c.bytes(u); } END

    OP("b.default") { W(B, 0) = B(); } END
    OP("b.ctor") { W(B, 0) = B(S(V3, 1), S(V3, 2)); } END
    OP("b.ctor_size") { W(B, 0) = B(c.num(1), c.num(2), c.num(3), c.num(4)); } END
    OP("b.assign") { W(B, 0) = S(B, 1); } END
    OP("b.is_in") { c.flag(MUT(B, 0).isIn(S(V3, 1))); } END
    OP("b.is_in2d") { c.flag(MUT(B, 0).isIn2d(S(V3, 1))); } END
    OP("b.set") { W(B, 0).set(S(V3, 1), S(V3, 2)); } END
    OP("b.set_size") { W(B, 0).set(c.num(1), c.num(2), c.num(3), c.num(4)); } END
    OP("b.set_min") { D(B, 0).setMin(S(V3, 1)); } END
    OP("b.set_max") { D(B, 0).setMax(S(V3, 1)); } END
    OP("b.get") { c.out(S(B, 0).getMin()); c.out(S(B, 0).getMax()); } END
    OP("b.get_write") { D(B, 0).getMin().x() = c.num(1); D(B, 0).getMax().y() = c.num(2); } END
    OP("b.merge") { D(B, 0).merge(S(B, 1)); } END
    OP("b.merge_point") { D(B, 0).merge(S(V3, 1)); } END
    OP("b.set_empty") { W(B, 0).setEmpty(); } END
    OP("b.is_empty") { c.flag(S(B, 0).isEmpty()); } END
    OP("b.mul") { W(B, 0) = S(B, 1) * c.num(2); } END
    OP("b.div") { W(B, 0) = S(B, 1) / c.nz(2); } END
    OP("b.add") { W(B, 0) = S(B, 1) + c.num(2); } END
    OP("b.sub") { W(B, 0) = S(B, 1) - c.num(2); } END
    OP("b.mul_in") { D(B, 0) *= c.num(1); } END
    OP("b.div_in") { D(B, 0) /= c.nz(1); } END
    OP("b.add_in") { D(B, 0) += c.num(1); } END
    OP("b.sub_in") { D(B, 0) -= c.num(1); } END
    OP("b.eq") { c.flag(S(B, 0) == S(B, 1)); c.flag(S(B, 0) != S(B, 1)); } END
    OP("b.center") { V3 r = S(B, 0).getCenter(); c.out(r); } END
    OP("b.dimension") { V3 r = S(B, 0).getDimension(); c.out(r); } END
    OP("b.unit") { W(B, 0) = B::makeUnitBox(); } END

    OP("i.sphere") { I i(S(V3, 0), S(V3, 1)); T d; PRE(d); c.result(i.test_sphere(S(V4, 3), d), d); c.out(d); } END
    OP("i.two_spheres") { I i(S(V3, 0), S(V3, 1)); T d, e; PRE(d); PRE(e); c.result(i.test_sphere(S(V4, 3), d), d); c.out(d); c.result(i.test_sphere(S(V4, 4), e), e); c.out(e); } END
    OP("i.aimed") { V3 o, dir; V4 s; { sim::Pause q; s = S(V4, 1); s.w() = T(1) + T(c.idx(2, 5)); o = S(V3, 3); dir = V3(s.x() - o.x(), s.y() - o.y(), s.z() - o.z() + T(0.25)); }
        I i(o, dir); T d; PRE(d); c.result(i.test_sphere(s, d), d); c.out(d); } END
    OP("i.grazing") { V3 o, dir; V4 s; { sim::Pause q; const V3& b = S(V3, 1); const T r = T(1) + T(c.idx(2, 3)); o = V3(b.x(), b.y() + r, b.z()); dir = V3(T(1), T(0), T(0)); s = V4(b.x() + T(5), b.y(), b.z(), r); }
        I i(o, dir); T d; PRE(d); c.result(i.test_sphere(s, d), d); c.out(d); } END
    OP("v2.poke") { D(V2, 0).at(c.idx(1, 2)) = c.num(2); } END
    OP("v3.poke") { D(V3, 0).at(c.idx(1, 3)) = c.num(2); } END
    OP("v4.poke") { D(V4, 0).at(c.idx(1, 4)) = c.num(2); } END
    OP("m44.from_frustum") { W(M44, 0) = S(F, 1).compute_matrix(); D(M44, 0)(3, 0) = c.num(2); } END
}
#ifdef TYPE
template void reg_geometry<TYPE>(Table<TYPE>&);
#endif
}
