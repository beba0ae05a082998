// Support mappings, features and topology of the primitive shapes.
#include "shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/box_shape.cpp"
#include "/repo/src/edyn/shapes/cylinder_shape.cpp"
using namespace edyn;
using namespace law;

static constexpr size_t NV = 8, NE = 12, NF = 6;

LAW(box_support, "box_shape::support_point support_projection support_point_box", "the support point is a vertex and no point of the box projects further") {
    auto he = I.a; box_shape b{he}; auto p = b.support_point(I.b);
    for (int i = 0; i < 3; ++i) { out.eq(At(p, i) * At(p, i), At(he, i) * At(he, i)); out.eq(At(p, i) * At(I.b, i), Abs(At(I.b, i)) * At(he, i)); }
    auto sp = support_point_box(he, I.b); out.eq(Dot(sp, I.b), Abs(I.b.x) * he.x + Abs(I.b.y) * he.y + Abs(I.b.z) * he.z); }
LAW(box_support_world, "box_shape::support_point(orn) support_point(pos, orn) support_projection", "the world-space forms are the transformed object-space form") {
    auto he = I.a; box_shape b{he}; auto q = unit(I.q); auto dir = Rot(q, I.b); auto l = b.support_point(I.b);
    out.eq(b.support_point(q, dir), Rot(q, l)); out.eq(b.support_point(I.c, q, dir), Add(I.c, Rot(q, l)));
    out.eq(b.support_projection(I.c, q, dir), Dot(I.c, dir) + Abs(I.b.x) * he.x + Abs(I.b.y) * he.y + Abs(I.b.z) * he.z); }
LAW(box_vertices, "box_shape::get_vertex", "eight distinct corners, also in world space") {
    box_shape b{I.a}; auto q = unit(I.q); box_shape u{vector3{1, 2, 3}};
    for (size_t i = 0; i < NV; ++i) {
        auto v = b.get_vertex(i); out.eq(v.x * v.x, I.a.x * I.a.x); out.eq(v.y * v.y, I.a.y * I.a.y); out.eq(v.z * v.z, I.a.z * I.a.z);
        out.eq(b.get_vertex(i, I.c, q), World(v, I.c, q));
        for (size_t j = 0; j < i; ++j) out.eqb(Same(u.get_vertex(i), u.get_vertex(j)), false);
    } }
LAW(box_edges, "box_shape::get_edge get_edge_index edge_indices get_box_num_features", "twelve distinct edges, each between two corners that differ in one coordinate; the index lookup inverts it in both orders") {
    box_shape b{I.a}; auto q = unit(I.q); box_shape u{vector3{1, 2, 3}};
    for (size_t i = 0; i < NE; ++i) {
        auto i0 = box_shape::edge_indices[i * 2], i1 = box_shape::edge_indices[i * 2 + 1]; auto e = b.get_edge(i);
        out.eq(e[0], b.get_vertex(i0)); out.eq(e[1], b.get_vertex(i1)); auto w = b.get_edge(i, I.c, q); out.eq(w[0], World(e[0], I.c, q)); out.eq(w[1], World(e[1], I.c, q));
        out.eqi(b.get_edge_index(i0, i1), i); out.eqi(b.get_edge_index(i1, i0), i);
        auto c = u.get_edge(i); int n = (c[0].x != c[1].x) + (c[0].y != c[1].y) + (c[0].z != c[1].z); out.eqi(n, 1);
    }
    out.eqi(get_box_num_features(box_feature::vertex), NV); out.eqi(get_box_num_features(box_feature::edge), NE); out.eqi(get_box_num_features(box_feature::face), NF);
    out.eqi(get_box_feature_num_vertices(box_feature::vertex), 1); out.eqi(get_box_feature_num_vertices(box_feature::edge), 2); out.eqi(get_box_feature_num_vertices(box_feature::face), 4); }
LAW(box_faces, "box_shape::get_face get_face_normal get_face_center get_face_basis get_face_half_extents get_vertex_index_from_face", "six faces, counter-clockwise about their outward normal, with a right-handed tangent basis whose extents match") {
    box_shape b{I.a}; auto q = unit(I.q);
    for (size_t i = 0; i < NF; ++i) {
        auto f = b.get_face(i); auto n = b.get_face_normal(i); auto w = b.get_face(i, I.c, q); vector3 c = vector3_zero; auto d = Abs(n.x) * I.a.x + Abs(n.y) * I.a.y + Abs(n.z) * I.a.z;
        out.eq(Dot(n, n), 1); out.eq(b.get_face_normal(i, q), Rot(q, n));
        for (size_t j = 0; j < 4; ++j) {
            out.eq(Dot(f[j], n), d); out.eq(w[j], World(f[j], I.c, q)); c = Add(c, f[j]); out.eq(f[j], b.get_vertex(b.get_vertex_index_from_face(i, j)));
            auto e0 = Sub(f[(j + 1) % 4], f[j]), e1 = Sub(f[(j + 2) % 4], f[(j + 1) % 4]); out.eq(Dot(e0, e1), 0);
            // Area of the rectangle, with the sign of the winding.
            out.eq(Dot(Cross(e0, e1), n), 4 * (n.x != 0 ? I.a.y * I.a.z : (n.y != 0 ? I.a.x * I.a.z : I.a.x * I.a.y)));
        }
        out.eq(Mul(c, scalar(0.25)), Mul(n, d)); out.eq(b.get_face_center(i, I.c, q), World(Mul(n, d), I.c, q));
        auto m = b.get_face_basis(i, q); vector3 cx{m.row[0].x, m.row[1].x, m.row[2].x}, cy{m.row[0].y, m.row[1].y, m.row[2].y}, cz{m.row[0].z, m.row[1].z, m.row[2].z};
        out.eq(cy, Rot(q, n)); out.eq(Cross(cx, cy), cz); out.eq(Dot(cx, cy), 0); out.eq(Dot(cx, cx), 1);
        auto lx = Rot(Conj(q), cx), lz = Rot(Conj(q), cz); auto h = b.get_face_half_extents(i);
        out.eq(h.x * h.x, lx.x * lx.x * I.a.x * I.a.x + lx.y * lx.y * I.a.y * I.a.y + lx.z * lx.z * I.a.z * I.a.z);
        out.eq(h.y * h.y, lz.x * lz.x * I.a.x * I.a.x + lz.y * lz.y * I.a.y * I.a.y + lz.z * lz.z * I.a.z * I.a.z);
        for (size_t j = 0; j < i; ++j) out.eqb(Same(n, b.get_face_normal(j)), false);
    } }
LAW(box_topology, "box_shape::get_face_edge_index get_edge_face_indices get_edge_face_normals", "every face lists the edges between its consecutive vertices; every edge lists the two faces that contain it") {
    box_shape u{vector3{1, 2, 3}}; auto q = unit(I.q);
    for (size_t i = 0; i < NF; ++i) for (size_t j = 0; j < 4; ++j) {
        auto e = u.get_face_edge_index(i, j); auto v0 = u.get_vertex_index_from_face(i, j), v1 = u.get_vertex_index_from_face(i, (j + 1) % 4);
        out.eqi(e, u.get_edge_index(v0, v1));
        auto ef = u.get_edge_face_indices(e); out.eqb(ef[0] == i || ef[1] == i, true); }
    for (size_t e = 0; e < NE; ++e) {
        auto ef = u.get_edge_face_indices(e); out.eqb(ef[0] == ef[1], false); auto v = u.get_edge(e);
        auto n = u.get_edge_face_normals(e), r = u.get_edge_face_normals(e, q);
        for (int k = 0; k < 2; ++k) { out.eq(n[k], u.get_face_normal(ef[k])); out.eq(r[k], Rot(q, n[k]));
            auto d = Abs(n[k].x) * 1 + Abs(n[k].y) * 2 + Abs(n[k].z) * 3; out.eq(Dot(v[0], n[k]), d); out.eq(Dot(v[1], n[k]), d); } } }
LAW(box_support_face, "box_shape::support_face_index", "the face whose normal is best aligned with the direction") {
    box_shape b{I.a}; auto i = b.support_face_index(I.b); auto m = Max(Abs(I.b.x), Max(Abs(I.b.y), Abs(I.b.z)));
    for (size_t k = 0; k < NF; ++k) out.eq(i == k ? Dot(b.get_face_normal(k), I.b) : m, m);
    out.eqb(i < NF, true); }
// Every octant and dominant axis of the direction, any threshold.
static inline void BoxFeature(Out &out, int ax, scalar sg, scalar s1, scalar s2, scalar thr) {
    box_shape b{vector3{1, 2, 3}}; auto dir = Local(ax, sg * 4, s1 * 1, s2 * 3); box_feature f = box_feature::vertex; size_t idx = 99; scalar proj = 0;
    b.support_feature(dir, f, idx, proj, thr);
    vector3 he{1, 2, 3}; auto m = 4 * At(he, ax) + At(he, (ax + 1) % 3) + 3 * At(he, (ax + 2) % 3);
    out.eq(proj, m); bool ok = false;
    for (size_t k = 0; k < NV; ++k) if (f == box_feature::vertex && idx == k) ok = Dot(b.get_vertex(k), dir) == m;
    for (size_t k = 0; k < NE; ++k) if (f == box_feature::edge && idx == k) { auto e = b.get_edge(k); auto p0 = Dot(e[0], dir), p1 = Dot(e[1], dir); auto l = p0 < p1 ? p0 : p1, h = p0 < p1 ? p1 : p0, d1 = 2 * At(he, (ax + 1) % 3), d2 = 6 * At(he, (ax + 2) % 3); ok = h == m && l > m - thr && l == m - (d1 < d2 ? d1 : d2); }
    if (f == box_feature::face && idx == size_t(ax * 2 + (sg < 0 ? 1 : 0))) { auto e = b.get_face(idx); ok = Dot(e[0], dir) > m - thr && Dot(e[1], dir) > m - thr && Dot(e[2], dir) > m - thr && Dot(e[3], dir) > m - thr; }
    out.eqb(ok, true);
}
#define BOXSF(AX_, SG, S1, S2) BoxFeature(out, AX_, SG, S1, S2, thr);
#define BOXSF4(AX_, SG) BOXSF(AX_, SG, 1, 1) BOXSF(AX_, SG, 1, -1) BOXSF(AX_, SG, -1, 1) BOXSF(AX_, SG, -1, -1)
LAW(box_feature_x, "box_shape::support_feature", "direction closest to the x axis: the projection is the support projection; the feature contains the support vertex, every vertex of it is within the threshold, and an edge is the best of its face") {
    scalar thr = 1 + I.s * I.s; BOXSF4(0, 1) BOXSF4(0, -1) }
LAW(box_feature_y, "box_shape::support_feature", "direction closest to the y axis: the projection is the support projection; the feature contains the support vertex, every vertex of it is within the threshold, and an edge is the best of its face") {
    scalar thr = 1 + I.s * I.s; BOXSF4(1, 1) BOXSF4(1, -1) }
LAW(box_feature_z, "box_shape::support_feature", "direction closest to the z axis: the projection is the support projection; the feature contains the support vertex, every vertex of it is within the threshold, and an edge is the best of its face") {
    scalar thr = 1 + I.s * I.s; BOXSF4(2, 1) BOXSF4(2, -1) }
LAW(box_feature_world, "box_shape::support_feature(pos, orn)", "the world-space forms classify the object-space direction and offset the projection") {
    box_shape b{vector3{1, 2, 3}}; quaternion q{0.5, -0.5, 0.5, 0.5}; vector3 dir{3, -1, 4}; auto ld = Rot(Conj(q), dir);
    box_feature f0, f1, f2; size_t i0 = 99, i1 = 99, i2 = 99; scalar p0 = 0, p1 = 0;
    b.support_feature(ld, f0, i0, p0, I.s); b.support_feature(I.c, q, I.d, dir, f1, i1, p1, I.s); b.support_feature(I.c, q, dir, f2, i2, I.s);
    out.eqi(size_t(f0), size_t(f1)); out.eqi(size_t(f0), size_t(f2)); out.eqi(i0, i1); out.eqi(i0, i2); out.eq(p1, p0 + Dot(Sub(I.c, I.d), dir)); }

#define CLOSEST(F) LAW(box_closest_##F, "box_shape::get_closest_feature_on_face", "the feature lies on the face, next to the point in every coordinate within tolerance of the border") { \
    auto he = I.a; box_shape b{he}; auto tol = I.s; constexpr int ax = F / 2, a1 = (ax + 1) % 3, a2 = (ax + 2) % 3; scalar sg = F % 2 ? -1 : 1; \
    if (he.x > 0 && he.y > 0 && he.z > 0 && tol > 0 && tol < he.x && tol < he.y && tol < he.z) { \
        auto p = Local(ax, sg * At(he, ax), I.t, I.u); auto r = b.get_closest_feature_on_face(F, p, tol); \
        auto s1 = I.t > At(he, a1) - tol ? 1 : (I.t < tol - At(he, a1) ? -1 : 0), s2 = I.u > At(he, a2) - tol ? 1 : (I.u < tol - At(he, a2) ? -1 : 0); \
        auto n = (s1 != 0) + (s2 != 0); out.eqb(r.first == (n == 2 ? box_feature::vertex : (n == 1 ? box_feature::edge : box_feature::face)), true); bool ok = n == 0 && r.second == F; \
        for (size_t k = 0; k < NV; ++k) { auto v = box_shape{vector3{1, 1, 1}}.get_vertex(k); if (n == 2 && r.second == k) ok = At(v, ax) == sg && At(v, a1) == s1 && At(v, a2) == s2; } \
        for (size_t k = 0; k < NE; ++k) { auto e = box_shape{vector3{1, 1, 1}}.get_edge(k); auto m = Add(e[0], e[1]); \
            if (n == 1 && r.second == k) ok = At(m, ax) == 2 * sg && At(m, a1) == 2 * s1 && At(m, a2) == 2 * s2; } \
        out.eqb(ok, true); } else { out.eqb(false, false); out.eqb(false, false); } }
//@law box_closest_0, "box_shape::get_closest_feature_on_face", "face +x: the feature lies on the face, next to the point"
//@law box_closest_1, "box_shape::get_closest_feature_on_face", "face -x: the feature lies on the face, next to the point"
//@law box_closest_2, "box_shape::get_closest_feature_on_face", "face +y: the feature lies on the face, next to the point"
//@law box_closest_3, "box_shape::get_closest_feature_on_face", "face -y: the feature lies on the face, next to the point"
//@law box_closest_4, "box_shape::get_closest_feature_on_face", "face +z: the feature lies on the face, next to the point"
//@law box_closest_5, "box_shape::get_closest_feature_on_face", "face -z: the feature lies on the face, next to the point"
CLOSEST(0) CLOSEST(1) CLOSEST(2) CLOSEST(3) CLOSEST(4) CLOSEST(5)

LAW(cylinder_support, "cylinder_support_point cylinder_shape::support_point", "the support point is on the rim and no point of the cylinder projects further") {
    for (int i = 0; i < 3; ++i) {
        auto l = Local(i, I.s, I.t, I.u); auto p = cylinder_support_point(I.v, I.a.x, AX[i], l); auto rr = I.t * I.t + I.u * I.u;
        out.eq(At(p, i) * I.s, Abs(I.s) * I.a.x); out.eq(Sq(p), I.v * I.v + I.a.x * I.a.x);
        if (rr > EDYN_EPSILON) out.eq(Dot(p, l), Abs(I.s) * I.a.x + I.v * std::sqrt(rr)); else out.eq(0, 0);
    } }
LAW(cylinder_support_world, "cylinder_support_point cylinder_support_projection cylinder_shape", "the world-space forms are the transformed object-space form") {
    auto q = unit(I.q);
    for (int i = 0; i < 3; ++i) {
        auto dir = I.b; auto l = Rot(Conj(q), dir); auto p = cylinder_support_point(I.v, I.a.x, AX[i], l); cylinder_shape c{I.v, I.a.x, AX[i]};
        out.eq(cylinder_support_point(I.v, I.a.x, AX[i], q, dir), Rot(q, p)); out.eq(cylinder_support_point(I.v, I.a.x, AX[i], I.c, q, dir), World(p, I.c, q));
        out.eq(c.support_point(I.c, q, dir), World(p, I.c, q)); out.eq(cylinder_support_projection(I.v, I.a.x, AX[i], I.c, q, dir), Dot(I.c, dir) + Dot(p, l)); out.eq(c.support_projection(I.c, q, dir), Dot(I.c, dir) + Dot(p, l));
    } }
LAW(cylinder_feature, "cylinder_shape::support_feature", "cap face when the cap is nearly perpendicular, side edge when the wall is, otherwise the rim of the nearer cap") {
    auto q = unit(I.q);
    for (int i = 0; i < 3; ++i) {
        auto l = Local(i, I.s, I.t, I.u); cylinder_shape c{I.v, I.a.x, AX[i]}; cylinder_feature f, g; size_t k = 0, m = 0; c.support_feature(l, f, k, I.b.x);
        auto cap = 4 * I.v * I.v * (I.t * I.t + I.u * I.u) < I.b.x * I.b.x; auto side = Abs(2 * I.a.x * I.s) < I.b.x;
        out.eqb(f == (cap ? cylinder_feature::face : (side ? cylinder_feature::side_edge : cylinder_feature::cap_edge)), true);
        if (cap || !side) out.eqi(k, I.s > 0 ? 0 : 1); else out.eqi(0, 0);
    } 
    cylinder_shape c{I.v, I.a.x, coordinate_axis::y}; cylinder_feature f, g; size_t k = 0, m = 0; c.support_feature(Rot(Conj(q), I.c), f, k, I.b.x); c.support_feature(I.d, q, I.c, g, m, I.b.x); out.eqi(size_t(f), size_t(g)); out.eqi(k, m); }
LAW(axial_vertices, "cylinder_shape::get_vertices capsule_shape::get_vertices", "centers of the two caps, the first along the positive axis") {
    auto q = unit(I.q);
    for (int i = 0; i < 3; ++i) {
        cylinder_shape c{I.v, I.s, AX[i]}; capsule_shape d{I.v, I.s, AX[i]}; auto x = c.get_vertices(I.a, q), y = d.get_vertices(I.a, q);
        out.eq(x[0], World(Mul(Axis(i), I.s), I.a, q)); out.eq(x[1], World(Mul(Axis(i), -I.s), I.a, q)); out.eq(y[0], x[0]); out.eq(y[1], x[1]);
    } }
LAW(capsule_support, "capsule_support_projection", "farther end plus the radius") {
    out.eq(capsule_support_projection(I.a, I.b, I.s, I.c), Max(Dot(I.a, I.c), Dot(I.b, I.c)) + I.s);
    out.eq(capsule_support_projection(std::array<vector3, 2>{I.a, I.b}, I.s, I.c), Max(Dot(I.a, I.c), Dot(I.b, I.c)) + I.s); }
LAW(cloud_support, "point_cloud_support_point point_cloud_support_projection", "the farthest of the points, and its projection") {
    std::vector<vector3> v{I.a, I.b, I.c, I.d}; auto m = Max(Max(Dot(I.a, I.e), Dot(I.b, I.e)), Max(Dot(I.c, I.e), Dot(I.d, I.e)));
    auto p = point_cloud_support_point(v, I.e); out.eq(Dot(p, I.e), m); out.eq(point_cloud_support_projection(v, I.e), m);
    out.eqb(Same(p, I.a) || Same(p, I.b) || Same(p, I.c) || Same(p, I.d), true); }

LAW(tri_basic, "get_triangle_edges get_triangle_feature_num_vertices get_triangle_feature_num_edges", "edges run around the triangle; feature sizes") {
    auto e = get_triangle_edges({I.a, I.b, I.c}); out.eq(e[0], Sub(I.b, I.a)); out.eq(e[1], Sub(I.c, I.b)); out.eq(e[2], Sub(I.a, I.c));
    out.eqi(get_triangle_feature_num_vertices(triangle_feature::vertex), 1); out.eqi(get_triangle_feature_num_vertices(triangle_feature::edge), 2); out.eqi(get_triangle_feature_num_vertices(triangle_feature::face), 3);
    out.eqi(get_triangle_feature_num_edges(triangle_feature::vertex), 0); out.eqi(get_triangle_feature_num_edges(triangle_feature::edge), 1); out.eqi(get_triangle_feature_num_edges(triangle_feature::face), 3); }
LAW(tri_support, "get_triangle_support_point get_triangle_support_projection", "the farthest vertex, and its projection") {
    triangle_vertices v{I.a, I.b, I.c}; auto m = Max(Dot(I.a, I.d), Max(Dot(I.b, I.d), Dot(I.c, I.d)));
    out.eq(Dot(get_triangle_support_point(v, I.d), I.d), m); out.eq(get_triangle_support_projection(v, I.d), m); auto p = get_triangle_support_point(v, I.d); out.eqb(Same(p, I.a) || Same(p, I.b) || Same(p, I.c), true); }
LAW(tri_support_feature, "get_triangle_support_feature", "the greatest projection; the feature contains the farthest vertex") {
    triangle_vertices v{I.a, I.b, I.c}; triangle_feature f = triangle_feature::vertex; size_t k = 9; scalar p = 0;
    scalar x[3] = {Dot(Sub(I.a, I.e), I.d), Dot(Sub(I.b, I.e), I.d), Dot(Sub(I.c, I.e), I.d)}; auto m = Max(x[0], Max(x[1], x[2]));
    if (I.s > 0) {
        get_triangle_support_feature(v, I.e, I.d, f, k, p, I.s); out.eq(p, m);
        if (f == triangle_feature::vertex) out.eq(k == 0 ? x[0] : (k == 1 ? x[1] : (k == 2 ? x[2] : m + 1)), m);
        else if (f == triangle_feature::edge) out.eq(k == 0 ? Max(x[0], x[1]) : (k == 1 ? Max(x[1], x[2]) : (k == 2 ? Max(x[2], x[0]) : m + 1)), m);
        else out.eq(0, 0);
        // A vertex is reported only when it is alone within the threshold.
        if (f == triangle_feature::vertex) { int n = 0; for (int i = 0; i < 3; ++i) n += (m - x[i] < I.s); out.eqb(n >= 1, true); } else out.eqb(true, true);
        // The ends of an edge are within the threshold of each other.
        auto y0 = k == 0 ? x[0] : (k == 1 ? x[1] : x[2]), y1 = k == 0 ? x[1] : (k == 1 ? x[2] : x[0]);
        out.eqb(f != triangle_feature::edge || Abs(y0 - y1) < I.s, true);
        auto lo = Min(x[0], Min(x[1], x[2])); out.eqb(f != triangle_feature::face || m - lo < 2 * I.s, true);
    } else { out.eq(0, 0); out.eq(0, 0); out.eqb(true, true); out.eqb(true, true); out.eqb(true, true); } }
LAW(tri_aabb, "get_triangle_aabb", "smallest box with the three vertices") {
    auto b = get_triangle_aabb({I.a, I.b, I.c});
    for (int i = 0; i < 3; ++i) { out.eq(At(b.min, i), Min(At(I.a, i), Min(At(I.b, i), At(I.c, i)))); out.eq(At(b.max, i), Max(At(I.a, i), Max(At(I.b, i), At(I.c, i)))); } }
LAW(point_in_tri, "point_in_triangle", "inside the prism over the triangle iff the point is on the same side of all three edges, for both windings") {
    auto e0 = Dot(Cross(Sub(I.b, I.a), I.d), Sub(I.e, I.a)), e1 = Dot(Cross(Sub(I.c, I.b), I.d), Sub(I.e, I.b)), e2 = Dot(Cross(Sub(I.a, I.c), I.d), Sub(I.e, I.c));
    auto up = e0 > -EDYN_EPSILON && e1 > -EDYN_EPSILON && e2 > -EDYN_EPSILON, dn = e0 < EDYN_EPSILON && e1 < EDYN_EPSILON && e2 < EDYN_EPSILON;
    out.eqb(point_in_triangle({I.a, I.b, I.c}, I.d, I.e), up || dn); out.eqb(point_in_triangle({I.a, I.b, I.c}, I.d, I.e), point_in_triangle({I.b, I.c, I.a}, I.d, I.e)); }
LAW(tri_ccw, "is_triangle_ccw sort_triangle_ccw", "counter-clockwise iff the signed area is positive; sorting keeps the vertices and leaves a counter-clockwise triangle") {
    auto area = (I.h.x - I.g.x) * (I.k.y - I.g.y) - (I.h.y - I.g.y) * (I.k.x - I.g.x); out.eqb(is_triangle_ccw(I.g, I.h, I.k), area > 0);
    auto a = I.g, b = I.h, c = I.k; auto sw = sort_triangle_ccw(a, b, c); out.eqb(sw, !(area > 0)); out.eq(b, I.h); out.eq(a, sw ? I.k : I.g); out.eq(c, sw ? I.g : I.k); }
LAW(hull_small, "calculate_convex_hull", "up to three points: every point is listed once, counter-clockwise") {
    std::vector<vector2> p{I.g, I.h, I.k}; auto h = calculate_convex_hull(p, I.s); auto area = (I.h.x - I.g.x) * (I.k.y - I.g.y) - (I.h.y - I.g.y) * (I.k.x - I.g.x);
    out.eqi(h.size(), 3); out.eqi(h[0], area > 0 ? 0 : 2); out.eqi(h[1], 1); out.eqi(h[2], area > 0 ? 2 : 0); 
    std::vector<vector2> p2{I.g, I.h}; auto h2 = calculate_convex_hull(p2, I.s); out.eqi(h2.size(), 2); out.eqi(h2[0], 0); out.eqi(h2[1], 1); }
static inline scalar Side(const vector2 &a, const vector2 &b, const vector2 &p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
LAW(point_in_polygon, "point_inside_convex_polygon", "inside iff the point is not to the right of any edge, the closing edge included") {
    std::vector<vector2> t{I.g, I.h, I.k}; vector2 p{I.s, I.t};
    out.eqb(point_inside_convex_polygon(t, p), Side(I.g, I.h, p) >= 0 && Side(I.h, I.k, p) >= 0 && Side(I.k, I.g, p) >= 0);
    std::vector<vector2> r{I.g, I.h, I.k, I.l};
    out.eqb(point_inside_convex_polygon(r, p), Side(I.g, I.h, p) >= 0 && Side(I.h, I.k, p) >= 0 && Side(I.k, I.l, p) >= 0 && Side(I.l, I.g, p) >= 0); }
static inline scalar D2(const vector2 &a, const vector2 &b, const vector2 &c, const vector2 &d) { return (b.x - a.x) * (d.x - c.x) + (b.y - a.y) * (d.y - c.y); }
LAW(closest_polygon, "closest_point_convex_polygon", "the result is the closest point of the border of an acute triangle, for any point outside of it") {
    vector2 g{0, 0}, h{6, 0}, k{2, 3}; std::vector<vector2> tv{g, h, k}; std::vector<size_t> idx{0, 1, 2}; vector2 p{I.s, I.t}, c{0, 0};
    if (Side(g, h, p) < 0 || Side(h, k, p) < 0 || Side(k, g, p) < 0) {
        auto r = closest_point_convex_polygon(tv, idx, p, c); out.eqb(r, true);
        // The closest point of a convex set is the one with every vertex behind the plane through it.
        out.eqb(D2(c, p, c, g) <= 0 && D2(c, p, c, h) <= 0 && D2(c, p, c, k) <= 0, true);
        out.eq(Side(g, h, c) * Side(h, k, c) * Side(k, g, c), 0); out.eqb(Side(g, h, c) >= 0 && Side(h, k, c) >= 0 && Side(k, g, c) >= 0, true);
    } else { out.eqb(true, true); out.eqb(true, true); out.eq(0, 0); out.eqb(true, true); } }
