// Contact generation: boxes, polyhedra and cylinders in given relative poses.
#include "shape.hpp"
#include <vector>
#include <memory>
#include <numeric>
#include <algorithm>
#include "rbtree.hpp"
#include "edyn/collision/collide.hpp"
#include "edyn/sys/update_rotated_meshes.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/box_shape.cpp"
#include "/repo/src/edyn/shapes/cylinder_shape.cpp"
#include "/repo/src/edyn/shapes/convex_mesh.cpp"
#include "/repo/src/edyn/shapes/polyhedron_shape.cpp"
#include "/repo/src/edyn/math/shape_volume.cpp"
#include "/repo/src/edyn/sys/update_rotated_meshes.cpp"
#include "/repo/src/edyn/collision/collision_result.cpp"
#include "/repo/src/edyn/collision/collide/collide_box_box.cpp"
#include "/repo/src/edyn/collision/collide/collide_cylinder_cylinder.cpp"
#include "/repo/src/edyn/collision/collide/collide_capsule_cylinder.cpp"
#include "/repo/src/edyn/collision/collide/collide_polyhedron_sphere.cpp"
#include "/repo/src/edyn/collision/collide/collide_polyhedron_plane.cpp"
#include "/repo/src/edyn/collision/collide/collide_polyhedron_box.cpp"
#include "/repo/src/edyn/collision/collide/collide_polyhedron_capsule.cpp"
#include "/repo/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp"
using namespace edyn;
using namespace law;

#define INL static inline __attribute__((always_inline))
using point_t = collision_result::collision_point;
// Zero the compiler cannot see, so that it folds nothing with rounding.
#define Z (I.w[23] * 0)
#define QZ(x, y, z, w) quaternion{scalar(x) + Z, scalar(y) + Z, scalar(z) + Z, scalar(w) + Z}
#define VZ(x, y, z) vector3{scalar(x) + Z, scalar(y) + Z, scalar(z) + Z}
INL vector3 PA(const collision_context &c, const point_t &p) { return World(p.pivotA, c.posA, c.ornA); }
INL vector3 PB(const collision_context &c, const point_t &p) { return World(p.pivotB, c.posB, c.ornB); }
// A placed at x in the space of B: n points, all of them the gap g apart along the normal d (in the space of B).
template<typename SA, typename SB> INL collision_result Pair(Out &out, const SA &a, const SB &b, const vector3 &x, const quaternion &qa, const vector3 &pb, const quaternion &qb, size_t n, scalar g, const vector3 &d) {
    collision_context c{Add(pb, Rot(qb, x)), Ham(qb, qa), {}, pb, qb, {}, scalar(0.5)}; collision_result r; collide(a, b, c, r); out.eqi(r.num_points, n); auto nw = Rot(qb, d);
    for (size_t i = 0; i < n; ++i) { auto &p = r.point[i]; out.eq(p.distance, g); out.eq(p.normal, nw); out.eq(Sub(PA(c, p), PB(c, p)), Mul(nw, g)); } return r; }
// The points in the space of A (or B) are, in some order, those of a list: every one of the list is among them.
template<size_t N> INL void Points(Out &out, const collision_result &r, bool onA, const vector3 (&l)[N]) { for (auto &v : l) { scalar best = 1000; for (size_t i = 0; i < N; ++i) best = Min(best, Sq(Sub(onA ? r.point[i].pivotA : r.point[i].pivotB, v))); out.eqb(best < scalar(1e-6), true); } }
INL bool On(const point_t &p, contact_normal_attachment a) { return p.normal_attachment == a; }
#define TILT QZ(0, 0, 0.6, 0.8)
#define GAPS(body) for (auto g : {scalar(0.25), scalar(-0.25)}) { body }
constexpr auto Low = scalar(0.96 + 2 * 0.28);

LAW(bb_edge_over, "collide(box_shape, box_shape)", "a box balanced on an edge longer than the face below touches it where the edge crosses the border of the face") {
    GAPS(auto r = Pair(out, box_shape{{1, 2, 9}}, box_shape{{4, 2, 5}}, vector3{Z, 2 + Low + g, scalar(0.5)}, TILT, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, true, {{-1, -2, scalar(-5.5)}, {-1, -2, scalar(4.5)}}); for (int i = 0; i < 2; ++i) out.eqb(On(r.point[i], contact_normal_attachment::normal_on_B), true);) }
LAW(bb_edge_part, "collide(box_shape, box_shape)", "a box balanced on an edge partly over the border touches with the end inside and at the border") {
    GAPS(auto r = Pair(out, box_shape{{1, 2, 3}}, box_shape{{4, 2, 5}}, vector3{Z, 2 + Low + g, 4}, TILT, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, true, {{-1, -2, -3}, {-1, -2, 1}});) }
LAW(bb_face_edge, "collide(box_shape, box_shape)", "a face on top of an edge longer than it touches it along the common stretch, the normal attached to the face") {
    GAPS(auto r = Pair(out, box_shape{{4, 2, 5}}, box_shape{{1, 2, 9}}, Rot(Conj(TILT), vector3{Z, 2 + Low + g, scalar(0.5)}), Conj(TILT), I.b, TILT, 2, g, Rot(Conj(TILT), vector3{0, 1, 0})); for (int i = 0; i < 2; ++i) out.eqb(On(r.point[i], contact_normal_attachment::normal_on_A), true); Points(out, r, true, {{scalar(1.64 - 3.28), -2, -5}, {scalar(1.64 - 3.28), -2, 5}});) }
LAW(bb_face_in, "collide(box_shape, box_shape)", "a face on top of an edge shorter than it touches both its ends") {
    GAPS(auto r = Pair(out, box_shape{{4, 2, 5}}, box_shape{{1, 2, 3}}, Rot(Conj(TILT), vector3{Z, 2 + Low + g, scalar(0.5)}), Conj(TILT), I.b, TILT, 2, g, Rot(Conj(TILT), vector3{0, 1, 0})); Points(out, r, false, {{1, 2, -3}, {1, 2, 3}});) }
LAW(bb_face_vertex, "collide(box_shape, box_shape)", "a face on top of a corner touches it, the normal attached to the face") {
    auto q = QZ(0.1, 0.7, 0.5, 0.5); scalar hi = -1000; vector3 at{}; vector3 loc{}; for (int k = 0; k < 8; ++k) { vector3 l{k & 1 ? scalar(1) : scalar(-1), k & 2 ? scalar(2) : scalar(-2), k & 4 ? scalar(3) : scalar(-3)}; auto v = Rot(q, l); at = v.y > hi ? v : at; loc = v.y > hi ? l : loc; hi = v.y > hi ? v.y : hi; }
    GAPS(auto r = Pair(out, box_shape{{9, 2, 9}}, box_shape{{1, 2, 3}}, Rot(Conj(q), vector3{0, 2 + hi + g, 0}), Conj(q), I.b, q, 1, g, Rot(Conj(q), vector3{0, 1, 0})); out.eq(r.point[0].pivotB, loc); out.eqb(On(r.point[0], contact_normal_attachment::normal_on_A), true);) }
LAW(bb_cross_faces, "collide(box_shape, box_shape)", "crossed faces touch at the corners of the common area") {
    GAPS(auto r = Pair(out, box_shape{{1, 2, 9}}, box_shape{{9, 2, 3}}, vector3{2 + Z, 4 + g, 1}, quaternion_identity, I.b, quaternion_identity, 4, g, {0, 1, 0}); Points(out, r, false, {{1, 2, -3}, {3, 2, -3}, {1, 2, 3}, {3, 2, 3}});) }
LAW(bb_sides, "collide(box_shape, box_shape)", "every face of a box can be the one that touches") {
    for (int i = 0; i < 3; ++i) for (int s = -1; s < 2; s += 2) { auto g = scalar(0.25); auto n = Mul(Axis(i), scalar(s)); auto h = vector3{1, 2, 3}; auto H = vector3{4, 5, 6}; auto r = Pair(out, box_shape{h}, box_shape{H}, Add(Mul(n, At(h, i) + At(H, i) + g), VZ(0, 0, 0)), quaternion_identity, I.b, quaternion_identity, 4, g, n); for (int k = 0; k < 4; ++k) { auto v = r.point[k].pivotA; out.eq(v.x * v.x, 1); out.eq(v.y * v.y, 4); out.eq(v.z * v.z, 9); } } }

// A box as an initialised polyhedron with its rotated mesh.
struct Poly { polyhedron_shape s; rotated_mesh m; };
INL void MakeBox(Poly &p, const vector3 &h, const quaternion &q) {
    auto mesh = std::make_shared<convex_mesh>(); auto &m = *mesh; for (int k = 0; k < 8; ++k) m.vertices.push_back({k & 1 ? h.x : -h.x, k & 2 ? h.y : -h.y, k & 4 ? h.z : -h.z}); m.indices = {0, 2, 3, 1, 4, 5, 7, 6, 0, 1, 5, 4, 2, 6, 7, 3, 0, 4, 6, 2, 1, 3, 7, 5}; m.faces = {0, 4, 4, 4, 8, 4, 12, 4, 16, 4, 20, 4}; m.update_calculated_properties(); p.s.mesh = mesh; p.m = make_rotated_mesh(m, q); p.s.rotated = &p.m; }
LAW(poly_sphere, "collide(polyhedron_shape, sphere_shape)", "a sphere outside touches the closest point of a face, edge or corner") {
    Poly p; MakeBox(p, {1, 2, 3}, quaternion_identity); Pair(out, p.s, sphere_shape{2}, vector3{Z, scalar(-4.25), 1}, quaternion_identity, I.b, quaternion_identity, 1, scalar(0.25), {0, -1, 0}); Pair(out, p.s, sphere_shape{2}, vector3{Z, scalar(3.75), 1}, quaternion_identity, I.b, quaternion_identity, 1, scalar(-0.25), {0, 1, 0}); Pair(out, p.s, sphere_shape{2}, vector3{scalar(2.35) + Z, scalar(3.8), 1}, quaternion_identity, I.b, quaternion_identity, 1, scalar(0.25), {scalar(0.6), scalar(0.8), 0}); }
LAW(poly_plane, "collide(polyhedron_shape, plane_shape)", "a polyhedron resting on a plane touches with the corners of its face") {
    GAPS(Poly p; MakeBox(p, {1, 2, 3}, quaternion_identity); auto r = Pair(out, p.s, plane_shape{{0, 1, 0}, 0}, vector3{Z, 2 + g, 1}, quaternion_identity, vector3{I.b.x, 0, I.b.z}, quaternion_identity, 4, g, {0, 1, 0}); Points(out, r, true, {{1, -2, 3}, {1, -2, -3}, {-1, -2, 3}, {-1, -2, -3}});) }
LAW(poly_box_on, "collide(polyhedron_shape, box_shape)", "a polyhedron resting within a face touches with the corners of its own face") {
    GAPS(Poly p; MakeBox(p, {1, 2, 3}, quaternion_identity); auto r = Pair(out, p.s, box_shape{{4, 2, 5}}, vector3{1 + Z, 4 + g, scalar(-0.5)}, quaternion_identity, I.b, quaternion_identity, 4, g, {0, 1, 0}); Points(out, r, true, {{1, -2, 3}, {1, -2, -3}, {-1, -2, 3}, {-1, -2, -3}});) }
LAW(poly_box_edge, "collide(polyhedron_shape, box_shape)", "a polyhedron balanced on an edge touches with both its ends") {
    GAPS(Poly p; MakeBox(p, {1, 2, 3}, TILT); auto r = Pair(out, p.s, box_shape{{4, 2, 5}}, vector3{Z, 2 + Low + g, scalar(0.5)}, TILT, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, true, {{-1, -2, -3}, {-1, -2, 3}});) }
LAW(poly_poly_on, "collide(polyhedron_shape, polyhedron_shape)", "a polyhedron resting within a face touches with the corners of its own face") {
    GAPS(Poly p; Poly q; MakeBox(p, {1, 2, 3}, quaternion_identity); MakeBox(q, {4, 2, 5}, quaternion_identity); auto r = Pair(out, p.s, q.s, vector3{1 + Z, 4 + g, scalar(-0.5)}, quaternion_identity, I.b, quaternion_identity, 4, g, {0, 1, 0}); Points(out, r, true, {{1, -2, 3}, {1, -2, -3}, {-1, -2, 3}, {-1, -2, -3}});) }
LAW(poly_poly_edge, "collide(polyhedron_shape, polyhedron_shape)", "a polyhedron balanced on an edge touches with both its ends") {
    GAPS(Poly p; Poly q; MakeBox(p, {1, 2, 3}, TILT); MakeBox(q, {4, 2, 5}, quaternion_identity); auto r = Pair(out, p.s, q.s, vector3{Z, 2 + Low + g, scalar(0.5)}, TILT, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, true, {{-1, -2, -3}, {-1, -2, 3}});) }
LAW(poly_capsule, "collide(polyhedron_shape, capsule_shape)", "a capsule lying under a face touches it at both ends") {
    GAPS(Poly p; MakeBox(p, {4, 2, 5}, quaternion_identity); auto r = Pair(out, p.s, capsule_shape{1, 3, coordinate_axis::x}, vector3{scalar(0.5) + Z, 3 + g, 1}, quaternion_identity, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, false, {{3, 1, 0}, {-3, 1, 0}});) }

LAW(cyl_cyl_sides, "collide(cylinder_shape, cylinder_shape)", "parallel cylinders touch along the common stretch of their sides") {
    GAPS(auto r = Pair(out, cylinder_shape{2, 3, coordinate_axis::x}, cylinder_shape{1, 4, coordinate_axis::x}, vector3{scalar(0.5) + Z, 3 + g, 0}, quaternion_identity, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, true, {{3, -2, 0}, {-3, -2, 0}});) }
LAW(caps_cyl_side, "collide(capsule_shape, cylinder_shape)", "a capsule alongside a cylinder touches it along the common stretch") {
    GAPS(auto r = Pair(out, capsule_shape{1, 3, coordinate_axis::x}, cylinder_shape{2, 4, coordinate_axis::x}, vector3{scalar(0.5) + Z, 3 + g, 0}, quaternion_identity, I.b, quaternion_identity, 2, g, {0, 1, 0}); Points(out, r, true, {{3, -1, 0}, {-3, -1, 0}});) }
LAW(caps_cyl_cross, "collide(capsule_shape, cylinder_shape)", "a capsule across a cylinder touches it where the common perpendicular meets the sides") {
    GAPS(auto r = Pair(out, capsule_shape{1, 3, coordinate_axis::x}, cylinder_shape{2, 4, coordinate_axis::z}, vector3{scalar(0.5) + Z, 3 + g, 1}, quaternion_identity, I.b, quaternion_identity, 1, g, {0, 1, 0}); out.eq(r.point[0].pivotA, vector3{scalar(-0.5), -1, 0});) }
