// Contact generation between pairs of shapes.
#include "shape.hpp"
#include <vector>
#include <memory>
#include <numeric>
#include <algorithm>
#include "rbtree.hpp"
#include "edyn/collision/collide.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/box_shape.cpp"
#include "/repo/src/edyn/shapes/cylinder_shape.cpp"
#include "/repo/src/edyn/collision/collision_result.cpp"
#include "/repo/src/edyn/collision/collide/collide_sphere_sphere.cpp"
#include "/repo/src/edyn/collision/collide/collide_sphere_plane.cpp"
#include "/repo/src/edyn/collision/collide/collide_sphere_box.cpp"
#include "/repo/src/edyn/collision/collide/collide_capsule_capsule.cpp"
#include "/repo/src/edyn/collision/collide/collide_capsule_sphere.cpp"
#include "/repo/src/edyn/collision/collide/collide_capsule_plane.cpp"
#include "/repo/src/edyn/collision/collide/collide_capsule_box.cpp"
#include "/repo/src/edyn/collision/collide/collide_cylinder_sphere.cpp"
#include "/repo/src/edyn/collision/collide/collide_cylinder_plane.cpp"
#include "/repo/src/edyn/collision/collide/collide_box_plane.cpp"
#include "/repo/src/edyn/collision/collide/collide_box_box.cpp"
using namespace edyn;
using namespace law;

#define INL static inline __attribute__((always_inline))
using point_t = collision_result::collision_point;
INL collision_context Ctx(const vector3 &pa, const quaternion &qa, const vector3 &pb, const quaternion &qb, scalar th = scalar(0.5)) { return {pa, qa, {}, pb, qb, {}, th}; }
INL vector3 PA(const collision_context &c, const point_t &p) { return World(p.pivotA, c.posA, c.ornA); }
INL vector3 PB(const collision_context &c, const point_t &p) { return World(p.pivotB, c.posB, c.ornB); }
// Unit normal, and the pivots are the distance apart along it.
INL void Apart(Out &out, const collision_context &c, const point_t &p) { out.eq(Sq(p.normal), 1); out.eq(Sub(PA(c, p), PB(c, p)), Mul(p.normal, p.distance)); }
INL void Mirrored(Out &out, const point_t &p, const point_t &q) { out.eq(p.pivotA, q.pivotB); out.eq(p.pivotB, q.pivotA); out.eq(p.normal, Mul(q.normal, -1)); out.eq(p.distance, q.distance);
    auto on = [](contact_normal_attachment a) { return a == contact_normal_attachment::normal_on_A ? 1 : (a == contact_normal_attachment::normal_on_B ? 2 : 0); }; auto x = on(p.normal_attachment), y = on(q.normal_attachment); out.eqi(x, y ? 3 - y : 0); }

LAW(sphere_sphere, "collide(sphere_shape, sphere_shape)", "one point on the line of centers, at the distance between the surfaces, when they are within the threshold") {
    auto c = Ctx(Add(I.b, I.a), unit(I.q), I.b, unit(I.r)); collision_result r; collide(sphere_shape{1}, sphere_shape{2}, c, r); auto l2 = Sq(I.a), l = std::sqrt(l2); bool near = !(l2 > scalar(12.25)); out.on = l > scalar(0.5); out.eqi(r.num_points, near ? 1 : 0); auto &p = r.point[0]; out.on = out.on && near; out.eq(p.normal, Mul(I.a, 1 / l)); out.eq(p.distance, l - 3); out.eq(PA(c, p), Sub(c.posA, p.normal)); out.eq(PB(c, p), Add(c.posB, Mul(p.normal, 2))); }
LAW(sphere_sphere_same, "collide(sphere_shape, sphere_shape)", "concentric spheres still get a unit normal") {
    auto c = Ctx(I.b, unit(I.q), I.b, unit(I.r)); collision_result r; collide(sphere_shape{1}, sphere_shape{2}, c, r); out.eqi(r.num_points, 1); auto &p = r.point[0]; out.eq(p.distance, -3); Apart(out, c, p); }
LAW(sphere_plane, "collide(sphere_shape, plane_shape)", "one point below the center, on the sphere and on the plane wherever that is") {
    auto n = unit(I.c); auto c = Ctx(I.a, unit(I.q), I.b, unit(I.r)); collision_result r; collide(sphere_shape{2}, plane_shape{n, I.s}, c, r); auto l = Dot(I.a, n) - I.s; bool near = !(l > scalar(2.5)); out.eqi(r.num_points, near ? 1 : 0); auto &p = r.point[0]; out.on = near; out.eq(p.normal, n); out.eq(p.distance, l - 2); out.eq(PA(c, p), Sub(I.a, Mul(n, 2))); out.eq(PB(c, p), Sub(I.a, Mul(n, l))); out.eqb(p.normal_attachment == contact_normal_attachment::normal_on_B, true); }
LAW(plane_sphere, "collide(plane_shape, sphere_shape) swap_collide collision_result::swap", "the exchanged pair gives the mirrored point") {
    vector3 n{0, scalar(0.6), scalar(-0.8)}; auto c = Ctx(I.b, unit(I.r), I.a, unit(I.q)); collision_result r, s; collide(plane_shape{n, 1}, sphere_shape{2}, c, r); collide(sphere_shape{2}, plane_shape{n, 1}, c.swapped(), s); out.eqi(r.num_points, s.num_points); out.on = r.num_points == 1; Mirrored(out, r.point[0], s.point[0]); }
LAW(swapped_context, "collision_context::swapped", "exchanges everything of A and B") {
    auto c = Ctx(I.a, I.q, I.b, I.r, I.s); c.aabbA = {I.c, I.d}; c.aabbB = {I.e, I.f}; auto d = c.swapped(); out.eq(d.posA, I.b); out.eq(d.posB, I.a); out.eq(d.ornA, I.r); out.eq(d.ornB, I.q); out.eq(d.aabbA.min, I.e); out.eq(d.aabbA.max, I.f); out.eq(d.aabbB.min, I.c); out.eq(d.aabbB.max, I.d); out.eq(d.threshold, I.s); }
// Sphere of radius 2 around x in the space of a box of half extents 1, 2, 3.
INL void SphereBox(Out &out, const vector3 &x, const vector3 &at, const quaternion &q) {
    auto c = Ctx(World(x, at, q), quaternion_identity, at, q); collision_result r; collide(sphere_shape{2}, box_shape{{1, 2, 3}}, c, r); auto cl = [](scalar v, scalar m) { return v < -m ? -m : (m < v ? m : v); }; vector3 k{cl(x.x, 1), cl(x.y, 2), cl(x.z, 3)}; auto d = Sub(x, k); auto l2 = Sq(d), l = std::sqrt(l2); bool near = !(l2 > scalar(6.25)); out.on = l > scalar(0.25); out.eqi(r.num_points, near ? 1 : 0); auto &p = r.point[0]; out.on = out.on && near; out.eq(p.distance + 2, l); out.eq(Mul(Rot(Conj(q), p.normal), l), d); out.eq(p.pivotB, k); }
LAW(sphere_box_around, "collide(sphere_shape, box_shape)", "a sphere outside touches the closest point of the face, edge or corner") { for (int i = -1; i < 2; ++i) for (int j = -1; j < 2; ++j) for (int k = -1; k < 2; ++k) { if (!i && !j && !k) continue; SphereBox(out, {i * scalar(2.125), j * scalar(2.75), k * scalar(4.25)}, I.b, quaternion_identity); } }
LAW(sphere_box_far, "collide(sphere_shape, box_shape)", "no contact beyond the threshold") { SphereBox(out, {scalar(0.5), 5, 1}, I.b, quaternion_identity); SphereBox(out, {scalar(-3.75), 1, 1}, I.b, quaternion_identity); SphereBox(out, {0, 0, scalar(5.25)}, I.b, quaternion_identity); SphereBox(out, {2, 4, 5}, I.b, quaternion_identity); }
LAW(sphere_box_pose, "collide(sphere_shape, box_shape)", "the contact moves and turns with the shapes") { SphereBox(out, {0, 1, 4}, I.b, unit(I.q)); SphereBox(out, {2, 3, 0}, I.b, unit(I.q)); SphereBox(out, {2, 3, 4}, I.b, unit(I.q)); SphereBox(out, {0, -5, 0}, I.b, unit(I.q)); }
LAW(sphere_box_piv, "collide(sphere_shape, box_shape)", "the pivot on the sphere is on its surface towards the box") {
    auto qa = unit(I.q), qb = unit(I.r); auto c = Ctx(Rot(qb, vector3{0, scalar(3.5), 1}), qa, vector3_zero, qb); collision_result r; collide(sphere_shape{2}, box_shape{{1, 2, 3}}, c, r); out.eqi(r.num_points, 1); auto &p = r.point[0]; Apart(out, c, p); out.eq(p.distance, scalar(-0.5)); out.eqb(p.normal_attachment == contact_normal_attachment::normal_on_B, true); out.eq(p.normal, Rot(qb, Axis(1))); out.eq(PA(c, p), Sub(c.posA, Mul(p.normal, 2))); }
LAW(sphere_box_in, "collide(sphere_shape, box_shape)", "a sphere with its center inside leaves through the closest face") {
    for (int i = 0; i < 3; ++i) for (int s = -1; s < 2; s += 2) { auto qb = unit(I.r); auto x = Mul(Axis(i), s * scalar(2.5)); auto c = Ctx(World(x, I.b, qb), quaternion_identity, I.b, qb); collision_result r; collide(sphere_shape{2}, box_shape{{3, 3, 3}}, c, r); out.eqi(r.num_points, 1); auto &p = r.point[0]; out.eq(p.distance, scalar(-2.5)); out.eq(p.normal, Rot(qb, Mul(Axis(i), s))); out.eq(p.pivotB, Mul(Axis(i), 3 * s)); Apart(out, c, p); } }
LAW(box_sphere, "collide(box_shape, sphere_shape)", "the exchanged pair gives the mirrored point") {
    auto c = Ctx(I.b, unit(I.r), Add(I.b, Rot(unit(I.r), vector3{scalar(1.5), 1, I.u})), unit(I.q)); collision_result r, s; collide(box_shape{{1, 2, 3}}, sphere_shape{2}, c, r); collide(sphere_shape{2}, box_shape{{1, 2, 3}}, c.swapped(), s); out.eqi(r.num_points, s.num_points); out.on = r.num_points == 1; Mirrored(out, r.point[0], s.point[0]); }
// Capsule of radius 1 and half length 3 along axis k, sphere of radius 2 placed in its frame.
template<int k> INL void CapSphere(Out &out, const vector3 &x, const vector3 &at, const quaternion &q) {
    auto c = Ctx(at, q, World(x, at, q), quaternion_identity); collision_result r; collide(capsule_shape{1, 3, AX[k]}, sphere_shape{2}, c, r); auto a = At(x, k); auto t = a > 3 ? scalar(3) : (a < -3 ? scalar(-3) : a); auto d = Sub(Mul(Axis(k), t), x); auto l2 = Sq(d), l = std::sqrt(l2); bool near = !(l2 > scalar(12.25)); out.on = l2 > 1e-3; out.eqi(r.num_points, near ? 1 : 0); auto &p = r.point[0]; out.on = out.on && near; out.eq(p.distance, l - 3); out.eq(Mul(Rot(Conj(q), p.normal), l), d); out.eq(Mul(Sub(p.pivotA, Mul(Axis(k), t)), l), Mul(d, -1)); out.eq(Mul(Rot(Conj(q), p.pivotB), l), Mul(d, 2)); }
LAW(capsule_sphere_x, "collide(capsule_shape, sphere_shape)", "one point at the closest point of the segment, at the distance between the surfaces") { CapSphere<0>(out, I.a, vector3_zero, quaternion_identity); }
LAW(capsule_sphere_y, "collide(capsule_shape, sphere_shape)", "one point at the closest point of the segment, at the distance between the surfaces") { CapSphere<1>(out, I.a, vector3_zero, quaternion_identity); }
LAW(capsule_sphere_z, "collide(capsule_shape, sphere_shape)", "one point at the closest point of the segment, at the distance between the surfaces") { CapSphere<2>(out, I.a, vector3_zero, quaternion_identity); }
LAW(capsule_sphere_pose, "collide(capsule_shape, sphere_shape)", "the contact moves and turns with the shapes") { CapSphere<0>(out, {scalar(0.5), scalar(2.5), 0}, I.b, unit(I.q)); CapSphere<1>(out, {2, 4, 2}, I.b, unit(I.q)); }
LAW(capsule_plane, "collide(capsule_shape, plane_shape)", "one point below each end of the segment within the threshold, on the capsule and on the plane") {
    vector3 n{0, 1, 0}; auto c = Ctx(I.a, quaternion_identity, I.b, unit(I.r)); c.ornA = quaternion{0, 0, scalar(0.6), scalar(0.8)}; collision_result r; collide(capsule_shape{1, 3, coordinate_axis::x}, plane_shape{n, I.s}, c, r); vector3 v[2] = {World({3, 0, 0}, I.a, c.ornA), World({-3, 0, 0}, I.a, c.ornA)}; bool m[2]; for (int i = 0; i < 2; ++i) m[i] = !(v[i].y - I.s - 1 > scalar(0.5)); out.eqi(r.num_points, (m[0] ? 1 : 0) + (m[1] ? 1 : 0)); 
    for (int i = 0; i < 2; ++i) { auto &p = r.point[i && m[0] ? 1 : 0]; out.on = m[i]; out.eq(p.normal, n); out.eq(p.distance, v[i].y - I.s - 1); out.eq(PA(c, p), Sub(v[i], n)); out.eq(PB(c, p), vector3{v[i].x, I.s, v[i].z}); out.eqb(p.normal_attachment == contact_normal_attachment::normal_on_B, true); } }
LAW(box_plane_face, "collide(box_shape, plane_shape)", "a box lying on a plane touches it with the four corners of its face") {
    vector3 n{0, 1, 0}; auto c = Ctx(I.a, quaternion_identity, I.b, unit(I.r)); collision_result r; collide(box_shape{{1, 2, 3}}, plane_shape{n, I.s}, c, r); bool near = !(I.a.y - 2 - I.s > scalar(0.5)); out.eqi(r.num_points, near ? 4 : 0); out.on = near; vector3 sum{}; for (int i = 0; i < 4; ++i) { auto &p = r.point[i]; out.eq(p.normal, n); out.eq(p.distance, I.a.y - 2 - I.s); Apart(out, c, p); out.eq(p.pivotA.y, -2); out.eq(Abs(p.pivotA.x), 1); out.eq(Abs(p.pivotA.z), 3); sum = Add(sum, p.pivotA); } out.eq(sum, vector3{0, -8, 0}); }
LAW(box_plane_vertex, "collide(box_shape, plane_shape)", "a tilted box touches the plane with its lowest corner") {
    vector3 n{0, 1, 0}; auto c = Ctx(I.a, quaternion{scalar(0.1), scalar(0.7), scalar(0.5), scalar(0.5)}, vector3_zero, quaternion_identity); collision_result r; collide(box_shape{{1, 2, 3}}, plane_shape{n, 2}, c, r); scalar lo = 1000; vector3 at{}; for (int k = 0; k < 8; ++k) { auto v = Rot(c.ornA, vector3{k & 1 ? scalar(1) : scalar(-1), k & 2 ? scalar(2) : scalar(-2), k & 4 ? scalar(3) : scalar(-3)}); at = v.y < lo ? v : at; lo = v.y < lo ? v.y : lo; } bool near = !(I.a.y + lo - 2 > scalar(0.5)); out.eqi(r.num_points, near ? 1 : 0); out.on = near; auto &p = r.point[0]; out.eq(PA(c, p), Add(I.a, at)); out.eq(p.distance, I.a.y + lo - 2); Apart(out, c, p); }
LAW(cylinder_plane_cap, "collide(cylinder_shape, plane_shape)", "a cylinder standing on a plane touches it at four points of the rim") {
    vector3 n{0, 1, 0}; auto c = Ctx(I.a, quaternion_identity, I.b, unit(I.r)); collision_result r; collide(cylinder_shape{2, 3, coordinate_axis::y}, plane_shape{n, I.s}, c, r); bool near = !(I.a.y - 3 - I.s > scalar(0.5)); out.eqi(r.num_points, near ? 4 : 0); out.on = near; vector3 sum{}; for (int i = 0; i < 4; ++i) { auto &p = r.point[i]; out.eq(p.distance, I.a.y - 3 - I.s); out.eq(p.normal, n); Apart(out, c, p); out.eq(p.pivotA.y, -3); out.eq(p.pivotA.x * p.pivotA.x + p.pivotA.z * p.pivotA.z, 4); sum = Add(sum, p.pivotA); } out.eq(sum, vector3{0, -12, 0}); }
LAW(cylinder_plane_side, "collide(cylinder_shape, plane_shape)", "a cylinder lying on a plane touches it at both ends of its side") {
    vector3 n{0, 1, 0}; auto c = Ctx(I.a, quaternion_identity, I.b, unit(I.r)); collision_result r; collide(cylinder_shape{2, 3, coordinate_axis::x}, plane_shape{n, I.s}, c, r); bool near = !(I.a.y - 2 - I.s > scalar(0.5)); out.eqi(r.num_points, near ? 2 : 0); out.on = near; for (int i = 0; i < 2; ++i) { auto &p = r.point[i]; out.eq(p.distance, I.a.y - 2 - I.s); out.eq(p.normal, n); Apart(out, c, p); out.eq(p.pivotA, vector3{i ? scalar(3) : scalar(-3), -2, 0}); } }
LAW(cylinder_plane_rim, "collide(cylinder_shape, plane_shape)", "a tilted cylinder touches the plane with the lowest point of its rim") {
    vector3 n{0, 1, 0}; auto c = Ctx(I.a, quaternion{0, 0, scalar(0.6), scalar(0.8)}, I.b, unit(I.r)); collision_result r; collide(cylinder_shape{2, 3, coordinate_axis::x}, plane_shape{n, I.s}, c, r); auto lo = scalar(-3 * 0.96 - 2 * 0.28); bool near = !(I.a.y + lo - I.s > scalar(0.5)); out.eqi(r.num_points, near ? 1 : 0); out.on = near; auto &p = r.point[0]; out.eq(p.distance, I.a.y + lo - I.s); Apart(out, c, p); out.eq(p.pivotA, vector3{-3, -2, 0}); }
// Cylinder of radius 2 and half length 3 along axis k, sphere of radius 1 in its frame.
template<int k> INL void CylSphere(Out &out, const vector3 &x, const vector3 &at, const quaternion &q, bool side) {
    auto c = Ctx(at, q, World(x, at, q), quaternion_identity); collision_result r; collide(cylinder_shape{2, 3, AX[k]}, sphere_shape{1}, c, r); auto a = At(x, k); auto o = Sub(x, Mul(Axis(k), a)); auto l2 = Sq(o), l = std::sqrt(l2);
    if (side) { bool near = !(l2 > scalar(12.25)); out.on = l2 > 1e-3 && a > -3 && a < 3; out.eqi(r.num_points, near ? 1 : 0); auto &p = r.point[0]; out.on = out.on && near; out.eq(p.distance, l - 3); out.eq(Mul(Rot(Conj(q), p.normal), l), Mul(o, -1)); out.eq(Mul(p.pivotA, l), Add(Mul(o, 2), Mul(Axis(k), a * l))); Apart(out, c, p); }
    else { auto s = a > 0 ? scalar(1) : scalar(-1); auto g = a * s - 3; bool near = !(g > scalar(1.5)); out.on = l2 < 4 && g > 1e-3; out.eqi(r.num_points, near ? 1 : 0); auto &p = r.point[0]; out.on = out.on && near; out.eq(p.distance, g - 1); out.eq(Rot(Conj(q), p.normal), Mul(Axis(k), -s)); out.eq(p.pivotA, Add(o, Mul(Axis(k), 3 * s))); Apart(out, c, p); out.eqb(p.normal_attachment == contact_normal_attachment::normal_on_A, true); } }
LAW(cylinder_sphere_side, "collide(cylinder_shape, sphere_shape)", "a sphere between the caps touches the side on the line to the axis") { CylSphere<0>(out, vector3{I.u, I.v, 1}, vector3_zero, quaternion_identity, true); }
LAW(cylinder_sphere_cap, "collide(cylinder_shape, sphere_shape)", "a sphere beyond a cap and above it touches its face") { CylSphere<1>(out, vector3{I.u, 4, I.v}, vector3_zero, quaternion_identity, false); CylSphere<1>(out, vector3{I.u, scalar(-3.5), 1}, vector3_zero, quaternion_identity, false); CylSphere<2>(out, vector3{1, I.u, 4}, vector3_zero, quaternion_identity, false); CylSphere<2>(out, vector3{1, I.u, 9}, vector3_zero, quaternion_identity, false); }
LAW(cylinder_sphere_pose, "collide(cylinder_shape, sphere_shape)", "the contact moves and turns with the shapes") { CylSphere<0>(out, vector3{1, 2, 0}, I.b, unit(I.q), true); CylSphere<1>(out, vector3{1, 4, 0}, I.b, unit(I.q), false); }

// Two capsules of radius 1 and half lengths 3 and 2 along axes i and j, B at x from A: the contacts expected.
INL collision_result Caps(Out &out, const collision_context &c, int i, int j, size_t n, scalar dist, const vector3 &normal) {
    collision_result r; collide(capsule_shape{1, 3, AX[i]}, capsule_shape{1, 2, AX[j]}, c, r); out.eqi(r.num_points, n); if (n > 0) { for (size_t k = 0; k < n; ++k) { auto &p = r.point[k]; out.eq(p.distance, dist); out.eq(p.normal, normal); Apart(out, c, p); } } return r; }
LAW(capsule_parallel, "collide(capsule_shape, capsule_shape)", "parallel capsules touch at both ends of the common stretch of their sides") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(I.b, quaternion_identity, Add(I.b, vector3{1, 2 + g, 0}), quaternion_identity); auto r = Caps(out, c, 0, 0, 2, g, {0, -1, 0}); auto x = r.point[0].pivotB.x, y = r.point[1].pivotB.x; out.eq(x + y, 0); out.eq(x * y, -4); for (int k = 0; k < 2; ++k) { out.eq(r.point[k].pivotB.y, -1); out.eq(r.point[k].pivotA.y, 1); } } }
LAW(capsule_cross, "collide(capsule_shape, capsule_shape)", "crossed capsules touch where the common perpendicular meets their sides") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(I.b, quaternion_identity, Add(I.b, vector3{1, -2 - g, scalar(0.5)}), quaternion_identity); auto r = Caps(out, c, 0, 2, 1, g, {0, 1, 0}); out.eq(r.point[0].pivotA, vector3{1, -1, 0}); out.eq(r.point[0].pivotB, vector3{0, 1, scalar(-0.5)}); } }
LAW(capsule_ends, "collide(capsule_shape, capsule_shape)", "capsules whose ends are closest touch there") {
    auto c = Ctx(I.b, quaternion_identity, Add(I.b, vector3{scalar(4.2), scalar(1.6) + 2, 0}), quaternion_identity); auto r = Caps(out, c, 0, 1, 1, 0, vector3{scalar(-0.6), scalar(-0.8), 0}); out.eq(r.point[0].pivotA, vector3{scalar(3.6), scalar(0.8), 0}); out.eq(r.point[0].pivotB, vector3{scalar(-0.6), scalar(-2.8), 0}); }
LAW(capsule_far, "collide(capsule_shape, capsule_shape)", "no contact beyond the threshold") { auto c = Ctx(I.b, quaternion_identity, Add(I.b, vector3{0, scalar(2.75), 0}), quaternion_identity); Caps(out, c, 0, 2, 0, 0, vector3_zero); }
LAW(capsule_hit, "collide(capsule_shape, capsule_shape)", "capsules whose axes meet are as deep as both radii, along a direction across both") { auto c = Ctx(I.b, quaternion_identity, Add(I.b, vector3{1, 0, 1}), quaternion_identity); collision_result r; collide(capsule_shape{1, 3, coordinate_axis::x}, capsule_shape{1, 2, coordinate_axis::z}, c, r); out.eqi(r.num_points, 1); auto &p = r.point[0]; out.eq(p.distance, -2); Apart(out, c, p); out.eq(Abs(p.normal.y), 1); }
LAW(capsule_capsule_pose, "collide(capsule_shape, capsule_shape)", "the contact moves and turns with the shapes") { auto q = unit(I.q); auto c = Ctx(I.b, q, Add(I.b, Rot(q, vector3{1, scalar(2.25), scalar(0.5)})), q); Caps(out, c, 0, 2, 1, scalar(0.25), Rot(q, vector3{0, -1, 0})); }

// Capsule of radius 1 and half length 3 along axis k against a box of half extents 4, 2, 3 at the origin of the box.
INL collision_result CapBox(Out &out, const collision_context &c, int k, size_t n, scalar dist, const vector3 &normal) {
    collision_result r; collide(capsule_shape{1, 3, AX[k]}, box_shape{{4, 2, 3}}, c, r); out.eqi(r.num_points, n); for (size_t i = 0; i < n; ++i) { auto &p = r.point[i]; out.eq(p.distance, dist); out.eq(p.normal, normal); Apart(out, c, p); } return r; }
LAW(capsule_box_lying, "collide(capsule_shape, box_shape)", "a capsule lying on a face touches it below both ends") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{scalar(0.5), 3 + g, 1}), quaternion_identity, I.b, quaternion_identity); auto r = CapBox(out, c, 0, 2, g, {0, 1, 0}); for (int i = 0; i < 2; ++i) { auto &p = r.point[i]; out.eq(p.pivotA.y, -1); out.eq(Abs(p.pivotA.x), 3); out.eq(p.pivotB.y, 2); out.eqb(p.normal_attachment == contact_normal_attachment::normal_on_B, true); } out.eq(r.point[0].pivotA.x + r.point[1].pivotA.x, 0); } }
LAW(capsule_box_over, "collide(capsule_shape, box_shape)", "a capsule lying across the edge of a face touches it below its end and at the edge") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{2, 3 + g, 1}), quaternion_identity, I.b, quaternion_identity); auto r = CapBox(out, c, 0, 2, g, {0, 1, 0}); auto x = r.point[0].pivotB.x, y = r.point[1].pivotB.x; out.eq(x + y, 3); out.eq(x * y, -4); for (int i = 0; i < 2; ++i) out.eq(r.point[i].pivotB.z, 1); } }
LAW(capsule_box_standing, "collide(capsule_shape, box_shape)", "a capsule standing on a face touches it below its end") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{2, -6 - g, 1}), quaternion_identity, I.b, quaternion_identity); auto r = CapBox(out, c, 1, 1, g, {0, -1, 0}); out.eq(r.point[0].pivotA, vector3{0, 4, 0}); out.eq(r.point[0].pivotB, vector3{2, -2, 1}); } }
LAW(capsule_box_edge, "collide(capsule_shape, box_shape)", "a capsule alongside an edge touches it along the common stretch") {
    auto c = Ctx(Add(I.b, vector3{0, scalar(2 + 0.75), scalar(3 + 1)}), quaternion_identity, I.b, quaternion_identity); auto r = CapBox(out, c, 0, 2, scalar(0.25), {0, scalar(0.6), scalar(0.8)}); for (int i = 0; i < 2; ++i) { auto &p = r.point[i]; out.eq(p.pivotB.y, 2); out.eq(p.pivotB.z, 3); out.eq(Abs(p.pivotB.x), 3); } }
LAW(capsule_box_far, "collide(capsule_shape, box_shape)", "no contact beyond the threshold") { auto c = Ctx(Add(I.b, vector3{0, scalar(3.75), 0}), quaternion_identity, I.b, quaternion_identity); CapBox(out, c, 0, 0, 0, vector3_zero); }

// Box A of half extents 1, 2, 3 at x from box B of half extents 4, 2, 5.
INL collision_result Boxes(Out &out, const vector3 &hb, const collision_context &c, size_t n, scalar dist, const vector3 &normal) {
    collision_result r; collide(box_shape{{1, 2, 3}}, box_shape{hb}, c, r); out.eqi(r.num_points, n); for (size_t i = 0; i < n; ++i) { auto &p = r.point[i]; out.eq(p.distance, dist); out.eq(p.normal, normal); Apart(out, c, p); } return r; }
LAW(box_box_on, "collide(box_shape, box_shape)", "a box resting within a face touches it with the corners of its own face") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{1, 4 + g, scalar(-0.5)}), quaternion_identity, I.b, quaternion_identity); auto r = Boxes(out, {4, 2, 5}, c, 4, g, {0, 1, 0}); vector3 sum{}; for (int i = 0; i < 4; ++i) { auto &p = r.point[i]; out.eq(p.pivotA.y, -2); out.eq(Abs(p.pivotA.x), 1); out.eq(Abs(p.pivotA.z), 3); sum = Add(sum, p.pivotA); } out.eq(sum, vector3{0, -8, 0}); } }
LAW(box_box_under, "collide(box_shape, box_shape)", "a box under a face touches it with the corners of the smaller face") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{0, -3 - g, scalar(0.5)}), quaternion_identity, I.b, quaternion_identity); auto r = Boxes(out, {scalar(0.5), 1, 2}, c, 4, g, {0, -1, 0}); vector3 sum{}; for (int i = 0; i < 4; ++i) { auto &p = r.point[i]; out.eq(p.pivotB.y, -1); out.eq(Abs(p.pivotB.x), scalar(0.5)); out.eq(Abs(p.pivotB.z), 2); sum = Add(sum, p.pivotB); } out.eq(sum, vector3{0, -4, 0}); } }
LAW(box_box_partly, "collide(box_shape, box_shape)", "faces that overlap in part touch at the corners of the common area") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{4, 4 + g, 5}), quaternion_identity, I.b, quaternion_identity); auto r = Boxes(out, {4, 2, 5}, c, 4, g, {0, 1, 0}); vector3 sum{}; for (int i = 0; i < 4; ++i) { auto &p = r.point[i]; out.eq((p.pivotB.x - 3) * (p.pivotB.x - 4), 0); out.eq((p.pivotB.z - 2) * (p.pivotB.z - 5), 0); sum = Add(sum, p.pivotB); } out.eq(sum, vector3{14, 8, 14}); } }
LAW(box_box_far, "collide(box_shape, box_shape)", "no contact beyond the threshold") { auto c = Ctx(Add(I.b, vector3{0, scalar(4.75), 0}), quaternion_identity, I.b, quaternion_identity); Boxes(out, {4, 2, 5}, c, 0, 0, vector3_zero); }
LAW(box_box_edge, "collide(box_shape, box_shape)", "a box balanced on an edge touches the face below with both ends of the edge") {
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{0, 2 + scalar(0.96 + 2 * 0.28) + g, scalar(0.5)}), quaternion{0, 0, scalar(0.6), scalar(0.8)}, I.b, quaternion_identity); auto r = Boxes(out, {4, 2, 5}, c, 2, g, {0, 1, 0}); for (int i = 0; i < 2; ++i) { auto &p = r.point[i]; out.eq(p.pivotA.x, -1); out.eq(p.pivotA.y, -2); out.eq(Abs(p.pivotA.z), 3); out.eqb(p.normal_attachment == contact_normal_attachment::normal_on_B, true); } out.eq(r.point[0].pivotA.z + r.point[1].pivotA.z, 0); } }
LAW(box_box_vertex, "collide(box_shape, box_shape)", "a box balanced on a corner touches the face below with it") {
    quaternion q{scalar(0.1), scalar(0.7), scalar(0.5), scalar(0.5)}; scalar lo = 1000; vector3 at{}; for (int k = 0; k < 8; ++k) { auto v = Rot(q, vector3{k & 1 ? scalar(1) : scalar(-1), k & 2 ? scalar(2) : scalar(-2), k & 4 ? scalar(3) : scalar(-3)}); at = v.y < lo ? v : at; lo = v.y < lo ? v.y : lo; }
    for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{1, 2 - lo + g, 1}), q, I.b, quaternion_identity); auto r = Boxes(out, {9, 2, 9}, c, 1, g, {0, 1, 0}); out.eq(PA(c, r.point[0]), Add(c.posA, at)); } }
LAW(box_box_cross, "collide(box_shape, box_shape)", "boxes touching with crossed edges touch where the common perpendicular meets them") {
    quaternion A{0, 0, scalar(0.6), scalar(0.8)}, B{scalar(0.6), 0, 0, scalar(0.8)}; for (auto g : {scalar(0.25), scalar(-0.25)}) { auto c = Ctx(Add(I.b, vector3{scalar(-1.64), scalar(1.52 + 3.44) + g, 0}), A, I.b, B); auto r = Boxes(out, {1, 2, 3}, c, 1, g, {0, 1, 0}); out.eq(r.point[0].pivotA, vector3{-1, -2, scalar(1.08)}); out.eq(r.point[0].pivotB, vector3{0, 2, -3}); } }
