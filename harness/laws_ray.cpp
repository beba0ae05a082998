// Ray casts against shapes.
#include "shape.hpp"
#include <vector>
#include <memory>
#include <numeric>
#include <algorithm>
#include "rbtree.hpp"
#include "/repo/src/edyn/collision/raycast.cpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/box_shape.cpp"
#include "/repo/src/edyn/shapes/triangle_mesh.cpp"
#include "/repo/src/edyn/shapes/convex_mesh.cpp"
using namespace edyn;
using namespace law;

static inline __attribute__((always_inline)) bool Hit(const shape_raycast_result &r) { return r.fraction < EDYN_SCALAR_MAX; }
// The part of the ray inside a box: entry and exit per axis.
static inline __attribute__((always_inline)) void RayBox(Out &out, const vector3 &d, const vector3 &h, const vector3 &p0, const vector3 &pos, const quaternion &q) {
    auto r = shape_raycast(box_shape{h}, raycast_context{pos, q, World(p0, pos, q), World(Add(p0, d), pos, q)}); scalar in = -100000, ex = 100000; bool ok = true;
    for (int i = 0; i < 3; ++i) { auto D = At(d, i), P = At(p0, i), H = At(h, i); if (D == 0) { ok = ok && !(P > H) && !(P < -H); continue; } auto a = ((D > 0 ? -H : H) - P) / D, b = ((D > 0 ? H : -H) - P) / D; in = Max(in, a); ex = Min(ex, b); }
    ok = ok && !(in > ex) && !(ex < 0) && !(in > 1); out.eqb(Hit(r), ok); out.eq(ok ? r.fraction : 0, ok ? (in < 0 ? 0 : in) : 0); 
    bool from = ok && in > 0; auto n = Rot(Conj(q), r.normal); auto x = Add(p0, Mul(d, r.fraction)); out.eq(from ? Dot(x, n) : 0, from ? h.x * Abs(n.x) + h.y * Abs(n.y) + h.z * Abs(n.z) : 0); out.eq(from ? Sq(n) : 1, 1); out.eqb(from && Dot(n, d) > 0, false); 
    size_t f = from ? std::get_if<box_raycast_info>(&r.info_var)->face_index : 0; out.eq(from ? Dot(n, Axis(f / 2)) : 0, from ? (f % 2 ? -1 : 1) : 0); }
LAW(ray_box_axis, "shape_raycast(box_shape)", "a ray along an axis hits the first face in its way if it starts before it") { for (int i = 0; i < 3; ++i) { RayBox(out, Mul(Axis(i), 4), {1, 2, 3}, I.b, vector3_zero, quaternion_identity); RayBox(out, Mul(Axis(i), -4), {1, 2, 3}, I.b, vector3_zero, quaternion_identity); } }
LAW(ray_box_slant, "shape_raycast(box_shape)", "a slanted ray hits exactly when it is within all the slabs at once, first at the last slab it enters") { RayBox(out, {4, -2, 0}, {1, 2, 3}, I.b, vector3_zero, quaternion_identity); RayBox(out, {0, 4, 8}, {1, 2, 3}, I.b, vector3_zero, quaternion_identity); }
LAW(ray_box_skew, "shape_raycast(box_shape)", "a slanted ray hits exactly when it is within all the slabs at once, first at the last slab it enters") { RayBox(out, {-4, 2, 1}, {1, 2, 3}, I.b, vector3_zero, quaternion_identity); }
LAW(ray_box_pose, "shape_raycast(box_shape)", "the hit moves and turns with the box") { RayBox(out, {0, 0, -4}, {1, 2, 3}, vector3{I.b.x, I.b.y, 5}, I.a, unit(I.q)); }
static inline __attribute__((always_inline)) void RayPlane(Out &out, const In &I, const vector3 &d) {
    vector3 n{0, scalar(-0.5), scalar(1.5)}; auto r = shape_raycast(plane_shape{n, I.s}, raycast_context{I.f, I.q, I.a, Add(I.a, d)}); auto e = I.s * Sq(n) - Dot(I.a, n), k = Dot(d, n); bool hit = k > 0 ? !(e < 0 || e > k) : !(e > 0 || e < k); out.eqb(Hit(r), hit); out.eq(hit ? r.fraction * k : 0, hit ? e : 0); out.eq(hit ? r.normal : n, n); }
LAW(ray_plane, "shape_raycast(plane_shape)", "the ray hits a plane where it crosses it, between its ends only") { RayPlane(out, I, {1, 2, 3}); RayPlane(out, I, {-3, 0, 2}); RayPlane(out, I, {5, 2, -1}); RayPlane(out, I, {0, 1, -2}); }
LAW(ray_plane_flat, "shape_raycast(plane_shape)", "a ray along the plane hits it only when it lies in it") { vector3 n{0, 1, 0}; auto r = shape_raycast(plane_shape{n, 2}, raycast_context{I.f, I.q, vector3{I.a.x, I.s, I.a.z}, vector3{I.b.x, I.s, I.b.z}}); auto e = Abs(I.s - 2); out.eqb(!Hit(r), !(e < EDYN_EPSILON)); out.eq(Hit(r) ? r.fraction : 0, 0); out.eq(Hit(r) ? r.normal : n, n); }
template<int k> static inline __attribute__((always_inline)) void RaySphere(Out &out, const In &I, scalar start, scalar len, const vector3 &at) {
    vector3 d = Mul(Axis(k), len), p = Local(k, start, I.b.x, I.b.y); auto r = shape_raycast(sphere_shape{2}, raycast_context{at, I.q, Add(at, p), Add(at, Add(p, d))}); auto rho = I.b.x * I.b.x + I.b.y * I.b.y; bool hit = Hit(r); bool in = rho < 4; auto z = std::sqrt(4 - rho), t = ((len > 0 ? -z : z) - start) / len; bool want = in && !(t < 0) && !(t > 1);
    out.on = in || rho > 4; out.eqb(hit, want); out.eq(hit && in ? r.fraction : 0, want ? t : 0); auto x = Add(p, Mul(d, t)); out.eq(hit && in ? r.normal : vector3_zero, want ? Mul(x, scalar(0.5)) : vector3_zero); }
LAW(ray_sphere_z, "shape_raycast(sphere_shape)", "a ray from outside hits the sphere at the first point on its surface, with the radial normal, between its ends only") { RaySphere<2>(out, I, -3, 4, vector3_zero); RaySphere<2>(out, I, 4, -3, vector3_zero); RaySphere<2>(out, I, 3, 4, vector3_zero); RaySphere<2>(out, I, 9, -4, vector3_zero); }
LAW(ray_sphere_at, "shape_raycast(sphere_shape)", "the hit moves with the sphere") { RaySphere<0>(out, I, -3, 4, I.a); RaySphere<1>(out, I, 3, -2, I.a); }
// Cylinders and capsules along axis k: the ray comes in perpendicular to the axis, u along it and y off it.
template<int k, bool cyl> static inline __attribute__((always_inline)) void RaySide(Out &out, scalar u, scalar y, scalar start, scalar len, const vector3 &at, const quaternion &q) {
    auto p = Local(k, u, y, start), d = Local(k, 0, 0, len); auto ctx = raycast_context{at, q, World(p, at, q), World(Add(p, d), at, q)}; bool in = y * y < 4, mid = u < 3 && u > -3; auto z = std::sqrt(4 - y * y), t = ((len > 0 ? -z : z) - start) / len; bool want = in && mid && !(t < 0) && !(t > 1); auto n = Mul(Sub(Add(p, Mul(d, t)), Mul(Axis(k), u)), scalar(0.5));
    out.on = (in || y * y > 4) && !(u == 3) && !(u == -3) && (cyl || mid); 
    auto r = cyl ? shape_raycast(cylinder_shape{2, 3, AX[k]}, ctx) : shape_raycast(capsule_shape{2, 3, AX[k]}, ctx); out.eqb(Hit(r), want); out.eq(want ? r.fraction : 0, want ? t : 0); out.eq(want ? Rot(Conj(q), r.normal) : vector3_zero, want ? n : vector3_zero); 
    if (cyl) { auto *i = std::get_if<cylinder_raycast_info>(&r.info_var); out.eqb(want && i->feature != cylinder_feature::side_edge, false); } else { auto *i = std::get_if<capsule_raycast_info>(&r.info_var); out.eqb(want && i->feature != capsule_feature::side, false); } }
#define RAYSIDE(N, AXIS) LAW(ray_cyl_off_##N, "shape_raycast(cylinder_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis " #N ")") { RaySide<AXIS, true>(out, 1, I.b.x, -3, 4, vector3_zero, quaternion_identity); } \
    LAW(ray_cyl_side_##N, "shape_raycast(cylinder_shape)", "a ray across the axis only hits between the caps (axis " #N ")") { RaySide<AXIS, true>(out, I.u, 0, 5, -4, vector3_zero, quaternion_identity); RaySide<AXIS, true>(out, I.u, 1, 3, 4, vector3_zero, quaternion_identity); } \
    LAW(ray_cap_off_##N, "shape_raycast(capsule_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis " #N ")") { RaySide<AXIS, false>(out, -1, I.b.x, 3, -2, vector3_zero, quaternion_identity); } \
    LAW(ray_cap_side_##N, "shape_raycast(capsule_shape)", "a ray across the axis hits the side (axis " #N ")") { RaySide<AXIS, false>(out, I.u, 0, 5, -4, vector3_zero, quaternion_identity); RaySide<AXIS, false>(out, I.u, 1, 3, 4, vector3_zero, quaternion_identity); }
RAYSIDE(x, 0) RAYSIDE(y, 1) RAYSIDE(z, 2)
//@law ray_cyl_off_x, "shape_raycast(cylinder_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis x)")
//@law ray_cyl_side_x, "shape_raycast(cylinder_shape)", "a ray across the axis only hits between the caps (axis x)")
//@law ray_cap_off_x, "shape_raycast(capsule_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis x)")
//@law ray_cap_side_x, "shape_raycast(capsule_shape)", "a ray across the axis hits the side (axis x)")
//@law ray_cyl_off_y, "shape_raycast(cylinder_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis y)")
//@law ray_cyl_side_y, "shape_raycast(cylinder_shape)", "a ray across the axis only hits between the caps (axis y)")
//@law ray_cap_off_y, "shape_raycast(capsule_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis y)")
//@law ray_cap_side_y, "shape_raycast(capsule_shape)", "a ray across the axis hits the side (axis y)")
//@law ray_cyl_off_z, "shape_raycast(cylinder_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis z)")
//@law ray_cyl_side_z, "shape_raycast(cylinder_shape)", "a ray across the axis only hits between the caps (axis z)")
//@law ray_cap_off_z, "shape_raycast(capsule_shape)", "a ray across the axis hits the side where it enters, with the radial normal, between its ends only (axis z)")
//@law ray_cap_side_z, "shape_raycast(capsule_shape)", "a ray across the axis hits the side (axis z)")
// Along the axis.
template<int k> static inline __attribute__((always_inline)) void RayCap(Out &out, const In &I, scalar start, scalar len, const vector3 &at, const quaternion &q) {
    auto p = Local(k, start, I.b.x, I.b.y), d = Mul(Axis(k), len); auto ctx = raycast_context{at, q, World(p, at, q), World(Add(p, d), at, q)}; auto rho = I.b.x * I.b.x + I.b.y * I.b.y; bool in = rho < 4; auto s = len > 0 ? scalar(-1) : scalar(1), t = (s * 3 - start) / len; bool want = in && !(t < 0) && !(t > 1); out.on = in || rho > 4;
    { auto r = shape_raycast(cylinder_shape{2, 3, AX[k]}, ctx); out.eqb(Hit(r), want); out.eq(want ? r.fraction : 0, want ? t : 0); out.eq(want ? Rot(Conj(q), r.normal) : vector3_zero, want ? Mul(Axis(k), s) : vector3_zero); auto *i = std::get_if<cylinder_raycast_info>(&r.info_var); out.eqb(want && i->feature != cylinder_feature::face, false); out.eqi(want ? i->face_index : 0, want ? (s < 0 ? 1 : 0) : 0); }
    auto z = std::sqrt(4 - rho); auto tc = (s * (3 + z) - start) / len; bool cap = in && !(tc < 0) && !(tc > 1); { auto r = shape_raycast(capsule_shape{2, 3, AX[k]}, ctx); out.eqb(Hit(r), cap); out.eq(cap ? r.fraction : 0, cap ? tc : 0); auto n = Mul(Sub(Add(p, Mul(d, tc)), Mul(Axis(k), s * 3)), scalar(0.5)); out.eq(cap ? Rot(Conj(q), r.normal) : vector3_zero, cap ? n : vector3_zero); auto *i = std::get_if<capsule_raycast_info>(&r.info_var); out.eqb(cap && i->feature != capsule_feature::hemisphere, false); out.eqi(cap ? i->hemisphere_index : 0, cap ? (s < 0 ? 1 : 0) : 0); } }
LAW(ray_cap_x, "shape_raycast(cylinder_shape) shape_raycast(capsule_shape)", "a ray along the axis hits the cap in its way, flat or round (axis x)") { RayCap<0>(out, I, -6, 4, vector3_zero, quaternion_identity); RayCap<0>(out, I, 6, -4, vector3_zero, quaternion_identity); }
LAW(ray_cap_y, "shape_raycast(cylinder_shape) shape_raycast(capsule_shape)", "a ray along the axis hits the cap in its way, flat or round (axis y)") { RayCap<1>(out, I, -6, 4, vector3_zero, quaternion_identity); RayCap<1>(out, I, 6, 4, vector3_zero, quaternion_identity); }
LAW(ray_cap_z, "shape_raycast(cylinder_shape) shape_raycast(capsule_shape)", "a ray along the axis hits the cap in its way, flat or round (axis z)") { RayCap<2>(out, I, -9, 4, vector3_zero, quaternion_identity); RayCap<2>(out, I, 6, -2, vector3_zero, quaternion_identity); }

LAW(ray_cyl_pose, "shape_raycast(cylinder_shape)", "the hit moves and turns with the cylinder") { RaySide<0, true>(out, I.u, 0, -3, 4, I.a, unit(I.q)); }
// The same, for a capsule or cylinder anywhere: the offset from the axis is 1.5.
template<int k> static inline __attribute__((always_inline)) void RayCapAt(Out &out, const In &I, scalar start, scalar len, const quaternion &q) {
    auto zero = I.w[23] * 0; auto p = Local(k, start + zero, scalar(1.5), 0), d = Local(k, len, 0, 0); auto s = len > 0 ? scalar(-1) : scalar(1); auto ctx = raycast_context{I.a, q, World(p, I.a, q), World(Add(p, d), I.a, q)};
    { auto r = shape_raycast(capsule_shape{scalar(2.5), 3, AX[k]}, ctx); auto t = (s * 5 - start) / len; out.eqb(Hit(r), true); out.eq(r.fraction, t); out.eq(Rot(Conj(q), r.normal), Local(k, s * scalar(0.8), scalar(0.6), 0)); auto *i = std::get_if<capsule_raycast_info>(&r.info_var); out.eqb(i->feature != capsule_feature::hemisphere, false); out.eqi(i->hemisphere_index, s < 0 ? 1 : 0); }
    { auto r = shape_raycast(cylinder_shape{scalar(2.5), 3, AX[k]}, ctx); auto t = (s * 3 - start) / len; out.eqb(Hit(r), true); out.eq(r.fraction, t); out.eq(Rot(Conj(q), r.normal), Mul(Axis(k), s)); } }
LAW(ray_cap_at_x, "shape_raycast(cylinder_shape) shape_raycast(capsule_shape)", "a ray along the axis hits the near cap wherever the shape is (axis x)") { RayCapAt<0>(out, I, -6, 4, quaternion_identity); RayCapAt<0>(out, I, 9, -7, quaternion_identity); }
LAW(ray_cap_at_y, "shape_raycast(cylinder_shape) shape_raycast(capsule_shape)", "a ray along the axis hits the near cap wherever the shape is (axis y)") { RayCapAt<1>(out, I, -9, 8, quaternion_identity); RayCapAt<1>(out, I, 6, -16, quaternion_identity); }
LAW(ray_cap_at_z, "shape_raycast(cylinder_shape) shape_raycast(capsule_shape)", "a ray along the axis hits the near cap wherever the shape is (axis z)") { RayCapAt<2>(out, I, -9, 8, quaternion_identity); RayCapAt<2>(out, I, 6, -4, quaternion_identity); }
LAW(ray_cap_pose, "shape_raycast(capsule_shape)", "the hit moves and turns with the capsule") { RaySide<1, false>(out, I.u, 0, -3, 4, I.a, unit(I.q)); }
// A slanted ray in the plane of the axis, towards the cap at +3 and the side of radius 2.
static inline __attribute__((always_inline)) void RaySlant(Out &out, const vector3 &at, scalar s, scalar v) {
    // x along the axis, starts at (6, v), runs by (-6, 3): reaches x = 3 at v + 1.5 and y = -2 at x = 2 (v + 5)...
    auto p = vector3{s * 6, v, 0}, d = vector3{s * -6, 3, 0}; auto ctx = raycast_context{at, quaternion_identity, Add(at, p), Add(at, Add(p, d))}; auto r = shape_raycast(cylinder_shape{2, 3, coordinate_axis::x}, ctx); auto y = v + scalar(1.5); bool face = y * y < 4, side = y * y > 4 && y < 0 && v > -5; 
    bool want = face || side; out.eqb(Hit(r), want); auto t = face ? scalar(0.5) : (-2 - v) / 3; out.eq(want ? r.fraction : 0, want ? t : 0); out.eq(want ? r.normal : vector3_zero, face ? vector3{s, 0, 0} : (side ? vector3{0, -1, 0} : vector3_zero)); }
LAW(ray_cyl_slant, "shape_raycast(cylinder_shape)", "a slanted ray hits the cap when it crosses it within the radius, else the side it reaches between the caps") { for (auto v : {scalar(-6), scalar(-4), scalar(-3), scalar(0), scalar(1)}) { RaySlant(out, I.a, 1, v); RaySlant(out, I.a, -1, v); } }
LAW(ray_cyl_over, "shape_raycast(cylinder_shape)", "a ray beyond the caps and parallel to them misses") { auto p = vector3{4 + I.s * I.s, -3, I.v}; auto r = shape_raycast(cylinder_shape{2, 3, coordinate_axis::x}, raycast_context{vector3_zero, quaternion_identity, p, vector3{p.x, 3, p.z}}); out.eqb(Hit(r), false); }
LAW(ray_capsule_end, "shape_raycast(capsule_shape)", "a ray across the axis beyond the side hits the hemisphere of that end, with its normal") {
    for (int s = -1; s < 2; s += 2) { auto u = I.u; auto p = vector3{s * (3 + u), -3, 0}; auto r = shape_raycast(capsule_shape{2, 3, coordinate_axis::x}, raycast_context{vector3_zero, quaternion_identity, p, vector3{p.x, 1, 0}}); bool in = u * u < 4 && u > 0; out.on = in || (u * u > 4 && u > 0); out.eqb(Hit(r), in); auto y = std::sqrt(4 - u * u); out.eq(in ? r.fraction * 4 : 0, in ? 3 - y : 0); out.eq(in ? r.normal : vector3_zero, in ? vector3{s * u / 2, -y / 2, 0} : vector3_zero); auto *i = std::get_if<capsule_raycast_info>(&r.info_var); out.eqb(in && i->feature != capsule_feature::hemisphere, false); out.eqi(in ? i->hemisphere_index : 0, in && s < 0 ? 1 : 0); } }
// A box as a polyhedron.
static inline __attribute__((always_inline)) void RayPoly(Out &out, const vector3 &d, const vector3 &h, const vector3 &p0, const vector3 &pos, const quaternion &q) {
    polyhedron_shape poly; poly.mesh = std::make_shared<convex_mesh>(); auto &m = *poly.mesh; m.vertices = {{h.x, h.y, h.z}, {-h.x, -h.y, -h.z}}; m.indices = {0, 0, 0, 1, 1, 1}; m.faces = {0, 1, 1, 1, 2, 1, 3, 1, 4, 1, 5, 1}; m.normals = {Axis(0), Axis(1), Axis(2), Mul(Axis(0), -1), Mul(Axis(1), -1), Mul(Axis(2), -1)}; 
    auto r = shape_raycast(poly, raycast_context{pos, q, World(p0, pos, q), World(Add(p0, d), pos, q)}); scalar in = -100000, ex = 100000; bool ok = true; size_t f = 0;
    for (int i = 0; i < 3; ++i) { auto D = At(d, i), P = At(p0, i), H = At(h, i); if (D == 0) { ok = ok && !(P > H) && !(P < -H); continue; } auto a = ((D > 0 ? -H : H) - P) / D, b = ((D > 0 ? H : -H) - P) / D; f = a > in ? i + (D > 0 ? 3 : 0) : f; in = Max(in, a); ex = Min(ex, b); }
    ok = ok && !(in > ex) && !(ex < 0) && !(in > 1); out.eqb(Hit(r), ok); out.eq(ok ? r.fraction : 0, ok ? (in < 0 ? 0 : in) : 0); auto n = Rot(Conj(q), r.normal); auto x = Add(p0, Mul(d, in)); out.eq(ok ? Dot(x, n) : 0, ok ? h.x * Abs(n.x) + h.y * Abs(n.y) + h.z * Abs(n.z) : 0); out.eq(ok ? Sq(n) : 1, 1); out.eqb(ok && Dot(n, d) > 0, false); size_t g = ok ? std::get_if<polyhedron_raycast_info>(&r.info_var)->face_index : 0; out.eq(ok ? Dot(n, Axis(g % 3)) : 0, ok ? (g > 2 ? -1 : 1) : 0); }
LAW(ray_poly_axis, "shape_raycast(polyhedron_shape)", "a ray parallel to some faces hits the first face in its way when it is behind all of those") { for (int i = 0; i < 3; ++i) { RayPoly(out, Mul(Axis(i), i == 1 ? -4 : 4), {1, 2, 3}, I.b, vector3_zero, quaternion_identity); } }
LAW(ray_poly_slant, "shape_raycast(polyhedron_shape)", "a slanted ray hits the last face plane it enters if that is before it leaves any") { RayPoly(out, {-4, 2, 1}, {1, 2, 3}, I.b, vector3_zero, quaternion_identity); }
LAW(ray_poly_pose, "shape_raycast(polyhedron_shape)", "the hit moves and turns with the polyhedron") { RayPoly(out, {0, 0, -4}, {1, 2, 3}, vector3{I.b.x, I.b.y, 5}, I.a, unit(I.q)); }
LAW(ray_mesh, "shape_raycast(mesh_shape)", "the nearest of the triangles in the way is reported, with its normal and index") {
    mesh_shape ms; ms.trimesh = std::make_shared<triangle_mesh>(); auto &m = *ms.trimesh; std::vector<vector3> v{{-1, -1, 0}, {3, -1, 0}, {-1, 3, 0}, {-1, -1, 2}, {3, -1, 2}, {-1, 3, 2}}; std::vector<uint32_t> ix{0, 1, 2, 3, 4, 5}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); m.initialize(); 
    constexpr scalar X[] = {0, 2, -2, scalar(0.5)}, Y[] = {0, 2, 0, 1}; for (int c = 0; c < 4; ++c) for (int k = 0; k < 2; ++k) { vector3 a{X[c], Y[c], k ? scalar(-2) : scalar(4)}, b{X[c], Y[c], k ? scalar(4) : scalar(-2)}; auto r = shape_raycast(ms, raycast_context{I.f, I.q, a, b}); bool in = c == 0 || c == 3; out.eqb(Hit(r), in); out.eq(in ? r.fraction * 3 : 0, in ? 1 : 0); out.eq(in ? r.normal : Axis(2), Axis(2)); auto *i = std::get_if<mesh_raycast_info>(&r.info_var); out.eqi(in ? i->triangle_index : 0, in && !k ? 1 : 0); } }

// A ray into a convex shape at the surface point h with outward normal n: first met there, from near and far, and not when it ends before.
template<typename S> static inline __attribute__((always_inline)) void Into(Out &out, const S &sh, const vector3 &h, const vector3 &n, const vector3 &d, const vector3 &pos, const quaternion &q) {
    for (auto a : {scalar(0.5), scalar(8)}) { auto r = shape_raycast(sh, raycast_context{pos, q, World(Sub(h, Mul(d, a)), pos, q), World(Add(h, Mul(d, 4)), pos, q)}); out.eqb(Hit(r), true); out.eq(r.fraction * (a + 4), a); out.eq(r.normal, Rot(q, n)); }
    auto r = shape_raycast(sh, raycast_context{pos, q, World(Sub(h, Mul(d, 4)), pos, q), World(Sub(h, Mul(d, scalar(0.25))), pos, q)}); out.eqb(Hit(r), false); }
template<int k> static inline __attribute__((always_inline)) void RoundInto(Out &out, scalar Z, const vector3 &pos, const quaternion &q, bool cyl) {
    for (int s = -1; s < 2; s += 2) for (int j = 0; j < 4; ++j) {
        scalar u = scalar(s) + Z, t = scalar(j & 1 ? 1 : -1) + Z, w = scalar(j & 2 ? 1 : -1) + Z;
        auto side = Local(k, u, scalar(1.2) * t, scalar(1.6) + Z), sn = Local(k, 0, scalar(0.6) * t, scalar(0.8) + Z), sd = Local(k, w, scalar(-0.5) * t, scalar(-1));
        auto flat = Local(k, 3 * u, scalar(0.5) * t, 1), fd = Local(k, -u, w, scalar(0.25) * t); 
        auto ball = Add(Local(k, 3 * u, 0, 0), Local(k, scalar(1.2) * u, 0, scalar(1.6) * t)), bn = Local(k, scalar(0.6) * u, 0, scalar(0.8) * t), bd = Local(k, u * w, scalar(0.25), -t);
        if (cyl) { cylinder_shape c{2, 3, AX[k]}; Into(out, c, side, sn, sd, pos, q); Into(out, c, flat, Local(k, u, 0, 0), fd, pos, q); }
        else { capsule_shape c{2, 3, AX[k]}; Into(out, c, side, sn, sd, pos, q); Into(out, c, ball, bn, bd, pos, q); } } }
// A turn the compiler cannot fold: the zero is hidden.
#define TURN quaternion{scalar(0.1) + I.w[23] * 0, scalar(0.7) + I.w[23] * 0, scalar(0.5) + I.w[23] * 0, scalar(0.5) + I.w[23] * 0}
LAW(into_cyl_x, "shape_raycast(cylinder_shape)", "slanted rays hit the side or cap they enter by, from near and far, and not when they end before") { RoundInto<0>(out, I.w[23] * 0, I.a, quaternion_identity, true); }
LAW(into_cyl_y, "shape_raycast(cylinder_shape)", "slanted rays hit the side or cap they enter by, from near and far, and not when they end before") { RoundInto<1>(out, I.w[23] * 0, I.a, quaternion_identity, true); }
LAW(into_cyl_z, "shape_raycast(cylinder_shape)", "slanted rays hit the side or cap they enter by, from near and far, and not when they end before") { RoundInto<2>(out, I.w[23] * 0, vector3_zero, TURN, true); }
LAW(into_caps_x, "shape_raycast(capsule_shape)", "slanted rays hit the side or hemisphere they enter by, from near and far, and not when they end before") { RoundInto<0>(out, I.w[23] * 0, I.a, quaternion_identity, false); }
LAW(into_caps_y, "shape_raycast(capsule_shape)", "slanted rays hit the side or hemisphere they enter by, from near and far, and not when they end before") { RoundInto<1>(out, I.w[23] * 0, I.a, quaternion_identity, false); }
LAW(into_caps_z, "shape_raycast(capsule_shape)", "slanted rays hit the side or hemisphere they enter by, from near and far, and not when they end before") { RoundInto<2>(out, I.w[23] * 0, vector3_zero, TURN, false); }
LAW(into_sphere, "shape_raycast(sphere_shape)", "slanted rays hit where they enter, from near and far, and not when they end before") { for (int j = 0; j < 8; ++j) { scalar a = (j & 1 ? 1 : -1) + I.w[23] * 0, b = j & 2 ? 1 : -1, c = j & 4 ? 1 : -1; Into(out, sphere_shape{3}, vector3{a, 2 * b, 2 * c}, Mul(vector3{a, 2 * b, 2 * c}, scalar(1) / 3), vector3{a, -b, -c}, I.a, unit(I.q)); } }
LAW(into_box, "shape_raycast(box_shape)", "slanted rays hit the face they enter by, from near and far, and not when they end before") { for (int i = 0; i < 3; ++i) for (int j = 0; j < 8; ++j) { scalar a = (j & 1 ? 1 : -1) + I.w[23] * 0, b = j & 2 ? 1 : -1, c = j & 4 ? 1 : -1; Into(out, box_shape{{2, 2, 2}}, Local(i, 2 * a, b, -c), Local(i, a, 0, 0), Local(i, -a, b / 2, c), I.a, TURN); } }
