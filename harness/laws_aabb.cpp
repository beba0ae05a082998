// Bounding volumes: containment and tightness.
#include "shape.hpp"
#include "rbtree.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/util/aabb_util.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/util/aabb_util.cpp"
#include "/repo/src/edyn/shapes/triangle_mesh.cpp"
#include "/repo/src/edyn/shapes/convex_mesh.cpp"
using namespace edyn;
using namespace law;

LAW(aabb_basic, "AABB::inset center size area", "center halves the sum of the corners, size is their difference, area is twice the sum of the side products, inset moves both corners inwards") {
    AABB b{I.a, I.b}; auto d = Sub(I.b, I.a); out.eq(b.center(), Mul(Add(I.a, I.b), scalar(0.5))); out.eq(b.size(), d); out.eq(b.area(), 2 * (d.x * d.y + d.y * d.z + d.z * d.x));
    auto n = b.inset(I.c); out.eq(n.min, Add(I.a, I.c)); out.eq(n.max, Sub(I.b, I.c)); }
LAW(aabb_contains, "AABB::contains", "every coordinate within the closed interval; a box is contained iff both of its corners are") {
    AABB b{I.a, I.b}; auto in = [&](const vector3 &p) { return I.a.x <= p.x && p.x <= I.b.x && I.a.y <= p.y && p.y <= I.b.y && I.a.z <= p.z && p.z <= I.b.z; };
    out.eqb(b.contains(I.c), in(I.c)); out.eqb(b.contains(AABB{I.c, I.d}), in(I.c) && in(I.d)); }
LAW(aabb_intersect, "intersect intersect_aabb", "two boxes touch iff their intervals overlap on every axis, touching included; symmetric") {
    auto r = I.a.x <= I.d.x && I.a.y <= I.d.y && I.a.z <= I.d.z && I.c.x <= I.b.x && I.c.y <= I.b.y && I.c.z <= I.b.z;
    out.eqb(intersect(AABB{I.a, I.b}, AABB{I.c, I.d}), r); out.eqb(intersect(AABB{I.c, I.d}, AABB{I.a, I.b}), r); out.eqb(intersect_aabb(I.a, I.b, I.c, I.d), r); }
LAW(aabb_enclosing, "enclosing_aabb", "smallest box that contains both") {
    auto e = enclosing_aabb(AABB{I.a, I.b}, AABB{I.c, I.d});
    for (int i = 0; i < 3; ++i) { out.eq(At(e.min, i), Min(At(I.a, i), At(I.c, i))); out.eq(At(e.max, i), Max(At(I.b, i), At(I.d, i))); } }
static inline vector3 Extent(const quaternion &q, const vector3 &he, int i) { auto l = Rot(Conj(q), Axis(i)); return {Abs(l.x) * he.x, Abs(l.y) * he.y, Abs(l.z) * he.z}; }
#define FOR_AXES(X) X(0) X(1) X(2)
#define BOXAABB(K) LAW(box_aabb_##K, "box_aabb", "") { auto q = unit(I.q); auto he = vector3{I.a.x * I.a.x, I.a.y * I.a.y, I.a.z * I.a.z}; AABB b[2] = {box_aabb(he, I.b, q), shape_aabb(box_shape{he}, I.b, q)}; auto e = Extent(q, he, K); auto s = e.x + e.y + e.z; \
    for (int j = 0; j < 2; ++j) { out.eq(At(b[j].min, K), At(I.b, K) - s); out.eq(At(b[j].max, K), At(I.b, K) + s); } }
//@law box_aabb_0, "box_aabb shape_aabb(box_shape)", "x: position plus and minus the support projection of the box, tight"
//@law box_aabb_1, "box_aabb shape_aabb(box_shape)", "y: position plus and minus the support projection of the box, tight"
//@law box_aabb_2, "box_aabb shape_aabb(box_shape)", "z: position plus and minus the support projection of the box, tight"
FOR_AXES(BOXAABB)
LAW(sphere_aabb, "sphere_aabb shape_aabb(sphere_shape)", "radius on every side of the position") {
    AABB b[2] = {sphere_aabb(I.s, I.a), shape_aabb(sphere_shape{I.s}, I.a, I.q)};
    for (auto &x : b) for (int i = 0; i < 3; ++i) { out.eq(At(x.min, i), At(I.a, i) - I.s); out.eq(At(x.max, i), At(I.a, i) + I.s); } }
static inline __attribute__((always_inline)) void CylBound(const In &I, Out &out, int K, int i) {
    auto q = unit(I.q); auto r = I.s * I.s, h = I.t * I.t; AABB b[2] = {cylinder_aabb(r, h, AX[i], I.b, q), shape_aabb(cylinder_shape{r, h, AX[i]}, I.b, q)};
    auto l = Rot(Conj(q), Axis(K)); auto n = At(l, i); auto y = At(l, (i + 1) % 3), z = At(l, (i + 2) % 3); auto rr = y * y + z * z;
    bool w = rr > EDYN_EPSILON; auto e = Abs(n) * h + r * std::sqrt(rr);
    for (auto &x : b) { out.eq(w ? At(x.max, K) : At(I.b, K) + e, At(I.b, K) + e); out.eq(w ? At(x.min, K) : At(I.b, K) - e, At(I.b, K) - e); } }
#define CYLAABB(K) LAW(cyl_aabb_##K, "cylinder_aabb", "") { CylBound(I, out, K, 0); CylBound(I, out, K, 1); CylBound(I, out, K, 2); }
//@law cyl_aabb_0, "cylinder_aabb shape_aabb(cylinder_shape)", "x: position plus and minus the support projection of the cylinder, tight, for every axis"
//@law cyl_aabb_1, "cylinder_aabb shape_aabb(cylinder_shape)", "y: position plus and minus the support projection of the cylinder, tight, for every axis"
//@law cyl_aabb_2, "cylinder_aabb shape_aabb(cylinder_shape)", "z: position plus and minus the support projection of the cylinder, tight, for every axis"
FOR_AXES(CYLAABB)
#define CAPAABB(K) LAW(cap_aabb_##K, "capsule_aabb", "") { auto q = unit(I.q); auto r = I.s * I.s, h = I.t * I.t; \
    for (int i = 0; i < 3; ++i) { AABB b[2] = {capsule_aabb(r, h, AX[i], I.b, q), shape_aabb(capsule_shape{r, h, AX[i]}, I.b, q)}; auto n = At(Rot(q, Axis(i)), K); \
        for (auto &x : b) { auto e = Abs(n * h) + r; out.eq(At(x.max, K), At(I.b, K) + e); out.eq(At(x.min, K), At(I.b, K) - e); } } }
//@law cap_aabb_0, "capsule_aabb shape_aabb(capsule_shape)", "x: position plus and minus the support projection of the capsule, tight, for every axis"
//@law cap_aabb_1, "capsule_aabb shape_aabb(capsule_shape)", "y: position plus and minus the support projection of the capsule, tight, for every axis"
//@law cap_aabb_2, "capsule_aabb shape_aabb(capsule_shape)", "z: position plus and minus the support projection of the capsule, tight, for every axis"
FOR_AXES(CAPAABB)
#define SPACES(K) LAW(aabb_spaces_##K, "aabb_to_world_space aabb_to_object_space", "") { auto q = unit(I.q); vector3 he{I.a.x * I.a.x, I.a.y * I.a.y, I.a.z * I.a.z}; auto c = I.d; AABB b{Sub(c, he), Add(c, he)}; \
    auto w = aabb_to_world_space(b, I.b, q), o = aabb_to_object_space(b, I.b, q); auto e = Extent(q, he, K), f = Extent(Conj(q), he, K); auto cw = World(c, I.b, q), co = Object(c, I.b, q); \
    out.eq(At(w.min, K), At(cw, K) - (e.x + e.y + e.z)); out.eq(At(w.max, K), At(cw, K) + (e.x + e.y + e.z)); out.eq(At(o.min, K), At(co, K) - (f.x + f.y + f.z)); out.eq(At(o.max, K), At(co, K) + (f.x + f.y + f.z)); }
//@law aabb_spaces_0, "aabb_to_world_space aabb_to_object_space", "x: tight box of the transformed box"
//@law aabb_spaces_1, "aabb_to_world_space aabb_to_object_space", "y: tight box of the transformed box"
//@law aabb_spaces_2, "aabb_to_world_space aabb_to_object_space", "z: tight box of the transformed box"
FOR_AXES(SPACES)
LAW(cloud_aabb, "point_cloud_aabb", "smallest box with every point, also under a transformation") {
    std::vector<vector3> v{I.a, I.b, I.c}; AABB b[2] = {point_cloud_aabb(v), point_cloud_aabb(v.begin(), v.end())};
    for (auto &x : b) for (int i = 0; i < 3; ++i) { out.eq(At(x.min, i), Min(Min(At(I.a, i), At(I.b, i)), At(I.c, i))); out.eq(At(x.max, i), Max(Max(At(I.a, i), At(I.b, i)), At(I.c, i))); } }
LAW(cloud_aabb_world, "point_cloud_aabb(pos, orn)", "smallest box with every transformed point") {
    auto q = unit(I.q); std::vector<vector3> v{I.a, I.b}; auto x = point_cloud_aabb(v, I.d, q); auto A = World(I.a, I.d, q), B = World(I.b, I.d, q);
    for (int i = 0; i < 3; ++i) { out.eq(At(x.min, i), Min(At(A, i), At(B, i))); out.eq(At(x.max, i), Max(At(A, i), At(B, i))); } }
LAW(plane_aabb, "shape_aabb(plane_shape)", "the box of an axis-aligned half-space ends at the plane, any other plane gets a box around the closest point") {
    for (int i = 0; i < 3; ++i) for (int s = -1; s < 2; s += 2) {
        auto n = Mul(Axis(i), s); auto b = shape_aabb(plane_shape{n, I.s}, I.a, I.q);
        out.eq(s > 0 ? At(b.max, i) : At(b.min, i), s * I.s); out.eqb(At(b.size(), i) > 10000, true);
        for (int j = 1; j < 3; ++j) out.eqb(At(b.min, (i + j) % 3) < -10000 && At(b.max, (i + j) % 3) > 10000, true);
    } }
LAW(plane_aabb_any, "shape_aabb(plane_shape)", "a plane along no axis gets a box that reaches far in every direction around its closest point") {
    auto n = vector3{I.a.x * I.a.x + 1, I.a.y, I.a.z}; auto b = shape_aabb(plane_shape{n, I.s}, I.b, I.q); auto p = Mul(n, I.s); bool ax = n.x == 1 && n.y == 0 && n.z == 0;
    for (int i = 0; i < 3; ++i) { out.eqb(ax || At(b.min, i) < At(p, i) - 10000, true); out.eqb(ax || At(b.max, i) > At(p, i) + 10000, true); } }
LAW(mesh_aabb, "shape_aabb(mesh_shape)", "the box of the mesh, moved to the position") {
    auto m = std::make_shared<triangle_mesh>(); { std::vector<vector3> v{I.a, Add(I.a, vector3{1, 0, 0}), Add(I.a, vector3{0, 1, 2})}; std::vector<uint32_t> ix{0, 1, 2}; m->insert_vertices(v.begin(), v.end()); m->insert_indices(ix.begin(), ix.end()); m->initialize(); }
    mesh_shape s; s.trimesh = m; auto b = shape_aabb(s, I.b, quaternion_identity); out.eq(b.min, Add(I.a, I.b)); out.eq(b.max, Add(Add(I.a, I.b), vector3{1, 1, 2})); }
LAW(poly_aabb, "shape_aabb(polyhedron_shape)", "smallest box with every transformed vertex") {
    polyhedron_shape s; s.mesh = std::make_shared<convex_mesh>(); s.mesh->vertices = {I.a, I.b}; auto q = unit(I.q); auto x = shape_aabb(s, I.d, q); auto A = World(I.a, I.d, q), B = World(I.b, I.d, q);
    for (int i = 0; i < 3; ++i) { out.eq(At(x.min, i), Min(At(A, i), At(B, i))); out.eq(At(x.max, i), Max(At(A, i), At(B, i))); } }
LAW(compound_aabb, "shape_aabb(compound_shape)", "encloses the boxes of all children, moved along") {
    compound_shape s; scalar lo[3][3], hi[3][3]; vector3 c[3] = {I.a, I.b, I.c}; for (int n = 1; n <= 3; ++n) { s.nodes.resize(n); auto &k = s.nodes[n - 1]; k.aabb = AABB{c[n - 1], Add(c[n - 1], vector3{1, 2, 3})}; auto b = shape_aabb(s, I.d, quaternion_identity); for (int i = 0; i < 3; ++i) { scalar l = At(c[0], i), h = l; for (int j = 1; j < n; ++j) { l = Min(l, At(c[j], i)); h = Max(h, At(c[j], i)); } out.eq(At(b.min, i), At(I.d, i) + l); out.eq(At(b.max, i), At(I.d, i) + h + i + 1); } } }
