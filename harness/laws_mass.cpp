// Volume, centroid and moment of inertia.
#include "shape.hpp"
#include "edyn/dynamics/moment_of_inertia.hpp"
#include "edyn/math/shape_volume.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/math/shape_volume.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/dynamics/moment_of_inertia.cpp"
using namespace edyn;
using namespace law;

LAW(volumes, "box_volume sphere_volume cylinder_volume shape_volume", "volumes of the solids of revolution and of the box, from the half extents") {
    out.eq(box_volume(I.a), I.a.x * I.a.y * I.a.z); out.eq(shape_volume(box_shape{I.a}), 8 * I.a.x * I.a.y * I.a.z);
    auto sph = pi * I.s * I.s * I.s * 4 / 3, cyl = pi * I.s * I.s * I.t;
    out.eq(sphere_volume(I.s), sph); out.eq(shape_volume(sphere_shape{I.s}), sph); out.eq(cylinder_volume(I.s, I.t), cyl);
    for (int i = 0; i < 3; ++i) { out.eq(shape_volume(cylinder_shape{I.s, I.t, AX[i]}), 2 * cyl); out.eq(shape_volume(capsule_shape{I.s, I.t, AX[i]}), 2 * cyl + sph); } }
static inline vector3 On(int i, scalar ax, scalar tr) { return {i == 0 ? ax : tr, i == 1 ? ax : tr, i == 2 ? ax : tr}; }
static inline matrix3x3 Diag(const vector3 &d) { return {vector3{d.x, 0, 0}, vector3{0, d.y, 0}, vector3{0, 0, d.z}}; }
LAW(inertia_box, "moment_of_inertia_solid_box moment_of_inertia(box_shape)", "diagonal, integral of the squared distance to each axis") {
    auto m = I.s; vector3 d{m * (I.a.y * I.a.y + I.a.z * I.a.z) / 12, m * (I.a.x * I.a.x + I.a.z * I.a.z) / 12, m * (I.a.x * I.a.x + I.a.y * I.a.y) / 12};
    out.eq(moment_of_inertia_solid_box(m, I.a), d); out.eq(moment_of_inertia(box_shape{I.a}, m), Diag(Mul(d, 4))); }
LAW(inertia_sphere, "moment_of_inertia_solid_sphere moment_of_inertia_hollow_sphere", "2/5 and 2/3 m r^2") {
    auto x = I.s * I.t * I.t * 2 / 5; out.eq(moment_of_inertia_solid_sphere(I.s, I.t), x); out.eq(moment_of_inertia_hollow_sphere(I.s, I.t), I.s * I.t * I.t * 2 / 3);
    out.eq(moment_of_inertia(sphere_shape{I.t}, I.s), Diag({x, x, x})); }
LAW(inertia_cylinder, "moment_of_inertia_solid_cylinder moment_of_inertia_hollow_cylinder", "axial m r^2 / 2, transverse m (3 r^2 + l^2) / 12, along the axis of the cylinder; a hollow one is the difference of two solid ones") {
    auto m = I.s, l = I.t, r = I.u;
    for (int i = 0; i < 3; ++i) {
        auto d = On(i, m * r * r / 2, m * (3 * r * r + l * l) / 12); out.eq(moment_of_inertia_solid_cylinder(m, l, r, AX[i]), d);
        out.eq(moment_of_inertia(cylinder_shape{r, l, AX[i]}, m), Diag(On(i, m * r * r / 2, m * (3 * r * r + 4 * l * l) / 12)));
        auto q = I.v, rr = r * r + q * q; out.eq(moment_of_inertia_hollow_cylinder(m, l, q, r, AX[i]), On(i, m * rr / 2, m * (3 * rr + l * l) / 12));
    } }
LAW(inertia_capsule, "moment_of_inertia_solid_capsule moment_of_inertia(capsule_shape)", "cylinder plus two hemispheres, each shifted by the parallel axis theorem from its own centroid, along the axis of the capsule") {
    auto m = I.s, l = I.t, r = I.u; auto vc = l, vs = r * 4 / 3; auto mc = m * vc / (vc + vs), ms = m * vs / (vc + vs);   // volumes over pi r^2
    auto off = l / 2 + r * 3 / 8; auto tr = mc * (3 * r * r + l * l) / 12 + ms * (r * r * 83 / 320 + off * off); auto ax = mc * r * r / 2 + ms * r * r * 2 / 5;
    for (int i = 0; i < 3; ++i) { out.eq(moment_of_inertia_solid_capsule(m, l, r, AX[i]), On(i, ax, tr)); out.eq(moment_of_inertia(capsule_shape{r, l / 2, AX[i]}, m), Diag(On(i, ax, tr))); } }
LAW(inertia_capsule_limit, "moment_of_inertia_solid_capsule", "a capsule of zero length is a sphere") {
    for (int i = 0; i < 3; ++i) { auto x = I.s * I.u * I.u * 2 / 5; out.eq(moment_of_inertia_solid_capsule(I.s, 0, I.u, AX[i]), vector3{x, x, x}); } }
LAW(inertia_shift, "shift_moment_of_inertia", "parallel axis theorem: adds m (|d|^2 1 - d d^T)") {
    auto d = I.a; auto r = shift_moment_of_inertia(I.m, I.s, d); auto dd = Dot(d, d); vector3 v[3] = {{d.x, 0, 0}, {0, d.y, 0}, {0, 0, d.z}};
    for (int i = 0; i < 3; ++i) { vector3 e = Sub(Mul(Axis(i), dd), Mul(d, At(d, i))); out.eq(r.row[i], Add(I.m.row[i], Mul(e, I.s))); } (void)v; }
// A tetrahedron (a, b, c, d) with faces counter-clockwise seen from outside when det(b - a, c - a, d - a) > 0.
#define TET std::vector<vector3> v{I.a, I.b, I.c, I.d}; std::vector<uint32_t> ix{0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3}, fc{0, 3, 3, 3, 6, 3, 9, 3}; \
    auto six = Dot(Sub(I.b, I.a), Cross(Sub(I.c, I.a), Sub(I.d, I.a)));
// A pyramid over the parallelogram (a, a + b, a + b + c, a + c) with its apex at a + d: a face with four vertices.
#define PYR std::vector<vector3> v{I.a, Add(I.a, I.b), Add(Add(I.a, I.b), I.c), Add(I.a, I.c), Add(I.a, I.d)}; std::vector<uint32_t> ix{0, 3, 2, 1, 0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}, fc{0, 4, 4, 3, 7, 3, 10, 3, 13, 3}; \
    auto six = 2 * Dot(I.b, Cross(I.c, I.d));
LAW(volume_tet, "mesh_volume", "a sixth of the determinant of the edges of a tetrahedron") { TET convex_mesh m; m.vertices = v; m.indices = ix; m.faces = fc; out.eq(6 * mesh_volume(m), six); }
LAW(volume_pyr, "mesh_volume", "a third of base times height of a pyramid with a four-sided base") { PYR convex_mesh m; m.vertices = v; m.indices = ix; m.faces = fc; out.eq(6 * mesh_volume(m), six); }
LAW(centroid_tet, "mesh_centroid", "average of the vertices of a tetrahedron") { TET out.eq(mesh_centroid(v, ix, fc), Mul(Add(Add(I.a, I.b), Add(I.c, I.d)), scalar(0.25))); (void)six; }
LAW(centroid_pyr, "mesh_centroid", "a quarter of the way from the center of the base to the apex") { PYR auto g = Add(I.a, Mul(Add(I.b, I.c), scalar(0.5))); out.eq(mesh_centroid(v, ix, fc), Add(Mul(g, scalar(0.75)), Mul(Add(I.a, I.d), scalar(0.25)))); (void)six; }
static inline scalar Second(const vector3 *p, int i, int j) { scalar s = 0, x = 0, y = 0; for (int k = 0; k < 4; ++k) { s += At(p[k], i) * At(p[k], j); x += At(p[k], i); y += At(p[k], j); } return (s + x * y) / 20; }
LAW(inertia_tet, "moment_of_inertia_polyhedron", "trace of the second moments minus the second moments, of a tetrahedron with arbitrary vertices") {
    TET vector3 p[4] = {I.a, I.b, I.c, I.d}; auto r = moment_of_inertia_polyhedron(I.s, v, ix, fc); auto xx = Second(p, 0, 0), yy = Second(p, 1, 1), zz = Second(p, 2, 2), xy = Second(p, 0, 1), yz = Second(p, 1, 2), zx = Second(p, 2, 0); (void)six;
    out.eq(r.row[0], Mul(vector3{yy + zz, -xy, -zx}, I.s)); out.eq(r.row[1], Mul(vector3{-xy, xx + zz, -yz}, I.s)); out.eq(r.row[2], Mul(vector3{-zx, -yz, xx + yy}, I.s)); }
LAW(inertia_box_mesh, "moment_of_inertia_polyhedron make_box_mesh", "a polyhedron in the shape of a box has the inertia of the box") {
    vector3 he = I.a; std::vector<vector3> v; for (int i = 0; i < 8; ++i) v.push_back({i & 1 ? he.x : -he.x, i & 2 ? he.y : -he.y, i & 4 ? he.z : -he.z});
    std::vector<uint32_t> ix{0, 4, 6, 2, 1, 3, 7, 5, 0, 1, 5, 4, 2, 6, 7, 3, 0, 2, 3, 1, 4, 5, 7, 6}, fc{0, 4, 4, 4, 8, 4, 12, 4, 16, 4, 20, 4}; auto r = moment_of_inertia_polyhedron(I.s, v, ix, fc);
    vector3 d{I.s * (he.y * he.y + he.z * he.z) / 3, I.s * (he.x * he.x + he.z * he.z) / 3, I.s * (he.x * he.x + he.y * he.y) / 3}; out.eq(r, Diag(d));
    convex_mesh m; m.vertices = v; m.indices = ix; m.faces = fc; out.eq(mesh_volume(m), 8 * he.x * he.y * he.z); }
static inline void Put(compound_shape &c, const compound_shape::shapes_variant_t &v, const vector3 &p, const quaternion &q) { compound_shape::shape_node n{}; n.shape_var = v; n.position = p; n.orientation = q; c.nodes.push_back(n); }
static inline matrix3x3 MulMM(const matrix3x3 &a, const matrix3x3 &b) { matrix3x3 r{}; for (int i = 0; i < 3; ++i) r.row[i] = {a.row[i].x * b.row[0].x + a.row[i].y * b.row[1].x + a.row[i].z * b.row[2].x, a.row[i].x * b.row[0].y + a.row[i].y * b.row[1].y + a.row[i].z * b.row[2].y, a.row[i].x * b.row[0].z + a.row[i].y * b.row[1].z + a.row[i].z * b.row[2].z}; return r; }
static inline matrix3x3 Turned(const quaternion &q, const matrix3x3 &m) { vector3 c[3] = {Rot(q, {1, 0, 0}), Rot(q, {0, 1, 0}), Rot(q, {0, 0, 1})}; matrix3x3 r{vector3{c[0].x, c[1].x, c[2].x}, vector3{c[0].y, c[1].y, c[2].y}, vector3{c[0].z, c[1].z, c[2].z}}, t{c[0], c[1], c[2]}; return MulMM(MulMM(r, m), t); }
static inline matrix3x3 Steiner(const vector3 &d, scalar m) { matrix3x3 r; for (int i = 0; i < 3; ++i) r.row[i] = Mul(Sub(Mul(Axis(i), Dot(d, d)), Mul(d, At(d, i))), m); return r; }
static inline matrix3x3 Sum(const matrix3x3 &a, const matrix3x3 &b) { return {Add(a.row[0], b.row[0]), Add(a.row[1], b.row[1]), Add(a.row[2], b.row[2])}; }
static inline vector3 BoxInertia(const vector3 &h, scalar m) { return {m * (h.y * h.y + h.z * h.z) / 3, m * (h.x * h.x + h.z * h.z) / 3, m * (h.x * h.x + h.y * h.y) / 3}; }
LAW(compound_volume, "shape_volume(compound_shape)", "sum of the volumes of its shapes, whatever they are") {
    compound_shape c; Put(c, box_shape{I.a}, I.b, I.q); Put(c, sphere_shape{I.s}, I.c, I.q); Put(c, cylinder_shape{I.t, I.u, AX[2]}, I.c, I.q); Put(c, capsule_shape{I.t, I.v, AX[1]}, I.c, I.q); out.eq(shape_volume(c), 8 * I.a.x * I.a.y * I.a.z + pi * 4 / 3 * (I.s * I.s * I.s + I.t * I.t * I.t) + 2 * pi * I.t * I.t * (I.u + I.v)); }
LAW(compound_inertia, "moment_of_inertia(compound_shape)", "the mass is shared in proportion to the volumes; each share is turned and shifted to its place") {
    auto h = vector3{I.a.x * I.a.x + 1, 1, 2}, g = vector3{1, 1, I.a.y * I.a.y + 2}; compound_shape c; Put(c, box_shape{h}, I.b, quaternion_identity); Put(c, box_shape{g}, I.c, quaternion_identity); auto v = h.x * h.y * h.z, w = g.x * g.y * g.z, m = I.s * v / (v + w), n = I.s * w / (v + w);
    out.eq(moment_of_inertia(c, I.s), Sum(Sum(Diag(BoxInertia(h, m)), Steiner(I.b, m)), Sum(Diag(BoxInertia(g, n)), Steiner(I.c, n)))); }
LAW(compound_turned, "moment_of_inertia(compound_shape)", "a single turned and shifted box") { auto q = unit(I.q); auto h = vector3{I.a.x * I.a.x + 1, 1, 2}; compound_shape c; Put(c, box_shape{h}, I.b, q); out.eq(moment_of_inertia(c, I.s), Sum(Turned(q, Diag(BoxInertia(h, I.s))), Steiner(I.b, I.s))); }
LAW(compound_kinds, "moment_of_inertia(compound_shape) moment_of_inertia(shapes_variant_t)", "every kind of shape in a compound has its own inertia") {
    { compound_shape c; Put(c, sphere_shape{I.t * I.t + 1}, vector3_zero, quaternion_identity); out.eq(moment_of_inertia(c, I.s), moment_of_inertia(sphere_shape{I.t * I.t + 1}, I.s)); } { cylinder_shape k{I.t * I.t + 1, I.u * I.u + 1, AX[1]}; compound_shape c; Put(c, k, vector3_zero, quaternion_identity); out.eq(moment_of_inertia(c, I.s), moment_of_inertia(k, I.s)); } { capsule_shape k{I.t * I.t + 1, I.u * I.u + 1, AX[2]}; compound_shape c; Put(c, k, vector3_zero, quaternion_identity); out.eq(moment_of_inertia(c, I.s), moment_of_inertia(k, I.s)); out.eq(moment_of_inertia(shapes_variant_t{k}, I.s), moment_of_inertia(k, I.s)); } out.eq(moment_of_inertia(shapes_variant_t{box_shape{I.a}}, I.s), moment_of_inertia(box_shape{I.a}, I.s)); }
