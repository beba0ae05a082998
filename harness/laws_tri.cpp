// Triangle meshes: adjacency, normals, interpolation.
#include "shape.hpp"
#include <memory>
#include <numeric>
#include <algorithm>
#include <vector>
#include "rbtree.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/triangle_mesh.cpp"
using namespace edyn;
using namespace law;

// Reaches what has no accessor by visiting the members as an archive does.
struct Peek {
    using is_input = std::true_type; using is_output = std::false_type;
    std::vector<material::id_type> ids; flat_nested_array<uint32_t> *vertex_edges {};
    template<typename T> void operator()(T &) {}
    void operator()(std::vector<material::id_type> &v) { if (!ids.empty()) v = ids; }
    void operator()(flat_nested_array<uint32_t> &v) { vertex_edges = &v; }
};
static inline vector3 Unit(const vector3 &v) { auto l = std::sqrt(Sq(v)); return {v.x / l, v.y / l, v.z / l}; }
static inline vector3 Normal(const vector3 &a, const vector3 &b, const vector3 &c) { return Unit(Cross(Sub(b, a), Sub(c, b))); }
#define ONE triangle_mesh m; { std::vector<vector3> v{I.a, I.b, I.c}; std::vector<uint32_t> ix{0, 1, 2}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); }
#define PAIR(...) triangle_mesh m; { std::vector<vector3> v{I.a, I.b, I.c, I.d}; std::vector<uint32_t> ix{__VA_ARGS__}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); }

// Two triangles across the edge bc; the second one extends furthest along x, which settles the order of the boxes in the tree.
#define BENT(SIGN) auto p2 = I.s * I.s, q2 = I.t * I.t, r2 = I.u * I.u; const vector3 a{0, 0, 0}, b{1, 0, 0}, c{0, 1, 0}, d{p2 + q2 + r2 + 4, 2 + q2, SIGN (1 + r2)}; \
    triangle_mesh m; { std::vector<vector3> v{a, b, c, d}; std::vector<uint32_t> ix{0, 1, 2, 2, 1, 3}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); }

LAW(tm_counts, "triangle_mesh::insert_vertices insert_indices num_vertices num_triangles get_vertex_position get_triangle_vertices get_face_vertex_index", "vertices and triangles are kept in insertion order") {
    PAIR(0, 1, 2, 2, 1, 3) out.eqi(m.num_vertices(), 4); out.eqi(m.num_triangles(), 2); out.eq(m.get_vertex_position(0), I.a); out.eq(m.get_vertex_position(3), I.d);
    auto t = m.get_triangle_vertices(0), u = m.get_triangle_vertices(1); out.eq(t[0], I.a); out.eq(t[1], I.b); out.eq(t[2], I.c); out.eq(u[0], I.c); out.eq(u[1], I.b); out.eq(u[2], I.d);
    size_t n = 0; m.visit_all([&](auto idx, auto &v) { out.eqi(idx, n); out.eq(v[0], n ? I.c : I.a); out.eq(v[1], I.b); out.eq(v[2], n ? I.d : I.c); ++n; }); out.eqi(n, 2); }
LAW(tm_normals, "triangle_mesh::calculate_face_normals get_triangle_normal", "a unit vector along the right-hand normal of the triangle") {
    ONE m.initialize(); out.eq(m.get_triangle_normal(0), Normal(I.a, I.b, I.c)); for (int i = 0; i < 3; ++i) out.eqi(m.get_face_vertex_index(0, i), i); }
LAW(tm_normals2, "triangle_mesh::calculate_face_normals get_triangle_normal", "the same for two triangles") {
    BENT(+) m.initialize(); out.eq(m.get_triangle_normal(0), vector3{0, 0, 1}); out.eq(m.get_triangle_normal(1), Normal(c, b, d)); }
LAW(tm_edges_one, "triangle_mesh::init_edge_indices", "one triangle has three boundary edges with that triangle on both sides") {
    ONE m.initialize(); out.eqi(m.num_edges(), 3);
    for (unsigned i = 0; i < 3; ++i) { auto e = m.get_face_edge_index(0, i); auto v = m.get_edge_vertex_indices(e); out.eqb((v[0] == i && v[1] == (i + 1) % 3) || (v[1] == i && v[0] == (i + 1) % 3), true); out.eqb(m.is_boundary_edge(i), true); auto f = m.get_edge_face_indices(i); out.eqi(f[0], 0); out.eqi(f[1], 0); } }
static inline bool Joins(const triangle_mesh &m, size_t e, unsigned a, unsigned b) { auto v = m.get_edge_vertex_indices(e); return (v[0] == a && v[1] == b) || (v[0] == b && v[1] == a); }
static inline __attribute__((always_inline)) void Topology(Out &out, triangle_mesh &m, const unsigned *ix, unsigned nt, unsigned nv, unsigned ne) {
    m.initialize(); out.eqi(m.num_edges(), ne);
    for (unsigned t = 0; t < nt; ++t) for (unsigned i = 0; i < 3; ++i) out.eqb(Joins(m, m.get_face_edge_index(t, i), ix[t * 3 + i], ix[t * 3 + (i + 1) % 3]), true);
    for (unsigned e = 0; e < ne; ++e) {
        unsigned n = 0, f[2] = {0, 0}; for (unsigned t = 0; t < nt; ++t) for (unsigned i = 0; i < 3; ++i) if (Joins(m, e, ix[t * 3 + i], ix[t * 3 + (i + 1) % 3])) f[n++ ? 1 : 0] = t;
        if (n == 1) f[1] = f[0]; auto g = m.get_edge_face_indices(e); out.eqb((g[0] == f[0] && g[1] == f[1]) || (g[0] == f[1] && g[1] == f[0]), true); out.eqb(m.is_boundary_edge(e), n == 1);
        for (unsigned d = 0; d < e; ++d) { auto v = m.get_edge_vertex_indices(d); out.eqb(Joins(m, e, v[0], v[1]), false); }
    }
    Peek pk; serialize(pk, m); auto &ve = *pk.vertex_edges; out.eqi(ve.size(), nv);
    for (unsigned v = 0; v < nv; ++v) { unsigned n = 0; for (unsigned e = 0; e < ne; ++e) { auto x = m.get_edge_vertex_indices(e); if (x[0] == v || x[1] == v) { bool in = false; for (size_t k = 0; k < ve[v].size(); ++k) in |= ve[v][k] == e; out.eqb(in, true); ++n; } } out.eqi(ve[v].size(), n); }
}
#define TOPO(N, NV, NE, ...) { static const unsigned ix[] = {__VA_ARGS__}; triangle_mesh m; std::vector<vector3> v; for (int i = 0; i < NV; ++i) v.push_back({scalar(i * 3 % 5), scalar(i * i), scalar(i * 7 % 4)}); m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix, ix + 3 * (N)); Topology(out, m, ix, N, NV, NE); }
LAW(tm_edges_two, "triangle_mesh::init_edge_indices", "edges are unique and shared; every edge knows its faces, every face its edges in order, every vertex its edges; only an edge with a single face is a boundary: two triangles") { TOPO(2, 4, 5, 0, 1, 2, 2, 1, 3) }
LAW(tm_edges_tet, "triangle_mesh::init_edge_indices", "the same for the closed surface of a tetrahedron") { TOPO(4, 4, 6, 0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3) }
LAW(tm_edges_fan, "triangle_mesh::init_edge_indices", "the same for an open fan around a vertex") { TOPO(3, 5, 7, 4, 0, 1, 4, 1, 2, 3, 4, 2) }
LAW(tm_adjacent, "triangle_mesh::calculate_adjacent_normals get_adjacent_face_normal is_convex_edge", "across the shared edge lies the normal of the other face, on both sides; the edge is convex iff the neighbor bends away from the normal") {
    BENT(+) m.initialize(); auto n0 = vector3{0, 0, 1}, n1 = m.get_triangle_normal(1);
    out.eq(m.get_adjacent_face_normal(0, 1), n1); out.eq(m.get_adjacent_face_normal(1, 0), n0); auto e = m.get_face_edge_index(0, 1); out.eqi(m.get_face_edge_index(1, 0), e); out.eqb(m.is_boundary_edge(e), false); auto bend = Dot(n1, Cross(n0, Sub(c, b))); out.eqb(m.is_convex_edge(e), bend < -EDYN_EPSILON); }
LAW(tm_adjacent2, "triangle_mesh::calculate_adjacent_normals is_convex_edge", "an edge is convex when the neighbor bends away from the normal") {
    BENT(-) m.initialize(); auto e = m.get_face_edge_index(0, 1); auto n = m.get_triangle_normal(1); auto bend = Dot(n, Cross({0, 0, 1}, Sub(c, b))); out.eqb(m.is_convex_edge(e), bend < -EDYN_EPSILON); out.eq(m.get_adjacent_face_normal(0, 1), n); }
LAW(tm_flat, "triangle_mesh::calculate_adjacent_normals is_convex_edge", "an edge within a flat area is not convex, one of a ridge is, one of a valley is not") {
    for (int h = -1; h <= 1; ++h) { vector3 v[4] = {{0, scalar(h), -1}, {0, scalar(h), 1}, {1, 0, 0}, {-1, 0, 0}}; triangle_mesh m; { std::vector<uint32_t> ix{0, 1, 2, 1, 0, 3}; m.insert_vertices(v, v + 4); m.insert_indices(ix.begin(), ix.end()); } m.initialize();
        auto e = m.get_face_edge_index(0, 0); out.eqi(m.get_face_edge_index(1, 0), e); out.eqb(m.is_convex_edge(e), h > 0); out.eqb(m.is_boundary_edge(e), false); } }
LAW(tm_boundary, "triangle_mesh::calculate_adjacent_normals", "a boundary edge is convex and its adjacent normal is nearly opposite, leaning to the outside") {
    vector3 v[3] = {{0, 0, 0}, {4, 0, 0}, {1, 3, 0}}; triangle_mesh m; { std::vector<uint32_t> ix{0, 1, 2}; m.insert_vertices(v, v + 3); m.insert_indices(ix.begin(), ix.end()); } m.initialize(); vector3 n{0, 0, 1};
    for (int i = 0; i < 3; ++i) { out.eqb(m.is_convex_edge(m.get_face_edge_index(0, i)), true); auto x = m.get_adjacent_face_normal(0, i); auto e = Sub(v[(i + 1) % 3], v[i]); out.eq(Dot(x, x), 1); out.eq(Dot(x, e), 0); out.eqb(Dot(x, n) < 0, true); out.eqb(Dot(x, Cross(n, e)) < 0, true); } }
LAW(tm_edge_friction, "triangle_mesh::get_edge_friction get_edge_restitution get_vertex_friction get_vertex_restitution", "linear between the values of the two vertices; a point takes the value at its projection on the edge") {
    ONE m.initialize(); scalar f[3] = {I.s, I.t, I.u}, r[3] = {I.g.x, I.g.y, I.v}; out.eqb(m.has_per_vertex_friction() || m.has_per_vertex_restitution(), false); m.insert_friction_coefficients(f, f + 3); m.insert_restitution_coefficients(r, r + 3); out.eqb(m.has_per_vertex_friction() && m.has_per_vertex_restitution(), true);
    vector3 v[3] = {I.a, I.b, I.c}; auto x = I.h.x;
    for (unsigned i = 0; i < 3; ++i) { auto k = m.get_edge_vertex_indices(i); out.eq(m.get_vertex_friction(i), f[i]); out.eq(m.get_vertex_restitution(i), r[i]);
        out.eq(m.get_edge_friction(i, x), f[k[0]] * (1 - x) + f[k[1]] * x); out.eq(m.get_edge_restitution(i, x), r[k[0]] * (1 - x) + r[k[1]] * x);
        auto e = Sub(v[k[1]], v[k[0]]); auto p = Add(v[k[0]], Mul(e, x)); bool z = Sq(e) == 0; out.eq(z ? 0 : m.get_edge_friction(i, p), z ? 0 : f[k[0]] * (1 - x) + f[k[1]] * x); out.eq(z ? 0 : m.get_edge_restitution(i, p), z ? 0 : r[k[0]] * (1 - x) + r[k[1]] * x);
        auto ev = m.get_edge_vertices(i); out.eq(ev[0], v[k[0]]); out.eq(ev[1], v[k[1]]); } }
LAW(tm_material, "triangle_mesh::get_edge_material_id get_vertex_material_id", "the materials of the two vertices, weighted linearly") {
    ONE m.initialize(); { Peek pk; pk.ids = {5, 7, 9}; serialize(pk, m); }
    for (unsigned i = 0; i < 3; ++i) { auto k = m.get_edge_vertex_indices(i); auto w = m.get_edge_material_id(i, I.s); for (int j = 0; j < 2; ++j) { out.eqi(w[j].id, 5 + 2 * k[j]); out.eq(w[j].fraction, j ? I.s : 1 - I.s); out.eqi(m.get_vertex_material_id(i), 5 + 2 * i); } } }
// Any point of the plane of the triangle, from its barycentric coordinates.
#define INPLANE ONE m.initialize(); auto n = Cross(Sub(I.b, I.a), Sub(I.c, I.a)); auto x = I.s, y = I.t, z = 1 - I.s - I.t; auto p = Add(Add(Mul(I.a, x), Mul(I.b, y)), Mul(I.c, z)); bool flat = Dot(n, n) == 0;
LAW(tm_bary, "triangle_mesh::barycentric_coordinates", "the coordinates of a point of the plane of a triangle") {
    INPLANE auto b = m.barycentric_coordinates(0, p); out.eq(flat ? 0 : b.x, flat ? 0 : x); out.eq(flat ? 0 : b.y, flat ? 0 : y); out.eq(flat ? 0 : b.z, flat ? 0 : z); }
LAW(tm_face_values, "triangle_mesh::get_face_friction get_face_restitution get_face_material_id interpolate_triangle", "barycentric interpolation of the values of the three vertices") {
    triangle_mesh m; { std::vector<vector3> v{{0, 0, 0}, {I.u * I.u + 1, 0, 0}, {I.v, I.g.x * I.g.x + 1, 0}}; std::vector<uint32_t> ix{2, 0, 1}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); } m.initialize();
    scalar f[3] = {I.a.x, I.a.y, I.a.z}, r[3] = {I.b.x, I.b.y, I.b.z}; m.insert_friction_coefficients(f, f + 3); m.insert_restitution_coefficients(r, r + 3); { Peek pk; pk.ids = {5, 7, 9}; serialize(pk, m); }
    auto c = 1 - I.s - I.t; auto v = m.get_triangle_vertices(0); auto p = Add(Add(Mul(v[0], c), Mul(v[1], I.s)), Mul(v[2], I.t));
    out.eq(m.get_face_friction(0, p), f[2] * c + f[0] * I.s + f[1] * I.t); out.eq(m.get_face_restitution(0, p), r[2] * c + r[0] * I.s + r[1] * I.t); out.eq(m.interpolate_triangle(0, p, I.c), I.c.x * c + I.c.y * I.s + I.c.z * I.t);
    auto w = m.get_face_material_id(0, p); out.eqi(w[0].id, 9); out.eqi(w[1].id, 5); out.eqi(w[2].id, 7); out.eq(w[0].fraction, c); out.eq(w[1].fraction, I.s); out.eq(w[2].fraction, I.t); }
LAW(tm_feature, "get_triangle_mesh_feature_index", "mesh index of a feature of a triangle") {
    BENT(+) m.initialize(); for (unsigned i = 0; i < 3; ++i) { out.eqi(get_triangle_mesh_feature_index(m, 1, triangle_feature::edge, i), m.get_face_edge_index(1, i)); out.eqi(get_triangle_mesh_feature_index(m, 1, triangle_feature::vertex, i), m.get_face_vertex_index(1, i)); } out.eqi(get_triangle_mesh_feature_index(m, 1, triangle_feature::face, 0), 1); }
LAW(tm_thickness, "triangle_mesh::set_thickness", "default of one, then the assigned value") { triangle_mesh m; out.eq(m.get_thickness(), 1); m.set_thickness(I.s); out.eq(m.get_thickness(), I.s); }
LAW(tm_init_one, "triangle_mesh::initialize get_aabb visit_triangles raycast", "one triangle: the box around it is the bounding box, and a query visits it iff the boxes touch") {
    triangle_mesh m; { std::vector<vector3> v{I.a, Add(I.a, vector3{1, 0, 0}), Add(I.a, vector3{0, 1, 0})}; std::vector<uint32_t> ix{0, 1, 2}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); } m.initialize();
    auto b = m.get_aabb(); out.eq(b.min, I.a); out.eq(b.max, Add(I.a, vector3{1, 1, 0})); out.eqi(m.num_edges(), 3); out.eq(m.get_triangle_normal(0), vector3{0, 0, 1});
    unsigned n = 0; m.visit_triangles(AABB{I.b, I.c}, [&](auto i) { n += 1 + i; }); bool t = I.b.x <= b.max.x && I.b.y <= b.max.y && I.b.z <= b.max.z && b.min.x <= I.c.x && b.min.y <= I.c.y && b.min.z <= I.c.z; out.eqi(n, t ? 1 : 0); }
