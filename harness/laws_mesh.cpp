// Convex meshes, generated meshes, polygons and contact point selection.
#include "shape.hpp"
#include <memory>
#include <numeric>
#include <algorithm>
#include <vector>
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include "edyn/util/shape_util.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/convex_mesh.cpp"
#include "/repo/src/edyn/sys/update_rotated_meshes.cpp"
using namespace edyn;
using namespace law;
static inline vector3 Unit(const vector3 &v) { auto l = std::sqrt(Sq(v)); return {v.x / l, v.y / l, v.z / l}; }

// --- generated meshes
LAW(box_mesh, "make_box_mesh", "the eight corners; six flat faces, counter-clockwise seen from outside, every corner in three of them; nothing already there is changed") {
    std::vector<vector3> v; std::vector<uint32_t> ix, fc; make_box_mesh(I.a, v, ix, fc); out.eqi(v.size(), 8); out.eqi(ix.size(), 24); out.eqi(fc.size(), 12);
    auto s = vector3{1, 2, 3}; std::vector<vector3> w; std::vector<uint32_t> jx, gc; make_box_mesh(s, w, jx, gc); unsigned corner = 0, use[8] = {};
    for (int i = 0; i < 8; ++i) { out.eqb((w[i].x == 1 || w[i].x == -1) && (w[i].y == 2 || w[i].y == -2) && (w[i].z == 3 || w[i].z == -3), true); corner |= 1u << ((w[i].x > 0) + 2 * (w[i].y > 0) + 4 * (w[i].z > 0)); out.eq(v[i], vector3{w[i].x > 0 ? I.a.x : -I.a.x, w[i].y > 0 ? I.a.y : -I.a.y, w[i].z > 0 ? I.a.z : -I.a.z}); }
    out.eqi(corner, 255); for (int f = 0; f < 6; ++f) { out.eqi(gc[f * 2 + 1], 4); auto *k = &jx[gc[f * 2]]; auto n = Cross(Sub(w[k[1]], w[k[0]]), Sub(w[k[2]], w[k[1]])); for (int j = 0; j < 4; ++j) { ++use[k[j]]; out.eq(Dot(Sub(w[k[j]], w[k[0]]), n), 0); out.eqb(Dot(w[k[j]], n) > 0, true); out.eqb(Dot(Cross(Sub(w[k[(j + 1) % 4]], w[k[j]]), Sub(w[k[(j + 2) % 4]], w[k[(j + 1) % 4]])), n) > 0, true); } }
    for (auto u : use) out.eqi(u, 3); for (int i = 0; i < 24; ++i) out.eqi(ix[i], jx[i]); for (int i = 0; i < 12; ++i) out.eqi(fc[i], gc[i]); }
static inline __attribute__((always_inline)) void Plane(Out &out, const In &I, size_t nx, size_t nz) {
    std::vector<vector3> v; std::vector<uint32_t> ix; make_plane_mesh(I.s, I.t, nx, nz, v, ix); out.eqi(v.size(), nx * nz); out.eqi(ix.size(), (nx - 1) * (nz - 1) * 6);
    out.eq(v[0], vector3{-I.s / 2, 0, -I.t / 2}); out.eq(v[nx * nz - 1], vector3{I.s / 2, 0, I.t / 2}); scalar area = 0; auto cell = I.s * I.t / ((nx - 1) * (nz - 1)); for (auto &p : v) out.eq(p.y, 0);
    for (size_t i = 0; i < ix.size(); i += 3) { out.eqb(ix[i] < v.size() && ix[i + 1] < v.size() && ix[i + 2] < v.size(), true); auto n = Cross(Sub(v[ix[i + 1]], v[ix[i]]), Sub(v[ix[i + 2]], v[ix[i + 1]])); out.eq(n, vector3{0, cell, 0}); area += n.y / 2; } out.eq(area, I.s * I.t); }
LAW(plane_mesh, "make_plane_mesh", "a grid centered in the origin, covered once by triangles that face up") { Plane(out, I, 2, 2); }
LAW(plane_mesh2, "make_plane_mesh", "the same with different numbers of vertices along the axes") { Plane(out, I, 4, 3); }

// --- convex meshes
#define TET(A, B, C, D) convex_mesh m; m.vertices = {A, B, C, D}; m.indices = {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3}; m.faces = {0, 3, 3, 3, 6, 3, 9, 3};
#define BOX(H) convex_mesh m; make_box_mesh(H, m.vertices, m.indices, m.faces);
LAW(cm_centroid, "convex_mesh::shift_to_centroid mesh_centroid", "the average of the vertices of a tetrahedron moves to the origin; the shape does not change") {
    TET(I.a, I.b, I.c, I.d) auto d = Dot(Cross(Sub(I.b, I.a), Sub(I.c, I.a)), Sub(I.d, I.a)); bool flat = d == 0; m.shift_to_centroid(); auto g = Add(Add(m.vertices[0], m.vertices[1]), Add(m.vertices[2], m.vertices[3])); for (int i = 0; i < 3; ++i) out.eq(flat ? 0 : g[i], 0); vector3 v[4] = {I.a, I.b, I.c, I.d}; for (int i = 1; i < 4; ++i) { auto e = Sub(Sub(m.vertices[i], m.vertices[0]), Sub(v[i], v[0])); for (int k = 0; k < 3; ++k) out.eq(flat ? 0 : e[k], 0); } }
LAW(cm_normals, "convex_mesh::calculate_normals", "unit, along the right-hand normal of the face, also when the first edges are collinear") {
    convex_mesh m; scalar x = 3, z = 2; m.vertices = {{0, 0, 0}, {x, 0, 0}, {2 * x, 0, 0}, {5, 0, -z}}; m.indices = {0, 1, 2, 3, 3, 2, 1, 0, 3, 0, 1}; m.faces = {0, 4, 4, 4, 8, 3}; m.calculate_normals(); out.eqi(m.normals.size(), 3); out.eq(m.normals[0], vector3{0, 1, 0}); out.eq(m.normals[1], vector3{0, -1, 0}); out.eq(m.normals[2], vector3{0, 1, 0}); m.calculate_normals(); out.eqi(m.normals.size(), 3); }
static inline __attribute__((always_inline)) void Topology(Out &out, convex_mesh &m, unsigned ne) {
    unsigned nv = m.vertices.size(), nf = m.faces.size() / 2; out.eqi(m.num_edges(), ne); out.eqi(m.num_faces(), nf); out.eqi(m.edges.size(), 2 * ne); out.eqi(m.edge_faces.size(), 2 * ne); out.eqi(m.edge_vertices.size(), 2 * ne); out.eqi(m.edge_normals.size(), 2 * ne); out.eqi(m.normals.size(), nf);
    for (unsigned f = 0; f < nf; ++f) { out.eqi(m.face_vertex_count(f), m.faces[f * 2 + 1]); out.eqi(m.first_vertex_index(f), m.indices[m.faces[f * 2]]); for (unsigned i = 0; i < m.face_vertex_count(f); ++i) { auto a = m.face_vertex_index(f, i), b = m.face_vertex_index(f, (i + 1) % m.face_vertex_count(f)); unsigned n = 0; for (unsigned e = 0; e < ne; ++e) { auto v = m.get_edge_vertices(e); if ((v[0] == a && v[1] == b) || (v[0] == b && v[1] == a)) { ++n; auto g = m.get_edge_faces(e); out.eqb(g[0] == f || g[1] == f, true); out.eqb(g[0] != g[1], true); } } out.eqi(n, 1); } }
    for (unsigned e = 0; e < ne; ++e) { auto v = m.get_edge_vertices(e); auto f = m.get_edge_faces(e); auto p = m.get_edge(e); auto n = m.get_edge_face_normals(e); out.eq(p[0], m.vertices[v[0]]); out.eq(p[1], m.vertices[v[1]]); out.eq(m.get_edge_direction(e), Sub(p[1], p[0])); for (int k = 0; k < 2; ++k) { out.eq(n[k], m.normals[f[k]]); out.eq(m.edge_normals[e * 2 + k], n[k]); out.eq(Dot(n[k], Sub(p[1], p[0])), 0); } out.eqb(Dot(Cross(n[0], n[1]), Sub(p[1], p[0])) > 0, true); }
    out.eqi(m.neighbors_start.size(), nv + 1); out.eqi(m.neighbor_indices.size(), 2 * ne); out.eqi(m.neighbors_start[0], 0); out.eqi(m.neighbors_start[nv], 2 * ne);
    for (unsigned v = 0; v < nv; ++v) for (unsigned u = 0; u < nv; ++u) { bool joined = false; for (unsigned e = 0; e < ne; ++e) { auto x = m.get_edge_vertices(e); joined |= (x[0] == v && x[1] == u) || (x[0] == u && x[1] == v); } unsigned n = 0; for (auto k = m.neighbors_start[v]; k < m.neighbors_start[v + 1]; ++k) n += m.neighbor_indices[k] == u; out.eqi(n, joined ? 1 : 0); }
    for (unsigned f = 0; f < nf; ++f) { out.eq(Dot(m.normals[f], m.normals[f]), 1); for (auto &p : m.vertices) out.eqb(Dot(Sub(p, m.vertices[m.first_vertex_index(f)]), m.normals[f]) <= 0, true); } out.eqb(m.validate(), true); }
LAW(cm_tet, "convex_mesh::initialize calculate_edges calculate_neighbors", "tetrahedron: six edges, each between its two faces, along the cross product of their normals; neighbors are the other ends of the edges; outward unit normals") {
    TET((vector3{0, 0, 0}), (vector3{4, 0, 0}), (vector3{0, 2, 0}), (vector3{0, 0, 2})) m.initialize(); Topology(out, m, 6); out.eqi(m.relevant_faces.size(), 4); out.eqi(m.relevant_edges.size(), 6); out.eqi(m.relevant_normals.size(), 4); for (int i = 0; i < 4; ++i) out.eq(m.relevant_normals[i], m.normals[m.relevant_faces[i]]); }
LAW(cm_box, "convex_mesh::initialize calculate_relevant_faces calculate_relevant_edges", "box: twelve edges of three directions, six normals") {
    BOX((vector3{1, 2, 3})) m.initialize(); Topology(out, m, 12); out.eqi(m.relevant_faces.size(), 6); out.eqi(m.relevant_edges.size(), 3); unsigned dirs = 0; for (auto e : m.relevant_edges) { auto d = m.get_edge_direction(e); dirs |= d.x != 0 ? 1 : d.y != 0 ? 2 : 4; } out.eqi(dirs, 7); out.eq(m.vertices[0], vector3{-1, -2, -3}); }
LAW(cm_pyramid, "convex_mesh::initialize", "pyramid on a square: eight edges") { convex_mesh m; m.vertices = {{-3, 0, -3}, {3, 0, -3}, {3, 0, 3}, {-3, 0, 3}, {0, 4, 0}}; m.indices = {0, 1, 2, 3, 1, 0, 4, 2, 1, 4, 3, 2, 4, 0, 3, 4}; m.faces = {0, 4, 4, 3, 7, 3, 10, 3, 13, 3}; m.initialize(); Topology(out, m, 8); out.eqi(m.relevant_faces.size(), 5); out.eqi(m.relevant_edges.size(), 6); out.eq(m.vertices[4], vector3{0, 3, 0}); }
LAW(cm_coplanar, "convex_mesh::calculate_relevant_faces calculate_relevant_edges", "faces and edges of the same direction are listed once; opposite normals are kept") {
    convex_mesh m; m.vertices = {{-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}}; m.indices = {0, 1, 2, 0, 2, 3, 2, 1, 0}; m.faces = {0, 3, 3, 3, 6, 3}; m.calculate_normals(); m.calculate_relevant_faces(); out.eqi(m.relevant_faces.size(), 2); out.eqi(m.relevant_faces[0], 0); out.eqi(m.relevant_faces[1], 2); out.eqi(m.relevant_normals.size(), 2); out.eq(m.relevant_normals[1], m.normals[2]); }
LAW(cm_again, "convex_mesh::update_calculated_properties", "recalculating leaves everything as it was") {
    BOX((vector3{1, 2, 3})) m.initialize(); auto n = m; m.update_calculated_properties(); out.eqi(m.normals.size(), n.normals.size()); out.eqi(m.edges.size(), n.edges.size()); out.eqi(m.edge_faces.size(), n.edge_faces.size()); out.eqi(m.edge_vertices.size(), n.edge_vertices.size()); out.eqi(m.edge_normals.size(), n.edge_normals.size()); out.eqi(m.neighbors_start.size(), n.neighbors_start.size()); out.eqi(m.neighbor_indices.size(), n.neighbor_indices.size()); out.eqi(m.relevant_faces.size(), n.relevant_faces.size()); out.eqi(m.relevant_edges.size(), n.relevant_edges.size()); out.eqi(m.relevant_normals.size(), n.relevant_normals.size()); }
LAW(cm_validate, "convex_mesh::validate", "a mesh with a dent or a face that is not flat is rejected") {
    { TET((vector3{0, 0, 0}), (vector3{4, 0, 0}), (vector3{0, 2, 0}), (vector3{0, 0, 2})) std::swap(m.indices[1], m.indices[2]); m.calculate_normals(); out.eqb(m.validate(), false); }
    { BOX((vector3{1, 2, 3})) m.calculate_normals(); out.eqb(m.validate(), true); m.vertices[6].y += 1; m.calculate_normals(); out.eqb(m.validate(), false); } }
LAW(cm_rotated, "make_rotated_mesh update_rotated_mesh get_rotated_edge", "every vertex, normal and edge rotated by the orientation") {
    BOX((vector3{1, 2, 3})) m.initialize(); auto q = unit(I.q); auto r = make_rotated_mesh(m, q); out.eqi(r.vertices.size(), 8); out.eqi(r.normals.size(), 6); out.eqi(r.relevant_normals.size(), m.relevant_normals.size()); out.eqi(r.edge_vertices.size(), 24); out.eqi(r.edge_normals.size(), 24);
    for (int i = 0; i < 8; ++i) out.eq(r.vertices[i], Rot(q, m.vertices[i])); for (int i = 0; i < 6; ++i) { out.eq(r.normals[i], Rot(q, m.normals[i])); out.eq(r.relevant_normals[i], Rot(q, m.relevant_normals[i])); } for (int e = 0; e < 12; ++e) { auto a = m.get_edge(e), b = m.get_rotated_edge(r, e), c = r.get_edge_vertices(e); auto n = m.get_edge_face_normals(e), k = r.get_edge_normals(e); for (int j = 0; j < 2; ++j) { out.eq(b[j], Rot(q, a[j])); out.eq(c[j], b[j]); out.eq(k[j], Rot(q, n[j])); } out.eq(m.get_rotated_edge_direction(r, e), Rot(q, m.get_edge_direction(e))); } }
LAW(poly_support, "polyhedron_support_projection", "the greatest projection of the vertices, whichever way the direction points") {
    BOX((vector3{1, 2, 3})) m.initialize(); static const scalar d[10][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 1}, {-1, 2, 3}, {3, -1, 2}, {-2, -3, -1}, {5, 4, -3}};
    for (auto &x : d) { vector3 v{x[0], x[1], x[2]}; auto p = polyhedron_support_projection(m.vertices, m.neighbors_start, m.neighbor_indices, v); out.eq(p, (x[0] < 0 ? -x[0] : x[0]) + 2 * (x[1] < 0 ? -x[1] : x[1]) + 3 * (x[2] < 0 ? -x[2] : x[2])); } }

// --- polygons
static inline scalar Area(const vector2 &a, const vector2 &b, const vector2 &c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static inline __attribute__((always_inline)) void Hull(Out &out, const std::vector<vector2> &p, size_t n) {
    auto h = calculate_convex_hull(p, 0.001); out.eqi(h.size(), n); for (size_t i = 0; i < h.size(); ++i) { out.eqb(h[i] < p.size(), true); for (size_t j = 0; j < i; ++j) out.eqb(h[i] == h[j], false); if (n > 2) { for (auto &x : p) out.eqb(Area(p[h[i]], p[h[(i + 1) % n]], x) >= 0, true); out.eqb(Area(p[h[i]], p[h[(i + 1) % n]], p[h[(i + 2) % n]]) > 0, true); } } }
LAW(hull_sets, "calculate_convex_hull", "corners of the set, each once, counter-clockwise, with every point inside: points inside, on the edges, repeated") {
    Hull(out, {{0, 0}, {4, 0}, {4, 3}, {0, 3}}, 4); Hull(out, {{0, 3}, {4, 0}, {1, 1}, {4, 3}, {0, 0}, {2, 2}}, 4); Hull(out, {{0, 0}, {4, 0}, {2, 0}, {2, 5}, {2, 1}}, 3); Hull(out, {{-3, 0}, {3, 0}, {0, -3}, {0, 3}, {2, 2}, {-2, 2}, {-2, -2}, {2, -2}, {0, 0}}, 8); Hull(out, {{0, 0}, {0, 0}, {4, 0}, {4, 0}, {0, 4}}, 3); Hull(out, {{5, 1}, {1, 2}, {4, 6}, {3, 3}, {2, 5}}, 4); }
LAW(hull_flat, "calculate_convex_hull", "points on a line: the two ends") { { std::vector<vector2> p{{1, 0}, {1, 3}, {1, -2}, {1, 1}}; auto h = calculate_convex_hull(p, 0.001); out.eqi(h.size(), 2); out.eqi(h[0] + h[1], 3); out.eqi(h[0] * h[1], 2); } { std::vector<vector2> p{{0, 0}, {3, 3}, {-2, -2}, {1, 1}}; auto h = calculate_convex_hull(p, 0.001); out.eqi(h.size(), 2); out.eqi(h[0] + h[1], 3); out.eqi(h[0] * h[1], 2); } }
LAW(square_closest, "closest_point_convex_polygon", "outside a square: the point of the square closest to it; strictly inside: false") {
    std::vector<vector2> v{{1, 1}, {9, 9}, {-1, 1}, {-1, -1}, {1, -1}}; std::vector<size_t> ix{0, 2, 3, 4}; auto p = I.g; vector2 c{77, 77}; bool r = closest_point_convex_polygon(v, ix, p, c); bool outside = p.x > 1 || p.x < -1 || p.y > 1 || p.y < -1; bool inside = p.x < 1 && p.x > -1 && p.y < 1 && p.y > -1; out.eqb(outside && !r, false); out.eqb(inside && r, false);
    auto cl = [](scalar x) { return x < -1 ? scalar(-1) : x > 1 ? scalar(1) : x; }; out.eq(outside ? c.x : 0, outside ? cl(p.x) : 0); out.eq(outside ? c.y : 0, outside ? cl(p.y) : 0); }
LAW(square_inside, "point_inside_convex_polygon", "in the square or on its border") { std::vector<vector2> v{{1, 1}, {-1, 1}, {-1, -1}, {1, -1}}; auto p = I.g; out.eqb(point_inside_convex_polygon(v, p), p.x <= 1 && p.x >= -1 && p.y <= 1 && p.y >= -1); }
LAW(support_poly, "point_cloud_support_polygon", "the vertices within the tolerance of the extreme plane, in order, with coordinates in that plane and their hull") {
    std::vector<vector3> v{{1, 2, 3}, {-1, 2, 3}, {-1, 2, -3}, {1, 2, -3}, {1, -2, 3}, {-1, -2, -3}}; auto o = vector3{5, -7, 2}; auto dir = vector3{0, 1, 0}; auto pr = 2 + o.y; auto g = point_cloud_support_polygon(v.begin(), v.end(), o, dir, pr, false, scalar(0.01)); out.eqi(g.vertices.size(), 4); out.eqi(g.plane_vertices.size(), 4); out.eqi(g.hull.size(), 4); out.eq(g.origin, vector3{0, pr, 0}); for (int i = 0; i < 4; ++i) { out.eq(g.vertices[i], Add(v[i], o)); auto w = Sub(g.vertices[i], g.origin); out.eq(g.plane_vertices[i].x, g.basis.row[0].x * w.x + g.basis.row[1].x * w.y + g.basis.row[2].x * w.z); out.eq(g.plane_vertices[i].y, g.basis.row[0].z * w.x + g.basis.row[1].z * w.y + g.basis.row[2].z * w.z); } }
LAW(support_poly_neg, "point_cloud_support_polygon", "with the direction towards the cloud: the lowest vertices") {
    std::vector<vector3> v{{1, 2, 3}, {-1, 2, 3}, {-1, 2, -3}, {1, -2, 3}, {-1, -2, -3}}; auto g = point_cloud_support_polygon(v.begin(), v.end(), vector3{0, 0, 0}, vector3{0, 1, 0}, scalar(-2), true, scalar(0.01)); out.eqi(g.vertices.size(), 2); out.eq(g.vertices[0], v[3]); out.eq(g.vertices[1], v[4]); out.eqi(g.hull.size(), 2); vector2 c; out.eqb(closest_point_polygon(g, g.plane_vertices[0], c), true); out.eq(c, g.plane_vertices[0]); }

// --- contact point selection
static inline scalar D2(const vector3 &a, const vector3 &b) { return Sq(Sub(a, b)); }
static constexpr scalar Near = contact_merging_threshold * contact_merging_threshold;
using PT = point_insertion_type;
#define PTS std::array<vector3, 4> p{I.a, I.b, I.c, I.d}; auto x = I.e;
LAW(ins_0, "insertion_point_index", "the first point is appended") { PTS size_t n = 0; auto r = insertion_point_index(p, n, x); out.eqb(r.type == PT::append, true); out.eqi(r.index, 0); out.eqi(n, 1); }
LAW(ins_1, "insertion_point_index", "the second point is appended unless it is close to the first one") { PTS size_t n = 1; auto r = insertion_point_index(p, n, x); bool far = D2(x, I.a) > Near; out.eqb(r.type == PT::append, far); out.eqb(r.type == PT::similar, !far); out.eqi(r.index, far ? 1 : 0); out.eqi(n, far ? 2 : 1); }
LAW(ins_2, "insertion_point_index", "the third point is appended when it spans a triangle") { PTS size_t n = 2; auto r = insertion_point_index(p, n, x); bool tri = Sq(Cross(Sub(x, I.a), Sub(x, I.b))) > EDYN_EPSILON; out.eqb(r.type == PT::append, tri); out.eqi(n, tri ? 3 : 2); out.eqi(tri ? r.index : 2, 2); }
LAW(ins_2_line, "insertion_point_index", "a third point on their line replaces the closer end when that lengthens the segment, else it is ignored") { auto l = I.s * I.s + 1; std::array<vector3, 4> p{vector3{0, 0, 0}, vector3{l, 0, 0}}; auto t = I.t; size_t n = 2; auto r = insertion_point_index(p, n, vector3{t, 0, 0}); out.eqi(n, 2); auto d0 = t * t, d1 = (t - l) * (t - l), d = l * l; bool a = d0 > d && d0 > d1, b = d1 > d && d1 > d0; out.eqi(r.index, a ? 1 : b ? 0 : 4); out.eqb(r.type == PT::none, !(a || b)); out.eqb(r.type == PT::similar, a ? d1 < Near : b && d0 < Near); out.eqb(r.type == PT::append, false); }
LAW(ins_3, "insertion_point_index point_in_triangle", "a fourth point off the triangle of the others by more than the tolerance is appended, one inside is ignored") { std::array<vector3, 4> p{vector3{0, 0, 0}, vector3{4, 0, 0}, vector3{0, 0, -3}}; auto x = I.e; size_t n = 3; auto r = insertion_point_index(p, n, x); bool flat = (x.y < 0 ? -x.y : x.y) < EDYN_EPSILON; bool in = x.z <= scalar(0.01) && x.x >= scalar(-0.01) && 3 * x.x - 4 * x.z <= scalar(12.01); bool strict = x.z < 0 && x.x > 0 && 3 * x.x - 4 * x.z < 12; out.eqb(flat && strict && r.type != PT::none, false); out.eqb((!flat || !in) && r.type != PT::append, false); out.eqi(r.type == PT::append ? n : 4, 4); out.eqi(r.type == PT::append ? r.index : 3, 3); out.eqi(r.type == PT::append ? 3 : n, 3); }
static inline __attribute__((always_inline)) void Middle1(Out &out, const In &I, size_t i, size_t j, size_t k, scalar t) { std::array<vector3, 4> p; p[i] = {0, 0, 0}; p[j] = {t, 2 * t, 2 * t}; p[k] = {8, 16, 16}; size_t n = 3; auto r = insertion_point_index(p, n, I.e); out.eqb(r.type == PT::replace, true); out.eqi(r.index, j); out.eqi(n, 3); }
static inline __attribute__((always_inline)) void Middle(Out &out, const In &I, size_t i, size_t j, size_t k) { Middle1(out, I, i, j, k, 1); Middle1(out, I, i, j, k, 4); Middle1(out, I, i, j, k, 7); }
LAW(ins_3_line, "insertion_point_index", "with three points on a line the one in the middle is replaced") { Middle(out, I, 0, 1, 2); Middle(out, I, 0, 2, 1); Middle(out, I, 1, 0, 2); Middle(out, I, 2, 1, 0); Middle(out, I, 1, 2, 0); Middle(out, I, 2, 0, 1); }
LAW(ins_3_coincide, "insertion_point_index", "with two of three points at the same place one of those is replaced") { for (int k = 0; k < 3; ++k) { std::array<vector3, 4> p{vector3{1, 1, 1}, vector3{1, 1, 1}, vector3{1, 1, 1}}; p[k] = {7, 7, 7}; size_t n = 3; auto r = insertion_point_index(p, n, I.e); out.eqb(r.type == PT::replace, true); out.eqb(r.index < 3 && r.index != size_t(k), true); } }
static inline scalar Score(const vector3 &a, const vector3 &b, const vector3 &c, const vector3 &d) { return Sq(Cross(Sub(a, b), Sub(a, c))) + Sq(Cross(Sub(a, c), Sub(a, d))) + Sq(Cross(Sub(a, d), Sub(a, b))) + Sq(Cross(Sub(b, c), Sub(c, d))); }
static inline __attribute__((always_inline)) void Fifth(Out &out, std::array<vector3, 4> p, const vector3 &x, PT type, size_t at) { size_t n = 4; auto r = insertion_point_index(p, n, x); out.eqb(r.type == type, true); out.eqi(r.index, at); out.eqi(n, 4); }
LAW(ins_4, "insertion_point_index", "a fifth point takes the place of the one whose replacement grows the spanned area most, or is ignored") {
    std::array<vector3, 4> p{vector3{0, 0, 0}, vector3{4, 0, 0}, vector3{4, 0, 4}, vector3{0, 0, 4}}; Fifth(out, p, {2, 0, 2}, PT::none, 4); Fifth(out, p, {-9, 0, -9}, PT::replace, 0); Fifth(out, p, {13, 0, -9}, PT::replace, 1); Fifth(out, p, {13, 0, 13}, PT::replace, 2); Fifth(out, p, {-9, 0, 13}, PT::replace, 3); Fifth(out, p, {4.001, 0, 4.001}, PT::similar, 2); }
LAW(support_vertices, "support_point_vertices", "the farthest vertex and its projection") { std::array<vector3, 3> v{I.a, I.b, I.c}; size_t i = 9; scalar pr = 0; support_point_vertices(v, I.d, i, pr); auto a = Dot(I.a, I.d), b = Dot(I.b, I.d), c = Dot(I.c, I.d); out.eq(pr, a >= b && a >= c ? a : b >= c ? b : c); out.eqi(i, a >= b && a >= c ? 0 : b >= c ? 1 : 2); }
LAW(isect_aabb, "intersect_aabb", "the closed boxes share a point") { out.eqb(intersect_aabb(I.a, I.b, I.c, I.d), I.a.x <= I.d.x && I.b.x >= I.c.x && I.a.y <= I.d.y && I.b.y >= I.c.y && I.a.z <= I.d.z && I.b.z >= I.c.z); }
