// Contact points and manifolds in the registry, against the model of the registry in stubf.
//@registry
#include "shape.hpp"
#include "rbtree.hpp"
#include "/repo/src/edyn/util/collision_util.cpp"
#include "/repo/src/edyn/util/constraint_util.cpp"
#include "/repo/src/edyn/util/contact_manifold_util.cpp"
#include "/repo/src/edyn/util/exclude_collision.cpp"
#include "/repo/src/edyn/collision/should_collide.cpp"
#include "/repo/src/edyn/util/rigidbody.cpp"
#include "/repo/src/edyn/util/gravity_util.cpp"
#include "/repo/src/edyn/core/entity_graph.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
using namespace edyn;
using namespace law;

#define FI static inline __attribute__((always_inline))
template<typename T> FI bool Has(entt::entity e) { return entt::world::has<T>(e); }
template<typename T> FI T &Of(entt::entity e) { return entt::world::at<T>(e); }
using Point = collision_result::collision_point;
constexpr auto ON_A = contact_normal_attachment::normal_on_A, ON_B = contact_normal_attachment::normal_on_B, ON_NONE = contact_normal_attachment::none;
FI material Mat(scalar friction, scalar restitution) { material m; m.friction = friction; m.restitution = restitution; return m; }
// Two bodies that touch: the registry holds what contact code reads.
struct Pair { entt::entity a, b, m; };
FI Pair World2(entt::registry &R, const In &I, bool mat) {
    R.ctx().emplace<settings>(); auto &g = R.ctx().emplace<entity_graph>(); R.ctx().emplace<material_mix_table>(); entt::entity E[2];
    for (int i = 0; i < 2; ++i) { auto e = E[i] = R.create(); R.emplace<position>(e, i ? I.b : I.a); R.emplace<orientation>(e, i ? unit(I.r) : unit(I.q)); R.emplace<graph_node>(e, g.insert_node(e, false)); R.emplace<rigidbody_tag>(e); R.emplace<dynamic_tag>(e); R.emplace<procedural_tag>(e); if (mat) R.emplace<material>(e, i ? Mat(4, scalar(0.5)) : Mat(1, scalar(0.25))); R.emplace<linvel>(e, vector3_zero); R.emplace<angvel>(e, vector3_zero); }
    auto m = make_contact_manifold(R, E[0], E[1]); return {E[0], E[1], m}; }
FI Point Pt(const vector3 &a, const vector3 &b, const vector3 &n, scalar d, contact_normal_attachment at = ON_NONE) { Point p{a, b, n, d, at}; return p; }
FI entt::entity Add1(entt::registry &R, const Pair &p, const Point &pt) { return create_contact_point(R, p.m, Of<contact_manifold>(p.m), Of<contact_manifold_state>(p.m), pt, {}); }
// The points of the manifold are exactly these, each once, in any order.
template<typename... E> FI void Listed(Out &out, const Pair &p, E... e) {
    constexpr int n = sizeof...(E); entt::entity W[n + 1] = {e...}; int seen[n + 1] = {}; auto &s = Of<contact_manifold_state>(p.m); out.eqi(s.num_points, n); auto c = s.contact_entity; int k = 0;
    for (; k < 6 && c != entt::null; ++k) { out.eqb(Has<contact_point_list>(c), true); for (int i = 0; i < n; ++i) seen[i] += W[i] == c; out.eqi(unsigned(Of<contact_point_list>(c).parent), unsigned(p.m)); c = Of<contact_point_list>(c).next; }
    out.eqi(k, n); for (int i = 0; i < n; ++i) out.eqi(seen[i], 1); }

LAW(ct_manifold, "make_contact_manifold", "a manifold joins its two bodies in the graph, has no points, and bounces when both bodies do") {
    entt::registry R; auto p = World2(R, I, true); out.eqi(unsigned(Of<contact_manifold>(p.m).body[0]), unsigned(p.a)); out.eqi(unsigned(Of<contact_manifold>(p.m).body[1]), unsigned(p.b)); out.eqi(Of<contact_manifold_state>(p.m).num_points, 0); out.eqb(Of<contact_manifold_state>(p.m).contact_entity == entt::null, true); out.eqb(Has<null_constraint>(p.m) && Has<graph_edge>(p.m) && Has<island_resident>(p.m) && Has<constraint_tag>(p.m), true); out.eqb(Has<contact_manifold_with_restitution>(p.m), true);
    auto &g = R.ctx().get<entity_graph>(); auto [x, y] = g.edge_node_entities(Of<graph_edge>(p.m).edge_index); out.eqi(unsigned(x), unsigned(p.a)); out.eqi(unsigned(y), unsigned(p.b)); out.eqi(unsigned(g.edge_entity(Of<graph_edge>(p.m).edge_index)), unsigned(p.m)); out.eqi(unsigned(Of<null_constraint>(p.m).body[1]), unsigned(p.b));
    clear_constraint(R, p.m); for (auto h : {Has<null_constraint>(p.m), Has<graph_edge>(p.m), Has<island_resident>(p.m), Has<constraint_tag>(p.m)}) out.eqb(h, false); }
LAW(ct_manifold_soft, "make_contact_manifold", "no bounce without restitution on both bodies, without material, or when the mixing table says so") {
    for (int i = 0; i < 5; ++i) { entt::world::NCREATED = 0; for (auto x = 0; x < int(entt::MAXE); ++x) { entt::world::drop_all(entt::entity(x)); } entt::registry R; R.ctx().emplace<settings>(); auto &g = R.ctx().emplace<entity_graph>(); auto &t = R.ctx().emplace<material_mix_table>(); entt::entity E[2] = {R.create(), R.create()}; for (int k = 0; k < 2; ++k) { R.emplace<graph_node>(E[k], g.insert_node(E[k], false)); auto m = Mat(1, i == 0 && k ? 0 : 1); m.id = k + 3; if (i != 1 || k) R.emplace<material>(E[k], m); }
        if (i == 2 || i == 3) { material_base b; b.restitution = i == 3 ? 1 : 0; t.insert({material::id_type(4), material::id_type(3)}, b); } auto m = make_contact_manifold(R, E[0], E[1]); out.eqb(Has<contact_manifold_with_restitution>(m), i >= 3); out.eqb(Has<null_constraint>(m), true); } }
LAW(ct_create, "create_contact_point", "a new contact point takes what the collision found, with the mixed material, and heads the list of its manifold") {
    entt::registry R; auto p = World2(R, I, true); auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s, ON_A)); Listed(out, p, c); auto &cp = Of<contact_point>(c); out.eq(cp.pivotA, I.c); out.eq(cp.pivotB, I.d); out.eq(cp.normal, I.e); out.eqi(cp.lifetime, 0); auto &g = Of<contact_point_geometry>(c); out.eq(g.distance, I.s); out.eqb(g.normal_attachment == ON_A, true); out.eq(g.local_normal, Rot(Conj(unit(I.q)), I.e));
    auto &m = Of<contact_point_material>(c); out.eq(m.friction, 2); out.eq(m.restitution, scalar(0.25)); out.eq(m.spin_friction, 0); out.eq(m.roll_friction, 0); out.eqb(m.stiffness == large_scalar && m.damping == large_scalar, true); out.eqb(Has<contact_constraint>(c), true); out.eqb(Has<contact_extras_constraint>(c) || Has<null_constraint>(c) || Has<contact_point_spin_friction_impulse>(c) || Has<contact_point_roll_friction_impulse>(c), false); out.eq(Of<contact_point_impulse>(c).normal_impulse, 0);
    out.eqi(unsigned(Of<contact_constraint>(c).body[0]), unsigned(p.a)); out.eqi(unsigned(Of<contact_constraint>(c).body[1]), unsigned(p.b)); out.eqb(Has<graph_edge>(c), true);
    auto d = Add1(R, p, Pt(I.d, I.c, I.f, I.t, ON_B)); Listed(out, p, c, d); out.eq(Of<contact_point_geometry>(d).local_normal, Rot(Conj(unit(I.r)), I.f)); auto e = Add1(R, p, Pt(I.d, I.c, I.f, I.t)); Listed(out, p, c, d, e); out.eq(Of<contact_point_geometry>(e).local_normal, vector3_zero); out.eq(Of<contact_point>(c).pivotA, I.c); }
FI void Special(Out &out, const In &I, int k) { entt::registry R; auto p = World2(R, I, true); auto &a = Of<material>(p.a), &b = Of<material>(p.b); if (k == 0) b.spin_friction = 3; if (k == 1) { a.roll_friction = 2; b.roll_friction = 1; } if (k == 2) { a.stiffness = 4; a.damping = 2; b.stiffness = 4; b.damping = 2; }
    if (k == 3) { a.id = 7; b.id = 2; material_base m; m.friction = 9; m.restitution = scalar(0.75); m.spin_friction = 6; m.roll_friction = 5; m.stiffness = 100; m.damping = 50; R.ctx().get<material_mix_table>().insert({material::id_type(2), material::id_type(7)}, m); }
    auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s)); auto &m = Of<contact_point_material>(c); out.eq(m.friction, k == 3 ? 9 : 2); out.eq(m.restitution, k == 3 ? scalar(0.75) : scalar(0.25)); out.eq(m.spin_friction, k == 0 ? 3 : k == 3 ? 6 : 0); out.eq(m.roll_friction, k == 1 ? 2 : k == 3 ? 5 : 0); if (k >= 2) { out.eq(m.stiffness, k == 3 ? 100 : 2); out.eq(m.damping, k == 3 ? 50 : 1); } out.eqb(Has<contact_extras_constraint>(c), true); out.eqb(Has<contact_constraint>(c), false); out.eqb(Has<contact_point_spin_friction_impulse>(c), k == 0 || k == 3); out.eqb(Has<contact_point_roll_friction_impulse>(c), k == 1 || k == 3); }
LAW(ct_spin, "create_contact_point", "spinning friction of either body is taken into the contact") { Special(out, I, 0); }
LAW(ct_roll, "create_contact_point", "rolling friction of either body is taken into the contact") { Special(out, I, 1); }
LAW(ct_soft, "create_contact_point", "two springs in series: stiffness and damping mix as their harmonic sum") { Special(out, I, 2); }
LAW(ct_table, "create_contact_point", "the mixing table decides for its pair of materials, in either order") { Special(out, I, 3); }
LAW(ct_sensor, "create_contact_point", "bodies without material touch without a contact constraint") { entt::registry R; auto p = World2(R, I, false); out.eqb(Has<contact_manifold_with_restitution>(p.m), false); auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s, ON_B)); Listed(out, p, c); out.eqb(Has<null_constraint>(c) && Has<contact_point>(c) && Has<contact_point_geometry>(c), true); for (auto h : {Has<contact_point_material>(c), Has<contact_constraint>(c), Has<contact_extras_constraint>(c), Has<contact_point_impulse>(c)}) out.eqb(h, false); out.eq(Of<contact_point>(c).pivotB, I.d); }
template<int k> FI void Remove(Out &out, const In &I) { entt::registry R; auto p = World2(R, I, true); entt::entity c[4]; for (int i = 0; i < 4; ++i) c[i] = Add1(R, p, Pt(Mul(I.c, i + 1), I.d, I.e, I.s)); destroy_contact_point(R, c[k]); out.eqb(R.valid(c[k]), false); Listed(out, p, c[k == 0 ? 1 : 0], c[k < 2 ? 2 : 1], c[k == 3 ? 2 : 3]); for (int i = 0; i < 4; ++i) if (i != k) { out.eqb(R.valid(c[i]), true); out.eq(Of<contact_point>(c[i]).pivotA, Mul(I.c, i + 1)); }
    destroy_contact_point(R, c[(k + 1) % 4]); Listed(out, p, c[(k + 2) % 4], c[(k + 3) % 4]); destroy_contact_point(R, c[(k + 3) % 4]); Listed(out, p, c[(k + 2) % 4]); destroy_contact_point(R, c[(k + 2) % 4]); Listed(out, p); }
LAW(ct_remove0, "destroy_contact_point", "removing a point leaves the others (oldest first)") { Remove<0>(out, I); }
LAW(ct_remove1, "destroy_contact_point", "removing a point leaves the others (second first)") { Remove<1>(out, I); }
LAW(ct_remove2, "destroy_contact_point", "removing a point leaves the others (third first)") { Remove<2>(out, I); }
LAW(ct_remove3, "destroy_contact_point", "removing a point leaves the others (newest first)") { Remove<3>(out, I); }
LAW(ct_clear, "clear_contact_manifold", "clearing a manifold destroys its points and keeps the manifold") { entt::registry R; auto p = World2(R, I, true); auto a = Add1(R, p, Pt(I.c, I.d, I.e, I.s)), b = Add1(R, p, Pt(I.d, I.d, I.e, I.s)), c = Add1(R, p, Pt(I.e, I.d, I.e, I.s)); clear_contact_manifold(R, p.m); Listed(out, p); for (auto x : {a, b, c}) out.eqb(R.valid(x), false); out.eqb(R.valid(p.m) && Has<contact_manifold>(p.m) && R.valid(p.a) && R.valid(p.b), true); auto d = Add1(R, p, Pt(I.c, I.d, I.e, I.s)); Listed(out, p, d); }
LAW(ct_visit, "contact_manifold_each_point", "every point is visited once, also when the visitor destroys it") { entt::registry R; auto p = World2(R, I, true); auto a = Add1(R, p, Pt(I.c, I.d, I.e, I.s)), b = Add1(R, p, Pt(I.d, I.d, I.e, I.s)); int n[8] = {}; contact_manifold_each_point(R, p.m, [&](entt::entity e) { ++n[unsigned(e)]; destroy_contact_point(R, e); }); for (int i = 0; i < 8; ++i) out.eqi(n[i], unsigned(a) == i || unsigned(b) == i); Listed(out, p); }
FI void Merge(Out &out, const In &I, contact_normal_attachment at) { entt::registry R; auto p = World2(R, I, true); auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s, ON_A)); Of<contact_point>(c).lifetime = 5; Of<contact_point_impulse>(c).normal_impulse = I.u; merge_point(R, {p.a, p.b}, Pt(I.d, I.f, I.c, I.t, at), Of<contact_point>(c), &Of<contact_point_material>(c), Of<contact_point_geometry>(c)); auto &cp = Of<contact_point>(c); auto &g = Of<contact_point_geometry>(c); out.eq(cp.pivotA, I.d); out.eq(cp.pivotB, I.f); out.eq(cp.normal, I.c); out.eqi(cp.lifetime, 5); out.eq(g.distance, I.t); out.eqb(g.normal_attachment == at, true); out.eq(g.local_normal, at == ON_A ? Rot(Conj(unit(I.q)), I.c) : at == ON_B ? Rot(Conj(unit(I.r)), I.c) : vector3_zero); out.eq(Of<contact_point_material>(c).friction, 2); out.eq(Of<contact_point_impulse>(c).normal_impulse, I.u); }
LAW(ct_merge, "merge_point", "merging keeps age, impulse and material and takes place, normal and gap of the new point; the local normal is in the space of the body it is attached to") { Merge(out, I, ON_A); }
LAW(ct_merge_b, "merge_point", "merging keeps age, impulse and material and takes place, normal and gap of the new point; the local normal is in the space of the body it is attached to") { Merge(out, I, ON_B); }
LAW(ct_merge_n, "merge_point", "merging keeps age, impulse and material and takes place, normal and gap of the new point") { Merge(out, I, ON_NONE); }
LAW(ct_distance, "update_contact_distances", "the gap of a point is that between its pivots along the normal, with pivots about the origin of each body") {
    entt::registry R; auto p = World2(R, I, true); auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s)), d = Add1(R, p, Pt(I.d, I.c, I.f, I.s)); update_contact_distances(R); auto gap = [&](const vector3 &pa, const vector3 &pb, const vector3 &n, const vector3 &oa, const vector3 &ob) { return Dot(n, Sub(Add(oa, Rot(unit(I.q), pa)), Add(ob, Rot(unit(I.r), pb)))); }; out.eq(Of<contact_point_geometry>(c).distance, gap(I.c, I.d, I.e, I.a, I.b)); out.eq(Of<contact_point_geometry>(d).distance, gap(I.d, I.c, I.f, I.a, I.b)); R.emplace<origin>(p.a, I.f); update_contact_distances(R); out.eq(Of<contact_point_geometry>(c).distance, gap(I.c, I.d, I.e, I.f, I.b)); R.emplace<origin>(p.b, I.c); update_contact_distances(R); out.eq(Of<contact_point_geometry>(d).distance, gap(I.d, I.c, I.f, I.f, I.c)); }
LAW(ct_swap, "swap_manifold", "exchanging the bodies of a manifold mirrors its points") {
    entt::registry R; auto p = World2(R, I, true); auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s, ON_A)), d = Add1(R, p, Pt(I.d, I.f, I.c, I.t, ON_B)); swap_manifold(R, p.m); auto &m = Of<contact_manifold>(p.m); out.eqi(unsigned(m.body[0]), unsigned(p.b)); out.eqi(unsigned(m.body[1]), unsigned(p.a)); Listed(out, p, c, d); out.eq(Of<contact_point>(c).pivotA, I.d); out.eq(Of<contact_point>(c).pivotB, I.c); out.eq(Of<contact_point>(c).normal, Mul(I.e, -1)); out.eqb(Of<contact_point_geometry>(c).normal_attachment == ON_B, true); out.eq(Of<contact_point_geometry>(c).local_normal, Mul(Rot(Conj(unit(I.q)), I.e), -1)); out.eq(Of<contact_point_geometry>(c).distance, I.s); out.eqb(Of<contact_point_geometry>(d).normal_attachment == ON_A, true); out.eq(Of<contact_point>(d).normal, Mul(I.c, -1)); out.eq(Of<contact_point_geometry>(d).local_normal, Mul(Rot(Conj(unit(I.r)), I.c), -1)); for (auto x : {c, d}) { out.eqi(unsigned(Of<contact_constraint>(x).body[0]), unsigned(p.b)); out.eqi(unsigned(Of<contact_constraint>(x).body[1]), unsigned(p.a)); } }
// Matching new points with old ones.
FI collision_result Result(std::initializer_list<Point> l) { collision_result r; for (auto &p : l) r.point[r.num_points++] = p; return r; }
LAW(ct_near, "find_nearest_contact", "an old point is matched with the nearest new one by either pivot, when nearer than the caching threshold") {
    auto z = I.w[23] * 0; auto q = [&](scalar ax, scalar bx) { return Pt({ax, 1, 2}, {3, bx, 1}, {0, 1, 0}, 0); }; contact_point cp{}; auto at = [&](scalar ax, scalar bx) { cp.pivotA = {ax + z, 1, 2}; cp.pivotB = {3, bx, 1}; };
    auto r = Result({q(0, 0), q(scalar(0.03), 5), q(9, 7)}); at(0, 0); out.eqi(find_nearest_contact(cp, r), 0); at(scalar(0.02), 3); out.eqi(find_nearest_contact(cp, r), 1); at(scalar(0.01), 3); out.eqi(find_nearest_contact(cp, r), 0); at(4, scalar(5.01)); out.eqi(find_nearest_contact(cp, r), 1); at(scalar(8.97), 0); out.eqi(find_nearest_contact(cp, r), 0); at(9, scalar(5.03)); out.eqi(find_nearest_contact(cp, r), 2); at(4, 3); out.eqi(find_nearest_contact(cp, r), 3); at(4, scalar(7.05)); out.eqi(find_nearest_contact(cp, r), 3); at(scalar(0.08), 3); out.eqi(find_nearest_contact(cp, r), 3); at(4, scalar(7.035)); out.eqi(find_nearest_contact(cp, r), 2); r.num_points = 0; out.eqi(find_nearest_contact(cp, r), 0); }
LAW(ct_part, "should_remove_point", "a point goes when its pivots part along the normal or slide apart across it by more than the threshold") {
    auto z = I.w[23] * 0; auto gone = [&](const vector3 &a, const vector3 &b) { contact_point cp{}; cp.pivotA = Add(a, {z, 0, 0}); cp.pivotB = b; cp.normal = {0, 0, 1}; return should_remove_point(cp, I.a, quaternion_identity, Add(I.a, {0, 0, -2}), quaternion{0, 0, 1, 0}); };
    // Body B is turned half way about z and two below A.
    out.eqb(gone({1, 2, -1}, {-1, -2, 1}), false); out.eqb(gone({1, 2, scalar(-0.99)}, {-1, -2, 1}), false); out.eqb(gone({1, 2, scalar(-0.97)}, {-1, -2, 1}), true); out.eqb(gone({1, 2, -3}, {-1, -2, 1}), false); out.eqb(gone({scalar(1.01), 2, -1}, {-1, -2, 1}), false); out.eqb(gone({scalar(1.03), 2, -1}, {-1, -2, 1}), true); out.eqb(gone({1, 2, -1}, {-1, scalar(-2.03), 1}), true); out.eqb(gone({1, 2, -1}, {1, 2, 1}), true); out.eqb(gone({scalar(1.015), scalar(2.015), -1}, {-1, -2, 1}), true); }
// Exclusions.
FI void Some(entt::registry &R, entt::entity *E, int n) { for (int i = 0; i < n; ++i) { E[i] = R.create(); R.emplace<rigidbody_tag>(E[i]); } }
LAW(ct_exclude, "exclude_collision remove_collision_exclusion should_collide_default", "excluded pairs do not collide, in either order, until the exclusion is removed; other pairs do") {
    entt::registry R; entt::entity E[4]; Some(R, E, 4); bool X[4][4] = {}; auto check = [&] { for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) out.eqb(should_collide_default(R, E[i], E[k]), i != k && !X[i][k]); }; auto set = [&](int i, int k, bool v) { X[i][k] = X[k][i] = v; if (v) exclude_collision(R, E[i], E[k]); else remove_collision_exclusion(R, E[k], E[i]); check(); };
    check(); set(0, 1, true); set(2, 0, true); set(1, 2, true); set(0, 1, true); out.eqi(Of<collision_exclusion>(E[0]).num_entities(), 2); set(0, 3, true); set(0, 1, false); out.eqi(Of<collision_exclusion>(E[0]).num_entities(), 2); set(0, 3, false); set(1, 2, false); set(0, 1, true); }
LAW(ct_exclude_clear, "clear_collision_exclusion", "clearing the exclusions of a body lets it collide with all, and leaves the exclusions between others") {
    entt::registry R; entt::entity E[4]; Some(R, E, 4); exclude_collision(R, E[0], E[1]); exclude_collision(R, E[2], E[1]); exclude_collision(R, E[3], E[0]); exclude_collision(R, entity_pair{E[0], E[2]}); clear_collision_exclusion(R, E[0]); out.eqb(Has<collision_exclusion>(E[0]), false); for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) out.eqb(should_collide_default(R, E[i], E[k]), i != k && !(i + k == 3 && i && k)); out.eqi(Of<collision_exclusion>(E[3]).num_entities(), 0); }
LAW(ct_filter, "should_collide_default", "two bodies collide when the groups of each are in the mask of the other; a body without filter is in all groups and masks") {
    constexpr uint64_t V[4] = {0, 1, 6, ~0ull}; for (int i = 0; i < 64; ++i) { entt::world::NCREATED = 0; entt::registry R; R.clear<collision_filter>(); auto a = R.create(), b = R.create(); bool fa = (i >> 4) & 1, fb = (i >> 5) & 1; collision_filter A{V[i & 3], V[(i >> 2) & 3]}, B{V[(i >> 1) & 3], V[(i + 2) & 3]}; if (fa) R.emplace<collision_filter>(a, A); else A = {}; if (fb) R.emplace<collision_filter>(b, B); else B = {}; bool w = (A.group & B.mask) != 0 && (B.group & A.mask) != 0; out.eqb(should_collide_default(R, a, b), w); out.eqb(should_collide_default(R, b, a), w); } }
LAW(ct_friction, "set_rigidbody_friction", "changing the friction of a body changes that of its contacts, but not of others nor of pairs in the mixing table") {
    entt::registry R; auto p = World2(R, I, true); auto c = Add1(R, p, Pt(I.c, I.d, I.e, I.s)); set_rigidbody_friction(R, p.a, 9); out.eq(Of<material>(p.a).friction, 9); out.eq(Of<material>(p.b).friction, 4); out.eq(Of<contact_point_material>(c).friction, 6); set_rigidbody_friction(R, p.b, 1); out.eq(Of<contact_point_material>(c).friction, 3); Of<material>(p.a).id = 1; Of<material>(p.b).id = 2; R.ctx().get<material_mix_table>().insert({material::id_type(1), material::id_type(2)}, material_base{}); set_rigidbody_friction(R, p.b, 25); out.eq(Of<contact_point_material>(c).friction, 3); out.eq(Of<material>(p.b).friction, 25); }
// Histories of collisions.
template<typename F> FI void Collide(entt::registry &R, const Pair &p, const collision_result &r, F made) { process_collision(R, p.m, r, scalar(0.25), [&](const Point &pt) { made(Add1(R, p, pt)); }, [&](entt::entity e) { destroy_contact_point(R, e); }); }
FI void Place(entt::registry &R, const Pair &p, const In &I) { for (auto e : {p.a, p.b}) { Of<orientation>(e) = orientation{quaternion_identity}; Of<position>(e) = position{e == p.a ? Add(I.a, {0, 2, 0}) : I.a}; } }
FI Point On(scalar x, scalar z, scalar d = 0) { return Pt({x, -1, z}, {x, 1 - d, z}, {0, 1, 0}, d); }
LAW(ct_process, "process_collision", "new points are created once; the same points later keep their contacts, grow older and take the new gap; points that part are destroyed") {
    entt::registry R; auto p = World2(R, I, true); Place(R, p, I); entt::entity M[8]; int n = 0; auto made = [&](entt::entity e) { M[n++] = e; }; auto z = I.w[23] * 0;
    Collide(R, p, Result({On(z + 1, 1), On(1, -1), On(-1, 1)}), made); out.eqi(n, 3); Listed(out, p, M[0], M[1], M[2]); 
    Collide(R, p, Result({On(scalar(-1.01) + z, 1, scalar(-0.01)), On(1, scalar(1.01))}), made); out.eqi(n, 3); Listed(out, p, M[0], M[1], M[2]); for (int i = 0; i < 3; ++i) out.eqi(Of<contact_point>(M[i]).lifetime, 1); out.eq(Of<contact_point>(M[2]).pivotA, vector3{scalar(-1.01), -1, 1}); out.eq(Of<contact_point_geometry>(M[2]).distance, scalar(-0.01)); out.eq(Of<contact_point>(M[0]).pivotA, vector3{1, -1, scalar(1.01)}); out.eq(Of<contact_point>(M[1]).pivotA, vector3{1, -1, -1});
    Of<position>(p.a) = position{Add(I.a, {0, scalar(2.0375), 0})}; Collide(R, p, Result({On(1 + z, -1, scalar(0.03))}), made); out.eqi(n, 3); Listed(out, p, M[1]); out.eqi(Of<contact_point>(M[1]).lifetime, 2); Collide(R, p, Result({}), made); Listed(out, p); out.eqi(n, 3); }
LAW(ct_process_full, "process_collision", "a manifold never holds more than four points, and new far points replace old ones") {
    entt::registry R; auto p = World2(R, I, true); Place(R, p, I); entt::entity M[8]; int n = 0; auto made = [&](entt::entity e) { M[n++] = e; }; auto z = I.w[23] * 0; 
    Collide(R, p, Result({On(z + 1, 1), On(1, -1), On(-1, -1), On(-1, 1)}), made); out.eqi(n, 4); Listed(out, p, M[0], M[1], M[2], M[3]); Collide(R, p, Result({On(3 + z, 3)}), made); out.eqi(Of<contact_manifold_state>(p.m).num_points, 4); int far = 0; auto c = Of<contact_manifold_state>(p.m).contact_entity; for (int i = 0; i < 4; ++i) { far += Of<contact_point>(c).pivotA.x == 3; c = Of<contact_point_list>(c).next; } out.eqi(far, 1); out.eqb(c == entt::null, true); }
// A body that rolls turns by one step between two collisions; the same spot of the ground is the same contact.
template<int B> FI void Rolled(Out &out, const In &I) { entt::registry R; auto p = World2(R, I, true); Place(R, p, I); auto z = I.w[23] * 0; auto roll = B ? p.b : p.a; R.emplace<rolling_tag>(roll); entt::entity M[8]; int n = 0; auto made = [&](entt::entity e) { M[n++] = e; };
    scalar y = B ? 1 : -1; auto at = [&](scalar x) { vector3 u{z, y, 0}, v{x, -y, 0}; return B ? Pt(v, u, {0, 1, 0}, 0) : Pt(u, v, {0, 1, 0}, 0); };
    Collide(R, p, Result({at(0)}), made); out.eqi(n, 1);
    // the body has turned by w*dt = 0.5 about z and moved on by 0.5
    Of<angvel>(roll) = angvel{vector3{0, 0, scalar(2)}}; Of<orientation>(roll) = orientation{integrate(quaternion_identity, vector3{0, 0, 2}, scalar(0.25))}; auto q = Conj(Of<orientation>(roll)); vector3 u = Rot(q, {z, y, 0}), v{scalar(0.5), -y, 0};
    Collide(R, p, Result({B ? Pt(v, u, {0, 1, 0}, 0) : Pt(u, v, {0, 1, 0}, 0)}), made); out.eqi(n, 1); Listed(out, p, M[0]); out.eqi(Of<contact_point>(M[0]).lifetime, 1); }
LAW(ct_roll_a, "process_collision", "the contact under a rolling first body persists as it rolls on") { Rolled<0>(out, I); }
LAW(ct_roll_b, "process_collision", "the contact under a rolling second body persists as it rolls on") { Rolled<1>(out, I); }
LAW(ct_process_shared, "process_collision", "a point found between two old ones takes one of them on; the other stays while it touches") {
    entt::registry R; auto p = World2(R, I, true); Place(R, p, I); entt::entity M[8]; int n = 0; auto made = [&](entt::entity e) { M[n++] = e; }; auto z = I.w[23] * 0;
    Collide(R, p, Result({On(z, 0), On(scalar(0.0625), 0)}), made); out.eqi(n, 2); Collide(R, p, Result({On(z + scalar(0.03125), 0)}), made); out.eqi(n, 2); Listed(out, p, M[0], M[1]); int mid = 0, ends = 0; for (int i = 0; i < 2; ++i) { auto x = Of<contact_point>(M[i]).pivotA.x; mid += x == scalar(0.03125); ends += x == (i ? scalar(0.0625) : 0); out.eqi(Of<contact_point>(M[i]).lifetime, 1); } out.eqi(mid, 1); out.eqi(ends, 1); }
LAW(ct_process_new_far, "process_collision", "a second point far from the first makes a second contact and leaves the first alone") {
    entt::registry R; auto p = World2(R, I, true); Place(R, p, I); entt::entity M[8]; int n = 0; auto made = [&](entt::entity e) { M[n++] = e; }; auto z = I.w[23] * 0;
    Collide(R, p, Result({On(z, 0)}), made); Collide(R, p, Result({On(z + 1, 0), On(0, 0, scalar(-0.01))}), made); out.eqi(n, 2); Listed(out, p, M[0], M[1]); out.eq(Of<contact_point>(M[0]).pivotA, vector3{0, -1, 0}); out.eq(Of<contact_point_geometry>(M[0]).distance, scalar(-0.01)); out.eqi(Of<contact_point>(M[0]).lifetime, 1); out.eq(Of<contact_point>(M[1]).pivotA, vector3{1, -1, 0}); out.eqi(Of<contact_point>(M[1]).lifetime, 0);
    Collide(R, p, Result({On(z, 1)}), made); out.eqi(n, 3); Listed(out, p, M[0], M[1], M[2]); out.eq(Of<contact_point>(M[2]).pivotB, vector3{0, 1, 1}); }
