// Rigid bodies: functions over the registry, against the model of the registry in stubf.
//@registry
#include "shape.hpp"
#include "rbtree.hpp"
#include "/repo/src/edyn/util/rigidbody.cpp"
#include "/repo/src/edyn/util/gravity_util.cpp"
#include "/repo/src/edyn/util/aabb_util.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/core/entity_graph.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/dynamics/moment_of_inertia.cpp"
#include "/repo/src/edyn/sys/update_inertias.cpp"
#include "/repo/src/edyn/sys/update_origins.cpp"
using namespace edyn;
using namespace law;

#define FI static inline __attribute__((always_inline))
template<typename T> FI bool Has(entt::entity e) { return entt::world::has<T>(e); }
template<typename T> FI T &Of(entt::entity e) { return entt::world::at<T>(e); }
FI matrix3x3 Diag(scalar x, scalar y, scalar z) { return {vector3{x, 0, 0}, vector3{0, y, 0}, vector3{0, 0, z}}; }
FI void World0(entt::registry &R) { R.ctx().emplace<settings>(); R.ctx().emplace<entity_graph>(); }
FI rigidbody_def Def(const In &I, rigidbody_kind k) { rigidbody_def d; d.kind = k; d.mass = 4; d.inertia = Diag(2, 4, 8); d.position = I.a; d.orientation = I.q; d.linvel = I.b; d.angvel = I.c; d.gravity = vector3{0, -2, 1}; return d; }
constexpr auto DYN = rigidbody_kind::rb_dynamic, KIN = rigidbody_kind::rb_kinematic, STA = rigidbody_kind::rb_static;
// R diag R^T times v.
FI vector3 Turned(const quaternion &q, const vector3 &diag, const vector3 &v) { auto l = Rot(Conj(q), v); return Rot(q, vector3{l.x * diag.x, l.y * diag.y, l.z * diag.z}); }

LAW(rb_impulse, "rigidbody_apply_impulse", "an impulse changes linear momentum by itself and angular momentum by its moment, and nothing else") {
    entt::registry R; auto e = R.create(), o = R.create(); for (auto x : {e, o}) { R.emplace<mass_inv>(x, I.s); R.emplace<inertia_world_inv>(x, I.m); R.emplace<linvel>(x, I.d); R.emplace<angvel>(x, I.e); }
    rigidbody_apply_impulse(R, e, I.f, I.a); out.eq(Of<linvel>(e), Add(I.d, Mul(I.f, I.s))); out.eq(Of<angvel>(e), Add(I.e, MulMV(I.m, Cross(I.a, I.f)))); out.eq(Of<linvel>(o), I.d); out.eq(Of<angvel>(o), I.e); out.eq(Of<mass_inv>(e), I.s); out.eq(Of<inertia_world_inv>(e), I.m);
    rigidbody_apply_torque_impulse(R, o, I.b); out.eq(Of<linvel>(o), I.d); out.eq(Of<angvel>(o), Add(I.e, MulMV(I.m, I.b))); }

// What every body gets, by kind.
FI void Kind(Out &out, const In &I, rigidbody_kind k) {
    entt::registry R; World0(R); auto d = Def(I, k); auto first = make_rigidbody(R, d); auto e = make_rigidbody(R, d); out.eqi(unsigned(e), 1);
    out.eq(Of<position>(e), I.a); out.eq(Of<orientation>(e), I.q); out.eqb(Has<rigidbody_tag>(e), true); out.eqb(Has<position>(e) && Has<orientation>(e) && Has<material>(e) && Has<graph_node>(e), true);
    out.eqb(Has<dynamic_tag>(e), k == DYN); out.eqb(Has<procedural_tag>(e), k == DYN); out.eqb(Has<kinematic_tag>(e), k == KIN); out.eqb(Has<static_tag>(e), k == STA);
    out.eqb(Has<linvel>(e), k != STA); out.eqb(Has<angvel>(e), k != STA); if (k != STA) { out.eq(Of<linvel>(e), I.b); out.eq(Of<angvel>(e), I.c); }
    for (auto h : {Has<mass>(e), Has<mass_inv>(e), Has<inertia>(e), Has<inertia_inv>(e), Has<inertia_world_inv>(e), Has<gravity>(e), Has<present_position>(e), Has<present_orientation>(e), Has<island_resident>(e), !Has<multi_island_resident>(e)}) out.eqb(h, k == DYN);
    if (k == DYN) { out.eq(Of<mass>(e), 4); out.eq(Of<mass_inv>(e), scalar(0.25)); out.eq(Of<inertia>(e), Diag(2, 4, 8)); out.eq(Of<inertia_inv>(e), Diag(0.5, 0.25, 0.125)); out.eq(Of<gravity>(e), vector3{0, -2, 1}); out.eq(Of<present_position>(e), I.a); out.eq(Of<present_orientation>(e), I.q); }
    for (auto h : {Has<AABB>(e), Has<shape_index>(e), Has<collision_filter>(e), Has<center_of_mass>(e), Has<origin>(e), Has<rolling_tag>(e), Has<roll_direction>(e), Has<sleeping_disabled_tag>(e), Has<networked_tag>(e), rigidbody_has_shape(R, e)}) out.eqb(h, false);
    auto &g = R.ctx().get<entity_graph>(); for (auto x : {first, e}) { auto n = Of<graph_node>(x).node_index; out.eqi(unsigned(g.node_entity(n)), unsigned(x)); out.eqb(g.is_connecting_node(n), k == DYN); }
    clear_rigidbody(R, e); out.eqb(Has<position>(first) && Has<rigidbody_tag>(first) && Has<material>(first), true);
    for (auto h : {Has<rigidbody_tag>(e), Has<position>(e), Has<orientation>(e), Has<material>(e), Has<graph_node>(e), Has<dynamic_tag>(e), Has<procedural_tag>(e), Has<kinematic_tag>(e), Has<static_tag>(e), Has<linvel>(e), Has<angvel>(e), Has<mass>(e), Has<mass_inv>(e), Has<inertia>(e), Has<inertia_inv>(e), Has<inertia_world_inv>(e), Has<gravity>(e), Has<present_position>(e), Has<present_orientation>(e), Has<island_resident>(e), Has<multi_island_resident>(e)}) out.eqb(h, false); }
LAW(rb_dynamic, "make_rigidbody clear_rigidbody", "a dynamic body has mass, inertia, velocity, gravity, a place to present it and a connecting node; clearing removes them") { Kind(out, I, DYN); }
LAW(rb_kinematic, "make_rigidbody clear_rigidbody", "a kinematic body has velocity and no mass, and does not connect; clearing removes it all") { Kind(out, I, KIN); }
LAW(rb_static, "make_rigidbody clear_rigidbody", "a static body has neither velocity nor mass, and does not connect; clearing removes it all") { Kind(out, I, STA); }
// The world inverse inertia is the body one, turned.
LAW(rb_inertia_world, "make_rigidbody update_inertias", "the world inverse inertia is the inverse of the inertia, turned with the body") {
    entt::registry R; World0(R); auto d = Def(I, DYN); d.orientation = unit(I.q); auto e = make_rigidbody(R, d), s = make_rigidbody(R, d); out.eq(MulMV(Of<inertia_world_inv>(e), I.d), Turned(d.orientation, {0.5, 0.25, 0.125}, I.d)); }
LAW(rb_inertia_update, "update_inertias", "awake dynamic bodies follow their orientation; sleeping ones keep what they have") {
    entt::registry R; auto e = R.create(), s = R.create(); for (auto x : {e, s}) { R.emplace<orientation>(x, unit(I.q)); R.emplace<inertia_inv>(x, Diag(0.5, 0.25, 0.125)); R.emplace<inertia_world_inv>(x, I.m); R.emplace<dynamic_tag>(x); } R.emplace<sleeping_tag>(s);
    update_inertias(R); out.eq(MulMV(Of<inertia_world_inv>(e), I.d), Turned(unit(I.q), {0.5, 0.25, 0.125}, I.d)); out.eq(Of<inertia_world_inv>(s), I.m); }
LAW(rb_inertia_list, "update_inertias", "the listed bodies follow their orientation, the others do not") {
    entt::registry R; entt::entity E[3] = {R.create(), R.create(), R.create()}; for (auto x : E) { R.emplace<orientation>(x, quaternion{0, 0, 1, 0}); R.emplace<inertia_inv>(x, I.m); R.emplace<inertia_world_inv>(x, matrix3x3_zero); if (x != E[1]) R.emplace<dynamic_tag>(x); }
    entt::sparse_set S; S.push(E[0]); S.push(E[1]); update_inertias(R, S); auto &m = I.m; matrix3x3 w{vector3{m.row[0].x, m.row[0].y, -m.row[0].z}, vector3{m.row[1].x, m.row[1].y, -m.row[1].z}, vector3{-m.row[2].x, -m.row[2].y, m.row[2].z}}; out.eq(Of<inertia_world_inv>(E[0]), w); out.eq(Of<inertia_world_inv>(E[1]), matrix3x3_zero); out.eq(Of<inertia_world_inv>(E[2]), matrix3x3_zero);
    std::vector<entt::entity> v{E[2]}; update_inertias(R, v); out.eq(Of<inertia_world_inv>(E[2]), w); out.eq(Of<inertia_world_inv>(E[1]), matrix3x3_zero); update_inertia(R, E[0]); out.eq(Of<inertia_world_inv>(E[0]), w); }
LAW(rb_options, "make_rigidbody", "options of the definition are taken one by one") {
    for (int i = 0; i < 8; ++i) { entt::world::NCREATED = 0; entt::registry R; World0(R); R.ctx().get<settings>().gravity = I.e; auto d = Def(I, DYN); if (i == 0) d.sleeping_disabled = true; if (i == 1) d.networked = true; if (i == 2) d.presentation = false; if (i == 3) d.material = {}; if (i == 4) d.gravity = vector3_zero; if (i == 5) { d.shape = sphere_shape{2}; d.collision_group = 6; } if (i == 6) { d.shape = sphere_shape{2}; d.collision_mask = 5; } auto e = make_rigidbody(R, d);
        out.eqb(Has<sleeping_disabled_tag>(e), i == 0); out.eqb(Has<networked_tag>(e), i == 1); out.eqb(Has<present_position>(e), i != 2); out.eqb(Has<present_orientation>(e), i != 2); out.eqb(Has<material>(e), i != 3); out.eqb(Has<gravity>(e), i != 4); out.eqb(Has<collision_filter>(e), i == 5 || i == 6); if (i == 5 || i == 6) { out.eqb(Of<collision_filter>(e).group == (i == 5 ? 6 : ~0ULL), true); out.eqb(Of<collision_filter>(e).mask == (i == 6 ? 5 : ~0ULL), true); }
        clear_rigidbody(R, e); for (auto h : {Has<sleeping_disabled_tag>(e), Has<networked_tag>(e), Has<present_position>(e), Has<material>(e), Has<gravity>(e), Has<collision_filter>(e), Has<sphere_shape>(e), Has<AABB>(e), Has<shape_index>(e), Has<rolling_tag>(e)}) out.eqb(h, false); } }
LAW(rb_gravity_default, "make_rigidbody get_gravity set_gravity", "a body without gravity of its own gets that of the world, and follows a change of it") {
    entt::registry R; World0(R); R.ctx().get<settings>().gravity = vector3{I.u, -3, 0}; auto d = Def(I, DYN); d.gravity = {}; auto e = make_rigidbody(R, d), k = make_rigidbody(R, Def(I, KIN)); out.eqb(Has<gravity>(e), true); out.eq(Of<gravity>(e), vector3{I.u, -3, 0}); out.eq(get_gravity(R), vector3{I.u, -3, 0}); set_gravity(R, I.f); out.eq(get_gravity(R), I.f); out.eq(Of<gravity>(e), I.f); out.eqb(Has<gravity>(k), false); }
// Centre of mass.
FI void Com(Out &out, const In &I, rigidbody_kind k) {
    entt::registry R; World0(R); auto d = Def(I, k); d.center_of_mass = vector3{1, -2, I.u}; d.orientation = unit(I.q); d.shape = box_shape{vector3{1, 2, 3}}; auto e = make_rigidbody(R, d); auto at = Add(I.a, Rot(d.orientation, vector3{1, -2, I.u}));
    out.eqb(Has<center_of_mass>(e) && Has<origin>(e), true); out.eq(Of<center_of_mass>(e), vector3{1, -2, I.u}); out.eq(Of<origin>(e), I.a); out.eq(Of<position>(e), at); out.eq(get_rigidbody_origin(R, e), I.a); 
    if (k != STA) { out.eq(Of<angvel>(e), I.c); out.eq(Of<linvel>(e), Add(I.b, Cross(I.c, Sub(at, I.a)))); } if (k == DYN) { out.eq(Of<present_position>(e), at); out.eq(get_rigidbody_present_origin(R, e), I.a); }
    clear_rigidbody(R, e); out.eqb(Has<center_of_mass>(e), false); out.eqb(Has<origin>(e), false); }
LAW(rb_com_dyn, "make_rigidbody apply_center_of_mass clear_rigidbody", "with a centre of mass the given position is that of the origin, and position, velocity and presentation are those of the centre of mass") { Com(out, I, DYN); }
LAW(rb_com_kin, "make_rigidbody apply_center_of_mass clear_rigidbody", "with a centre of mass the given position is that of the origin, and position and velocity are those of the centre of mass") { Com(out, I, KIN); }
LAW(rb_com_sta, "make_rigidbody apply_center_of_mass clear_rigidbody", "a static body may have a centre of mass") { Com(out, I, STA); }
LAW(rb_com_change, "apply_center_of_mass get_rigidbody_origin", "changing the centre of mass moves position and velocity with it and leaves origin and rotation; zero removes it") {
    entt::registry R; auto e = R.create(); auto q = unit(I.q); R.emplace<position>(e, I.a); R.emplace<orientation>(e, q); R.emplace<linvel>(e, I.b); R.emplace<angvel>(e, I.c);
    auto step = [&](const vector3 &com, const vector3 &old, bool has) { vector3 was = Of<position>(e), vel = vector3(Of<linvel>(e)); internal::apply_center_of_mass(R, e, com); auto p = Add(was, Rot(q, Sub(com, old))); out.eq(Of<position>(e), p); out.eq(Of<linvel>(e), Add(vel, Cross(I.c, Sub(p, was)))); out.eq(Of<angvel>(e), I.c); out.eq(Of<orientation>(e), q); out.eqb(Has<center_of_mass>(e), has); out.eqb(Has<origin>(e), has); out.eq(get_rigidbody_origin(R, e), I.a); if (has) { out.eq(Of<center_of_mass>(e), com); out.eq(Of<origin>(e), I.a); } };
    step({2, 0, -1}, vector3_zero, true); step({0, 1, 3}, {2, 0, -1}, true); step(vector3_zero, {0, 1, 3}, false); step(vector3_zero, vector3_zero, false); }
LAW(rb_origin_set, "set_rigidbody_origin rigidbody_update_origin update_origins", "origin and position stay the turned centre of mass apart") {
    entt::registry R; auto e = R.create(), f = R.create(), g = R.create(); auto q = unit(I.q); for (auto x : {e, f, g}) { R.emplace<position>(x, I.a); R.emplace<orientation>(x, q); if (x != f) { R.emplace<center_of_mass>(x, I.b); R.emplace<origin>(x, I.c); } }
    set_rigidbody_origin(R, e, I.d); out.eq(Of<origin>(e), I.d); out.eq(Of<position>(e), Add(I.d, Rot(q, I.b))); out.eq(get_rigidbody_origin(R, e), I.d); set_rigidbody_origin(R, f, I.d); out.eq(Of<position>(f), I.d); out.eqb(Has<origin>(f), false);
    Of<position>(e) = position{I.e}; rigidbody_update_origin(R, e); out.eq(Of<origin>(e), Sub(I.e, Rot(q, I.b))); Of<position>(e) = position{I.f}; R.emplace<sleeping_tag>(g); update_origins(R); out.eq(Of<origin>(e), Sub(I.f, Rot(q, I.b))); out.eq(Of<origin>(g), I.c); entt::sparse_set S; S.push(g); S.push(f); update_origins(R, S); out.eq(Of<origin>(g), Sub(I.a, Rot(q, I.b))); }
LAW(rb_mass_set, "set_rigidbody_mass set_rigidbody_inertia", "changing mass or inertia changes the inverses with them") {
    entt::registry R; auto e = R.create(); auto q = unit(I.q); R.emplace<mass>(e, scalar(1)); R.emplace<mass_inv>(e, scalar(1)); R.emplace<inertia>(e, I.m); R.emplace<inertia_inv>(e, I.m); R.emplace<inertia_world_inv>(e, I.m); R.emplace<orientation>(e, q); R.emplace<rigidbody_tag>(e); R.emplace<dynamic_tag>(e);
    set_rigidbody_mass(R, e, 8); out.eq(Of<mass>(e), 8); out.eq(Of<mass_inv>(e), 0.125); set_rigidbody_inertia(R, e, Diag(2, 4, 8)); out.eq(Of<inertia>(e), Diag(2, 4, 8)); out.eq(Of<inertia_inv>(e), Diag(0.5, 0.25, 0.125)); out.eq(MulMV(Of<inertia_world_inv>(e), I.d), Turned(q, {0.5, 0.25, 0.125}, I.d)); }
LAW(rb_kin_pos, "set_kinematic_position", "moving a kinematic body gives it the velocity that takes it there") { entt::registry R; auto e = R.create(); R.emplace<kinematic_tag>(e); R.emplace<position>(e, I.a); R.emplace<linvel>(e, I.b); set_kinematic_position(R, e, I.c, scalar(0.25)); out.eq(Of<position>(e), I.c); out.eq(Of<linvel>(e), Mul(Sub(I.c, I.a), 4)); }
// Shapes.
FI bool Is(entt::registry &R, entt::entity e, size_t index) { return Has<shape_index>(e) && Of<shape_index>(e).value == index; }
FI void BoxOf(Out &out, entt::entity e, const vector3 &at, const vector3 &half) { out.eqb(Has<AABB>(e), true); auto b = Of<AABB>(e); out.eq(b.min, Sub(at, half)); out.eq(b.max, Add(at, half)); }
template<typename S> FI void Shaped(Out &out, const In &I, const S &s, rigidbody_kind k, const vector3 &half, bool rolls, const vector3 &dir) {
    entt::registry R; World0(R); auto d = Def(I, k); d.orientation = quaternion_identity; d.shape = s; auto e = make_rigidbody(R, d); bool r = rolls && k == DYN; out.eqb(Has<S>(e), true); out.eqb(Is(R, e, get_shape_index<S>()), true); out.eqb(rigidbody_has_shape(R, e), true); BoxOf(out, e, I.a, half); out.eqb(Has<rolling_tag>(e), r); bool has = r && !(dir.x == 0 && dir.y == 0 && dir.z == 0); out.eqb(Has<roll_direction>(e), has); if (has) out.eq(Of<roll_direction>(e), dir);
    clear_rigidbody(R, e); for (auto h : {Has<S>(e), Has<shape_index>(e), Has<AABB>(e), Has<rolling_tag>(e), Has<roll_direction>(e)}) out.eqb(h, false); }
LAW(rb_shape_box, "make_rigidbody", "a body with a box has the shape, its index and its bounding box, and does not roll") { Shaped(out, I, box_shape{vector3{1, 2, 3}}, DYN, {1, 2, 3}, false, {}); }
LAW(rb_shape_ball, "make_rigidbody", "a dynamic body with a sphere rolls in any direction") { Shaped(out, I, sphere_shape{2}, DYN, {2, 2, 2}, true, {}); }
LAW(rb_shape_ball_k, "make_rigidbody", "a kinematic body with a sphere is not treated as rolling") { Shaped(out, I, sphere_shape{2}, KIN, {2, 2, 2}, true, {}); }
LAW(rb_shape_cyl, "make_rigidbody", "a dynamic body with a cylinder rolls about its axis") { Shaped(out, I, cylinder_shape{2, 3, coordinate_axis::y}, DYN, {2, 3, 2}, true, {0, 1, 0}); }
LAW(rb_shape_cap, "make_rigidbody", "a dynamic body with a capsule rolls about its axis") { Shaped(out, I, capsule_shape{2, 3, coordinate_axis::z}, DYN, {2, 2, 5}, true, {0, 0, 1}); }
template<typename A, typename B> FI void Reshape(Out &out, const In &I, const A &a, const B &b, rigidbody_kind k, bool com, const vector3 &half, bool rolls, const vector3 &dir) {
    entt::registry R; World0(R); auto d = Def(I, k); d.orientation = quaternion_identity; d.shape = a; if (com) d.center_of_mass = vector3{1, -2, 3}; auto e = make_rigidbody(R, d); rigidbody_set_shape(R, e, b); constexpr bool same = std::is_same_v<A, B>; out.eqb(Has<A>(e), same); out.eqb(Has<B>(e), true); out.eqb(Is(R, e, get_shape_index<B>()), true); BoxOf(out, e, I.a, half); bool r = rolls && k == DYN; out.eqb(Has<rolling_tag>(e), r); bool has = r && !(dir.x == 0 && dir.y == 0 && dir.z == 0); out.eqb(Has<roll_direction>(e), has); if (has) out.eq(Of<roll_direction>(e), dir);
    rigidbody_set_shape(R, e, {}); for (auto h : {Has<A>(e), Has<B>(e), Has<shape_index>(e), Has<AABB>(e), Has<rolling_tag>(e), Has<roll_direction>(e), rigidbody_has_shape(R, e)}) out.eqb(h, false);
    rigidbody_set_shape(R, e, a); out.eqb(Has<A>(e), true); out.eqb(Is(R, e, get_shape_index<A>()), true); out.eqb(Has<AABB>(e), true); rigidbody_set_shape(R, e, b); BoxOf(out, e, I.a, half); }
LAW(rb_reshape_box, "rigidbody_set_shape", "a new shape replaces the old one, with its bounding box; none removes it") { Reshape(out, I, box_shape{vector3{3, 2, 1}}, box_shape{vector3{1, 2, 3}}, STA, false, {1, 2, 3}, false, {}); }
LAW(rb_reshape_cyl, "rigidbody_set_shape", "a new shape replaces the old one, with its bounding box and rolling; none removes it") { Reshape(out, I, box_shape{vector3{3, 2, 1}}, cylinder_shape{2, 3, coordinate_axis::y}, DYN, false, {2, 3, 2}, true, {0, 1, 0}); }
LAW(rb_reshape_ball, "rigidbody_set_shape", "a new shape replaces the old one, with its bounding box and rolling; none removes it") { Reshape(out, I, cylinder_shape{2, 3, coordinate_axis::y}, sphere_shape{2}, DYN, false, {2, 2, 2}, true, {}); }
LAW(rb_reshape_com, "rigidbody_set_shape", "the bounding box of a new shape is about the origin of the body") { Reshape(out, I, sphere_shape{1}, box_shape{vector3{1, 2, 3}}, DYN, true, {1, 2, 3}, false, {}); }
LAW(rb_reshape_far, "rigidbody_set_shape", "contacts of the body, and of no other, are marked for removal") {
    entt::registry R; World0(R); auto d = Def(I, DYN); d.shape = sphere_shape{1}; auto a = make_rigidbody(R, d), b = make_rigidbody(R, d), c = make_rigidbody(R, d); auto &g = R.ctx().get<entity_graph>(); auto join = [&](entt::entity x, entt::entity y, bool contact) { auto m = R.create(); if (contact) { R.emplace<contact_manifold_state>(m); } g.insert_edge(m, Of<graph_node>(x).node_index, Of<graph_node>(y).node_index); return m; };
    auto ab = join(a, b, true), bc = join(b, c, true), ca = join(c, a, true), j = join(a, b, false); rigidbody_set_shape(R, a, sphere_shape{2}); out.eqb(Has<clear_contact_manifold_tag>(ab), true); out.eqb(Has<clear_contact_manifold_tag>(ca), true); out.eqb(Has<clear_contact_manifold_tag>(bc), false); out.eqb(Has<clear_contact_manifold_tag>(j), false); rigidbody_set_shape(R, b, {}); out.eqb(Has<clear_contact_manifold_tag>(bc), true); out.eqb(Has<clear_contact_manifold_tag>(j), false); out.eqb(Has<clear_contact_manifold_tag>(ab), true); }
LAW(rb_tags, "rigidbody_replace_kind_tags", "changing the kind leaves exactly the tags of the new kind") {
    for (int from = 0; from < 3; ++from) for (int to = 0; to < 3; ++to) { entt::world::NCREATED = 0; entt::registry R; auto e = R.create(); R.clear<dynamic_tag, procedural_tag, kinematic_tag, static_tag>(); if (from == 0) { R.emplace<dynamic_tag>(e); R.emplace<procedural_tag>(e); } if (from == 1) R.emplace<kinematic_tag>(e); if (from == 2) R.emplace<static_tag>(e); internal::rigidbody_replace_kind_tags(R, e, to == 0 ? DYN : to == 1 ? KIN : STA); out.eqb(Has<dynamic_tag>(e), to == 0); out.eqb(Has<procedural_tag>(e), to == 0); out.eqb(Has<kinematic_tag>(e), to == 1); out.eqb(Has<static_tag>(e), to == 2); } }
// Turning a kinematic body.
FI void Turn(Out &out, const In &I, const quaternion &from, const quaternion &to, const vector3 &axis, scalar angle) { entt::world::NCREATED = 0; entt::registry R; auto e = R.create(); R.clear<kinematic_tag, orientation, angvel>(); R.emplace<kinematic_tag>(e); R.emplace<orientation>(e, from); R.emplace<angvel>(e, I.b); set_kinematic_orientation(R, e, to, scalar(0.25)); out.eq(Of<orientation>(e), to); auto w = Of<angvel>(e); auto v = Mul(axis, 4 * angle); for (int i = 0; i < 3; ++i) out.eqb(Abs(At(w, i) - At(v, i)) < scalar(1e-3), true); }
LAW(rb_kin_turn, "set_kinematic_orientation", "turning a kinematic body gives it the angular velocity that takes it there") {
    auto z = I.w[23] * 0; quaternion id{z, 0, 0, 1}; constexpr scalar A = 1.2870022175865687, B = 0.5675882184166557; Turn(out, I, id, {scalar(0.6), 0, 0, scalar(0.8)}, {1, 0, 0}, A); Turn(out, I, {0, scalar(0.6), 0, scalar(0.8)}, id, {0, -1, 0}, A); Turn(out, I, id, {0, 0, scalar(-0.28), scalar(0.96)}, {0, 0, -1}, B); Turn(out, I, id, {0, 0, 1, 0}, {0, 0, 1}, pi); Turn(out, I, {0, scalar(0.6), 0, scalar(0.8)}, {0, scalar(0.96), 0, scalar(0.28)}, {0, 1, 0}, A); }
LAW(rb_kin_still, "set_kinematic_orientation", "no angular velocity when the body does not turn, nor when only the sign of its orientation changes, and the short way round else") {
    auto z = I.w[23] * 0; quaternion id{z, 0, 0, 1}; constexpr scalar A = 1.2870022175865687; Turn(out, I, id, id, vector3_zero, 0); Turn(out, I, {0, 0, 0, 1 + scalar(0x1p-24)}, {0, 0, 0, 1 + scalar(0x1p-24)}, vector3_zero, 0); Turn(out, I, id, {0, 0, 0, -1}, vector3_zero, 0); Turn(out, I, id, {scalar(-0.6), 0, 0, scalar(-0.8)}, {1, 0, 0}, A); }
