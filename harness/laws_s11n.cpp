// Serialization: what an output archive writes, an input archive reads back; short buffers fail.
#include "law.hpp"
#include "rbtree.hpp"
#include <memory>
#include <numeric>
#include <algorithm>
#include <vector>
#include <map>
#include <optional>
#include <cstring>
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/serialization/static_tree_s11n.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/networking/packet/set_aabb_of_interest.hpp"
#include "edyn/networking/packet/set_playout_delay.hpp"
#include "edyn/networking/packet/time_request.hpp"
#include "edyn/networking/packet/time_response.hpp"
#include "edyn/collision/contact_normal_attachment.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/shape_index.hpp"
#include "edyn/comp/inertia.hpp"
#include "edyn/comp/mass.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/comp/roll_direction.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/orientation.hpp"
#include "edyn/comp/merge_component.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/sphere_shape.hpp"
#include "edyn/shapes/plane_shape.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/triangle.cpp"
#include "/repo/src/edyn/util/shape_util.cpp"
#include "/repo/src/edyn/shapes/convex_mesh.cpp"
#include "/repo/src/edyn/sys/update_rotated_meshes.cpp"
#include "/repo/src/edyn/shapes/triangle_mesh.cpp"
template class std::basic_string<char>;
using namespace edyn;
using namespace law;
#define INL static inline __attribute__((always_inline))
using Bytes = std::vector<uint8_t>;

// Writes t, reads it into u, and requires success, full consumption, and failure on every analysed prefix.
template<typename T> INL void Trip(Out &out, T &t, T &u, size_t size) {
    Bytes b; memory_output_archive o(b); o(t); out.eqi(b.size(), size);
    memory_input_archive in(b.data(), b.size()); in(u); out.eqb(in.failed(), false); out.eqb(in.eof(), true); }
template<typename T> INL void Cut(Out &out, T &t) {
    Bytes b; memory_output_archive o(b); o(t); size_t n = b.size(); size_t cuts[3] = {0, n / 2, n - 1};
    for (auto k : cuts) { T u{}; memory_input_archive in(b.data(), k); in(u); out.eqb(in.failed(), true); } }
template<typename T> INL void Fixed(Out &out, T &t) {
    Bytes b; memory_output_archive o(b); o(t); size_t n = b.size(); uint8_t f[128]; for (auto &x : f) x = 77;
    { fixed_memory_output_archive a(f, n); a(t); out.eqb(a.failed(), false); } T u{}; memory_input_archive in(f, n); in(u); out.eqb(in.failed(), false); out.eqb(in.eof(), true); Bytes c; memory_output_archive p(c); p(u); out.eqi(c.size(), n); out.eqi(f[n], 77);
    uint8_t g[128]; for (auto &x : g) x = 77; { fixed_memory_output_archive a(g, n - 1); a(t); out.eqb(a.failed(), true); } out.eqi(g[n - 1], 77); }
#define U32(x) static_cast<uint32_t>(x)
#define U16(x) static_cast<uint16_t>(x)
#define U8(x) static_cast<uint8_t>(x)

// --- archives
LAW(mem_scalars, "memory_output_archive memory_input_archive", "fundamental values come back in order, whatever their sizes") {
    Bytes b{9, 9, 9}; memory_output_archive o(b); double d = I.s; uint8_t c = U8(I.t); float f = float(I.u); uint32_t i = U32(I.v); uint16_t h = U16(I.g.x); uint64_t l = static_cast<uint64_t>(I.g.y); bool t = I.h.x > 0; o(d, c); o(f); o(i, h, l); o(t); out.eqi(b.size(), 3 + 8 + 1 + 4 + 4 + 2 + 8 + 1); out.eqi(b[0] + b[1] + b[2], 27);
    memory_input_archive in(b.data() + 3, b.size() - 3); double d2 = 0; uint8_t c2 = 0; float f2 = 0; uint32_t i2 = 0; uint16_t h2 = 0; uint64_t l2 = 0; bool t2 = !t; in(d2, c2); in(f2); out.eqb(in.eof(), false); in(i2, h2, l2); in(t2); out.eq(d2, d); out.eqi(c2, c); out.eq(f2, f); out.eqi(i2, i); out.eqi(h2, h); out.eqi(l2, l); out.eqb(t2, t); out.eqb(in.failed(), false); out.eqb(in.eof(), true); }
LAW(mem_fail, "memory_input_archive::read_bytes failed", "a value that does not fit fails, stays untouched, and every later read fails too, even one that would fit") {
    Bytes b; memory_output_archive o(b); uint8_t c = 5; double d = I.s; o(c); o(d); for (size_t n = 0; n < 9; ++n) { memory_input_archive in(b.data(), n); uint8_t c2 = 99; double d2 = I.t; out.eqb(in.failed(), false); in(c2); out.eqb(in.failed(), n < 1); in(d2); out.eqb(in.failed(), true); out.eq(d2, I.t); out.eqi(c2, n < 1 ? 99 : 5); uint8_t e = 42; in(e); out.eqi(e, 42); out.eqb(in.failed(), true); } }
LAW(mem_exact, "memory_input_archive::eof", "the last value may end exactly at the end; nothing follows it") { Bytes b; memory_output_archive o(b); double d = I.s; o(d); memory_input_archive in(b.data(), 8); double e = 0; out.eqb(in.eof(), false); in(e); out.eqb(in.failed(), false); out.eqb(in.eof(), true); out.eq(e, d); uint8_t c = 7; in(c); out.eqb(in.failed(), true); out.eqi(c, 7); }
LAW(mem_empty, "memory_input_archive", "an empty buffer is at its end and holds nothing") { uint8_t z = 0; memory_input_archive in(&z, 0); out.eqb(in.eof(), true); out.eqb(in.failed(), false); uint8_t c = 3; in(c); out.eqb(in.failed(), true); out.eqi(c, 3); }
LAW(fixed_fail, "fixed_memory_output_archive::write_bytes", "never writes past its size; fails for good when a value does not fit; what fits is written") {
    for (size_t n = 0; n <= 13; ++n) { uint8_t f[16]; for (auto &x : f) x = 77; fixed_memory_output_archive a(f, n); uint32_t i = 0x04030201; double d = I.s; uint8_t c = 9; a(i); out.eqb(a.failed(), n < 4); a(d); out.eqb(a.failed(), n < 12); a(c); out.eqb(a.failed(), n < 13); out.eqi(f[13], 77); for (size_t k = n; k < 16; ++k) out.eqi(f[k], 77); if (n >= 4) { uint32_t j; std::memcpy(&j, f, 4); out.eqi(j, i); } if (n >= 13) out.eqi(f[12], 9); } }
LAW(fixed_same, "fixed_memory_output_archive memory_output_archive", "both write the same bytes") { Bytes b; memory_output_archive o(b); uint8_t f[32]; fixed_memory_output_archive a(f, 32); vector3 v = I.a; uint32_t i = 0x0a0b0c0d; o(i); a(i); o(v); if constexpr (sizeof(v) + 4 <= 32) a(v); out.eqb(a.failed(), false); out.eqi(b.size(), 28); memory_input_archive x(f, 28); uint32_t j = 0; vector3 w{}; x(j); x(w); out.eqi(j, i); out.eq(w, v); }
LAW(const_out, "memory_output_archive::operator()(const T&)", "constant values are written like others, and left alone") { Bytes b; memory_output_archive o(b); const vector3 v = I.a; const uint16_t k = 513; o(v); o(k); out.eqi(b.size(), 26); memory_input_archive in(b.data(), b.size()); vector3 w{}; uint16_t l = 0; in(w); in(l); out.eq(w, I.a); out.eqi(l, 513); out.eq(v, I.a); }
struct Empty {};
LAW(empty_type, "memory_output_archive memory_input_archive", "an empty type takes no space") { Bytes b; memory_output_archive o(b); Empty e; o(e); out.eqi(b.size(), 0); memory_input_archive in(b.data(), 0); in(e); out.eqb(in.failed(), false); }
enum class E8 : uint8_t { a, b, c }; enum class E32 : int32_t { n = -5, z = 0, p = 70000 };
LAW(enums, "serialize_enum", "the underlying value comes back, in its size") { Bytes b; memory_output_archive o(b); E8 x = E8::c; E32 y = E32::p, z = E32::n; serialize_enum(o, x); serialize_enum(o, y); serialize_enum(o, z); out.eqi(b.size(), 9); memory_input_archive in(b.data(), 9); E8 p = E8::a; E32 q = E32::z, r = E32::z; serialize_enum(in, p); serialize_enum(in, q); serialize_enum(in, r); out.eqb(p == x, true); out.eqb(q == y, true); out.eqb(r == z, true); out.eqb(in.eof(), true); }
LAW(pointer, "serialize_pointer", "the same address comes back") { int k; int *p = &k, *q = nullptr; Bytes b; memory_output_archive o(b); serialize_pointer(o, &p); out.eqi(b.size(), sizeof(intptr_t)); memory_input_archive in(b.data(), b.size()); serialize_pointer(in, &q); out.eqb(p == q, true); }

// --- math
LAW(math_types, "serialize(vector3) serialize(quaternion) serialize(matrix3x3)", "every component comes back in its place") {
    { vector3 t = I.a, u{}; Trip(out, t, u, 24); out.eq(u, I.a); out.eq(t, I.a); } { quaternion t = I.q, u{}; Trip(out, t, u, 32); out.eq(u, I.q); out.eq(t, I.q); } { matrix3x3 t = I.m, u{}; Trip(out, t, u, 72); out.eq(u, I.m); out.eq(t, I.m); } }
LAW(math_cut, "serialize(vector3) serialize(quaternion) serialize(matrix3x3)", "short buffers fail") { vector3 v = I.a; Cut(out, v); quaternion q = I.q; Cut(out, q); matrix3x3 m = I.m; Cut(out, m); }
LAW(math_fixed, "fixed_memory_output_archive", "fits exactly or fails") { vector3 v = I.a; Fixed(out, v); quaternion q = I.q; Fixed(out, q); matrix3x3 m = I.m; Fixed(out, m); }

// --- standard containers
LAW(vec_scalar, "serialize(std::vector)", "same length, same values; what was in the destination is gone; the source is unchanged") {
    for (size_t n = 0; n < 5; ++n) { std::vector<scalar> t, u{1, 2, 3}; for (size_t i = 0; i < n; ++i) t.push_back(I.s + i); Trip(out, t, u, 2 + 8 * n); out.eqi(u.size(), n); out.eqi(t.size(), n); for (size_t i = 0; i < n && i < u.size(); ++i) { out.eq(u[i], I.s + i); out.eq(t[i], I.s + i); } out.eqi(serialization_sizeof(t), 2 + 8 * n); } }
LAW(vec_nested, "serialize(std::vector)", "nested vectors and vectors of vectors3") { std::vector<std::vector<uint8_t>> t{{1, 2}, {}, {3}}, u; Trip(out, t, u, 2 + 4 + 2 + 3); out.eqi(u.size(), 3); out.eqi(u[0].size(), 2); out.eqi(u[1].size(), 0); out.eqi(u[2].size(), 1); out.eqi(u[0][1], 2); out.eqi(u[2][0], 3); std::vector<vector3> v{I.a, I.b}, w; Trip(out, v, w, 50); out.eqi(w.size(), 2); out.eq(w[0], I.a); out.eq(w[1], I.b); out.eqi(serialization_sizeof(v), 50); }
LAW(vec_cut, "serialize(std::vector)", "short buffers fail") { std::vector<scalar> t{I.s, I.t}; Cut(out, t); std::vector<vector3> v{I.a, I.b}; Cut(out, v); }
LAW(vec_bool, "serialize(std::vector<bool>)", "every bit, also across the words") {
    static const unsigned sizes[] = {0, 1, 31, 32, 33, 65}; for (auto n : sizes) { std::vector<bool> t(n), u{true, true}; for (unsigned i = 0; i < n; ++i) t[i] = i % 3 == 0 || i == 31 || i == 64; size_t bytes = 2 + (n + 31) / 32 * 4; Trip(out, t, u, bytes); out.eqi(u.size(), n); for (unsigned i = 0; i < n && i < u.size(); ++i) out.eqb(u[i], i % 3 == 0 || i == 31 || i == 64); out.eqi(serialization_sizeof(t), bytes); } }
LAW(vec_bool_cut, "serialize(std::vector<bool>)", "short buffers fail, and the bits that are missing read as zero") { std::vector<bool> t(40); t[3] = t[39] = true; Cut(out, t); Bytes b; memory_output_archive o(b); o(t); std::vector<bool> u; memory_input_archive in(b.data(), 6); in(u); out.eqb(in.failed(), true); for (unsigned i = 32; i < u.size(); ++i) out.eqb(u[i], false); }
LAW(str, "serialize(std::string)", "same text; short buffers fail") { std::string t = "edyn", u = "longer text"; Trip(out, t, u, 6); out.eqi(u.size(), 4); out.eqb(u[0] == 'e' && u[1] == 'd' && u[2] == 'y' && u[3] == 'n', true); Cut(out, t); std::string e, f = "x"; Trip(out, e, f, 2); out.eqi(f.size(), 0); }
LAW(arr, "serialize(std::array)", "every element") { std::array<scalar, 4> t{I.s, I.t, I.u, I.v}, u{}; Trip(out, t, u, 32); for (int i = 0; i < 4; ++i) out.eq(u[i], t[i]); out.eqi(serialization_sizeof(t), 32); std::array<std::array<uint16_t, 2>, 3> x{{{1, 2}, {3, 4}, {5, 6}}}, y{}; Trip(out, x, y, 12); for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) out.eqi(y[i][k], 2 * i + k + 1); Cut(out, t); }
LAW(pair_, "serialize(std::pair)", "both members") { std::pair<uint8_t, scalar> t{7, I.s}, u{}; Trip(out, t, u, 9); out.eqi(u.first, 7); out.eq(u.second, I.s); Cut(out, t); std::pair<scalar, uint16_t> p; out.eqi(serialization_sizeof(p), 10); }
LAW(opt, "serialize(std::optional)", "with and without a value; the destination may have had one") { std::optional<scalar> t{I.s}, u; Trip(out, t, u, 9); out.eqb(u.has_value(), true); out.eq(*u, I.s); std::optional<scalar> n, m{I.t}; Trip(out, n, m, 1); out.eqb(m.has_value(), false); std::optional<std::vector<uint16_t>> w{std::vector<uint16_t>{1, 2}}, x; Trip(out, w, x, 7); out.eqi(serialization_sizeof(w), 7); out.eqi((*x)[1], 2); Cut(out, t); }
LAW(var_, "serialize(std::variant)", "the same alternative with the same value, in any order of alternatives") {
    using V = std::variant<scalar, vector3, uint8_t, std::vector<uint16_t>>; { V t = I.s, u = uint8_t(3); Trip(out, t, u, 9); out.eqi(u.index(), 0); out.eq(*std::get_if<0>(&u), I.s); out.eqi(serialization_sizeof(t), 9); } { V t = I.a, u; Trip(out, t, u, 25); out.eqi(u.index(), 1); out.eq(*std::get_if<1>(&u), I.a); out.eqi(serialization_sizeof(t), 25); } { V t = uint8_t(200), u; Trip(out, t, u, 2); out.eqi(u.index(), 2); out.eqi(*std::get_if<2>(&u), 200); } { V t = std::vector<uint16_t>{4, 5}, u; Trip(out, t, u, 7); out.eqi(u.index(), 3); auto &w = *std::get_if<3>(&u); out.eqi(w.size(), 2); out.eqi(w[1], 5); Cut(out, t); } }
LAW(map_, "serialize(std::map)", "every key with its value") { std::map<uint16_t, scalar> t{{3, I.s}, {1, I.t}, {9, I.u}}, u; Trip(out, t, u, 2 + 3 * 10); out.eqi(u.size(), 3); auto g = [&](unsigned k) { auto it = u.find(k); return it == u.end() ? scalar(12345) : it->second; }; out.eq(g(1), I.t); out.eq(g(3), I.s); out.eq(g(9), I.u); out.eqi(serialization_sizeof(t), 32); }

// --- components, packets and shapes
LAW(comps, "serialize of components", "position, orientation, velocities, mass, gravity, axes and offsets come back") {
#define V3(T) { T t, u; t.x = I.a.x; t.y = I.a.y; t.z = I.a.z; u.x = u.y = u.z = 0; Trip(out, t, u, 24); out.eq(u.x, I.a.x); out.eq(u.y, I.a.y); out.eq(u.z, I.a.z); }
    V3(position) V3(linvel) V3(angvel) V3(gravity) V3(roll_direction) V3(center_of_mass) { orientation t, u; t.x = I.q.x; t.y = I.q.y; t.z = I.q.z; t.w = I.q.w; u.x = u.y = u.z = u.w = 0; Trip(out, t, u, 32); out.eq(static_cast<quaternion &>(u), I.q); }
    { mass t, u; t.s = I.s; u.s = 0; Trip(out, t, u, 8); out.eq(u.s, I.s); } { mass_inv t, u; t.s = I.s; u.s = 0; Trip(out, t, u, 8); out.eq(u.s, I.s); } }
#define M3(T) { T t, u; static_cast<matrix3x3 &>(t) = I.m; static_cast<matrix3x3 &>(u) = I.n; Trip(out, t, u, 72); out.eq(static_cast<matrix3x3 &>(u), I.m); }
LAW(comp_inertia, "serialize(inertia) serialize(inertia_inv) serialize(inertia_world_inv)", "every element in its place") { M3(inertia) M3(inertia_inv) M3(inertia_world_inv) }
LAW(comp_aabb, "serialize(AABB)", "both corners; short buffers fail") { AABB t{I.a, I.b}, u{}; Trip(out, t, u, 48); out.eq(u.min, I.a); out.eq(u.max, I.b); Cut(out, t); Fixed(out, t); }
LAW(comp_material, "serialize(material)", "every coefficient and the identifier") { material t, u; t.restitution = I.a.x; t.friction = I.a.y; t.spin_friction = I.a.z; t.roll_friction = I.b.x; t.stiffness = I.b.y; t.damping = I.b.z; t.id = 77; Bytes b; memory_output_archive o(b); o(t); memory_input_archive in(b.data(), b.size()); in(u); out.eqb(in.failed(), false); out.eqb(in.eof(), true); out.eq(u.restitution, I.a.x); out.eq(u.friction, I.a.y); out.eq(u.spin_friction, I.a.z); out.eq(u.roll_friction, I.b.x); out.eq(u.stiffness, I.b.y); out.eq(u.damping, I.b.z); out.eqi(u.id, 77); }
LAW(comp_filter, "serialize(collision_filter) serialize(shape_index)", "all bits of group and mask; the index") { collision_filter t, u; t.group = 0x8000000000000001ull; t.mask = 0x00ff00ff12345678ull; Trip(out, t, u, 16); out.eqb(u.group == t.group, true); out.eqb(u.mask == t.mask, true); out.eqb(t.group == 0x8000000000000001ull, true); Cut(out, t); shape_index x{5}, y{0}; Trip(out, x, y, 1); out.eqi(y.value, 5); }
LAW(comp_actions, "serialize(action_list) merge_component", "every action in order; merging appends; other components are replaced") { action_list<scalar> t, u; t.actions = {I.s, I.t, I.u}; u.actions = {0, 0, 0, 0}; Trip(out, t, u, 25); out.eqi(u.actions.size(), 3); out.eq(u.actions[0], I.s); out.eq(u.actions[1], I.t); out.eq(u.actions[2], I.u); merge_component(u, t); out.eqi(u.actions.size(), 6); out.eq(u.actions[2], I.u); out.eq(u.actions[3], I.s); out.eq(u.actions[5], I.u); scalar p = I.s; merge_component(p, I.t); out.eq(p, I.t); Cut(out, t); }
LAW(history, "serialize(action_history)", "every entry with its time, type and data") { action_history t, u; for (int i = 0; i < 3; ++i) t.entries.emplace_back(I.s + i, uint8_t(i + 5), std::vector<uint8_t>(size_t(i), uint8_t(i + 40))); Trip(out, t, u, 1 + 3 * 11 + 3); out.eqi(u.entries.size(), 3); out.eqi(t.entries.size(), 3); for (int i = 0; i < 3; ++i) { out.eq(u.entries[i].timestamp, I.s + i); out.eqi(u.entries[i].action_index, i + 5); out.eqi(u.entries[i].data.size(), i); for (auto x : u.entries[i].data) out.eqi(x, i + 40); } Cut(out, t); }
LAW(packets, "serialize of packets", "every field of the plain packets") { using namespace packet; { set_aabb_of_interest t{I.a, I.b}, u{}; Trip(out, t, u, 48); out.eq(u.min, I.a); out.eq(u.max, I.b); Cut(out, t); } { set_playout_delay t{I.s}, u{}; Trip(out, t, u, 8); out.eq(u.value, I.s); } { time_request t{123456789}, u{}; Trip(out, t, u, 4); out.eqi(u.id, 123456789); Cut(out, t); } { time_response t{0xfffffffe, I.s}, u{}; Trip(out, t, u, 12); out.eqi(u.id, 0xfffffffe); out.eq(u.timestamp, I.s); Cut(out, t); } }
LAW(axes, "serialize(coordinate_axis) serialize(contact_normal_attachment)", "one byte with the value") { coordinate_axis ax[] = {coordinate_axis::x, coordinate_axis::y, coordinate_axis::z}; for (auto t : ax) { auto u = coordinate_axis::x; Trip(out, t, u, 1); out.eqb(u == t, true); } contact_normal_attachment at[] = {contact_normal_attachment::none, contact_normal_attachment::normal_on_A, contact_normal_attachment::normal_on_B}; for (auto t : at) { auto u = contact_normal_attachment::none; Trip(out, t, u, 1); out.eqb(u == t, true); } }
LAW(shapes_, "serialize of shapes", "every dimension and axis") { { box_shape t, u; t.half_extents = I.a; u.half_extents = I.b; Trip(out, t, u, 24); out.eq(u.half_extents, I.a); } { sphere_shape t{I.s}, u{I.t}; Trip(out, t, u, 8); out.eq(u.radius, I.s); } { plane_shape t{I.a, I.s}, u{I.b, I.t}; Trip(out, t, u, 32); out.eq(u.normal, I.a); out.eq(u.constant, I.s); }
    { cylinder_shape t{I.s, I.t, coordinate_axis::z}, u{I.u, I.v, coordinate_axis::x}; Trip(out, t, u, 17); out.eq(u.radius, I.s); out.eq(u.half_length, I.t); out.eqb(u.axis == coordinate_axis::z, true); Cut(out, t); } { capsule_shape t{I.s, I.t, coordinate_axis::y}, u{I.u, I.v, coordinate_axis::x}; Trip(out, t, u, 17); out.eq(u.radius, I.s); out.eq(u.half_length, I.t); out.eqb(u.axis == coordinate_axis::y, true); Cut(out, t); } }
LAW(mesh_cm, "serialize(convex_mesh)", "vertices, indices and faces; the derived data is recomputed") { convex_mesh m; make_box_mesh({1, 2, 3}, m.vertices, m.indices, m.faces); m.initialize(); convex_mesh u; Bytes b; memory_output_archive o(b); o(m); memory_input_archive in(b.data(), b.size()); in(u); out.eqb(in.failed(), false); out.eqb(in.eof(), true); out.eqi(u.vertices.size(), 8); for (int i = 0; i < 8; ++i) out.eq(u.vertices[i], m.vertices[i]); out.eqi(u.indices.size(), 24); for (int i = 0; i < 24; ++i) out.eqi(u.indices[i], m.indices[i]); out.eqi(u.faces.size(), 12); for (int i = 0; i < 12; ++i) out.eqi(u.faces[i], m.faces[i]); out.eqi(u.edges.size(), 24); out.eqi(u.normals.size(), 6); out.eqi(u.relevant_faces.size(), 6); out.eqi(u.relevant_edges.size(), 3); out.eqi(u.neighbor_indices.size(), 24); for (int i = 0; i < 6; ++i) out.eq(u.normals[i], m.normals[i]); }
LAW(fna_, "serialize(flat_nested_array) serialize(unordered_pair)", "every nested array") { flat_nested_array<uint16_t> t, u; t.push_array(); t.push_back(1); t.push_back(2); t.push_array(); t.push_array(); t.push_back(7); Bytes b; memory_output_archive o(b); o(t); memory_input_archive in(b.data(), b.size()); in(u); out.eqb(in.failed(), false); out.eqb(in.eof(), true); out.eqi(u.size(), t.size()); out.eqi(b.size(), serialization_sizeof(t)); out.eqi(u[0].size(), 2); out.eqi(u[1].size(), 0); out.eqi(u[2].size(), 1); out.eqi(u[0][0], 1); out.eqi(u[0][1], 2); out.eqi(u[2][0], 7); unordered_pair<uint16_t> p{3, 4}, q{0, 0}; Trip(out, p, q, 4); out.eqi(q.first, 3); out.eqi(q.second, 4); out.eqi(serialization_sizeof(p), 4); }
struct TriIds { using is_input = std::true_type; using is_output = std::false_type; template<typename T> void operator()(T &) {} void operator()(std::vector<material::id_type> &v) { v = {5, 6, 7, 8}; } };
static inline __attribute__((always_inline)) void TwoTri(triangle_mesh &m, const In &I) { std::vector<vector3> v{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {5, 2, -1}}; std::vector<uint32_t> ix{0, 1, 2, 2, 1, 3}; m.insert_vertices(v.begin(), v.end()); m.insert_indices(ix.begin(), ix.end()); m.initialize(); scalar f[4] = {I.s, I.t, I.u, I.v}, r[4] = {I.g.x, I.g.y, I.h.x, I.h.y}; m.insert_friction_coefficients(f, f + 4); m.insert_restitution_coefficients(r, r + 4); m.set_thickness(I.k.x); TriIds ids; serialize(ids, m); }
LAW(mesh_tm, "serialize(triangle_mesh) serialization_sizeof(triangle_mesh) serialize(static_tree)", "everything that can be asked of a mesh is the same after the trip") {
    triangle_mesh m, u; TwoTri(m, I);
    Bytes b; memory_output_archive o(b); o(m); out.eqi(b.size(), serialization_sizeof(m)); memory_input_archive in(b.data(), b.size()); in(u); out.eqb(in.failed(), false); out.eqb(in.eof(), true); out.eqi(u.num_vertices(), 4); out.eqi(u.num_triangles(), 2); out.eqi(u.num_edges(), 5); out.eq(u.get_thickness(), I.k.x); out.eqi(m.num_edges(), 5);
    for (unsigned i = 0; i < 4; ++i) { out.eq(u.get_vertex_position(i), m.get_vertex_position(i)); out.eq(u.get_vertex_friction(i), m.get_vertex_friction(i)); out.eq(u.get_vertex_restitution(i), m.get_vertex_restitution(i)); out.eqi(u.get_vertex_material_id(i), 5 + i); } out.eq(u.get_vertex_friction(2), I.u); out.eq(u.get_vertex_restitution(3), I.h.y); out.eqb(u.has_per_vertex_material_id(), true);
    for (unsigned t = 0; t < 2; ++t) { out.eq(u.get_triangle_normal(t), m.get_triangle_normal(t)); for (unsigned i = 0; i < 3; ++i) { out.eqi(u.get_face_vertex_index(t, i), m.get_face_vertex_index(t, i)); out.eqi(u.get_face_edge_index(t, i), m.get_face_edge_index(t, i)); out.eq(u.get_adjacent_face_normal(t, i), m.get_adjacent_face_normal(t, i)); } }
    for (unsigned e = 0; e < 5; ++e) { auto x = u.get_edge_vertex_indices(e), y = m.get_edge_vertex_indices(e); auto f = u.get_edge_face_indices(e), g = m.get_edge_face_indices(e); for (int i = 0; i < 2; ++i) { out.eqi(x[i], y[i]); out.eqi(f[i], g[i]); } out.eqb(u.is_convex_edge(e), m.is_convex_edge(e)); out.eqb(u.is_boundary_edge(e), m.is_boundary_edge(e)); }
    auto p = u.get_aabb(); out.eq(p.min, vector3{0, 0, -1}); out.eq(p.max, vector3{5, 2, 0}); unsigned n = 0; u.visit_triangles(AABB{{4, 1, -1}, {5, 2, 0}}, [&](auto i) { n += 1 + 10 * i; }); out.eqi(n, 11); n = 0; u.visit_triangles(AABB{{0, 0, -1}, {0, 0, 0}}, [&](auto i) { n |= 1 << i; }); out.eqi(n, 3); }
LAW(mesh_tm_short, "serialize(triangle_mesh) memory_input_archive", "a mesh that is cut short fails the archive") { triangle_mesh m; TwoTri(m, I); Bytes b; memory_output_archive o(b); o(m);
    for (size_t k : {size_t(0), b.size() / 3, b.size() - 1}) { triangle_mesh w; memory_input_archive c(b.data(), k); c(w); out.eqb(c.failed(), true); } }
