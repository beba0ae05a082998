// Joints and contact constraints.
#include "shape.hpp"
#include <vector>
#include "edyn/config/config.h"
#include "edyn/math/constants.hpp"
#include "edyn/dynamics/row_cache.hpp"
#include "edyn/dynamics/position_solver.hpp"
#include "/repo/src/edyn/util/constraint_util.cpp"
#include "/repo/src/edyn/constraints/point_constraint.cpp"
#include "/repo/src/edyn/constraints/distance_constraint.cpp"
#include "/repo/src/edyn/constraints/soft_distance_constraint.cpp"
#include "/repo/src/edyn/constraints/gravity_constraint.cpp"
#include "/repo/src/edyn/constraints/hinge_constraint.cpp"
#include "/repo/src/edyn/constraints/cone_constraint.cpp"
#include "/repo/src/edyn/constraints/cvjoint_constraint.cpp"
#include "/repo/src/edyn/constraints/generic_constraint.cpp"
#include "/repo/src/edyn/constraints/contact_constraint.cpp"
#include "/repo/src/edyn/constraints/contact_extras_constraint.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/math/geom.cpp"
using namespace edyn;
using namespace law;

static inline matrix3x3 Sym(const scalar *w) { return {vector3{w[0], w[1], w[2]}, vector3{w[1], w[3], w[4]}, vector3{w[2], w[4], w[5]}}; }
// Two bodies in arbitrary poses, with centers of mass away from their origins.
struct Two { constraint_body A, B; vector3 pA, pB, rA, rB; scalar dt; };
static inline __attribute__((always_inline)) Two Bodies(const In &I, const vector3 &pa, const vector3 &pb) {
    Two b; b.A.origin = I.a; b.A.pos = I.b; b.A.orn = unit(I.q); b.A.linvel = I.c; b.A.angvel = I.d; b.A.inv_m = I.s; b.A.inv_I = Sym(I.w);
    b.B.origin = I.e; b.B.pos = I.f; b.B.orn = unit(I.r); b.B.linvel = {I.w[12], I.w[13], I.w[14]}; b.B.angvel = {I.w[15], I.w[16], I.w[17]}; b.B.inv_m = I.t; b.B.inv_I = Sym(I.w + 6);
    b.pA = World(pa, b.A.origin, b.A.orn); b.pB = World(pb, b.B.origin, b.B.orn); b.rA = Sub(b.pA, b.A.pos); b.rB = Sub(b.pB, b.B.pos); b.dt = I.u; return b; }
static inline vector3 VelA(const Two &b, const vector3 &r) { return Add(b.A.linvel, Cross(b.A.angvel, r)); }
static inline vector3 VelB(const Two &b, const vector3 &r) { return Add(b.B.linvel, Cross(b.B.angvel, r)); }
static inline vector3 PivVel(const Two &b) { return Sub(VelA(b, b.rA), VelB(b, b.rB)); }
static inline scalar JV(const std::array<vector3, 4> &J, const Two &b) { return Dot(J[0], b.A.linvel) + Dot(J[1], b.A.angvel) + Dot(J[2], b.B.linvel) + Dot(J[3], b.B.angvel); }
static inline vector3 Col(const matrix3x3 &m, int i) { return {At(m.row[0], i), At(m.row[1], i), At(m.row[2], i)}; }
static inline __attribute__((always_inline)) void Free(Out &out, const constraint_row &r) { out.eqb(r.upper_limit >= large_scalar && r.lower_limit <= -large_scalar, true); }
static inline __attribute__((always_inline)) void Between(Out &out, const constraint_row &r, scalar x) { out.eq(r.lower_limit, x < 0 ? x : 0); out.eq(r.upper_limit, x < 0 ? 0 : x); }
static inline __attribute__((always_inline)) void Brake(Out &out, const constraint_row &r, scalar x) { out.eq(r.lower_limit, -x); out.eq(r.upper_limit, x); }
#define ROWS constraint_row_prep_cache cache; cache.add_constraint();
#define ROW(i) cache.rows[i].row
#define OPT(i) cache.rows[i].options

LAW(point, "point_constraint::prepare", "three unlimited rows: the relative velocity of the two pivots, driving their distance to zero") {
    point_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; auto b = Bodies(I, c.pivot[0], c.pivot[1]); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 3); auto v = PivVel(b), e = Sub(b.pA, b.pB);
    for (int i = 0; i < 3; ++i) { out.eq(JV(ROW(i).J, b), At(v, i)); Free(out, ROW(i)); out.eq(OPT(i).error * b.dt, At(e, i)); } }
LAW(point_friction, "point_constraint::prepare", "the friction row opposes the relative angular velocity with no more than the friction torque") {
    point_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.friction_torque = 1 + I.v * I.v; auto b = Bodies(I, c.pivot[0], c.pivot[1]); ROWS c.prepare(cache, b.dt, b.A, b.B); 
    auto w = Sub(b.A.angvel, b.B.angvel); auto l2 = Sq(w); out.on = l2 > 1e-3; { out.eqi(cache.num_rows, 4); auto &r = ROW(3); auto s = JV(r.J, b); out.eq(s, std::sqrt(l2)); Brake(out, r, c.friction_torque * b.dt); out.eq(Add(r.J[1], r.J[3]), vector3_zero); out.eq(Cross(r.J[1], w), vector3_zero); } }
LAW(point_warm, "point_constraint::store_applied_impulses", "the impulses of every row come back in the next step") {
    point_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.friction_torque = 1; auto b = Bodies(I, c.pivot[0], c.pivot[1]); b.A.angvel = {1, 2, 3}; b.B.angvel = {3, 2, 1}; 
    c.store_applied_impulses({I.w[18], I.w[19], I.w[20], I.w[21]}); ROWS c.prepare(cache, b.dt, b.A, b.B); for (int i = 0; i < 4; ++i) out.eq(ROW(i).impulse, I.w[18 + i]); }
LAW(point_warm_rest, "point_constraint::store_applied_impulses", "without relative rotation there is no friction row, and three impulses are stored") {
    point_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.friction_torque = 1; auto b = Bodies(I, c.pivot[0], c.pivot[1]); b.B.angvel = b.A.angvel; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 3); 
    std::vector<scalar> x{I.w[18], I.w[19], I.w[20], I.w[21]}; x.pop_back(); c.store_applied_impulses(x); out.eq(c.applied_friction_impulse, 0); constraint_row_prep_cache again; again.add_constraint(); c.prepare(again, b.dt, b.A, b.B); for (int i = 0; i < 3; ++i) out.eq(again.rows[i].row.impulse, I.w[18 + i]); }
LAW(distance_row, "distance_constraint::prepare", "one unlimited row: rate of half the squared distance of the pivots, driving the distance to its value") {
    distance_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.distance = I.v; auto b = Bodies(I, c.pivot[0], c.pivot[1]); c.store_applied_impulses({I.w[18]}); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 1);
    auto d = Sub(b.pA, b.pB); auto x = Sq(d) > EDYN_EPSILON ? d : vector3_x; out.eq(JV(ROW(0).J, b), Dot(PivVel(b), x)); Free(out, ROW(0)); out.eq(OPT(0).error * b.dt * 2, Sq(d) - I.v * I.v); out.eq(ROW(0).impulse, I.w[18]); }
LAW(soft_distance, "soft_distance_constraint::prepare", "a spring row of exactly stiffness times the deviation, towards the rest distance, and a damping row against the relative speed") {
    soft_distance_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.distance = I.v; c.stiffness = I.g.x * I.g.x; c.damping = I.g.y * I.g.y; auto b = Bodies(I, c.pivot[0], c.pivot[1]); b.dt = 1 + b.dt * b.dt; c.store_applied_impulses({I.w[18], I.w[19]}); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 2);
    auto d = Sub(b.pA, b.pB); out.on = Sq(d) > 1e-3; { auto l = std::sqrt(Sq(d)); auto v = Dot(PivVel(b), d) / l; out.eq(JV(ROW(0).J, b), v); out.eq(JV(ROW(1).J, b), v); auto p = c.stiffness * (I.v - l) * b.dt; Between(out, ROW(0), p);
      out.eqb(p > 0 && OPT(0).error > -large_scalar, false); out.eqb(p < 0 && OPT(0).error < large_scalar, false); out.eq(OPT(1).error, 0); }
    out.on = true; out.eq(ROW(0).impulse, I.w[18]); out.eq(ROW(1).impulse, I.w[19]); }
LAW(soft_damping, "soft_distance_constraint::prepare", "the damping row brakes the relative speed with damping times it") {
    soft_distance_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.distance = I.v; c.stiffness = 1; c.damping = I.g.y * I.g.y; auto b = Bodies(I, c.pivot[0], c.pivot[1]); b.dt = 1; b.A.orn = b.B.orn = quaternion_identity; b.A.origin = vector3{3, 0, 0}; b.B.origin = vector3_zero; c.pivot = {vector3{0, 0, 0}, vector3{0, -4, 0}}; ROWS c.prepare(cache, b.dt, b.A, b.B);
    b.rA = Sub(vector3{3, 0, 0}, b.A.pos); b.rB = Sub(vector3{0, -4, 0}, b.B.pos); auto &r = ROW(1); out.eq(r.lower_limit, -r.upper_limit); out.eqb(r.upper_limit < 0, false); auto w = Dot(PivVel(b), vector3{3, 4, 0}) * c.damping; out.eq(r.upper_limit * r.upper_limit * 25, w * w); }
LAW(gravity, "gravity_constraint::prepare", "the row attracts the centers of mass with G m m' / d^2 and applies no torque") {
    gravity_constraint c; auto b = Bodies(I, I.m.row[0], I.m.row[1]); b.A.inv_m = 1 + I.s * I.s; b.B.inv_m = 1 + I.t * I.t; c.store_applied_impulses({I.w[18]}); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 1);
    auto d = Sub(b.A.pos, b.B.pos); auto &r = ROW(0); out.on = Sq(d) > 1e-3; { auto l = std::sqrt(Sq(d)); out.eq(JV(r.J, b) * l, Dot(d, Sub(b.A.linvel, b.B.linvel))); out.eq(-r.lower_limit * Sq(d) * b.A.inv_m * b.B.inv_m, gravitational_constant * b.dt); out.eqb(OPT(0).error >= large_scalar, true); } out.on = true; out.eq(r.impulse, I.w[18]); }

// Hinge about the first column of the frames; P, Q the other two columns in world space.
#define HINGE hinge_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.frame = {I.n, matrix3x3{I.m.row[2], vector3{I.w[21], I.w[22], I.w[23]}, I.n.row[1]}}; auto b = Bodies(I, c.pivot[0], c.pivot[1]); \
    auto X = Rot(b.A.orn, Col(c.frame[0], 0)), P = Rot(b.A.orn, Col(c.frame[0], 1)), Q = Rot(b.A.orn, Col(c.frame[0], 2)); (void)X; (void)P; (void)Q;
static inline vector3 RelAng(const Two &b) { return Sub(b.A.angvel, b.B.angvel); }
LAW(hinge, "hinge_constraint::prepare", "five unlimited rows: relative velocity of the pivots and relative angular velocity about the two axes other than the hinge axis") {
    HINGE ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 5); auto v = PivVel(b); for (int i = 0; i < 3; ++i) { out.eq(JV(ROW(i).J, b), At(v, i)); } out.eq(JV(ROW(3).J, b), Dot(RelAng(b), P)); out.eq(JV(ROW(4).J, b), Dot(RelAng(b), Q)); for (int i = 0; i < 5; ++i) { Free(out, ROW(i)); out.eq(OPT(i).error, 0); } }
LAW(hinge_torque, "hinge_constraint::prepare", "the friction and damping row brakes rotation about the hinge axis towards the set speed, within the torque") {
    HINGE c.torque = 1 + I.v * I.v; c.damping = I.g.x; c.speed = I.g.y; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 6); auto &r = ROW(5); auto s = Dot(RelAng(b), X); out.eq(JV(r.J, b), s); out.eq(OPT(5).error, -I.g.y);
    auto f = c.torque * b.dt; if (I.g.x > 0) f += std::abs(JV(r.J, b)) * I.g.x * b.dt; Brake(out, r, f); }
#define ANGLE auto y = Rot(b.B.orn, Col(c.frame[1], 1)); auto at = std::atan2(Dot(y, Q), Dot(y, P)); (void)at;
LAW(hinge_spring, "hinge_constraint::prepare", "the spring row pulls the angle to its rest value with stiffness times the deviation") {
    HINGE c.stiffness = 1 + I.v * I.v; c.rest_angle = I.g.x; c.angle = scalar(0.3); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 6); auto &r = ROW(5); out.eq(JV(r.J, b), Dot(RelAng(b), X)); auto x = c.angle - I.g.x; Between(out, r, c.stiffness * x * b.dt); out.eq(OPT(5).error * b.dt, -x); }
static inline scalar Nearest(scalar at, scalar from) { auto d = at - from, e = d < 0 ? d + pi2 : d - pi2; return from + (std::abs(d) < std::abs(e) ? d : e); }
LAW(hinge_track_0, "hinge_constraint::prepare", "the angle is the one measured, on the turn nearest to the previous angle") { HINGE ANGLE c.stiffness = 1; c.angle = scalar(0.3); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eq(c.angle, Nearest(at, 0.3)); }
LAW(hinge_track_1, "hinge_constraint::prepare", "the angle is the one measured, on the turn nearest to the previous angle") { HINGE ANGLE c.stiffness = 1; c.angle = scalar(3); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eq(c.angle, Nearest(at, 3)); }
LAW(hinge_track_2, "hinge_constraint::prepare", "the angle is the one measured, on the turn nearest to the previous angle") { HINGE ANGLE c.stiffness = 1; c.angle = scalar(-3); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eq(c.angle, Nearest(at, -3)); }
LAW(hinge_track_3, "hinge_constraint::prepare", "the angle keeps counting whole turns, forwards") { HINGE ANGLE c.stiffness = 1; c.angle = 2 * pi2; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eq(c.angle, Nearest(at, 0) + 2 * pi2); }
LAW(hinge_track_4, "hinge_constraint::prepare", "the angle keeps counting whole turns, backwards") { HINGE ANGLE c.stiffness = 1; c.angle = -3 * pi2; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eq(c.angle, Nearest(at, 0) - 3 * pi2); }
LAW(hinge_limit, "hinge_constraint::prepare", "the limit row stops the angle at the nearer limit and only pushes away from it") {
    HINGE c.angle_min = I.g.x; c.angle_max = I.g.x + 1 + I.v * I.v; c.limit_restitution = I.h.x; c.angle = scalar(0.3); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 6); auto &r = ROW(5); out.eq(JV(r.J, b), Dot(RelAng(b), X)); out.eq(OPT(5).restitution, I.h.x);
    bool lo = c.angle < (c.angle_min + c.angle_max) / 2; out.eq(OPT(5).error * b.dt, (lo ? c.angle_min : c.angle_max) - c.angle); out.eq(r.lower_limit, lo ? -large_scalar : 0); out.eq(r.upper_limit, lo ? 0 : large_scalar); }

#define IMP(n) std::vector<scalar> x; for (int i = 0; i < n; ++i) x.push_back(1 + i + I.w[18] * (2 + i)); c.store_applied_impulses(x);
#define WARM(n) out.eqi(cache.num_rows, n); for (int i = 0; i < n; ++i) out.eq(ROW(i).impulse, 1 + i + I.w[18] * (2 + i));
LAW(hinge_warm, "hinge_constraint::store_applied_impulses hinge_constraint::prepare", "every row starts with the impulse it ended with") {
    HINGE IMP(5) ROWS c.prepare(cache, b.dt, b.A, b.B); WARM(5) }
template<int M> static inline __attribute__((always_inline)) void HingeWarm(const In &I, Out &out) {
    HINGE constexpr int n = 5 + (M & 1) + ((M & 3) == 3) + (M >> 2 & 1) + (M >> 3 & 1); if (M & 1) { c.angle_min = scalar(-0.1); c.angle_max = 1; } if (M & 2) { c.bump_stop_stiffness = 1; c.bump_stop_angle = scalar(0.2); } if (M & 4) c.stiffness = 1; if (M & 8) c.torque = 1; if (M & 16) c.damping = 1;
    b.A.orn = b.B.orn = quaternion_identity; c.frame = {matrix3x3_identity, matrix3x3_identity}; IMP(n) ROWS c.prepare(cache, b.dt, b.A, b.B); WARM(n) }
LAW(hinge_warm_all, "hinge_constraint::store_applied_impulses hinge_constraint::prepare", "every row starts with the impulse it ended with, whichever of limit, bump stop, spring and friction are on") {
    HingeWarm<0>(I, out); HingeWarm<1>(I, out); HingeWarm<2>(I, out); HingeWarm<3>(I, out); HingeWarm<4>(I, out); HingeWarm<8>(I, out); HingeWarm<12>(I, out); HingeWarm<15>(I, out); HingeWarm<9>(I, out); HingeWarm<5>(I, out); }
LAW(hinge_bump, "hinge_constraint::prepare", "the bump stop is a spring from where it begins, pushing away from the limit") {
    HINGE c.angle_min = scalar(-0.1); c.angle_max = 1; c.bump_stop_stiffness = 1 + I.g.x * I.g.x; c.bump_stop_angle = scalar(0.2); b.A.orn = b.B.orn = quaternion_identity; c.frame = {matrix3x3_identity, matrix3x3_identity};
    ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 7); Between(out, ROW(6), c.bump_stop_stiffness * scalar(-0.1) * b.dt); out.eq(OPT(6).error * b.dt, scalar(0.1)); out.eq(JV(ROW(6).J, b), RelAng(b).x);
    c.angle_min = -1; c.angle_max = scalar(0.1); constraint_row_prep_cache k; k.add_constraint(); c.prepare(k, b.dt, b.A, b.B); out.eqi(k.num_rows, 7); Between(out, k.rows[6].row, c.bump_stop_stiffness * scalar(0.1) * b.dt); out.eq(k.rows[6].options.error * b.dt, scalar(-0.1));
    c.angle_min = -1; c.angle_max = 1; constraint_row_prep_cache o; o.add_constraint(); c.prepare(o, b.dt, b.A, b.B); out.eqi(o.num_rows, 6); }
LAW(hinge_axes, "hinge_constraint::set_axes", "the hinge axes become the first columns of right-handed orthonormal frames") {
    hinge_constraint c; auto u = unit(I.a), v = unit(I.b); c.set_axes(u, v); for (int k = 0; k < 2; ++k) { auto x = Col(c.frame[k], 0), y = Col(c.frame[k], 1), z = Col(c.frame[k], 2); out.eq(x, k ? v : u); out.eq(Dot(x, y), 0); out.eq(Sq(y), 1); out.eq(z, Cross(x, y)); } }

// Contacts.
#define CONTACT(T) T c; c.pivotA = I.m.row[0]; c.pivotB = I.m.row[1]; c.normal = I.m.row[2]; c.distance = I.v; c.friction = I.g.x; c.restitution = I.g.y; auto b = Bodies(I, c.pivotA, c.pivotB); auto N = c.normal; (void)N; 
LAW(contact, "contact_constraint::prepare", "the normal row is the approach velocity of the contact points, only pushes, and anticipates a positive distance") {
    CONTACT(contact_constraint) ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 1); auto &r = ROW(0); out.eq(JV(r.J, b), Dot(PivVel(b), N)); out.eq(r.lower_limit, 0); out.eqb(r.upper_limit >= large_scalar, true); out.eq(OPT(0).restitution, I.g.y); out.eq(OPT(0).error * b.dt, I.v > 0 ? I.v : 0); out.eqi(cache.rows[0].flags, constraint_row_flag_friction); }
LAW(contact_friction, "contact_constraint::prepare", "the two friction rows are the velocities of the contact points along orthogonal tangents, with their effective mass and the friction coefficient") {
    CONTACT(contact_constraint) c.normal = N = unit(I.n.row[0]); ROWS c.prepare(cache, b.dt, b.A, b.B); auto &f = cache.rows[0].friction; out.eq(f.friction_coefficient, I.g.x); auto v = PivVel(b);
    for (int i = 0; i < 2; ++i) { auto &r = f.row[i]; auto t = r.J[0]; out.eq(Dot(t, N), 0); out.eq(Sq(t), 1); out.eq(JV(r.J, b), Dot(v, t)); out.eq(r.rhs, -Dot(v, t)); } out.eq(Dot(f.row[0].J[0], f.row[1].J[0]), 0); }
LAW(contact_mass, "contact_constraint::prepare", "the effective mass of a friction row is the inverse of J M^-1 J^T") {
    CONTACT(contact_constraint) c.normal = N = vector3_y; b.A.orn = b.B.orn = quaternion_identity; ROWS c.prepare(cache, b.dt, b.A, b.B); auto &f = cache.rows[0].friction; 
    for (int i = 0; i < 2; ++i) { auto &J = f.row[i].J; auto k = Sq(J[0]) * b.A.inv_m + Sq(J[2]) * b.B.inv_m + Dot(J[1], MulMV(b.A.inv_I, J[1])) + Dot(J[3], MulMV(b.B.inv_I, J[3])); out.eq(f.row[i].eff_mass * k, 1); } }
LAW(contact_warm, "contact_constraint::store_applied_impulses contact_constraint::prepare", "normal and friction rows start with the impulses they ended with") {
    CONTACT(contact_constraint) c.store_applied_impulses({I.w[18], I.w[19], I.w[20]}); ROWS c.prepare(cache, b.dt, b.A, b.B); out.eq(ROW(0).impulse, I.w[18]); out.eq(cache.rows[0].friction.row[0].impulse, I.w[19]); out.eq(cache.rows[0].friction.row[1].impulse, I.w[20]); }
#define EXTRAS CONTACT(contact_extras_constraint) c.num_points = 3; c.stiffness = 2 + I.h.x * I.h.x; c.damping = I.h.y; c.spin_friction = 1; c.roll_friction = 2; c.roll_dir[0] = {vector3_zero}; c.roll_dir[1] = {vector3_zero};
LAW(extras_soft, "contact_extras_constraint::prepare", "a penetrating soft contact pushes with the spring and damper force of its share of the points, never pulls") {
    EXTRAS ROWS c.prepare(cache, b.dt, b.A, b.B); auto &r = ROW(0); auto f = (-I.v * c.stiffness - Dot(PivVel(b), N) * I.h.y) / 3; bool soft = I.v < 0; out.eq(r.lower_limit, 0); out.eq(soft ? r.upper_limit : 0, soft ? (f < 0 ? 0 : f) * b.dt : 0); out.eqb(soft && OPT(0).error > -large_scalar, false); out.eqb(!soft && r.upper_limit < large_scalar, false); out.eqi(cache.num_rows, 1); }
LAW(extras_warm, "contact_extras_constraint::store_applied_impulses contact_extras_constraint::prepare", "every row starts with the impulse it ended with") {
    EXTRAS c.store_applied_impulses({I.w[18], I.w[19], I.w[20], I.w[21], I.w[22], I.w[23]}); ROWS c.prepare(cache, b.dt, b.A, b.B); auto &e = cache.rows[0]; out.eq(e.row.impulse, I.w[18]); out.eq(e.friction.row[0].impulse, I.w[19]); out.eq(e.friction.row[1].impulse, I.w[20]); out.eq(e.rolling.row[0].impulse, I.w[21]); out.eq(e.rolling.row[1].impulse, I.w[22]); out.eq(e.spinning.impulse, I.w[23]);
    out.eqi(e.flags, constraint_row_flag_friction | constraint_row_flag_rolling_friction | constraint_row_flag_spinning_friction); c.roll_friction = 0; c.store_applied_impulses({I.w[18], I.w[19], I.w[20], I.w[21]}); constraint_row_prep_cache k; k.add_constraint(); c.prepare(k, b.dt, b.A, b.B); out.eq(k.rows[0].spinning.impulse, I.w[21]); out.eqi(k.rows[0].flags, constraint_row_flag_friction | constraint_row_flag_spinning_friction); }
LAW(extras_spin, "contact_extras_constraint::prepare", "spinning friction acts about the normal, rolling friction about two orthogonal tangents, both as pure torques") {
    EXTRAS c.normal = N = unit(I.n.row[0]); b.A.orn = b.B.orn = quaternion_identity; ROWS c.prepare(cache, b.dt, b.A, b.B); auto &e = cache.rows[0]; auto w = RelAng(b); out.eq(e.spinning.friction_coefficient, 1); out.eq(e.rolling.friction_coefficient, 2); 
    out.eq(Dot(e.spinning.J[0], b.A.angvel) + Dot(e.spinning.J[1], b.B.angvel), Dot(w, N)); out.eq(e.spinning.rhs, -Dot(w, N)); out.eq(e.spinning.eff_mass * (Dot(N, MulMV(b.A.inv_I, N)) + Dot(N, MulMV(b.B.inv_I, N))), 1);
    for (int i = 0; i < 2; ++i) { auto &r = e.rolling.row[i]; out.eq(JV(r.J, b), Dot(w, r.J[1])); out.eq(r.rhs, -Dot(w, r.J[1])); out.eq(Dot(r.J[1], N), 0); out.eq(Sq(r.J[1]), 1); auto k = Dot(r.J[1], MulMV(b.A.inv_I, r.J[1])) + Dot(r.J[3], MulMV(b.B.inv_I, r.J[3])); out.eq(k > EDYN_EPSILON ? r.eff_mass * k : 0, k > EDYN_EPSILON ? 1 : 0); } out.eq(Dot(e.rolling.row[0].J[1], e.rolling.row[1].J[1]), 0); }
#define ROLL(k, other) \
    EXTRAS c.normal = N = vector3_y; auto d = unit(I.n.row[0]); c.roll_dir[k] = {d}; b.other.orn = quaternion_identity; auto W = Rot(k ? b.B.orn : b.A.orn, d); ROWS c.prepare(cache, b.dt, b.A, b.B); \
    for (int i = 0; i < 2; ++i) { auto &r = cache.rows[0].rolling.row[i]; auto t = cache.rows[0].friction.row[i].J[0]; out.on = !Same(d, vector3_zero); out.eq(r.J[1], Mul(t, Dot(W, t))); }
LAW(extras_roll_a, "contact_extras_constraint::prepare", "a rolling direction of the first body limits rolling friction to it, as it is placed in the world") { ROLL(0, B) }
LAW(extras_roll_b, "contact_extras_constraint::prepare", "a rolling direction of the second body limits rolling friction to it, as it is placed in the world") { ROLL(1, A) }

// Constant velocity joint.
#define CV cvjoint_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.frame = {I.n, matrix3x3{I.m.row[2], vector3{I.w[21], I.w[22], I.w[23]}, I.n.row[1]}}; c.rest_direction = I.n.row[2]; auto b = Bodies(I, c.pivot[0], c.pivot[1]); \
    auto X = Rot(b.A.orn, Col(c.frame[0], 0)), Y = Rot(b.B.orn, Col(c.frame[1], 0)); (void)X; (void)Y; auto twist = Dot(b.A.angvel, X) - Dot(b.B.angvel, Y); (void)twist;
LAW(cv, "cvjoint_constraint::prepare", "relative velocity of the pivots, and one row that equates the angular velocities about the twist axes; unlimited") {
    CV ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 4); auto v = PivVel(b); for (int i = 0; i < 3; ++i) out.eq(JV(ROW(i).J, b), At(v, i)); out.eq(JV(ROW(3).J, b), twist); for (int i = 0; i < 4; ++i) { Free(out, ROW(i)); out.eq(OPT(i).error, 0); } }
// Frames and orientations that coincide: the twist angle is zero.
#define CV0 CV b.A.orn = b.B.orn = quaternion_identity; c.frame = {matrix3x3_identity, matrix3x3_identity}; auto W = RelAng(b); (void)W;
LAW(cv_track, "cvjoint_constraint::update_angle cvjoint_constraint::prepare", "the twist angle keeps counting whole turns") { CV0 c.twist_min = -100; c.twist_max = 100; c.twist_angle = 2 * pi2; { ROWS c.prepare(cache, b.dt, b.A, b.B); } out.eq(c.twist_angle, 2 * pi2); c.twist_angle = -3 * pi2; { ROWS c.prepare(cache, b.dt, b.A, b.B); } out.eq(c.twist_angle, -3 * pi2); c.twist_angle = scalar(0.3); { ROWS c.prepare(cache, b.dt, b.A, b.B); } out.eq(c.twist_angle, 0); }
LAW(cv_limit, "cvjoint_constraint::prepare", "the twist row stops the twist at the nearer limit, anticipating it only within the limits") {
    CV0 c.twist_min = I.g.x; c.twist_max = I.g.x + 1 + I.v * I.v; c.twist_restitution = I.h.x; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 4); auto &r = ROW(3); out.eq(JV(r.J, b), W.x); bool lo = 0 < c.twist_min + c.twist_max, in = c.twist_min < 0 && 0 < c.twist_max; out.eq(c.twist_angle, 0); out.eq(OPT(3).restitution, I.h.x);
    out.eq(r.lower_limit, lo ? -large_scalar : 0); out.eq(r.upper_limit, lo ? 0 : large_scalar); out.eq(OPT(3).error * b.dt, in ? (lo ? c.twist_min : c.twist_max) : 0); }
LAW(cv_twist, "cvjoint_constraint::prepare", "twist springs pull to the rest angle and bump stops away from the limit, with stiffness times the deviation; friction and damping brake the twist") {
    CV0 c.twist_min = scalar(-0.1); c.twist_max = 1; c.twist_bump_stop_angle = scalar(0.2); c.twist_bump_stop_stiffness = 1 + I.g.x * I.g.x; c.twist_stiffness = 1 + I.g.y * I.g.y; c.twist_rest_angle = I.h.x; c.twist_friction_torque = 1 + I.h.y * I.h.y; c.twist_damping = I.v; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 7);
    for (int i = 4; i < 7; ++i) out.eq(JV(ROW(i).J, b), W.x); Between(out, ROW(4), c.twist_bump_stop_stiffness * scalar(-0.1) * b.dt); out.eq(OPT(4).error * b.dt, scalar(0.1)); Between(out, ROW(5), -c.twist_stiffness * I.h.x * b.dt); out.eq(OPT(5).error * b.dt, I.h.x); auto f = c.twist_friction_torque * b.dt; if (I.v > 0) f += std::abs(W.x) * I.v * b.dt; Brake(out, ROW(6), f); }
LAW(cv_bend_damp, "cvjoint_constraint::prepare", "bending friction and damping brake the bending velocity, with no more than the torque plus damping times the speed, whatever the twist parameters") {
    CV0 c.bend_friction_torque = 1 + I.g.x * I.g.x; c.bend_damping = I.v; c.twist_damping = I.h.x; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 5); auto &r = ROW(4); vector3 bend{0, W.y, W.z}; auto l = std::sqrt(Sq(bend)); out.on = l > 1e-3; out.eq(JV(r.J, b), l); auto f = c.bend_friction_torque * b.dt; if (I.v > 0) f += l * I.v * b.dt; Brake(out, r, f); }
LAW(cv_bend_spring, "cvjoint_constraint::prepare", "the bending spring turns the twist axis of the second body to the rest direction of the first") {
    CV0 c.bend_stiffness = 1 + I.g.x * I.g.x; c.rest_direction = {0, scalar(0.6), scalar(0.8)}; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 5); auto &r = ROW(4); out.eq(JV(r.J, b), Dot(W, vector3{0, scalar(0.8), scalar(-0.6)})); auto a = std::asin(scalar(1)); Between(out, r, c.bend_stiffness * a * b.dt); out.eq(OPT(4).error * b.dt, -a); }
template<int M> static inline __attribute__((always_inline)) void CvWarm(const In &I, Out &out) {
    CV0 constexpr int n = 4 + ((M & 3) == 3) + ((M & 5) == 5) + ((M & 1) && (M & 24)) + !!(M & 96) + !!(M & 128); if (M & 1) { c.twist_min = scalar(-0.1); c.twist_max = 1; } if (M & 2) { c.twist_bump_stop_stiffness = 1; c.twist_bump_stop_angle = scalar(0.2); } if (M & 4) c.twist_stiffness = 1; if (M & 8) c.twist_friction_torque = 1; if (M & 16) c.twist_damping = 1; if (M & 32) c.bend_friction_torque = 1; if (M & 64) c.bend_damping = 1; if (M & 128) c.bend_stiffness = 1;
    IMP(n) ROWS c.prepare(cache, b.dt, b.A, b.B); WARM(n) }
LAW(cv_warm, "cvjoint_constraint::store_applied_impulses cvjoint_constraint::prepare", "every row starts with the impulse it ended with, whichever features are on") {
    CvWarm<0>(I, out); CvWarm<1>(I, out); CvWarm<2>(I, out); CvWarm<3>(I, out); CvWarm<5>(I, out); CvWarm<9>(I, out); CvWarm<8>(I, out); CvWarm<17>(I, out); CvWarm<64>(I, out); CvWarm<32>(I, out); CvWarm<128>(I, out); CvWarm<255>(I, out); CvWarm<254>(I, out); CvWarm<231>(I, out); }

// Cone along the first column of the frame, seen from its apex.
#define CONE cone_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.span_tan = {2, scalar(0.5)}; c.restitution = I.v; auto b = Bodies(I, c.pivot[0], c.pivot[1]); b.A.orn = b.B.orn = quaternion_identity; b.A.origin = vector3_zero; b.B.origin = vector3_zero; c.pivot = {vector3_zero, I.m.row[0]}; \
    scalar r = 13, sy = -5, sz = 12; auto p = vector3{I.m.row[0].x, sy * c.span_tan[0], sz * c.span_tan[1]}; c.pivot[1] = p; b.rB = Sub(p, b.B.pos);
LAW(cone_row, "cone_constraint::prepare", "the cone only pushes: unlimited one way, anticipating the distance to the surface of the cone of half a right angle") {
    CONE ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 1); auto &R = ROW(0); out.eq(R.lower_limit, 0); out.eqb(R.upper_limit >= large_scalar, true); out.eq(OPT(0).restitution, I.v); auto e = OPT(0).error * b.dt; out.eq(e * std::sqrt(338 + I.g.x * 0), (p.x - r) * 13); }
LAW(cone_normal, "cone_constraint::prepare", "the row acts along the unit outward normal of the cone, at the pivot of the second body") {
    CONE ROWS c.prepare(cache, b.dt, b.A, b.B); auto &J = ROW(0).J; auto n = J[0]; out.eq(Sq(n), 1); out.eq(Dot(n, vector3{r, p.y, p.z}), 0); out.eq(n.y * sz * c.span_tan[0], n.z * sy * c.span_tan[1]); out.eq(J[2], Mul(n, -1)); out.eq(J[3], Mul(Cross(b.rB, n), -1)); out.eqb(n.x > 0, false); }
LAW(cone_point, "cone_constraint::prepare", "on the first body it acts at the point of the scaled cone nearest to the pivot") {
    CONE ROWS c.prepare(cache, b.dt, b.A, b.B); auto &J = ROW(0).J; auto k = (p.x + r) / 2; auto C = vector3{k, k * sy / r * c.span_tan[0], k * sz / r * c.span_tan[1]}; out.eq(J[1], Cross(Sub(C, b.A.pos), J[0])); }
LAW(cone_apex, "cone_constraint::prepare", "a pivot at the apex of the cone still has a unit normal") {
    CONE c.pivot[1] = vector3_zero; out.on = true; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqb(Abs(Sq(ROW(0).J[0]) - 1) < 1e-3, true); out.eq(OPT(0).error, 0); }
LAW(cone_bump, "cone_constraint::prepare cone_constraint::store_applied_impulses", "the bump stop is a spring that pushes once the pivot is closer to the surface than its length; both rows start with the impulse they ended with") {
    CONE c.bump_stop_stiffness = 3; c.bump_stop_length = 1 + I.h.y * I.h.y; IMP(2) b.dt = 2; ROWS c.prepare(cache, b.dt, b.A, b.B); WARM(2) for (int i = 0; i < 4; ++i) out.eq(ROW(1).J[i], ROW(0).J[i]); auto d = c.bump_stop_length - OPT(0).error * b.dt; auto f = c.bump_stop_stiffness * d * b.dt; out.eq(ROW(1).lower_limit, 0); out.eq(ROW(1).upper_limit, f < 0 ? 0 : f); out.eq(OPT(1).error * b.dt, -d); }
LAW(cone_placed, "cone_constraint::prepare", "the cone moves with the first body") {
    cone_constraint c; auto R = unit(I.q); auto b = Bodies(I, I.m.row[0], I.m.row[1]); c.span_tan = {1, 1}; c.frame = matrix3x3_identity; c.pivot = {I.m.row[0], vector3{0, 3, 4}}; b.B.orn = R; b.B.origin = World(I.m.row[0], b.A.origin, R); ROWS c.prepare(cache, b.dt, b.A, b.B); auto k = Rot(Conj(R), ROW(0).J[0]); auto n = vector3{-1, scalar(0.6), scalar(0.8)}; out.eq(Cross(k, n), vector3_zero); out.eq(Sq(k), 1); }

// Generic constraint: three linear and three angular degrees of freedom.
#define GEN generic_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.frame = {I.n, matrix3x3{I.m.row[2], vector3{I.w[21], I.w[22], I.w[23]}, I.n.row[1]}}; auto b = Bodies(I, c.pivot[0], c.pivot[1]); for (auto &d : c.linear_dofs) d.limit_enabled = false; for (auto &d : c.angular_dofs) d.limit_enabled = false;
#define LINEAR(i) auto ax = Rot(b.A.orn, Col(c.frame[0], i)); auto v = Dot(PivVel(b), ax); auto off = Dot(Sub(b.pB, b.pA), ax); auto &d = c.linear_dofs[i];
LAW(gen_locked, "generic_constraint::prepare", "a locked linear degree of freedom is the relative velocity of the pivots along the axis of the frame of the first body, unlimited") {
    GEN for (int i = 0; i < 3; ++i) c.linear_dofs[i].limit_enabled = true; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 3); for (int i = 0; i < 3; ++i) { LINEAR(i) out.eq(JV(ROW(i).J, b), v); Free(out, ROW(i)); out.eq(OPT(i).error, 0); } }
LAW(gen_limit, "generic_constraint::prepare", "a linear limit stops the offset at the nearer end, anticipating it only within the limits") {
    GEN LINEAR(1) d.limit_enabled = true; d.offset_min = I.g.x; d.offset_max = I.g.x + 1 + I.v * I.v; d.limit_restitution = I.h.x; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 1); auto &r = ROW(0); out.eq(JV(r.J, b), v); bool lo = off < (d.offset_min + d.offset_max) / 2, in = off > d.offset_min && off < d.offset_max;
    out.eq(r.lower_limit, lo ? -large_scalar : 0); out.eq(r.upper_limit, lo ? 0 : large_scalar); out.eq(OPT(0).error * b.dt, in ? (lo ? d.offset_min : d.offset_max) - off : 0); out.eq(OPT(0).restitution, I.h.x); }
LAW(gen_spring, "generic_constraint::prepare", "a linear spring pulls to its rest offset with stiffness times the deviation, friction and damping brake the offset") {
    GEN LINEAR(2) d.spring_stiffness = 1 + I.g.x * I.g.x; d.rest_offset = I.g.y; d.friction_force = 1 + I.h.x * I.h.x; d.damping = I.h.y; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 2); out.eq(JV(ROW(0).J, b), v); out.eq(JV(ROW(1).J, b), v); auto x = off - I.g.y; Between(out, ROW(0), d.spring_stiffness * x * b.dt); out.eq(OPT(0).error * b.dt, -x); auto f = d.friction_force * b.dt; if (I.h.y > 0) f += std::abs(JV(ROW(1).J, b)) * I.h.y * b.dt; Brake(out, ROW(1), f); }
LAW(gen_bump, "generic_constraint::prepare", "a linear bump stop is a spring from where it begins, pushing away from the end") {
    GEN b.A.orn = quaternion_identity; c.frame[0] = matrix3x3_identity; b.A.origin = b.B.origin = vector3_zero; b.B.orn = quaternion_identity; c.pivot = {vector3_zero, vector3{I.v, 5, 6}}; auto &d = c.linear_dofs[0]; d.limit_enabled = true; d.offset_min = -3; d.offset_max = 4; d.bump_stop_length = 1; d.bump_stop_stiffness = 1 + I.g.x * I.g.x; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 2); 
    auto x = I.v < -2 ? I.v + 2 : (I.v > 3 ? I.v - 3 : 0); Between(out, ROW(1), d.bump_stop_stiffness * x * b.dt); out.eq(OPT(1).error * b.dt, -x); for (int i = 0; i < 4; ++i) out.eq(ROW(1).J[i], ROW(0).J[i]); }
// Frames and orientations that coincide: all angles are zero.
#define GEN0 GEN b.A.orn = b.B.orn = quaternion_identity; c.frame = {matrix3x3_identity, matrix3x3_identity}; auto W = RelAng(b); (void)W;
template<int K> static inline __attribute__((always_inline)) void GenAng(const In &I, Out &out) {
    GEN0 auto &d = c.angular_dofs[K]; d.limit_enabled = true; d.angle_min = scalar(-0.1); d.angle_max = 1; d.limit_restitution = I.v; d.bump_stop_angle = scalar(0.2); d.bump_stop_stiffness = 1 + I.g.x * I.g.x; d.spring_stiffness = 1 + I.g.y * I.g.y; d.rest_angle = I.h.x; d.friction_torque = 1 + I.h.y * I.h.y; d.damping = I.k.x; ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 4);
    auto w = At(W, K); if (K == 1) w = JV(ROW(0).J, b); out.eq(d.current_angle, 0); for (int i = 0; i < 4; ++i) out.eq(JV(ROW(i).J, b), w); out.eq(w * w, At(W, K) * At(W, K)); out.eq(ROW(0).upper_limit, 0); out.eqb(ROW(0).lower_limit <= -large_scalar, true); out.eq(OPT(0).error * b.dt, scalar(-0.1)); out.eq(OPT(0).restitution, I.v);
    Between(out, ROW(1), d.bump_stop_stiffness * scalar(-0.1) * b.dt); out.eq(OPT(1).error * b.dt, scalar(0.1)); Between(out, ROW(2), -d.spring_stiffness * I.h.x * b.dt); out.eq(OPT(2).error * b.dt, I.h.x); auto f = d.friction_torque * b.dt; if (I.k.x > 0) f += std::abs(w) * I.k.x * b.dt; Brake(out, ROW(3), f); }
LAW(gen_ang_x, "generic_constraint::prepare", "limits, bump stops, springs and friction of the twist angle") { GenAng<0>(I, out); }
LAW(gen_ang_y, "generic_constraint::prepare", "limits, bump stops, springs and friction of the second angle") { GenAng<1>(I, out); }
LAW(gen_ang_z, "generic_constraint::prepare", "limits, bump stops, springs and friction of the third angle") { GenAng<2>(I, out); }
// Bits: limit, bump stop, spring, friction, damping.
template<int L, int A> static inline __attribute__((always_inline)) void GenWarm(const In &I, Out &out) {
    GEN0 constexpr auto rows = [](int m) { return (m & 1) + ((m & 3) == 3) + (m >> 2 & 1) + !!(m & 24); }; constexpr int n = 2 * rows(L) + rows(A); auto &d = c.angular_dofs[1]; 
    for (int i = 0; i < 3; i += 2) { auto &l = c.linear_dofs[i]; if (L & 1) { l.limit_enabled = true; l.offset_min = -1; l.offset_max = 1; } if (L & 2) { l.bump_stop_length = scalar(0.2); l.bump_stop_stiffness = 1; } if (L & 4) l.spring_stiffness = 1; if (L & 8) l.friction_force = 1; if (L & 16) l.damping = 1; }
    if (A & 1) { d.limit_enabled = true; d.angle_min = -1; d.angle_max = 1; } if (A & 2) { d.bump_stop_angle = scalar(0.2); d.bump_stop_stiffness = 1; } if (A & 4) d.spring_stiffness = 1; if (A & 8) d.friction_torque = 1; if (A & 16) d.damping = 1;
    IMP(n) ROWS c.prepare(cache, b.dt, b.A, b.B); WARM(n) }
LAW(gen_warm, "generic_constraint::store_applied_impulses generic_constraint::prepare", "every row starts with the impulse it ended with, whichever features are on") {
    GenWarm<1, 0>(I, out); GenWarm<0, 1>(I, out); GenWarm<2, 2>(I, out); GenWarm<3, 3>(I, out); GenWarm<5, 5>(I, out); GenWarm<8, 8>(I, out); GenWarm<16, 16>(I, out); GenWarm<31, 31>(I, out); GenWarm<12, 13>(I, out); GenWarm<0, 0>(I, out); }
LAW(gen_all, "generic_constraint::prepare", "all six degrees of freedom can have every feature at once, and no row is lost") {
    GEN0 for (auto &l : c.linear_dofs) { l.limit_enabled = true; l.offset_min = -1; l.offset_max = 1; l.bump_stop_length = scalar(0.2); l.bump_stop_stiffness = 1; l.spring_stiffness = 1; l.friction_force = 1; } for (auto &d : c.angular_dofs) { d.limit_enabled = true; d.angle_min = -1; d.angle_max = 1; d.bump_stop_angle = scalar(0.2); d.bump_stop_stiffness = 1; d.spring_stiffness = 1; d.friction_torque = 1; } out.eqb(constraint_row_prep_cache::max_rows >= 24, true); 
    IMP(24) ROWS c.prepare(cache, b.dt, b.A, b.B); out.eqi(cache.num_rows, 24); out.eq(ROW(0).impulse, 1 + I.w[18] * 2); out.eq(ROW(11).impulse, 12 + I.w[18] * 13); }

// Position solver over two bodies.
struct Pos { position pa, pb; orientation oa, ob; origin ga, gb; inertia_world_inv Ia, Ib; inertia_inv La, Lb; position_solver s; };
static inline __attribute__((always_inline)) void Setup(Pos &p, const In &I) {
    static_cast<vector3 &>(p.pa) = I.a; static_cast<vector3 &>(p.pb) = I.b; static_cast<quaternion &>(p.oa) = unit(I.q); static_cast<quaternion &>(p.ob) = unit(I.r); static_cast<vector3 &>(p.ga) = I.e; static_cast<vector3 &>(p.gb) = I.f;
    static_cast<matrix3x3 &>(p.Ia) = Sym(I.w); static_cast<matrix3x3 &>(p.Ib) = Sym(I.w + 6); static_cast<matrix3x3 &>(p.La) = Sym(I.w + 12); static_cast<matrix3x3 &>(p.Lb) = Sym(I.w + 18);
    auto &s = p.s; s.originA = &p.ga; s.originB = &p.gb; s.comA = I.c; s.comB = I.d; s.posA = &p.pa; s.posB = &p.pb; s.ornA = &p.oa; s.ornB = &p.ob; s.inv_mA = I.s; s.inv_mB = I.t; s.inv_IA = &p.Ia; s.inv_IB = &p.Ib; s.inv_IA_local = &p.La; s.inv_IB_local = &p.Lb; }
static inline __attribute__((always_inline)) void SamePose(Out &out, const Pos &x, const Pos &y) { out.eq(x.pa, y.pa); out.eq(x.pb, y.pb); out.eq(x.oa, y.oa); out.eq(x.ob, y.ob); out.eq(x.s.max_error, y.s.max_error); }
LAW(pos_linear, "position_solver::solve", "the centers of mass move by M^-1 J^T times the corrected error, and the greatest error is recorded") {
    Pos p; Setup(p, I); std::array<vector3, 4> J{I.m.row[0], I.m.row[1], I.m.row[2], I.n.row[0]}; auto k = Sq(J[0]) * I.s + Sq(J[2]) * I.t + Dot(J[1], MulMV(p.Ia, J[1])) + Dot(J[3], MulMV(p.Ib, J[3])); p.s.error_correction_rate = I.u; p.s.max_error = 2; p.s.solve(J, I.v); 
    out.eq(Mul(Sub(p.pa, I.a), k), Mul(J[0], I.s * I.v * I.u)); out.eq(Mul(Sub(p.pb, I.b), k), Mul(J[2], I.t * I.v * I.u)); auto e = std::abs(I.v); out.eq(p.s.max_error, e > 2 ? e : 2); }
#define TURN(o, q0, Iw, Jw, com, pos, org, Ll) \
    Pos p; Setup(p, I); p.s.inv_mA = 1; p.s.inv_mB = 1; static_cast<matrix3x3 &>(p.Ia) = matrix3x3_identity; static_cast<matrix3x3 &>(p.Ib) = matrix3x3_identity; static_cast<quaternion &>(p.oa) = static_cast<quaternion &>(p.ob) = quaternion_identity; \
    std::array<vector3, 4> J{vector3_zero, vector3_zero, vector3_zero, vector3_zero}; J[0] = vector3{1, 0, 0}; J[Jw] = vector3{0, 0, 1}; auto l = I.v * scalar(0.2) / 2; p.s.solve(J, I.v); 
LAW(pos_turn_a, "position_solver::solve", "the orientation of the first body turns by the corrected error about its inertia-weighted axis and stays a unit quaternion; origin and inertia follow it") {
    TURN(oa, I.q, Ia, 1, comA, pa, ga, La) out.eq(p.oa.x, 0); out.eq(p.oa.y, 0); out.eq(p.oa.z, p.oa.w * l / 2); out.eq(p.oa.z * p.oa.z + p.oa.w * p.oa.w, 1); out.eq(p.ob, quaternion_identity); out.eq(p.ga, Add(p.pa, Rot(p.oa, Mul(I.c, -1)))); out.eq(p.gb, Sub(p.pb, I.d)); out.eq(MulMV(p.Ia, vector3{1, 2, 3}), Rot(p.oa, MulMV(p.La, Rot(Conj(p.oa), vector3{1, 2, 3})))); out.eq(p.Ib, p.Lb); }
LAW(pos_turn_b, "position_solver::solve", "the orientation of the second body turns by the corrected error about its inertia-weighted axis and stays a unit quaternion; origin and inertia follow it") {
    TURN(ob, I.r, Ib, 3, comB, pb, gb, Lb) out.eq(p.ob.x, 0); out.eq(p.ob.y, 0); out.eq(p.ob.z, p.ob.w * l / 2); out.eq(p.ob.z * p.ob.z + p.ob.w * p.ob.w, 1); out.eq(p.oa, quaternion_identity); out.eq(p.gb, Add(p.pb, Rot(p.ob, Mul(I.d, -1)))); out.eq(p.ga, Sub(p.pa, I.c)); out.eq(MulMV(p.Ib, vector3{1, 2, 3}), Rot(p.ob, MulMV(p.Lb, Rot(Conj(p.ob), vector3{1, 2, 3})))); out.eq(p.Ia, p.La); }
LAW(pos_axis, "position_solver::solve", "the rotation is about the inverse inertia applied to the angular part of the Jacobian") {
    Pos p; Setup(p, I); static_cast<quaternion &>(p.oa) = static_cast<quaternion &>(p.ob) = quaternion_identity; std::array<vector3, 4> J{vector3{1, 0, 0}, I.m.row[1], vector3{-1, 0, 0}, I.n.row[0]}; auto A = MulMV(p.Ia, J[1]), B = MulMV(p.Ib, J[3]); p.s.solve(J, I.v); out.eq(Cross(vector3{p.oa.x, p.oa.y, p.oa.z}, A), vector3_zero); out.eq(Cross(vector3{p.ob.x, p.ob.y, p.ob.z}, B), vector3_zero); }
LAW(pos_no_origin, "position_solver::solve position_solver::get_originA position_solver::get_originB", "a body without an origin of its own has it at the center of mass") {
    Pos p; Setup(p, I); p.s.originA = nullptr; p.s.originB = nullptr; out.eq(p.s.get_originA(), I.a); out.eq(p.s.get_originB(), I.b); p.s.originA = &p.ga; p.s.originB = &p.gb; out.eq(p.s.get_originA(), I.e); out.eq(p.s.get_originB(), I.f); }
// Plain bodies: where nothing is to be corrected their inertia does not matter.
#define PLAIN p.s.inv_mA = p.s.inv_mB = 1; p.s.comA = p.s.comB = vector3_zero; static_cast<matrix3x3 &>(p.Ia) = static_cast<matrix3x3 &>(p.Ib) = static_cast<matrix3x3 &>(p.La) = static_cast<matrix3x3 &>(p.Lb) = matrix3x3_identity;
#define ORN0 static_cast<quaternion &>(p.oa) = static_cast<quaternion &>(p.ob) = quaternion_identity;
LAW(contact_pos, "contact_constraint::solve_position", "a penetrating contact is pushed apart along its normal at the contact points") {
    contact_constraint c; Pos p; Setup(p, I); ORN0 PLAIN p.s.inv_mA = 3; p.s.inv_mB = 5; vector3 N{0, scalar(0.5), scalar(1.5)}, T{1, 3, -1}; c.normal = N; c.pivotA = I.m.row[0]; c.pivotB = Add(Add(Sub(I.e, I.f), I.m.row[0]), Add(Mul(N, 2), Mul(T, I.v))); c.normal_attachment = contact_normal_attachment::none; c.solve_position(p.s);
    auto pA = Add(I.e, c.pivotA), pB = Add(I.f, c.pivotB); out.eq(c.distance, -5); out.eq(c.normal, N); Pos ref; Setup(ref, I); { auto &p = ref; PLAIN p.s.inv_mA = 3; p.s.inv_mB = 5; } static_cast<quaternion &>(ref.oa) = static_cast<quaternion &>(ref.ob) = quaternion_identity;
    auto rA = Sub(pA, I.a), rB = Sub(pB, I.b); ref.s.solve({N, Cross(rA, N), Mul(N, -1), Mul(Cross(rB, N), -1)}, 5); out.eq(p.pa, ref.pa); out.eq(p.pb, ref.pb); out.eq(p.s.max_error, 5); out.eq(p.oa, ref.oa); out.eq(p.ob, ref.ob); }
LAW(contact_pos_apart, "contact_constraint::solve_position", "a separated contact is left alone") {
    contact_constraint c; Pos p; Setup(p, I); ORN0 PLAIN vector3 N{0, scalar(0.5), scalar(1.5)}, T{1, 3, -1}; c.normal = N; c.pivotA = I.m.row[0]; c.pivotB = Add(Add(Sub(I.e, I.f), I.m.row[0]), Add(Mul(N, -2 - I.t * I.t), Mul(T, I.v))); c.normal_attachment = contact_normal_attachment::none; c.solve_position(p.s);
    out.eq(c.distance, 5 + scalar(2.5) * I.t * I.t); out.eq(p.pa, I.a); out.eq(p.pb, I.b); out.eq(p.oa, quaternion_identity); out.eq(p.ob, quaternion_identity); out.eq(p.s.max_error, 0); }
template<int K> static inline __attribute__((always_inline)) void NormalTurns(const In &I, Out &out) {
    contact_constraint c; Pos p; Setup(p, I); PLAIN static_cast<vector3 &>(p.ga) = static_cast<vector3 &>(p.gb) = vector3_zero; static_cast<vector3 &>(p.pa) = static_cast<vector3 &>(p.pb) = vector3_zero; static_cast<quaternion &>(K ? p.oa : p.ob) = quaternion_identity; vector3 n{0, 1, 0}; c.local_normal = n; c.normal = I.c; c.pivotA = K ? vector3_zero : Mul(n, 2); c.pivotB = K ? Mul(n, -2) : vector3_zero; c.normal_attachment = K ? contact_normal_attachment::normal_on_B : contact_normal_attachment::normal_on_A; c.solve_position(p.s); out.eq(c.normal, Rot(unit(K ? I.r : I.q), n)); out.eq(c.distance, 2); }
LAW(contact_pos_normal_a, "contact_constraint::solve_position", "the normal turns with the first body when it is attached to it") { NormalTurns<0>(I, out); }
LAW(contact_pos_normal_b, "contact_constraint::solve_position", "the normal turns with the second body when it is attached to it") { NormalTurns<1>(I, out); }
LAW(extras_pos, "contact_extras_constraint::solve_position", "the position of a soft contact is not corrected") {
    Pos p; Setup(p, I); ORN0 PLAIN EXTRAS c.normal_attachment = contact_normal_attachment::none; c.solve_position(p.s); out.eq(p.pa, I.a); out.eq(p.pb, I.b); out.eq(p.oa, quaternion_identity); out.eq(p.ob, quaternion_identity); }
// Joins the pivots by one correction along their difference.
#define JOINED(c) auto pA = Add(I.e, c.pivot[0]), pB = Add(I.f, c.pivot[1]); auto dir = Sub(pA, pB); auto len = std::sqrt(Sq(dir)); auto rA = Sub(pA, I.a), rB = Sub(pB, I.b); \
    Pos ref; Setup(ref, I); static_cast<quaternion &>(ref.oa) = static_cast<quaternion &>(ref.ob) = quaternion_identity; dir = Mul(dir, 1 / len);
LAW(hinge_pos_joined, "hinge_constraint::solve_position", "with aligned axes only the pivots are brought together, along their difference") {
    Pos p; Setup(p, I); ORN0 hinge_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; c.solve_position(p.s); JOINED(c) out.on = len > 1e-3; ref.s.solve({dir, Cross(rA, dir), Mul(dir, -1), Mul(Cross(rB, dir), -1)}, -len); out.eq(p.pa, ref.pa); out.eq(p.pb, ref.pb); out.eq(p.s.max_error, ref.s.max_error); }
LAW(cv_pos_joined, "cvjoint_constraint::solve_position", "without twist only the pivots are brought together, along their difference") {
    Pos p; Setup(p, I); ORN0 cvjoint_constraint c; c.pivot = {I.m.row[0], I.m.row[1]}; static_cast<matrix3x3 &>(p.Ia) = p.La; static_cast<matrix3x3 &>(p.Ib) = p.Lb; static_cast<vector3 &>(p.ga) = Sub(I.a, I.c); static_cast<vector3 &>(p.gb) = Sub(I.b, I.d); In K = I; K.e = Sub(I.a, I.c); K.f = Sub(I.b, I.d); for (int i = 0; i < 12; ++i) K.w[i] = I.w[12 + i]; c.solve_position(p.s); const In &H = K; { const In &I = H; JOINED(c) out.on = len > 1e-3; ref.s.solve({dir, Cross(rA, dir), Mul(dir, -1), Mul(Cross(rB, dir), -1)}, -len); out.eq(p.pa, ref.pa); out.eq(p.pb, ref.pb); } }
