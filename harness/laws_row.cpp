// Constraint rows, friction and material mixing.
#include "shape.hpp"
#include <vector>
#include "edyn/config/config.h"
#include "edyn/dynamics/row_cache.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include "/repo/src/edyn/constraints/constraint_row.cpp"
#include "/repo/src/edyn/constraints/constraint_row_friction.cpp"
#include "/repo/src/edyn/constraints/constraint_row_spin_friction.cpp"
#include "/repo/src/edyn/util/constraint_util.cpp"
using namespace edyn;
using namespace law;

// Row between two bodies with arbitrary inverse masses and symmetric inverse inertias.
struct Bodies { delta_linvel va, vb; delta_angvel wa, wb; };
static inline matrix3x3 Sym(const vector3 &d, const vector3 &o) { return {vector3{d.x, o.x, o.y}, vector3{o.x, d.y, o.z}, vector3{o.y, o.z, d.z}}; }
static inline __attribute__((always_inline)) constraint_row Row(const In &I, Bodies &b) {
    constraint_row r; r.J = {I.a, I.b, I.c, I.d}; r.inv_mA = I.q.x; r.inv_mB = I.q.y; r.inv_IA = I.m; r.inv_IB = I.n; r.eff_mass = I.s; r.rhs = I.t; r.impulse = I.u; r.lower_limit = I.g.x; r.upper_limit = I.g.x + I.g.y * I.g.y;
    b.va = vector3{I.e.x, I.e.y, I.e.z}; b.wa = vector3{I.f.x, I.f.y, I.f.z}; b.vb = vector3{I.h.x, I.h.y, I.k.x}; b.wb = vector3{I.k.y, I.l.x, I.l.y};
    r.dvA = &b.va; r.dvB = &b.vb; r.dwA = &b.wa; r.dwB = &b.wb; return r; }
static inline scalar JV(const std::array<vector3, 4> &J, const vector3 &va, const vector3 &wa, const vector3 &vb, const vector3 &wb) { return Dot(J[0], va) + Dot(J[1], wa) + Dot(J[2], vb) + Dot(J[3], wb); }
static inline scalar K(const std::array<vector3, 4> &J, const constraint_row &r) {
    return Dot(J[0], J[0]) * r.inv_mA + Dot(J[1], MulMV(r.inv_IA, J[1])) + Dot(J[2], J[2]) * r.inv_mB + Dot(J[3], MulMV(r.inv_IB, J[3])); }
// The velocities changed by exactly M^-1 J^T times the impulse.
static inline __attribute__((always_inline)) void Applied(Out &out, const Bodies &o, const Bodies &n, const constraint_row &r, const std::array<vector3, 4> &J, scalar p) {
    out.eq(n.va, Add(o.va, Mul(J[0], r.inv_mA * p))); out.eq(n.vb, Add(o.vb, Mul(J[2], r.inv_mB * p)));
    out.eq(n.wa, Add(o.wa, Mul(MulMV(r.inv_IA, J[1]), p))); out.eq(n.wb, Add(o.wb, Mul(MulMV(r.inv_IB, J[3]), p))); }

LAW(row_prepare, "prepare_row", "the effective mass is the inverse of J M^-1 J^T; the right hand side removes (1 + restitution) times the relative velocity plus the error share; the Jacobian, masses, limits and impulse are untouched") {
    Bodies b; auto r = Row(I, b); auto o = r; constraint_row_options op; op.error = I.s; op.erp = I.t; op.restitution = I.v;
    prepare_row(r, op, I.e, I.f, I.a, I.c); out.eq(r.eff_mass * K(o.J, o), 1);
    out.eq(r.rhs, -(I.s * I.t) - (1 + I.v) * JV(o.J, I.e, I.f, I.a, I.c)); out.eq(r.impulse, o.impulse); out.eq(r.lower_limit, o.lower_limit); out.eq(r.upper_limit, o.upper_limit);
    out.eq(r.inv_mA, o.inv_mA); out.eq(r.inv_mB, o.inv_mB); out.eq(r.inv_IA, o.inv_IA); out.eq(r.inv_IB, o.inv_IB); for (int i = 0; i < 4; ++i) out.eq(r.J[i], o.J[i]); }
LAW(row_options, "constraint_row_options", "no error, no restitution and an error reduction of 0.2 unless set") {
    constraint_row_options o; out.eq(o.error, 0); out.eq(o.restitution, 0); out.eq(o.erp, scalar(0.2)); }
LAW(row_apply, "apply_row_impulse", "the velocities of both bodies change by M^-1 J^T times the impulse, and nothing else changes") {
    Bodies b; auto r = Row(I, b); auto o = b; apply_row_impulse(I.v, r); Applied(out, o, b, r, r.J, I.v); out.eq(r.impulse, I.u); }
LAW(row_warm, "warm_start(constraint_row)", "applies the impulse of the previous step") {
    Bodies b; auto r = Row(I, b); auto o = b; warm_start(r); Applied(out, o, b, r, r.J, I.u); out.eq(r.impulse, I.u); }
LAW(row_solve, "solve(constraint_row)", "the impulse is clamped to the limits of the row and the returned increment is the change of it; velocities are untouched") {
    Bodies b; auto r = Row(I, b); auto o = b; auto d = solve(r);
    auto want = I.u + (I.t - JV(r.J, o.va, o.wa, o.vb, o.wb)) * I.s; auto lo = I.g.x, hi = I.g.x + I.g.y * I.g.y; auto c = want < lo ? lo : (want > hi ? hi : want);
    out.eq(r.impulse, c); out.eq(d, c - I.u); Applied(out, o, b, r, r.J, 0); }
LAW(row_solved, "solve apply_row_impulse prepare_row", "applying the increment of an unlimited row brings the relative velocity to the right hand side") {
    Bodies b; auto r = Row(I, b); r.lower_limit = -INFINITY; constraint_row_options op; prepare_row(r, op, I.e, I.f, I.a, I.c); r.lower_limit = -1; r.upper_limit = 1; auto d = solve(r);
    auto in = I.u + d > -1 && I.u + d < 1; apply_row_impulse(d, r); out.eq(in ? JV(r.J, b.va, b.wa, b.vb, b.wb) : r.rhs, r.rhs); }
LAW(util_mass, "get_effective_mass get_relative_speed", "inverse of J M^-1 J^T; J times the velocities") {
    Bodies b; auto r = Row(I, b); out.eq(get_effective_mass(r) * K(r.J, r), 1); out.eq(get_effective_mass(r.J, r.inv_mA, r.inv_IA, r.inv_mB, r.inv_IB) * K(r.J, r), 1);
    out.eq(get_relative_speed(r.J, I.e, I.f, I.a, I.b), JV(r.J, I.e, I.f, I.a, I.b)); }

LAW(spin_solve, "solve_spin_friction", "the impulse is clamped to the friction coefficient times the normal impulse, and the angular velocities change by its increment") {
    Bodies b; std::vector<constraint_row> rows(2); rows[1] = Row(I, b); rows[1].impulse = I.v * I.v; auto o = b; auto &n = rows[1];
    constraint_row_spin_friction f; f.J = {I.b, I.d}; f.eff_mass = I.s; f.rhs = I.t; f.impulse = I.u; f.friction_coefficient = I.q.z * I.q.z; f.normal_row_index = 1; solve_spin_friction(f, rows);
    auto lim = I.q.z * I.q.z * I.v * I.v; auto want = I.u + (I.t - Dot(I.b, o.wa) - Dot(I.d, o.wb)) * I.s; auto c = want < -lim ? -lim : (want > lim ? lim : want);
    out.eq(f.impulse, c); Applied(out, o, b, n, {vector3_zero, I.b, vector3_zero, I.d}, c - I.u); out.eq(n.impulse, I.v * I.v); }
LAW(spin_warm, "warm_start(constraint_row_spin_friction)", "applies the previous impulse") {
    Bodies b; std::vector<constraint_row> rows(2); rows[1] = Row(I, b); auto o = b; constraint_row_spin_friction f; f.J = {I.b, I.d}; f.impulse = I.v; f.normal_row_index = 1; warm_start(f, rows);
    Applied(out, o, b, rows[1], {vector3_zero, I.b, vector3_zero, I.d}, I.v); out.eq(f.impulse, I.v); }
#define FRICTION Bodies b; std::vector<constraint_row> rows(2); rows[1] = Row(I, b); rows[1].impulse = I.v * I.v; auto o = b; auto &n = rows[1]; (void)n; \
    constraint_row_friction f; f.row[0].J = {I.a, I.b, I.c, I.d}; f.row[1].J = {I.m.row[0], I.m.row[1], I.m.row[2], I.n.row[0]}; f.row[0].eff_mass = I.s; f.row[1].eff_mass = I.t; f.row[0].rhs = I.u; f.row[1].rhs = I.r.x; \
    f.row[0].impulse = I.r.y; f.row[1].impulse = I.r.z; f.friction_coefficient = I.q.z * I.q.z; f.normal_row_index = 1;
LAW(friction_circle, "solve_friction", "the two impulses, taken as one vector, are shortened to the friction coefficient times the normal impulse, keeping the direction") {
    FRICTION solve_friction(f, rows); auto lim = I.q.z * I.q.z * I.v * I.v;
    auto x = I.r.y + (I.u - JV(f.row[0].J, o.va, o.wa, o.vb, o.wb)) * I.s, y = I.r.z + (I.r.x - JV(f.row[1].J, o.va, o.wa, o.vb, o.wb)) * I.t; auto l2 = x * x + y * y; bool over = l2 > lim * lim, tiny = !(std::sqrt(l2) > EDYN_EPSILON);
    auto p0 = f.row[0].impulse, p1 = f.row[1].impulse; out.eq(p0 * y, p1 * x); out.eq(over ? 0 : p0, over ? 0 : x); out.eq(over ? 0 : p1, over ? 0 : y); 
    out.eq(over && !tiny ? p0 * p0 + p1 * p1 : lim * lim, lim * lim); auto len = std::sqrt(l2); out.eq(over && !tiny ? p0 * len : 0, over && !tiny ? x * lim : 0); out.eq(over && !tiny ? p1 * len : 0, over && !tiny ? y * lim : 0); }
LAW(friction_applied, "solve_friction", "the velocities change by the increments of the two impulses") {
    FRICTION auto J = f.row[0].J, L = f.row[1].J; solve_friction(f, rows); auto d = f.row[0].impulse - I.r.y, e = f.row[1].impulse - I.r.z;
    out.eq(b.va, Add(o.va, Mul(Add(Mul(J[0], d), Mul(L[0], e)), n.inv_mA))); out.eq(b.vb, Add(o.vb, Mul(Add(Mul(J[2], d), Mul(L[2], e)), n.inv_mB)));
    out.eq(b.wa, Add(o.wa, MulMV(n.inv_IA, Add(Mul(J[1], d), Mul(L[1], e))))); out.eq(b.wb, Add(o.wb, MulMV(n.inv_IB, Add(Mul(J[3], d), Mul(L[3], e))))); out.eq(n.impulse, I.v * I.v); }
LAW(friction_warm, "warm_start(constraint_row_friction)", "applies both previous impulses") {
    FRICTION auto J = f.row[0].J, L = f.row[1].J; warm_start(f, rows); auto d = I.r.y, e = I.r.z;
    out.eq(b.va, Add(o.va, Mul(Add(Mul(J[0], d), Mul(L[0], e)), n.inv_mA))); out.eq(b.vb, Add(o.vb, Mul(Add(Mul(J[2], d), Mul(L[2], e)), n.inv_mB)));
    out.eq(b.wa, Add(o.wa, MulMV(n.inv_IA, Add(Mul(J[1], d), Mul(L[1], e))))); out.eq(b.wb, Add(o.wb, MulMV(n.inv_IB, Add(Mul(J[3], d), Mul(L[3], e))))); out.eq(f.row[0].impulse, d); out.eq(f.row[1].impulse, e); }

LAW(mixing, "material_mix_restitution material_mix_friction material_mix_spin_friction material_mix_roll_friction material_mix_stiffness material_mix_damping", "smallest restitution, geometric mean of the friction, greatest rolling and spinning friction, springs in series; all symmetric") {
    auto a = I.s * I.s, b = I.t * I.t; out.eq(material_mix_restitution(a, b), Min(a, b)); out.eq(material_mix_spin_friction(a, b), Max(a, b)); out.eq(material_mix_roll_friction(a, b), Max(a, b));
    auto f = material_mix_friction(a, b); out.eq(f * f, a * b); out.eqb(f < 0, false); out.eq(f, material_mix_friction(b, a)); bool z = a == 0 || b == 0;
    out.eq(z ? 0 : material_mix_stiffness(a, b) * (a + b), z ? 0 : a * b); out.eq(z ? 0 : material_mix_damping(a, b) * (a + b), z ? 0 : a * b); }

// One entity with three constraints of one, two and no rows.
LAW(prep_cache, "constraint_row_prep_cache::add_constraint add_row consume_rows current_num_rows clear", "every row is handed out once, to the constraint that added it, in insertion order, with its own flags and default options") {
    constraint_row_prep_cache c; c.rows[1].flags = 7; c.rows[1].options.error = 3; c.clear();
    c.add_constraint(); c.add_row().impulse = I.s; c.add_friction_row().friction_coefficient = I.u; 
    c.add_constraint(); c.add_row().impulse = I.t; c.get_options().error = I.v; c.add_spinning_row().friction_coefficient = I.g.x; c.get_current_row().rhs = I.h.x; c.add_row().impulse = I.u; c.add_rolling_row().friction_coefficient = I.g.y;
    c.add_constraint(); out.eqi(c.num_rows, 3); out.eqi(c.num_constraints, 3);
    scalar got[4] = {}; uint8_t fl[4] = {}; scalar rhs = 0, err[4] = {}; scalar mu[3] = {}; unsigned k = 0; 
    auto f = [&](auto &e) { got[k] = e.row.impulse; fl[k] = e.flags; err[k] = e.options.error; if (e.flags & constraint_row_flag_friction) mu[0] = e.friction.friction_coefficient; if (e.flags & constraint_row_flag_spinning_friction) { mu[1] = e.spinning.friction_coefficient; rhs = e.row.rhs; } if (e.flags & constraint_row_flag_rolling_friction) mu[2] = e.rolling.friction_coefficient; ++k; };
    out.eqi(c.current_num_rows(), 1); c.consume_rows(f); out.eqi(k, 1); out.eqi(c.current_num_rows(), 2); c.consume_rows(f); out.eqi(k, 3); out.eqi(c.current_num_rows(), 0); c.consume_rows(f); out.eqi(k, 3);
    out.eq(got[0], I.s); out.eq(got[1], I.t); out.eq(got[2], I.u); out.eqi(fl[0], constraint_row_flag_friction); out.eqi(fl[1], constraint_row_flag_spinning_friction); out.eqi(fl[2], constraint_row_flag_rolling_friction);
    out.eq(mu[0], I.u); out.eq(mu[1], I.g.x); out.eq(mu[2], I.g.y); out.eq(rhs, I.h.x); out.eq(err[0], 0); out.eq(err[1], I.v); out.eq(err[2], 0); 
    c.clear(); out.eqi(c.num_rows, 0); out.eqi(c.num_constraints, 0); c.add_constraint(); c.add_row(); out.eqi(c.current_num_rows(), 1); k = 0; c.consume_rows(f); out.eqi(k, 1); out.eqi(fl[0], 0); out.eq(err[0], 0); }
LAW(row_flags, "constraint_row_flag_friction constraint_row_flag_rolling_friction constraint_row_flag_spinning_friction", "three distinct bits") {
    unsigned a = constraint_row_flag_friction, b = constraint_row_flag_rolling_friction, c = constraint_row_flag_spinning_friction; out.eqi(a & b, 0); out.eqi(b & c, 0); out.eqi(a & c, 0); out.eqb(a && b && c, true); }
LAW(cache_clear, "row_cache::clear", "empties every array") {
    row_cache c; c.rows.resize(1); c.con_num_rows.push_back(1); c.flags.push_back(1); c.friction.resize(1); c.rolling.resize(1); c.spinning.resize(1); c.clear();
    out.eqi(c.rows.size() + c.con_num_rows.size() + c.flags.size() + c.friction.size() + c.rolling.size() + c.spinning.size(), 0); }
