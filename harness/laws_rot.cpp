// Rotations: quaternions, rotation matrices, rigid transforms.
#include "law.hpp"
#include "edyn/math/coordinate_axis.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
using namespace edyn;
using namespace law;

LAW(q_arith, "operator+ - += -= * / (quaternion)", "component-wise arithmetic") {
    const auto &a = I.q, &b = I.r; quaternion s{a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w}, d{a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w}, k{a.x * I.s, a.y * I.s, a.z * I.s, a.w * I.s};
    out.eq(a + b, s); auto x = a; x += b; out.eq(x, s); out.eq(a - b, d); auto y = a; y -= b; out.eq(y, d); out.eq(a * I.s, k); out.eq(I.s * a, k);
    out.eq((a / I.s) * I.s, a); auto z = I.s / a; out.eq(z, quaternion{I.s / a.x, I.s / a.y, I.s / a.z, I.s / a.w});
    out.eq(a[0], a.x); out.eq(a[1], a.y); out.eq(a[2], a.z); out.eq(a[3], a.w); }
LAW(q_mul, "operator*(quaternion,quaternion) operator*=", "Hamilton product") {
    out.eq(I.q * I.r, Ham(I.q, I.r)); auto x = I.q; x *= I.r; out.eq(x, Ham(I.q, I.r)); }
LAW(q_mul_vec, "operator*(quaternion,vector3) operator*(vector3,quaternion)", "product with a pure quaternion") {
    quaternion v{I.a.x, I.a.y, I.a.z, 0}; out.eq(I.q * I.a, Ham(I.q, v)); out.eq(I.a * I.q, Ham(v, I.q)); }
LAW(q_cmp, "operator== != (quaternion)", "equal iff all components are equal") {
    const auto &a = I.q, &b = I.r; auto e = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; out.eqb(a == b, e); out.eqb(a != b, !e); }
LAW(q_norm, "length_sqr length dot normalize conjugate quaternion_identity (quaternion)", "norm, inner product, conjugate") {
    const auto &a = I.q, &b = I.r; auto n = a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w; out.eq(length_sqr(a), n); out.eq(length(a), std::sqrt(n));
    out.eq(dot(a, b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w); auto l = std::sqrt(n); out.eq(normalize(a), quaternion{a.x / l, a.y / l, a.z / l, a.w / l});
    out.eq(conjugate(a), Conj(a)); out.eq(quaternion_identity, quaternion{0, 0, 0, 1}); }
LAW(q_rotate, "rotate(quaternion,vector3)", "rotate(q,v) = q v q* for unit q") { auto q = unit(I.q); out.eq(rotate(q, I.a), Rot(q, I.a)); }
LAW(q_axes, "quaternion_x quaternion_y quaternion_z coordinate_axis_vector", "rotated basis vectors") {
    auto q = unit(I.q); out.eq(quaternion_x(q), Rot(q, vector3{1, 0, 0})); out.eq(quaternion_y(q), Rot(q, vector3{0, 1, 0})); out.eq(quaternion_z(q), Rot(q, vector3{0, 0, 1}));
    out.eq(coordinate_axis_vector(coordinate_axis::x), vector3{1, 0, 0}); out.eq(coordinate_axis_vector(coordinate_axis::y), vector3{0, 1, 0}); out.eq(coordinate_axis_vector(coordinate_axis::z), vector3{0, 0, 1});
    out.eq(coordinate_axis_vector(coordinate_axis::x, q), Rot(q, vector3{1, 0, 0})); out.eq(coordinate_axis_vector(coordinate_axis::y, q), Rot(q, vector3{0, 1, 0})); out.eq(coordinate_axis_vector(coordinate_axis::z, q), Rot(q, vector3{0, 0, 1})); }
LAW(q_to_matrix, "to_matrix3x3(quaternion)", "the matrix of a unit quaternion applies the same rotation; scaling the quaternion changes nothing") {
    auto q = unit(I.q); out.eq(MulMV(to_matrix3x3(q), I.a), Rot(q, I.a));
    auto p = I.q; quaternion k{p.x * I.s, p.y * I.s, p.z * I.s, p.w * I.s}; out.eq(MulMV(to_matrix3x3(k), I.a), MulMV(to_matrix3x3(p), I.a)); }
LAW(q_half_turn, "to_quaternion(matrix3x3)", "half turns about every axis and thirds of a turn about the diagonals convert both ways") {
    const scalar h = 0.5; quaternion qs[] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {h, h, h, h}, {-h, h, h, h}, {h, -h, h, h}, {h, h, -h, h}, {h, h, h, -h}};
    for (auto &q : qs) { auto w = to_quaternion(to_matrix3x3(q)); auto d = w.x * q.x + w.y * q.y + w.z * q.z + w.w * q.w; out.eq(d * d, 1); out.eq(w.x * w.x + w.y * w.y + w.z * w.z + w.w * w.w, 1); } }
LAW(q_from_matrix, "to_quaternion(matrix3x3)", "to_quaternion inverts to_matrix3x3 up to sign") {
    auto q = unit(I.q); vector3 r0 = Rot(q, vector3{1, 0, 0}), r1 = Rot(q, vector3{0, 1, 0}), r2 = Rot(q, vector3{0, 0, 1});
    matrix3x3 m{vector3{r0.x, r1.x, r2.x}, vector3{r0.y, r1.y, r2.y}, vector3{r0.z, r1.z, r2.z}};
    auto p = to_quaternion(m);
    // p is parallel to q, and a unit quaternion.
    out.eq(p.x * q.y - p.y * q.x, 0); out.eq(p.x * q.z - p.z * q.x, 0); out.eq(p.x * q.w - p.w * q.x, 0);
    out.eq(p.y * q.z - p.z * q.y, 0); out.eq(p.y * q.w - p.w * q.y, 0); out.eq(p.z * q.w - p.w * q.z, 0);
    out.eq(p.x * p.x + p.y * p.y + p.z * p.z + p.w * p.w, 1); }
LAW(q_axis_angle, "quaternion_axis_angle quaternion_axis_angle_unit", "half-angle about the normalised axis") {
    auto s = std::sin(I.s / 2), c = std::cos(I.s / 2); auto l = std::sqrt(Dot(I.a, I.a)); out.eq(quaternion_axis_angle(I.a, I.s), quaternion{I.a.x / l * s, I.a.y / l * s, I.a.z / l * s, c});
    auto u = unit(I.b); out.eq(quaternion_axis_angle_unit(u, I.s), quaternion{u.x * s, u.y * s, u.z * s, c}); }
LAW(q_axis, "quaternion_axis quaternion_angle", "axis is a unit vector along the vector part; angle is 2 acos(w)") {
    auto q = unit(I.q); auto a = quaternion_axis(q); if (1 - q.w * q.w > EDYN_EPSILON) { auto l = std::sqrt(1 - q.w * q.w); out.eq(a, vector3{q.x / l, q.y / l, q.z / l}); } else { out.eq(a, vector3{1, 0, 0}); }
    out.eq(quaternion_angle(I.r), 2 * std::acos(I.r.w)); }
LAW(q_slerp, "slerp", "spherical interpolation starts at the first rotation and ends at (plus or minus) the second") {
    auto p = unit(I.q), q = unit(I.r); out.eq(slerp(p, q, 0), p); auto e = slerp(p, q, 1);
    auto d = p.x * q.x + p.y * q.y + p.z * q.z + p.w * q.w; auto l = std::sqrt((p.x * p.x + p.y * p.y + p.z * p.z + p.w * p.w) * (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w));
    if (std::abs(d / l) > scalar(1) - EDYN_EPSILON) { out.eq(e, p); } else { scalar sg = d / l < 0 ? scalar(-1) : scalar(1); out.eq(e, quaternion{q.x * sg, q.y * sg, q.z * sg, q.w * sg}); } }
LAW(q_slerp_mid, "slerp", "both operands are weighted by the sine of their angular distance") {
    auto p = unit(I.q), q = unit(I.r); auto e = slerp(p, q, I.s); auto d = p.x * q.x + p.y * q.y + p.z * q.z + p.w * q.w;
    if (std::abs(d) > scalar(1) - EDYN_EPSILON) { out.eq(e, p); } else {
    auto th = std::acos(std::abs(d)); auto w0 = std::sin((1 - I.s) * th) / std::sin(th), w1 = (d < 0 ? -1 : 1) * std::sin(I.s * th) / std::sin(th);
    out.eq(e, quaternion{p.x * w0 + q.x * w1, p.y * w0 + q.y * w1, p.z * w0 + q.z * w1, p.w * w0 + q.w * w1}); } }
LAW(q_integrate, "integrate(quaternion,vector3,scalar)", "result is a unit quaternion: the input turned about the angular velocity by |w| dt") {
    auto q = unit(I.q); auto r = integrate(q, I.a, I.s); out.eq(r.x * r.x + r.y * r.y + r.z * r.z + r.w * r.w, 1);
    auto d = Ham(r, Conj(q)); vector3 v{d.x, d.y, d.z}; out.eq(Cross(v, I.a), vector3_zero);
    auto w = std::sqrt(Dot(I.a, I.a)); auto h = w * I.s / 2;
    if (w < scalar(0.001)) { out.eq(Mul(v, std::cos(h)), Mul(I.a, d.w * (I.s / 2 - I.s * I.s * I.s * w * w / 48))); } else { out.eq(Mul(v, std::cos(h) * w), Mul(I.a, d.w * std::sin(h))); } }
LAW(q_derivative, "quaternion_derivative", "half the product of angular velocity and orientation") {
    auto h = Ham(quaternion{I.a.x, I.a.y, I.a.z, 0}, I.q); out.eq(quaternion_derivative(I.q, I.a), quaternion{h.x / 2, h.y / 2, h.z / 2, h.w / 2}); }
LAW(q_shortest_arc_opposite, "shortest_arc", "half a turn takes a direction to its opposite") {
    auto a = unit(I.a); for (int k = 0; k < 2; ++k) { auto q = shortest_arc(a, -a); out.eq(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1); out.eq(q.w, 0); out.eq(Rot(q, a), Mul(a, -1)); a = -a; } }
LAW(q_shortest_arc, "shortest_arc", "turns the first direction onto the second") {
    auto a = unit(I.a), b = unit(I.b); auto q = shortest_arc(a, b); if (Dot(a, b) <= -1 + EDYN_EPSILON) { out.eq(q.x * a.x + q.y * a.y + q.z * a.z, 0); out.eq(q.w, 0); out.eq(q.x * q.x + q.y * q.y + q.z * q.z, 1); out.eq(0, 0); } else {
    auto r = Rot(q, a); out.eq(r, b); out.eq(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1); } }
LAW(q_angle_between, "angle_between", "twice the arc cosine of the magnitude of the normalised inner product (shortest path)") {
    const auto &p = I.q, &q = I.r; auto d = p.x * q.x + p.y * q.y + p.z * q.z + p.w * q.w; auto l = std::sqrt((p.x * p.x + p.y * p.y + p.z * p.z + p.w * p.w) * (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w));
    out.eq(angle_between(p, q), 2 * std::acos(std::abs(d) / l)); }

LAW(r_axis, "rotation_matrix_x rotation_matrix_y rotation_matrix_z", "rotation by the angle about the axis, counter-clockwise") {
    auto c = std::cos(I.s), s = std::sin(I.s); const auto &a = I.a;
    out.eq(MulMV(rotation_matrix_x(I.s), a), vector3{a.x, c * a.y - s * a.z, s * a.y + c * a.z}); out.eq(MulMV(rotation_matrix_y(I.s), a), vector3{c * a.x + s * a.z, a.y, -s * a.x + c * a.z});
    out.eq(MulMV(rotation_matrix_z(I.s), a), vector3{c * a.x - s * a.y, s * a.x + c * a.y, a.z}); }
LAW(r_xyz, "rotation_matrix_xyz", "equals Rx Ry Rz") {
    out.eq(MulMV(rotation_matrix_xyz(I.s, I.t, I.u), I.a), MulMV(rotation_matrix_x(I.s), MulMV(rotation_matrix_y(I.t), MulMV(rotation_matrix_z(I.u), I.a)))); }
LAW(r_euler, "get_euler_angles_xyz", "angles read off the entries that Rx Ry Rz puts them in") {
    auto e = get_euler_angles_xyz(I.m); if (I.m.row[0].z < 1 && I.m.row[0].z > -1) { out.eq(e, vector3{std::atan2(-I.m.row[1].z, I.m.row[2].z), std::asin(I.m.row[0].z), std::atan2(-I.m.row[0].y, I.m.row[0].x)}); }
    else { auto up = !(I.m.row[0].z < 1); auto t = std::atan2(I.m.row[1].x, I.m.row[1].y); out.eq(e, vector3{up ? t : -t, up ? pi / 2 : -pi / 2, 0}); } }

LAW(t_world, "to_world_space", "rotate then translate, for quaternion and matrix forms") {
    auto q = unit(I.q); out.eq(to_world_space(I.a, I.b, q), Add(I.b, Rot(q, I.a))); out.eq(to_world_space(I.a, I.b, I.m), Add(I.b, MulMV(I.m, I.a))); }
LAW(t_inverse, "to_object_space to_world_space", "object and world conversions invert each other, for quaternion and matrix forms") {
    auto q = unit(I.q); out.eq(Add(I.b, Rot(q, to_object_space(I.a, I.b, q))), I.a);
    vector3 r0 = Rot(q, vector3{1, 0, 0}), r1 = Rot(q, vector3{0, 1, 0}), r2 = Rot(q, vector3{0, 0, 1}); matrix3x3 m{vector3{r0.x, r1.x, r2.x}, vector3{r0.y, r1.y, r2.y}, vector3{r0.z, r1.z, r2.z}};
    out.eq(Add(I.b, Rot(q, to_object_space(I.a, I.b, m))), I.a); }
