// Arithmetic of vectors, matrices and boxes.
#include "law.hpp"
#include "edyn/comp/aabb.hpp"
#include "/repo/src/edyn/math/geom.cpp"
using namespace edyn;
using namespace law;

LAW(v3_add, "operator+(vector3,vector3) operator+=", "addition is component-wise; += equals +") {
    out.eq(I.a + I.b, Add(I.a, I.b)); auto x = I.a; x += I.b; out.eq(x, Add(I.a, I.b)); }
LAW(v3_sub, "operator-(vector3,vector3) operator-= operator-(vector3)", "subtraction is component-wise; -= equals -; negation") {
    out.eq(I.a - I.b, Sub(I.a, I.b)); auto x = I.a; x -= I.b; out.eq(x, Sub(I.a, I.b)); out.eq(-I.a, Mul(I.a, -1)); }
LAW(v3_scale, "operator*(vector3,scalar) operator*(scalar,vector3) operator*=(vector3,scalar)", "scaling multiplies every component") {
    out.eq(I.a * I.s, Mul(I.a, I.s)); out.eq(I.s * I.a, Mul(I.a, I.s)); auto x = I.a; x *= I.s; out.eq(x, Mul(I.a, I.s)); }
LAW(v3_div, "operator/(vector3,scalar) operator/=(vector3,scalar) operator/(scalar,vector3)", "division inverts scaling") {
    out.eq((I.a / I.s) * I.s, I.a); auto x = I.a; x /= I.s; out.eq(x * I.s, I.a);
    auto y = I.s / I.a; out.eq(vector3{y.x * I.a.x, y.y * I.a.y, y.z * I.a.z}, vector3{I.s, I.s, I.s}); }
LAW(v3_cwise, "operator*(vector3,vector3) operator/(vector3,vector3) operator*= operator/=", "component-wise product and quotient") {
    vector3 p{I.a.x * I.b.x, I.a.y * I.b.y, I.a.z * I.b.z}; out.eq(I.a * I.b, p); auto x = I.a; x *= I.b; out.eq(x, p);
    vector3 q{I.a.x / I.b.x, I.a.y / I.b.y, I.a.z / I.b.z}; out.eq(I.a / I.b, q); auto y = I.a; y /= I.b; out.eq(y, q); }
LAW(v3_index, "vector3::operator[]", "index i is the i-th component") {
    out.eq(I.a[0], I.a.x); out.eq(I.a[1], I.a.y); out.eq(I.a[2], I.a.z); vector3 v{}; v[0] = I.s; v[1] = I.t; v[2] = I.u;
    out.eq(v, vector3{I.s, I.t, I.u}); }
LAW(v3_each, "vector3::each", "visits every component once with its own index") {
    vector3 v = I.a; v.each([&](scalar &x, int i) { x = x * 2 + i; }); out.eq(v, vector3{I.a.x * 2, I.a.y * 2 + 1, I.a.z * 2 + 2});
    scalar sum = 0; const vector3 &c = I.a; c.each([&](scalar x) { sum += x; }); out.eq(sum, I.a.x + I.a.y + I.a.z);
    vector3 w = I.b; w.each([&](scalar &x) { x *= 3; }); out.eq(w, Mul(I.b, 3)); }
LAW(v3_cmp, "operator== != < > <= >= (vector3)", "comparisons hold iff they hold for all components") {
    const auto &a = I.a, &b = I.b;
    out.eqb(a == b, a.x == b.x && a.y == b.y && a.z == b.z); out.eqb(a != b, a.x != b.x || a.y != b.y || a.z != b.z);
    out.eqb(a < b, a.x < b.x && a.y < b.y && a.z < b.z); out.eqb(a > b, b.x < a.x && b.y < a.y && b.z < a.z);
    out.eqb(a <= b, a.x <= b.x && a.y <= b.y && a.z <= b.z); out.eqb(a >= b, a.x >= b.x && a.y >= b.y && a.z >= b.z); }
LAW(v3_dot, "dot(vector3)", "inner product") { out.eq(dot(I.a, I.b), Dot(I.a, I.b)); }
LAW(v3_cross, "cross(vector3)", "right-handed vector product") { out.eq(cross(I.a, I.b), Cross(I.a, I.b)); }
LAW(v3_triple, "triple_product", "a . (b x c)") { out.eq(triple_product(I.a, I.b, I.c), Dot(I.a, Cross(I.b, I.c))); }
LAW(v3_len, "length_sqr length distance distance_sqr (vector3)", "Euclidean norm and distance") {
    out.eq(length_sqr(I.a), Dot(I.a, I.a)); auto l = length(I.a); out.eq(l * l, Dot(I.a, I.a));
    auto d = Sub(I.a, I.b); out.eq(distance_sqr(I.a, I.b), Dot(d, d)); auto e = distance(I.a, I.b); out.eq(e * e, Dot(d, d));
    out.eq(l, std::sqrt(Dot(I.a, I.a))); }
LAW(v3_normalize, "normalize(vector3)", "unit length, same direction") {
    auto n = normalize(I.a); out.eq(n, Mul(I.a, 1 / std::sqrt(Dot(I.a, I.a)))); }
LAW(v3_try_normalize, "try_normalize(vector3)", "normalises and reports true, or leaves the vector alone and reports false") {
    auto v = I.a; auto r = try_normalize(v); auto want = r ? Mul(I.a, 1 / std::sqrt(Dot(I.a, I.a))) : I.a; out.eq(v, want); }
LAW(v3_project, "project_direction project_plane", "projection removes exactly the normal component") {
    auto n = unit(I.b); auto p = project_direction(I.a, n); out.eq(Dot(p, n), 0); out.eq(Cross(Sub(I.a, p), n), vector3_zero);
    auto q = project_plane(I.a, I.c, n); out.eq(Dot(Sub(q, I.c), n), 0); out.eq(Cross(Sub(I.a, q), n), vector3_zero); }
LAW(v3_minmax, "min max abs (vector3)", "component-wise") {
    const auto &a = I.a, &b = I.b;
    out.eq(min(a, b), vector3{b.x < a.x ? b.x : a.x, b.y < a.y ? b.y : a.y, b.z < a.z ? b.z : a.z});
    out.eq(max(a, b), vector3{a.x < b.x ? b.x : a.x, a.y < b.y ? b.y : a.y, a.z < b.z ? b.z : a.z});
    out.eq(abs(a), vector3{std::abs(a.x), std::abs(a.y), std::abs(a.z)}); }
LAW(v3_minidx, "min_index min_index_abs", "index of a smallest component") {
    auto v = I.a; auto i = min_index(v); auto m = v.x; if (v.y < m) m = v.y; if (v.z < m) m = v.z; out.eq(v[i], m); }
LAW(v3_minidx_abs, "min_index_abs", "index of a component smallest in magnitude") {
    vector3 v{std::abs(I.a.x), std::abs(I.a.y), std::abs(I.a.z)}; auto i = min_index_abs(I.a); auto m = v.x; if (v.y < m) m = v.y; if (v.z < m) m = v.z; out.eq(v[i], m); }
LAW(v3_maxidx, "max_index", "index of a largest component") {
    auto v = I.a; auto i = max_index(v); auto m = v.x; if (m < v.y) m = v.y; if (m < v.z) m = v.z; out.eq(v[i], m); }
LAW(v3_maxidx_abs, "max_index_abs", "index of a component largest in magnitude") {
    vector3 v{std::abs(I.a.x), std::abs(I.a.y), std::abs(I.a.z)}; auto i = max_index_abs(I.a); auto m = v.x; if (m < v.y) m = v.y; if (m < v.z) m = v.z; out.eq(v[i], m); }
LAW(v3_floor, "floor ceil (vector3)", "component-wise") {
    out.eq(floor(I.a), vector3{std::floor(I.a.x), std::floor(I.a.y), std::floor(I.a.z)});
    out.eq(ceil(I.a), vector3{std::ceil(I.a.x), std::ceil(I.a.y), std::ceil(I.a.z)}); }
LAW(v3_constants, "vector3_x vector3_y vector3_z vector3_zero vector3_one", "unit vectors are orthonormal and right-handed") {
    out.eq(vector3_x, vector3{1, 0, 0}); out.eq(vector3_y, vector3{0, 1, 0}); out.eq(vector3_z, vector3{0, 0, 1});
    out.eq(vector3_zero, vector3{0, 0, 0}); out.eq(vector3_one, vector3{1, 1, 1}); }

LAW(v2_arith, "vector2 arithmetic", "component-wise") {
    const auto &a = I.g, &b = I.h; vector2 s{a.x + b.x, a.y + b.y}, d{a.x - b.x, a.y - b.y};
    out.eq(a + b, s); auto x = a; x += b; out.eq(x, s); out.eq(a - b, d); auto y = a; y -= b; out.eq(y, d); out.eq(-a, vector2{-a.x, -a.y});
    out.eq(a * b, vector2{a.x * b.x, a.y * b.y}); out.eq(a * I.s, vector2{a.x * I.s, a.y * I.s}); out.eq(I.s * a, vector2{a.x * I.s, a.y * I.s});
    out.eq(a / I.s, vector2{a.x / I.s, a.y / I.s}); out.eq(I.s / a, vector2{I.s / a.x, I.s / a.y});
    auto z = a; z *= I.s; out.eq(z, vector2{a.x * I.s, a.y * I.s}); auto w = a; w /= I.s; out.eq(w, vector2{a.x / I.s, a.y / I.s});
    out.eq(a[0], a.x); out.eq(a[1], a.y); }
LAW(v2_products, "dot perp_product orthogonal length distance normalize (vector2)", "planar products and norms") {
    const auto &a = I.g, &b = I.h; out.eq(dot(a, b), a.x * b.x + a.y * b.y); out.eq(perp_product(a, b), a.x * b.y - a.y * b.x);
    out.eq(orthogonal(a), vector2{-a.y, a.x}); out.eq(length_sqr(a), a.x * a.x + a.y * a.y); out.eq(length(a), std::sqrt(a.x * a.x + a.y * a.y));
    vector2 d{a.x - b.x, a.y - b.y}; out.eq(distance_sqr(a, b), d.x * d.x + d.y * d.y); out.eq(distance(a, b), std::sqrt(d.x * d.x + d.y * d.y));
    auto l = std::sqrt(a.x * a.x + a.y * a.y); out.eq(normalize(a), vector2{a.x / l, a.y / l}); }
LAW(v23, "to_vector2_* to_vector3_*", "drop/insert the named components in the named order") {
    const auto &v = I.a; const auto &w = I.g;
    out.eq(to_vector2_xy(v), vector2{v.x, v.y}); out.eq(to_vector2_xz(v), vector2{v.x, v.z}); out.eq(to_vector2_yz(v), vector2{v.y, v.z});
    out.eq(to_vector2_zy(v), vector2{v.z, v.y}); out.eq(to_vector2_yx(v), vector2{v.y, v.x}); out.eq(to_vector2_zx(v), vector2{v.z, v.x});
    out.eq(to_vector3_xy(w), vector3{w.x, w.y, 0}); out.eq(to_vector3_xz(w), vector3{w.x, 0, w.y}); out.eq(to_vector3_yz(w), vector3{0, w.x, w.y});
    out.eq(to_vector3_zy(w), vector3{0, w.y, w.x}); out.eq(to_vector3_yx(w), vector3{w.y, w.x, 0}); out.eq(to_vector3_zx(w), vector3{w.y, 0, w.x}); }

LAW(m_add, "operator+ - += -= (matrix3x3)", "entry-wise") {
    for (int i = 0; i < 3; ++i) { out.eq((I.m + I.n).row[i], Add(I.m.row[i], I.n.row[i])); out.eq((I.m - I.n).row[i], Sub(I.m.row[i], I.n.row[i]));
        auto x = I.m; x += I.n; out.eq(x.row[i], Add(I.m.row[i], I.n.row[i])); auto y = I.m; y -= I.n; out.eq(y.row[i], Sub(I.m.row[i], I.n.row[i])); } }
LAW(m_scale, "operator*(matrix3x3,scalar) operator*(scalar,matrix3x3)", "entry-wise scaling") {
    for (int i = 0; i < 3; ++i) { out.eq((I.m * I.s).row[i], Mul(I.m.row[i], I.s)); out.eq((I.s * I.m).row[i], Mul(I.m.row[i], I.s)); } }
LAW(m_mul, "operator*(matrix3x3,matrix3x3) operator*=", "(MN)v = M(Nv)") {
    out.eq(MulMV(I.m * I.n, I.a), MulMV(I.m, MulMV(I.n, I.a))); auto x = I.m; x *= I.n; out.eq(MulMV(x, I.a), MulMV(I.m, MulMV(I.n, I.a))); }
LAW(m_vec, "operator*(matrix3x3,vector3) operator*(vector3,matrix3x3) column column_dot", "rows/columns products") {
    out.eq(I.m * I.a, MulMV(I.m, I.a)); out.eq(Dot(I.a * I.m, I.b), Dot(I.a, MulMV(I.m, I.b)));
    out.eq(I.m.column(0), vector3{I.m.row[0].x, I.m.row[1].x, I.m.row[2].x}); out.eq(I.m.column(1), vector3{I.m.row[0].y, I.m.row[1].y, I.m.row[2].y});
    out.eq(I.m.column(2), vector3{I.m.row[0].z, I.m.row[1].z, I.m.row[2].z});
    out.eq(I.m.column_dot(0, I.a), Dot(I.m.column(0), I.a)); out.eq(I.m.column_dot(1, I.a), Dot(I.m.column(1), I.a)); out.eq(I.m.column_dot(2, I.a), Dot(I.m.column(2), I.a)); }
LAW(m_columns, "matrix3x3_columns transpose operator[]", "columns and transpose") {
    auto x = matrix3x3_columns(I.a, I.b, I.c); out.eq(MulMV(x, vector3{I.s, I.t, I.u}), Add(Add(Mul(I.a, I.s), Mul(I.b, I.t)), Mul(I.c, I.u)));
    out.eq(Dot(MulMV(transpose(I.m), I.a), I.b), Dot(I.a, MulMV(I.m, I.b))); out.eq(I.m[0], I.m.row[0]); out.eq(I.m[1], I.m.row[1]); out.eq(I.m[2], I.m.row[2]); }
LAW(m_det, "matrix3x3::determinant", "triple product of the rows") { out.eq(I.m.determinant(), Dot(I.m.row[0], Cross(I.m.row[1], I.m.row[2]))); }
LAW(m_adj, "adjugate_matrix", "M adj(M) = adj(M) M = det(M) I") {
    auto d = Dot(I.m.row[0], Cross(I.m.row[1], I.m.row[2])); out.eq(MulMV(adjugate_matrix(I.m), MulMV(I.m, I.a)), Mul(I.a, d));
    out.eq(MulMV(I.m, MulMV(adjugate_matrix(I.m), I.a)), Mul(I.a, d)); }
LAW(m_inv, "inverse_matrix", "true inverse of every non-singular matrix, zero for a singular one") {
    auto d = Dot(I.m.row[0], Cross(I.m.row[1], I.m.row[2])); auto x = MulMV(inverse_matrix(I.m), MulMV(I.m, I.a));
    if (std::abs(d) > EDYN_EPSILON) out.eq(x, I.a); else out.eq(MulMV(inverse_matrix(I.m), I.b), vector3_zero); }
LAW(m_inv_sym, "inverse_matrix_symmetric", "true inverse of every symmetric matrix") {
    matrix3x3 m{vector3{I.a.x, I.a.y, I.a.z}, vector3{I.a.y, I.b.x, I.b.y}, vector3{I.a.z, I.b.y, I.b.z}};
    out.eq(MulMV(inverse_matrix_symmetric(m), MulMV(m, I.c)), I.c); }
LAW(m_diag, "diagonal_matrix get_diagonal scale_matrix matrix3x3_identity", "diagonal matrices") {
    out.eq(MulMV(diagonal_matrix(I.a), I.b), vector3{I.a.x * I.b.x, I.a.y * I.b.y, I.a.z * I.b.z});
    out.eq(get_diagonal(I.m), vector3{I.m.row[0].x, I.m.row[1].y, I.m.row[2].z});
    out.eq(MulMV(scale_matrix(I.m, I.a), I.b), MulMV(I.m, vector3{I.a.x * I.b.x, I.a.y * I.b.y, I.a.z * I.b.z}));
    out.eq(MulMV(matrix3x3_identity, I.a), I.a); out.eq(MulMV(matrix3x3_zero, I.a), vector3_zero); }
LAW(m_skew, "skew_matrix", "skew(v) w = v x w") { out.eq(MulMV(skew_matrix(I.a), I.b), Cross(I.a, I.b)); }
LAW(m_cmp, "operator== != < > <= >= (matrix3x3)", "comparisons hold iff they hold for all entries") {
    const auto &a = I.m, &b = I.n;
#define ALL(op) (a.row[0].x op b.row[0].x && a.row[0].y op b.row[0].y && a.row[0].z op b.row[0].z && a.row[1].x op b.row[1].x && a.row[1].y op b.row[1].y && a.row[1].z op b.row[1].z && a.row[2].x op b.row[2].x && a.row[2].y op b.row[2].y && a.row[2].z op b.row[2].z)
    out.eqb(a == b, ALL(==)); out.eqb(a != b, !ALL(==)); out.eqb(a < b, ALL(<)); out.eqb(a > b, ALL(>)); out.eqb(a <= b, ALL(<=)); out.eqb(a >= b, ALL(>=)); }

LAW(s_angles, "to_degrees to_radians to_Nm_per_radian to_Nm_per_degree", "unit conversions invert each other; 180 degrees are pi") {
    out.eq(to_degrees(to_radians(I.s)), I.s); out.eq(to_radians(to_degrees(I.s)), I.s); out.eq(to_radians(180), pi);
    out.eq(to_Nm_per_degree(to_Nm_per_radian(I.s)), I.s); out.eq(to_Nm_per_radian(I.s) * to_radians(I.t), I.s * I.t); }
LAW(s_lerp, "lerp square to_sign average", "interpolation end points, square, sign, mean") {
    out.eq(lerp(I.s, I.t, I.u), I.s + (I.t - I.s) * I.u); out.eq(lerp(I.a, I.b, I.u), Add(I.a, Mul(Sub(I.b, I.a), I.u))); out.eq(square(I.s), I.s * I.s);
    out.eq(to_sign(true), 1); out.eq(to_sign(false), -1); std::array<vector3, 4> v{I.a, I.b, I.c, I.d}; auto m = average(v);
    out.eq(Mul(m, 4), Add(Add(I.a, I.b), Add(I.c, I.d))); }
LAW(s_clamp, "clamp_unit", "clamps to [0,1]") { out.eq(clamp_unit(I.s), I.s < 0 ? scalar(0) : (1 < I.s ? scalar(1) : I.s)); }
LAW(s_angle_wrap, "normalize_angle", "wraps into [-pi, pi] by whole turns") {
    auto f = std::fmod(I.s, 2 * pi); auto want = f < -pi ? f + 2 * pi : (pi < f ? f - 2 * pi : f); out.eq(normalize_angle(I.s), want); }

LAW(box_basic, "AABB::center size inset area", "box arithmetic") {
    AABB b{I.a, I.b}; out.eq(Mul(b.center(), 2), Add(I.a, I.b)); out.eq(b.size(), Sub(I.b, I.a)); auto i = b.inset(I.c); out.eq(i.min, Add(I.a, I.c)); out.eq(i.max, Sub(I.b, I.c));
    auto d = Sub(I.b, I.a); out.eq(b.area(), 2 * (d.x * d.y + d.y * d.z + d.z * d.x)); }
LAW(box_contains, "AABB::contains", "containment is the conjunction over the axes") {
    AABB b{I.a, I.b}, c{I.c, I.d}; auto in = [&](const vector3 &p) { return b.min.x <= p.x && b.min.y <= p.y && b.min.z <= p.z && p.x <= b.max.x && p.y <= b.max.y && p.z <= b.max.z; };
    out.eqb(b.contains(I.c), in(I.c)); out.eqb(b.contains(c), in(c.min) && in(c.max)); }
LAW(box_intersect, "intersect_aabb intersect(AABB,AABB)", "boxes overlap iff their intervals overlap on every axis") {
    auto want = I.a.x <= I.d.x && I.a.y <= I.d.y && I.a.z <= I.d.z && I.c.x <= I.b.x && I.c.y <= I.b.y && I.c.z <= I.b.z;
    out.eqb(intersect_aabb(I.a, I.b, I.c, I.d), want); out.eqb(intersect(AABB{I.a, I.b}, AABB{I.c, I.d}), want); }
LAW(box_enclose, "enclosing_aabb", "smallest box containing both") {
    auto e = enclosing_aabb(AABB{I.a, I.b}, AABB{I.c, I.d});
    for (int i = 0; i < 3; ++i) { out.eq(e.min[i], I.c[i] < I.a[i] ? I.c[i] : I.a[i]); out.eq(e.max[i], I.b[i] < I.d[i] ? I.d[i] : I.b[i]); } }
