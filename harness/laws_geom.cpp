// Closest-feature, intersection, projection and support queries.
//@anyloop circle_line_.
#include "law.hpp"
#include "edyn/math/coordinate_axis.hpp"
#include "edyn/math/triangle.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
using namespace edyn;
using namespace law;

static inline scalar Clamp01(scalar x) { return x < 0 ? scalar(0) : (1 < x ? scalar(1) : x); }
static inline scalar Sq(const vector3 &v) { return Dot(v, v); }
static inline scalar Abs(scalar x) { return std::abs(x); }
static constexpr coordinate_axis AX[3] = {coordinate_axis::x, coordinate_axis::y, coordinate_axis::z};
static inline vector3 Axis(int i) { return {i == 0 ? scalar(1) : scalar(0), i == 1 ? scalar(1) : scalar(0), i == 2 ? scalar(1) : scalar(0)}; }
static inline vector3 World(const vector3 &l, const vector3 &pos, const quaternion &q) { return Add(pos, Rot(q, l)); }
// Local vector with component n along axis i and (x, y) along the two following axes.
static inline vector3 Local(int i, scalar n, scalar x, scalar y) {
    return i == 0 ? vector3{n, x, y} : (i == 1 ? vector3{y, n, x} : vector3{x, y, n});
}

LAW(closest_segment, "closest_point_segment", "parameter is the clamped projection, the point is on the segment, the value is the squared distance") {
    scalar t; vector3 q; auto r = closest_point_segment(I.a, I.b, I.c, t, q);
    auto v = Sub(I.b, I.a); auto w = Clamp01(Dot(Sub(I.c, I.a), v) / Dot(v, v));
    out.eq(t, w); out.eq(q, Add(I.a, Mul(v, w))); out.eq(r, Sq(Sub(I.c, Add(I.a, Mul(v, w))))); }
LAW(closest_line, "closest_point_line distance_sqr_line", "the offset is orthogonal to the line, the point is on the line, the value is the squared distance") {
    scalar t; vector3 q; auto r = closest_point_line(I.a, I.b, I.c, t, q);
    out.eq(q, Add(I.a, Mul(I.b, t))); out.eq(Dot(Sub(I.c, q), I.b), 0); out.eq(r, Sq(Sub(I.c, q)));
    out.eq(distance_sqr_line(I.a, I.b, I.c), r); }
LAW(closest_line_line, "closest_point_line_line", "the connecting vector is orthogonal to both lines; only parallel lines are rejected") {
    scalar s, t; auto ok = closest_point_line_line(I.a, I.b, I.c, I.d, s, t); auto d1 = Sub(I.b, I.a), d2 = Sub(I.d, I.c);
    if (ok) { auto r = Sub(Add(I.a, Mul(d1, s)), Add(I.c, Mul(d2, t))); out.eq(Dot(r, d1), 0); out.eq(Dot(r, d2), 0); }
    else { out.eq(0, 0); out.eq(0, 0); }
    out.eqb(ok, Sq(Cross(d1, d2)) > EDYN_EPSILON); }
LAW(closest_segments, "closest_point_segment_segment", "closest points lie on the segments at the returned parameters, the value is their squared distance, and the parameters are those of the closest pair") {
    scalar s, t; vector3 c1, c2; auto r = closest_point_segment_segment(I.a, I.b, I.c, I.d, s, t, c1, c2);
    auto d1 = Sub(I.b, I.a), d2 = Sub(I.d, I.c), w = Sub(I.a, I.c); auto a = Sq(d1), e = Sq(d2), b = Dot(d1, d2);
    out.eq(c1, Add(I.a, Mul(d1, s))); out.eq(c2, Add(I.c, Mul(d2, t))); out.eq(r, Sq(Sub(c1, c2)));
    scalar es, et; auto p1 = a <= EDYN_EPSILON, p2 = e <= EDYN_EPSILON;
    if (p1 && p2) { es = 0; et = 0; }
    else if (p1) { es = 0; et = Clamp01(Dot(d2, w) / e); }
    else if (p2) { et = 0; es = Clamp01(-Dot(d1, w) / a); }
    else {
        auto den = a * e - b * b; es = den > EDYN_EPSILON ? Clamp01((b * Dot(d2, w) - Dot(d1, w) * e) / den) : scalar(0);
        auto num = b * es + Dot(d2, w);
        if (num < 0) { et = 0; es = Clamp01(-Dot(d1, w) / a); } else if (num > e) { et = 1; es = Clamp01((b - Dot(d1, w)) / a); } else { et = num / e; }
    }
    out.eq(s, es); out.eq(t, et); }
LAW(closest_segments_multi, "closest_point_segment_segment (parallel pair)", "the number of pairs is always reported; with two results each pair lies on the segments at its parameters and the second pair is a point and its projection") {
    scalar s = 0, t = 0, sp = 0, tp = 0; vector3 c1, c2, c1p, c2p; size_t n = 7;
    auto r = closest_point_segment_segment(I.a, I.b, I.c, I.d, s, t, c1, c2, &n, &sp, &tp, &c1p, &c2p);
    auto d1 = Sub(I.b, I.a), d2 = Sub(I.d, I.c);
    out.eq(c1, Add(I.a, Mul(d1, s))); out.eq(c2, Add(I.c, Mul(d2, t))); out.eq(r, Sq(Sub(c1, c2))); out.eqb(n == 1 || n == 2, true);
    if (n == 2) { out.eq(c1p, Add(I.a, Mul(d1, sp))); out.eq(c2p, Add(I.c, Mul(d2, tp))); out.eq(tp, Clamp01(Dot(Sub(c1p, I.c), d2) / Dot(d2, d2))); }
    else { out.eq(vector3_zero, vector3_zero); out.eq(vector3_zero, vector3_zero); out.eq(0, 0); } }
template<int flip> static inline void parallel_segments(const In &I, Out &out) { // along x: [0, 4] at the origin and [s, s + 3] elsewhere
    scalar s = 0, t = 0, sp = 0, tp = 0; vector3 c1, c2, c1p, c2p; size_t n = 7; vector3 a{0, 0, 0}, b{4, 0, 0}, c{I.s, I.a.y, I.a.z}, d{I.s + 3, I.a.y, I.a.z};
    if (flip) closest_point_segment_segment(a, b, d, c, s, t, c1, c2, &n, &sp, &tp, &c1p, &c2p); else closest_point_segment_segment(a, b, c, d, s, t, c1, c2, &n, &sp, &tp, &c1p, &c2p);
    auto e0 = Clamp01(I.s / 4), e1 = Clamp01((I.s + 3) / 4);
    out.eqi(n, e1 - e0 > EDYN_EPSILON ? 2 : 1);
    if (n == 2) { out.eq(s, e0); out.eq(sp, e1); out.eq(Sub(c1, c2).x, 0); out.eq(Sub(c1p, c2p).x, 0); } else { for (int i = 0; i < 4; ++i) out.eq(0, 0); }
}
LAW(closest_segments_parallel, "closest_point_segment_segment (parallel pair)", "parallel segments that overlap report both ends of the overlap, at the same distance") { parallel_segments<0>(I, out); }
LAW(closest_segments_antiparallel, "closest_point_segment_segment (parallel pair)", "the same for segments in opposite directions") { parallel_segments<1>(I, out); }
LAW(closest_disc, "closest_point_disc", "projection inside the disc, otherwise the rim point in its direction; value is the squared distance") {
    auto q = unit(I.q);
    for (int i = 0; i < 3; ++i) {
        auto l = Local(i, I.s, I.t, I.u); auto p = World(l, I.a, q); vector3 c; auto r = closest_point_disc(I.a, q, I.v, AX[i], p, c);
        auto rr = I.t * I.t + I.u * I.u; auto inside = rr < I.v * I.v; auto k = inside ? scalar(1) : I.v / std::sqrt(rr);
        out.eq(c, World(Local(i, 0, I.t * k, I.u * k), I.a, q)); out.eq(r, Sq(Sub(p, c)));
    } }
LAW(line_circle, "intersect_line_circle", "every reported parameter is a point of the circle, the two differ, and the count follows the discriminant") {
    scalar s0 = 0, s1 = 0; auto n = intersect_line_circle(I.g, I.h, I.s, s0, s1); vector2 d{I.h.x - I.g.x, I.h.y - I.g.y};
    auto A = d.x * d.x + d.y * d.y, B = d.x * I.g.x + d.y * I.g.y, C = I.g.x * I.g.x + I.g.y * I.g.y - I.s * I.s; auto D = B * B - A * C;
    auto f = [&](scalar s) { auto x = I.g.x + d.x * s, y = I.g.y + d.y * s; return x * x + y * y - I.s * I.s; };
    out.eqi(n, D < 0 ? 0 : (D > EDYN_EPSILON ? 2 : 1));
    if (n == 2) { out.eq(f(s0), 0); out.eq(f(s1), 0); out.eq((s1 - s0) * A, 2 * std::sqrt(D)); }
    else if (n == 1) { out.eq(s0 * A, -B); out.eq(0, 0); out.eq(0, 0); } else { out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); } }
LAW(circle_circle, "intersect_circle_circle", "every reported point lies on both circles; disjoint and nested circles report none") {
    vector2 p, q; auto n = intersect_circle_circle(I.g, I.s, I.h, I.t, p, q); vector2 u{I.h.x - I.g.x, I.h.y - I.g.y}; auto l2 = u.x * u.x + u.y * u.y;
    auto on = [&](const vector2 &x, const vector2 &c, scalar r) { return (x.x - c.x) * (x.x - c.x) + (x.y - c.y) * (x.y - c.y) - r * r; };
    auto apart = l2 < (I.s - I.t) * (I.s - I.t) || l2 > (I.s + I.t) * (I.s + I.t);
    auto same = l2 < EDYN_EPSILON && Abs(I.s - I.t) < EDYN_EPSILON;
    out.eqb(n == 0, !same && apart);
    auto k = ((I.s * I.s - I.t * I.t) / l2 + 1) / 2; auto h2 = I.s * I.s / l2 - k * k;
    if (n == 2) { out.eq(on(p, I.g, I.s), 0); out.eq(on(q, I.h, I.t), 0); if (!same) { out.eq(on(p, I.h, I.t), 0); out.eq(on(q, I.g, I.s), 0); } else { out.eq(0, 0); out.eq(0, 0); } }
    else if (n == 1) { auto h = h2 > 0 ? std::sqrt(h2) : scalar(0); out.eq(p.x, I.g.x + u.x * k - u.y * h); out.eq(p.y, I.g.y + u.y * k + u.x * h); out.eq(0, 0); out.eq(0, 0); }
    else { out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); } }
LAW(tangent_space, "plane_space make_tangent_basis", "orthonormal, right-handed basis around every unit normal") {
    auto n = unit(I.a); vector3 p, q; plane_space(n, p, q); out.eq(Dot(p, p), 1); out.eq(Dot(q, q), 1); out.eq(Dot(p, q), 0); out.eq(Dot(p, n), 0); out.eq(Dot(q, n), 0);
    out.eq(q, Cross(n, p)); auto m = make_tangent_basis(n); out.eq(MulMV(m, I.b), Add(Add(Mul(p, I.b.x), Mul(n, I.b.y)), Mul(q, I.b.z))); }
LAW(support_circle, "support_point_circle", "on the circle, in the direction of the projected axis") {
    auto q = unit(I.q);
    for (int i = 0; i < 3; ++i) {
        auto dir = Rot(q, Local(i, I.s, I.t, I.u)); auto r = support_point_circle(I.a, q, I.v, AX[i], dir); auto rr = I.t * I.t + I.u * I.u;
        if (rr > EDYN_EPSILON) { auto k = I.v / std::sqrt(rr); out.eq(r, World(Local(i, 0, I.t * k, I.u * k), I.a, q)); }
        else { out.eq(Sq(Sub(r, I.a)), I.v * I.v); out.eq(Dot(Sub(r, I.a), Rot(q, Axis(i))), 0); out.eq(0, 0); }
    } }
LAW(triangle_area, "signed_triangle_area", "twice the signed area, positive counter-clockwise") {
    out.eq(signed_triangle_area(I.g, I.h, I.k), (I.h.x - I.g.x) * (I.k.y - I.g.y) - (I.h.y - I.g.y) * (I.k.x - I.g.x)); }
LAW(segments_2d, "intersect_segments", "crossing segments meet at the reported parameters, inside both; parallel ones overlap only when collinear") {
    scalar s0 = 0, t0 = 0, s1 = 0, t1 = 0; auto n = intersect_segments(I.g, I.h, I.k, I.l, s0, t0, s1, t1);
    vector2 dp{I.h.x - I.g.x, I.h.y - I.g.y}, dq{I.l.x - I.k.x, I.l.y - I.k.y}, e{I.k.x - I.g.x, I.k.y - I.g.y};
    auto den = dp.x * dq.y - dp.y * dq.x; auto off = e.x * dp.y - e.y * dp.x;
    if (Abs(den) > EDYN_EPSILON) {
        out.eq(I.g.x + dp.x * s0, I.k.x + dq.x * t0); out.eq(I.g.y + dp.y * s0, I.k.y + dq.y * t0);
        auto inside = 0 <= s0 && s0 <= 1 && 0 <= t0 && t0 <= 1; out.eqi(n, inside ? 1 : 0); out.eq(0, 0); out.eq(0, 0);
    } else if (Abs(off) < EDYN_EPSILON) {
        auto pp = dp.x * dp.x + dp.y * dp.y, qq = dq.x * dq.x + dq.y * dq.y;
        auto u0 = (e.x * dp.x + e.y * dp.y) / pp, u1 = ((I.l.x - I.g.x) * dp.x + (I.l.y - I.g.y) * dp.y) / pp;
        auto v0 = -(e.x * dq.x + e.y * dq.y) / qq, v1 = ((I.h.x - I.k.x) * dq.x + (I.h.y - I.k.y) * dq.y) / qq;
        auto none = (u0 < 0 && u1 < 0) || (u0 > 1 && u1 > 1);
        if (none) { out.eqi(n, 0); out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); }
        else { out.eqi(n, Abs(Clamp01(u1) - Clamp01(u0)) < EDYN_EPSILON ? 1 : 2); out.eq(s0, Clamp01(u0)); out.eq(s1, Clamp01(u1)); out.eq(t0, Clamp01(v0)); out.eq(t1, Clamp01(v1)); }
    } else { out.eqi(n, 0); out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); out.eq(0, 0); } }
LAW(box_outside, "closest_point_box_outside", "clamps each coordinate to the box") {
    vector3 h{std::abs(I.a.x), std::abs(I.a.y), std::abs(I.a.z)}; auto r = closest_point_box_outside(h, I.b);
    for (int i = 0; i < 3; ++i) { auto b = I.b[i], k = h[i]; auto lo = k < b ? k : b; out.eq(r[i], lo < -k ? -k : lo); } }
LAW(box_inside, "closest_point_box_inside", "nearest face point, its outward normal and the distance to it") {
    const auto &h = I.a, &p = I.b; vector3 c, n; auto r = closest_point_box_inside(h, p, c, n);
    auto m = h.x - p.x; vector3 ec{h.x, p.y, p.z}, en{1, 0, 0};
    if (h.x + p.x < m) { m = h.x + p.x; ec = {-h.x, p.y, p.z}; en = {-1, 0, 0}; }
    if (h.y - p.y < m) { m = h.y - p.y; ec = {p.x, h.y, p.z}; en = {0, 1, 0}; }
    if (h.y + p.y < m) { m = h.y + p.y; ec = {p.x, -h.y, p.z}; en = {0, -1, 0}; }
    if (h.z - p.z < m) { m = h.z - p.z; ec = {p.x, p.y, h.z}; en = {0, 0, 1}; }
    if (h.z + p.z < m) { m = h.z + p.z; ec = {p.x, p.y, -h.z}; en = {0, 0, -1}; }
    out.eq(c, ec); out.eq(n, en); out.eq(r, m); }
LAW(line_box, "intersect_line_aabb", "every reported parameter is a point on a side of the rectangle") {
    scalar s0 = 0, s1 = 0; auto n = intersect_line_aabb(I.g, I.h, I.k, I.l, s0, s1); vector2 d{I.h.x - I.g.x, I.h.y - I.g.y};
    auto f = [&](scalar s) { auto x = I.g.x + d.x * s, y = I.g.y + d.y * s; return (x - I.k.x) * (x - I.l.x) * (y - I.k.y) * (y - I.l.y); };
    out.eq(n > 0 ? f(s0) : 0, 0); out.eq(n > 1 ? f(s1) : 0, 0);
    // A line along an axis crosses the rectangle exactly when its constant coordinate is within it.
    if (Abs(d.x) < EDYN_EPSILON) out.eqi(n, I.k.x <= I.g.x && I.g.x <= I.l.x ? 2 : 0);
    else if (Abs(d.y) < EDYN_EPSILON) out.eqi(n, I.k.y <= I.g.y && I.g.y <= I.l.y ? 2 : 0);
    else out.eqi(0, 0); }
template<int what> static inline void line_box(const In &I, Out &out) {
    constexpr scalar D[8][2] = {{1, 2}, {3, 1}, {1, -2}, {2, -1}, {-1, -3}, {-2, -1}, {-1, 2}, {-3, 1}};
    for (int j = 2 * what; j < 2 * what + 2; ++j) {
        scalar s0 = 0, s1 = 0; vector2 k{0, 0}, l{4, 3}, g = I.g, d{D[j][0], D[j][1]}, h{g.x + d.x, g.y + d.y};
        auto n = intersect_line_aabb(g, h, k, l, s0, s1);
        auto inx = [&](scalar t) { auto x = g.x + d.x * t; return k.x <= x && x <= l.x; }; auto iny = [&](scalar t) { auto y = g.y + d.y * t; return k.y <= y && y <= l.y; };
        out.eqb(n < 1 || (inx(s0) && iny(s0)), true); out.eqb(n < 2 || (inx(s1) && iny(s1)), true); out.eqb(n < 2 || s0 != s1, true);
        // The corners are on one side of a line that misses the box.
        auto side = [&](scalar x, scalar y) { return d.x * (y - g.y) - d.y * (x - g.x); }; auto c0 = side(0, 0), c1 = side(4, 0), c2 = side(4, 3), c3 = side(0, 3);
        out.eqb(n == 0, (c0 > 0 && c1 > 0 && c2 > 0 && c3 > 0) || (c0 < 0 && c1 < 0 && c2 < 0 && c3 < 0));
        constexpr scalar m = scalar(0.001); auto both = (c0 > 0 || c1 > 0 || c2 > 0 || c3 > 0) && (c0 < 0 || c1 < 0 || c2 < 0 || c3 < 0), well = (c0 > m || c1 > m || c2 > m || c3 > m) && (c0 < -m || c1 < -m || c2 < -m || c3 < -m);
        out.eqb(n < 2 || both, true); out.eqb(n == 2 || !well, true);
    }
}
LAW(line_box_0, "intersect_line_aabb", "reported points are in the rectangle; none are reported exactly when the line misses it (line to the upper right)") { line_box<0>(I, out); }
LAW(line_box_1, "intersect_line_aabb", "the same for lines to the lower right") { line_box<1>(I, out); }
LAW(line_box_2, "intersect_line_aabb", "the same for lines to the lower left") { line_box<2>(I, out); }
LAW(line_box_3, "intersect_line_aabb", "the same for lines to the upper left") { line_box<3>(I, out); }
LAW(prism_array, "point_in_polygonal_prism(std::array)", "inside iff not beyond any edge plane") {
    std::array<vector3, 4> v{I.a, I.b, I.c, I.d}; auto r = point_in_polygonal_prism(v, I.e, I.f); bool w = true;
    for (int i = 0; i < 4; ++i) { auto p = v[i], q = v[(i + 1) & 3]; if (Dot(Sub(I.f, p), Cross(Sub(q, p), I.e)) > EDYN_EPSILON) w = false; } out.eqb(r, w); }
LAW(segment_box, "intersect_segment_aabb", "separating axis test over the box axes and their products with the segment") {
    auto r = intersect_segment_aabb(I.a, I.b, I.c, I.d); auto ctr = Mul(Add(I.c, I.d), scalar(0.5)), h = Mul(Sub(I.d, I.c), scalar(0.5)), m = Sub(Mul(Add(I.a, I.b), scalar(0.5)), ctr), l = Mul(Sub(I.b, I.a), scalar(0.5));
    bool w = true; for (int i = 0; i < 3; ++i) if (Abs(m[i]) > h[i] + Abs(l[i])) w = false;
    for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; if (Abs(m[j] * l[k] - m[k] * l[j]) > h[j] * (Abs(l[k]) + EDYN_EPSILON) + h[k] * (Abs(l[j]) + EDYN_EPSILON)) w = false; }
    out.eqb(r, w); }
LAW(ray_cylinder, "intersect_ray_cylinder", "the reported fractions are where the ray is at radius distance from the axis; misses are classified by the line distance") {
    auto q = unit(I.q);
    for (int i = 0; i < 3; ++i) {
        auto l0 = I.b, l1 = I.c; auto p0 = World(l0, I.a, q), p1 = World(l1, I.a, q); scalar fi = 0, fo = 0;
        auto r = intersect_ray_cylinder(p0, p1, I.a, q, I.s, I.t, AX[i], fi, fo);
        auto d = Sub(l1, l0), e = Mul(Axis(i), -2 * I.t); auto x = Cross(d, e);
        auto par = !(Sq(x) > EDYN_EPSILON);
        auto gap = Dot(l0, x); auto dist2 = gap * gap / Sq(x);
        auto far_ = dist2 > I.s * I.s;
        int k = par ? 0 : (far_ ? 1 : 2); out.eqi(size_t(r.kind), k);
        auto rad = [&](scalar s) { auto p = Add(l0, Mul(d, s)); return Sq(p) - Dot(p, Axis(i)) * Dot(p, Axis(i)) - I.s * I.s; };
        if (r.kind == intersect_ray_cylinder_result::kind::intersects) { out.eq(rad(fi), 0); out.eq(rad(fo), 0); out.eq(r.dist_sqr, dist2); out.eq(Dot(r.normal, r.normal), dist2);
            out.eq((fo - fi) * (fo - fi) * Sq(x), 4 * (I.s * I.s - dist2) * Dot(e, e)); }
        else { for (int j = 0; j < 5; ++j) out.eq(0, 0); }
    } }
LAW(ray_sphere, "intersect_ray_sphere", "first hit on the sphere, or the start when inside; misses exactly when pointing away or passing by") {
    scalar t = 0; auto r = intersect_ray_sphere(I.a, I.b, I.c, I.s, t); auto d = Sub(I.b, I.a), m = Sub(I.a, I.c); auto A = Sq(d), B = Dot(m, d), C = Sq(m) - I.s * I.s;
    out.eqb(r, !((C > 0 && B > 0) || B * B - A * C < 0));
    if (r) { auto x = (-B - std::sqrt(B * B - A * C)) / A; out.eq(t, x > 0 ? x : scalar(0)); } else out.eq(0, 0); }
LAW(segment_triangle, "intersect_segment_triangle", "the plane hit is within the segment and on the inner side of all three edges") {
    std::array<vector3, 3> v{I.a, I.b, I.c}; scalar t = 0; auto r = intersect_segment_triangle(I.d, I.e, v, I.f, t); auto d = Dot(Sub(I.e, I.d), I.f), e = Dot(Sub(I.a, I.d), I.f);
    auto par = !(Abs(d) > EDYN_EPSILON); auto w = par ? scalar(0) : e / d; bool ok = !(par && Abs(e) > EDYN_EPSILON) && !(w < 0) && !(w > 1);
    auto p = Add(I.d, Mul(Sub(I.e, I.d), w)); bool in = true; for (int i = 0; i < 3; ++i) { auto a = v[i], b = v[(i + 1) % 3]; if (Dot(Cross(I.f, Sub(b, a)), Sub(p, a)) < 0) in = false; }
    out.eqb(r, ok && in); if (r) out.eq(t, w); else out.eq(0, 0); }
LAW(minkowski, "edges_generate_minkowski_face", "arcs cross: each plane separates the other arc's ends, same hemisphere") {
    auto c = -Dot(I.c, I.e), d = -Dot(I.d, I.e), a = Dot(I.a, I.f), b = Dot(I.b, I.f); auto r = edges_generate_minkowski_face(I.a, I.b, I.c, I.d, I.e, I.f);
    out.eqb(r, c * d < 0 && a * b < 0 && c * b > 0); }
LAW(support_vertices, "support_point_vertices", "the reported projection is the largest and belongs to the reported vertex") {
    std::array<vector3, 4> v{I.a, I.b, I.c, I.d}; size_t idx = 0; scalar pr = 0; support_point_vertices(v, I.e, idx, pr);
    auto m = Dot(I.a, I.e); for (int i = 1; i < 4; ++i) { auto x = Dot(v[i], I.e); if (x > m) m = x; } out.eq(pr, m); out.eq(Dot(v[idx], I.e), m); }


template<int i> static inline void circle_line(const In &I, Out &out) {
    auto q = unit(I.q); auto r = I.s, th = I.t; auto l0 = I.b, l1 = I.c; auto p0 = World(l0, I.a, q), p1 = World(l1, I.a, q);
    size_t n = 0; scalar s0 = 0, s1 = 0; vector3 c0{}, k0{}, c1{}, k1{}, nm{};
    auto d2 = closest_point_circle_line(I.a, q, r, AX[i], p0, p1, n, s0, c0, k0, s1, c1, k1, nm, th);
    auto v = Sub(l1, l0); constexpr int x = (i + 1) % 3, y = (i + 2) % 3; auto vl = std::sqrt(v[x] * v[x] + v[y] * v[y]);
    auto ax = Rot(q, Axis(i)); auto dir = Sub(p1, p0);
    auto B = v[x] * l0[x] + v[y] * l0[y], A = v[x] * v[x] + v[y] * v[y], C = l0[x] * l0[x] + l0[y] * l0[y] - r * r; auto D = B * B - A * C;
    auto par = vl > EDYN_EPSILON && Abs(v[i] / vl) * (2 * r) < th;
    out.eqb(n == 2, par && !(D < 0) && D > EDYN_EPSILON); out.eqb(n == 0, false);
    auto touch = par && !(D < 0) && !(D > EDYN_EPSILON); // within tolerance of tangency
    out.eq(k0, Add(p0, Mul(dir, s0))); out.eq(Dot(Sub(c0, I.a), ax), 0); out.eq(touch ? r * r : Sq(Sub(c0, I.a)), r * r);
    if (n == 2) { out.eq(k1, Add(p0, Mul(dir, s1))); out.eq(Dot(Sub(c1, I.a), ax), 0); out.eq(Sq(Sub(c1, I.a)), r * r); }
    else { out.eq(vector3_zero, vector3_zero); out.eq(0, 0); out.eq(0, 0); }
    auto e0 = Sq(Sub(c0, k0)), e1 = Sq(Sub(c1, k1));
    // Line through the center along the axis (within tolerance): the distance is the radius.
    auto axial = !par && l0[x] * l0[x] + l0[y] * l0[y] <= EDYN_EPSILON && l1[x] * l1[x] + l1[y] * l1[y] <= EDYN_EPSILON;
    out.eq(d2, axial ? r * r : (n == 2 && e1 < e0 ? e1 : e0));
}
LAW(circle_line_x, "closest_point_circle_line", "circle points lie on the circle, line points on the line at the reported parameters, the value is the smallest squared distance, two points exactly for a crossing parallel line") { circle_line<0>(I, out); }
LAW(circle_line_y, "closest_point_circle_line", "same, circle around the y axis") { circle_line<1>(I, out); }
LAW(circle_line_z, "closest_point_circle_line", "same, circle around the z axis") { circle_line<2>(I, out); }
template<int i> static inline void circle_axial_line(const In &I, Out &out) {
    auto r = I.s; constexpr int x = (i + 1) % 3, y = (i + 2) % 3; quaternion q{0, 0, 0, 1};
    for (int k = 0; k < 4; ++k) {
        vector3 l0{}; l0[i] = I.t; scalar w = k & 1 ? -2 : 2; l0[k & 2 ? x : y] = w; auto l1 = l0; l1[i] = I.t + 3; size_t n = 0; scalar s0 = 0, s1 = 0; vector3 c0{}, k0{}, c1{}, k1{}, nm{};
        if (k == 1) continue; // atan2 of the negative axis is not folded
        if (r > 1) { auto d2 = closest_point_circle_line(vector3_zero, q, r, AX[i], l0, l1, n, s0, c0, k0, s1, c1, k1, nm, I.u);
            vector3 e{}, f{}; e[k & 2 ? x : y] = w > 0 ? r : -r; f[k & 2 ? x : y] = w; out.eqi(n, 1); out.eq(c0, e); out.eq(k0, f); out.eq(d2, (r - 2) * (r - 2)); }
        else { for (int j = 0; j < 8; ++j) out.eq(0, 0); }
    }
}
LAW(circle_axial_x, "closest_point_circle_line", "a line along the axis is closest to the circle where the circle is closest to the line's foot point") { circle_axial_line<0>(I, out); }
LAW(circle_axial_y, "closest_point_circle_line", "same, circle around the y axis") { circle_axial_line<1>(I, out); }
LAW(circle_axial_z, "closest_point_circle_line", "same, circle around the z axis") { circle_axial_line<2>(I, out); }
