// Closest-feature, intersection, projection and support queries.
//@anyloop circles_..
#include "law.hpp"
#include "edyn/math/coordinate_axis.hpp"
#include "edyn/math/triangle.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
using namespace edyn;
using namespace law;

static inline scalar Clamp01(scalar x) { return x < 0 ? scalar(0) : (1 < x ? scalar(1) : x); }
static inline scalar Sq(const vector3 &v) { return Dot(v, v); }
static inline scalar Abs(scalar x) { return std::abs(x); }
static constexpr coordinate_axis AX[3] = {coordinate_axis::x, coordinate_axis::y, coordinate_axis::z};
static inline vector3 Axis(int i) { return {i == 0 ? scalar(1) : scalar(0), i == 1 ? scalar(1) : scalar(0), i == 2 ? scalar(1) : scalar(0)}; }
static inline vector3 World(const vector3 &l, const vector3 &pos, const quaternion &q) { return Add(pos, Rot(q, l)); }
// Local vector with component n along axis i and (x, y) along the two following axes.
static inline vector3 Local(int i, scalar n, scalar x, scalar y) {
    return i == 0 ? vector3{n, x, y} : (i == 1 ? vector3{y, n, x} : vector3{x, y, n});
}

// Two circles; B's frame is `rel` in A's frame.
template<int i, int j> static inline void circles(const In &I, Out &out, const quaternion &qA, const quaternion &rel, bool parallel) {
    auto qB = Ham(qA, rel); auto pB = World(I.b, I.a, qA); auto rA = I.s, rB = I.t;
    size_t n = 0; vector3 a0{}, b0{}, a1{}, b1{}, nm{};
    auto d2 = closest_point_circle_circle(I.a, qA, rA, AX[i], pB, qB, rB, AX[j], n, a0, b0, a1, b1, nm);
    auto nA = Rot(qA, Axis(i)), nB = Rot(qB, Axis(j));
    bool skip = false, touch = false; constexpr int x = (i + 1) % 3, y = (i + 2) % 3;
    auto l2 = I.b[x] * I.b[x] + I.b[y] * I.b[y];
    if (parallel) { // within tolerance of touching, the single point is only near the circles
        auto apart = l2 < (rA - rB) * (rA - rB) || l2 > (rA + rB) * (rA + rB); touch = n == 1 && !apart;
        // circles of equal radius with centres closer than the tolerance are taken as the same
        skip = l2 < EDYN_EPSILON;
    } else skip = !(Sq(Cross(nA, nB)) > EDYN_EPSILON);
    auto z = [&](scalar v) { out.eq(skip ? scalar(0) : v, 0); };
    auto w = [&](scalar v) { out.eq(skip || touch ? scalar(0) : v, 0); };
    z(n == 0 ? 1 : 0); if (!parallel) z(n == 1 ? 0 : 1);
    z(Dot(Sub(a0, I.a), nA)); w(Sq(Sub(a0, I.a)) - rA * rA); z(Dot(Sub(b0, pB), nB)); w(Sq(Sub(b0, pB)) - rB * rB); z(d2 - Sq(Sub(a0, b0)));
    bool two = n == 2; auto y2 = [&](scalar v) { out.eq(skip || !two ? scalar(0) : v, 0); };
    y2(Dot(Sub(a1, I.a), nA)); y2(Sq(Sub(a1, I.a)) - rA * rA); y2(Dot(Sub(b1, pB), nB)); y2(Sq(Sub(b1, pB)) - rB * rB); y2(d2 - Sq(Sub(a1, b1)));
}
// A quaternion that turns axis j onto axis i.
static inline quaternion turn(int j, int i) { constexpr scalar h = scalar(0.5); return j == i ? quaternion{0, 0, 0, 1} : ((j + 1) % 3 == i ? quaternion{h, h, h, h} : quaternion{-h, -h, -h, h}); }
static inline quaternion about(int i, scalar s) { auto a = Axis(i); return {a.x * s, a.y * s, a.z * s, std::sqrt(1 - s * s)}; }
template<int i, int j> static inline void apart(const In &I, Out &out) {
    // Parallel circles, the centre of B along a tangent axis of A.
    auto qA = unit(I.q), qB = Ham(qA, Ham(about(i, I.r.x), turn(j, i))); constexpr scalar R[3][2] = {{1, 2}, {7, 2}, {1, 6}};
    for (int k = 0; k < 3; ++k) for (int y = 1; y < 3; ++y) {
        auto rA = R[k][0], rB = R[k][1]; scalar v = y == 2 ? -4 : 4; vector3 o{}; o[i] = I.u; o[(i + y) % 3] = v; v = 4; auto pB = World(o, I.a, qA); size_t n = 0; vector3 a0{}, b0{}, a1{}, b1{}, nm{}; auto d2 = closest_point_circle_circle(I.a, qA, rA, AX[i], pB, qB, rB, AX[j], n, a0, b0, a1, b1, nm);
        auto gap = v > rA + rB ? v - rA - rB : (v < rA - rB ? rA - rB - v : rB - rA - v);
        out.eqi(n, 1); out.eq(d2, gap * gap + I.u * I.u);
    }
}
#define CIRC(A, B) LAW(circles_##A##B, "closest_point_circle_circle", "") { circles<A, B>(I, out, about(0, I.q.x), unit(I.r), false); } \
    LAW(coaxial_##A##B, "closest_point_circle_circle", "") { circles<A, B>(I, out, unit(I.q), Ham(about(A, I.r.x), turn(B, A)), true); }
CIRC(0, 0)
//@law circles_00, "closest_point_circle_circle", "inclined circles (axes x, x): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_00, "closest_point_circle_circle", "parallel circles (axes x, x): every reported pair lies on the two circles and the value is its squared distance")
CIRC(0, 1)
//@law circles_01, "closest_point_circle_circle", "inclined circles (axes x, y): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_01, "closest_point_circle_circle", "parallel circles (axes x, y): every reported pair lies on the two circles and the value is its squared distance")
CIRC(0, 2)
//@law circles_02, "closest_point_circle_circle", "inclined circles (axes x, z): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_02, "closest_point_circle_circle", "parallel circles (axes x, z): every reported pair lies on the two circles and the value is its squared distance")
CIRC(1, 0)
//@law circles_10, "closest_point_circle_circle", "inclined circles (axes y, x): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_10, "closest_point_circle_circle", "parallel circles (axes y, x): every reported pair lies on the two circles and the value is its squared distance")
CIRC(1, 1)
//@law circles_11, "closest_point_circle_circle", "inclined circles (axes y, y): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_11, "closest_point_circle_circle", "parallel circles (axes y, y): every reported pair lies on the two circles and the value is its squared distance")
CIRC(1, 2)
//@law circles_12, "closest_point_circle_circle", "inclined circles (axes y, z): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_12, "closest_point_circle_circle", "parallel circles (axes y, z): every reported pair lies on the two circles and the value is its squared distance")
CIRC(2, 0)
//@law circles_20, "closest_point_circle_circle", "inclined circles (axes z, x): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_20, "closest_point_circle_circle", "parallel circles (axes z, x): every reported pair lies on the two circles and the value is its squared distance")
CIRC(2, 1)
//@law circles_21, "closest_point_circle_circle", "inclined circles (axes z, y): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_21, "closest_point_circle_circle", "parallel circles (axes z, y): every reported pair lies on the two circles and the value is its squared distance")
CIRC(2, 2)
//@law circles_22, "closest_point_circle_circle", "inclined circles (axes z, z): the single pair of points lies on the two circles and the value is their squared distance")
//@law coaxial_22, "closest_point_circle_circle", "parallel circles (axes z, z): every reported pair lies on the two circles and the value is its squared distance")
LAW(apart_00, "closest_point_circle_circle", "parallel circles (axes x, x) that do not cross: the distance is the gap between them, side by side or nested") { apart<0, 0>(I, out); }
LAW(apart_01, "closest_point_circle_circle", "parallel circles (axes x, y) that do not cross: the distance is the gap between them, side by side or nested") { apart<0, 1>(I, out); }
LAW(apart_11, "closest_point_circle_circle", "parallel circles (axes y, y) that do not cross: the distance is the gap between them, side by side or nested") { apart<1, 1>(I, out); }
LAW(apart_12, "closest_point_circle_circle", "parallel circles (axes y, z) that do not cross: the distance is the gap between them, side by side or nested") { apart<1, 2>(I, out); }
LAW(apart_20, "closest_point_circle_circle", "parallel circles (axes z, x) that do not cross: the distance is the gap between them, side by side or nested") { apart<2, 0>(I, out); }
LAW(apart_22, "closest_point_circle_circle", "parallel circles (axes z, z) that do not cross: the distance is the gap between them, side by side or nested") { apart<2, 2>(I, out); }
