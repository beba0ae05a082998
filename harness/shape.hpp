// Helpers shared by the shape laws.
#pragma once
#include "law.hpp"
#include "edyn/math/coordinate_axis.hpp"
#include "edyn/math/triangle.hpp"
namespace law {
static inline scalar Sq(const vector3 &v) { return Dot(v, v); }
static inline scalar Abs(scalar x) { return x < 0 ? -x : x; }
static inline scalar Max(scalar x, scalar y) { return x < y ? y : x; }
static inline scalar Min(scalar x, scalar y) { return y < x ? y : x; }
static inline scalar Neg(scalar x) { return x < 0 ? x : scalar(0); }   // zero iff x >= 0
static constexpr coordinate_axis AX[3] = {coordinate_axis::x, coordinate_axis::y, coordinate_axis::z};
static inline vector3 Axis(int i) { return {i == 0 ? scalar(1) : scalar(0), i == 1 ? scalar(1) : scalar(0), i == 2 ? scalar(1) : scalar(0)}; }
static inline vector3 World(const vector3 &l, const vector3 &pos, const quaternion &q) { return Add(pos, Rot(q, l)); }
static inline vector3 Object(const vector3 &w, const vector3 &pos, const quaternion &q) { return Rot(Conj(q), Sub(w, pos)); }
static inline scalar At(const vector3 &v, int i) { return i == 0 ? v.x : (i == 1 ? v.y : v.z); }
// Vector with component n along axis i and (x, y) along the two following axes.
static inline vector3 Local(int i, scalar n, scalar x, scalar y) {
    return i == 0 ? vector3{n, x, y} : (i == 1 ? vector3{y, n, x} : vector3{x, y, n});
}
static inline bool Same(const vector3 &a, const vector3 &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
}
