// Shared scaffolding of the law harnesses.  A law is a function that stores
// residuals; the analysis decides from the compiled IR, without running it,
// whether every residual is identically zero.
#pragma once
#include <cmath>
#include <array>
#include "edyn/math/vector3.hpp"
#include "edyn/math/vector2.hpp"
#include "edyn/math/vector2_3_util.hpp"
#include "edyn/math/quaternion.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/math/geom.hpp"

namespace law {
using namespace edyn;

struct In {
    vector3 a, b, c, d, e, f;
    quaternion q, r;
    matrix3x3 m, n;
    scalar s, t, u, v;
    vector2 g, h, k, l;
    scalar w[24];
};

// Residual sink.
struct Out {
    scalar *p;
    bool on = true;   // premise of the residuals that follow
    __attribute__((always_inline)) void operator()(scalar x) { *p++ = x; }
    __attribute__((always_inline)) void operator()(const vector3 &v) { *p++ = v.x; *p++ = v.y; *p++ = v.z; }
    __attribute__((always_inline)) void operator()(const vector2 &v) { *p++ = v.x; *p++ = v.y; }
    __attribute__((always_inline)) void operator()(const quaternion &v) { *p++ = v.x; *p++ = v.y; *p++ = v.z; *p++ = v.w; }
    __attribute__((always_inline)) void operator()(const matrix3x3 &m) { (*this)(m.row[0]); (*this)(m.row[1]); (*this)(m.row[2]); }
    __attribute__((always_inline)) void operator()(bool b) { *p++ = b ? 1 : 0; }

    __attribute__((always_inline)) void eq(scalar x, scalar y) { (*this)(on ? x - y : scalar(0)); }
    __attribute__((always_inline)) void eq(const vector3 &x, const vector3 &y) { eq(x.x, y.x); eq(x.y, y.y); eq(x.z, y.z); }
    __attribute__((always_inline)) void eq(const vector2 &x, const vector2 &y) { eq(x.x, y.x); eq(x.y, y.y); }
    __attribute__((always_inline)) void eq(const quaternion &x, const quaternion &y) { eq(x.x, y.x); eq(x.y, y.y); eq(x.z, y.z); eq(x.w, y.w); }
    __attribute__((always_inline)) void eq(const matrix3x3 &x, const matrix3x3 &y) { eq(x.row[0], y.row[0]); eq(x.row[1], y.row[1]); eq(x.row[2], y.row[2]); }
    __attribute__((always_inline)) void eqb(bool x, bool y) { *p++ = on ? (x ? scalar(1) : scalar(0)) - (y ? scalar(1) : scalar(0)) : scalar(0); }
    __attribute__((always_inline)) void eqi(size_t x, size_t y) { *p++ = on ? scalar(x) - scalar(y) : scalar(0); }
};

// Arbitrary unit quaternion / unit vector, as a parametrisation.
inline quaternion unit(const quaternion &q) {
    return {q.x, q.y, q.z, std::sqrt(1 - q.x * q.x - q.y * q.y - q.z * q.z)};
}
inline vector3 unit(const vector3 &v) {
    return {v.x, v.y, std::sqrt(1 - v.x * v.x - v.y * v.y)};
}

// Independent reference definitions (specification side).
inline scalar Dot(const vector3 &a, const vector3 &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline vector3 Cross(const vector3 &a, const vector3 &b) {
    return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline vector3 Sub(const vector3 &a, const vector3 &b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline vector3 Add(const vector3 &a, const vector3 &b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline vector3 Mul(const vector3 &a, scalar s) { return {a.x * s, a.y * s, a.z * s}; }
inline vector3 MulMV(const matrix3x3 &m, const vector3 &v) {
    return {Dot(m.row[0], v), Dot(m.row[1], v), Dot(m.row[2], v)};
}
inline quaternion Ham(const quaternion &p, const quaternion &q) {
    vector3 a{p.x, p.y, p.z}, b{q.x, q.y, q.z};
    vector3 v = Add(Add(Mul(b, p.w), Mul(a, q.w)), Cross(a, b));
    return {v.x, v.y, v.z, p.w * q.w - Dot(a, b)};
}
inline quaternion Conj(const quaternion &q) { return {-q.x, -q.y, -q.z, q.w}; }
// q v q*, for unit q the rotation of v by q.
inline vector3 Rot(const quaternion &q, const vector3 &v) {
    auto r = Ham(Ham(q, quaternion{v.x, v.y, v.z, 0}), Conj(q));
    return {r.x, r.y, r.z};
}
}

// LAW(name, "functions it constrains", "what it says")
#define LAW(name, subject, text) \
    extern "C" void law_##name(const law::In *__restrict in_, edyn::scalar *__restrict out_); \
    static inline __attribute__((always_inline)) void body_##name(const law::In &I, law::Out &out); \
    extern "C" void law_##name(const law::In *__restrict in_, edyn::scalar *__restrict out_) { \
        law::In I = *in_; law::Out out{out_}; body_##name(I, out); } \
    static inline __attribute__((always_inline)) void body_##name(const law::In &I, law::Out &out)
