// Extended-precision reference geometry shared by the laws. Written from the definitions, not from the library.
#pragma once
#include "engine.h"

namespace ref {
using pbt::PI; using pbt::TWO_PI; using pbt::HALF_PI;
constexpr ld DEG = PI / 180, ARCSEC = PI / 648000, SEC = PI / 43200;
constexpr ld EPS = 2.220446049250313e-16L, FEPS = 1.1920929e-7L;

struct V { ld x = 0, y = 0, z = 0;
    ld& operator[](int i) { return i == 0? x: i == 1? y: z; }
    ld operator[](int i) const { return i == 0? x: i == 1? y: z; } };
inline V operator+(const V& a, const V& b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(const V& a, const V& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator*(ld k, const V& a) { return {k * a.x, k * a.y, k * a.z}; }
inline ld dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(const V& a, const V& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline ld norm(const V& a) { return std::hypot(std::hypot(a.x, a.y), a.z); }
inline V unit(const V& a) { const ld n = norm(a); return n > 0? (1 / n) * a: a; }
inline V dir(ld lon, ld lat) { return {cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)}; }
inline ld lon(const V& v) { return v.x == 0 && v.y == 0? 0: atan2l(v.y, v.x); }
inline ld lat(const V& v) { return atan2l(v.z, std::hypot(v.x, v.y)); }
inline ld sep(const V& a, const V& b) { return atan2l(norm(cross(a, b)), dot(a, b)); }

struct M { ld a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; };
inline M operator*(const M& p, const M& q) {
    M r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        r.a[i][j] = 0;
        for (int k = 0; k < 3; k++) r.a[i][j] += p.a[i][k] * q.a[k][j];
    }
    return r;
}
inline V operator*(const M& m, const V& v) {
    V r;
    for (int i = 0; i < 3; i++) r[i] = m.a[i][0] * v.x + m.a[i][1] * v.y + m.a[i][2] * v.z;
    return r;
}
inline M transp(const M& m) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = m.a[j][i]; return r; }
inline ld det(const M& m) { return dot({m.a[0][0], m.a[0][1], m.a[0][2]}, cross({m.a[1][0], m.a[1][1], m.a[1][2]}, {m.a[2][0], m.a[2][1], m.a[2][2]})); }
/// rotation of the axes by angle t about axis 0, 1 or 2: components of a fixed vector in the turned frame
inline M rot(int axis, ld t) {
    M r;
    const int j = (axis + 1) % 3, k = (axis + 2) % 3;
    r.a[j][j] = cosl(t); r.a[j][k] = sinl(t);
    r.a[k][j] = -sinl(t); r.a[k][k] = cosl(t);
    return r;
}
template <class T> M mat(const T (*m)[3]) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = m[i][j]; return r; }
template <class T> V vec(const T* v) { return {v[0], v[1], v[2]}; }
inline ld maxdiff(const M& p, const M& q) { ld d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { const ld e = std::fabs(p.a[i][j] - q.a[i][j]); if (!(e <= d)) d = e; } return d; }
inline ld maxdiff(const V& p, const V& q) { ld d = 0; for (int i = 0; i < 3; i++) { const ld e = std::fabs(p[i] - q[i]); if (!(e <= d)) d = e; } return d; }
inline ld orth(const M& m) { return maxdiff(m * transp(m), M{}); }
inline ld frac(ld x) { return x - floorl(x); }
} // ref
