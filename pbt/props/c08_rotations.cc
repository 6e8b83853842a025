#include "ref.h"
#include "sla_overloads.h"
#include <string>
PROPERTY("C08", "euler deuler av2m dav2m m2av dm2av",
    "at least one rotation angle is not a multiple of 2pi")
using namespace ref;

static std::string gen_order(Gen& g) {
    static const char good[] = "XYZxyz123";
    std::string s;
    const int n = g.chance(3, 4)? 3: g.irange(0, 6);
    for (int i = 0; i < n; i++) {
        if (g.chance(1, 14)) s += (char) g.pick({'0', '4', 'W', 'w', ' ', 'A', 'a', '\t', 'V', '9', '/', '[', '`', '{', '\x7f', (char) 0xd8, (char) g.irange(1, 255)});
        else s += good[g.below(9)];
    }
    return s;
}
static int axis_of(char c) {
    switch (c) {
    case 'X': case 'x': case '1': return 0;
    case 'Y': case 'y': case '2': return 1;
    case 'Z': case 'z': case '3': return 2;
    }
    return -1;
}
template <class T> void euler_law(Gen& g) {
    const std::string order = gen_order(g);
    T a[3];
    for (T& x: a) x = g.chance(1, 6)? 0: g.chance(1, 3)? ov::angle<T>(g): ov::angle<T>(g, 30);
    g.note("order", order); g.notev("angles", a, 3);
    M want;
    bool moved = false;
    for (int i = 0; i < 3 && i < (int) order.size(); i++) {
        const int ax = axis_of(order[i]);
        if (ax < 0) break;
        want = rot(ax, a[i]) * want;
        moved |= a[i] != 0;
    }
    T m[3][3];
    for (auto& r: m) for (T& x: r) x = (T) 77;
    ov::euler(order.c_str(), a[0], a[1], a[2], m);
    const M got = mat(m);
    const ld e = 8 * ov::eps<T>();
    REQUIRE(maxdiff(got, want) <= e, "Euler matrix for order \"%s\" differs from the product of elementary rotations by %.3Lg", order.c_str(), maxdiff(got, want));
    REQUIRE(orth(got) <= 2 * e && fabsl(det(got) - 1) <= 2 * e, "not a rotation: %.3Lg, det %.17Lg", orth(got), det(got));
    g.trivial(!moved);
}
LAW(euler_double, 1200000) { euler_law<double>(g); }
LAW(euler_single, 800000) { euler_law<float>(g); }

/// frame turned about unit vector u by phi: Rodrigues
static M axial(const V& v) {
    const ld phi = norm(v);
    if (phi == 0) return M{};
    const V u = (1 / phi) * v;
    const ld c = cosl(phi), s = sinl(phi);
    M m;
    const ld cr[3][3] = {{0, u.z, -u.y}, {-u.z, 0, u.x}, {u.y, -u.x, 0}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = (i == j? c: 0) + (1 - c) * u[i] * u[j] + s * cr[i][j];
    return m;
}
template <class T> void gen_axial(Gen& g, T* v) {
    V u;
    switch (g.irange(0, 4)) {
    case 0: u = {0, 0, 0}; u[g.irange(0, 2)] = g.chance(1, 2)? 1: -1; break;
    case 1: u = {(ld) g.integer(-1, 1), (ld) g.integer(-1, 1), (ld) g.integer(-1, 1)}; break;
    default: u = dir(g.angle(), g.lat());
    }
    u = unit(u);
    ld phi;
    switch (g.irange(0, 6)) {
    case 0: phi = 0; break;
    case 1: phi = std::fabs(g.logmag(sizeof(T) == 4? -15: -140, 0)); break;
    case 2: phi = PI - std::fabs(g.logmag(-8, 0)); break;
    case 3: phi = PI * g.irange(1, 4); break;
    case 4: phi = g.uniform(PI, 20); break;
    default: phi = g.uniform(0, PI);
    }
    for (int i = 0; i < 3; i++) v[i] = (T) (phi * u[i]);
}
template <class T> void axial_law(Gen& g) {
    T v[3], m[3][3];
    gen_axial(g, v);
    g.notev("axial", v, 3);
    const V v0 = vec(v);
    for (auto& r: m) for (T& x: r) x = (T) 77;
    ov::av2m(v, m);
    REQUIRE(maxdiff(vec(v), v0) == 0, "input modified");
    const M want = axial(vec(v)), got = mat(m);
    const ld phi = norm(vec(v)), e = ov::eps<T>() * (10 + 3 * phi);
    REQUIRE(maxdiff(got, want) <= e, "matrix from axial vector differs by %.3Lg, allowed %.3Lg", maxdiff(got, want), e);
    if (phi == 0) REQUIRE(maxdiff(got, M{}) == 0, "null vector must give the identity");
    REQUIRE(orth(got) <= 4 * e && fabsl(det(got) - 1) <= 4 * e, "not a rotation: %.3Lg, det %.17Lg", orth(got), det(got));
    // and back
    T w[3] = {77, 77, 77};
    ov::m2av(m, w);
    REQUIRE(maxdiff(mat(m), got) == 0, "input matrix modified");
    const ld s = std::fabs(sinl(phi));
    if (phi == 0) REQUIRE(w[0] == 0 && w[1] == 0 && w[2] == 0, "identity must give the null vector");
    else if (phi < PI && PI - phi > 30 * ov::eps<T>()) {
        for (int i = 0; i < 3; i++) CLOSE(w[i], v[i], ov::eps<T>() * (30 + 60 / std::fmax(s, phi < 1? 1: 1e-12L)) * std::fmax(phi, phi < 1? sqrtl(ov::eps<T>()): 1) + ov::eps<T>() * 8, "axial vector component %d not recovered, rotation %.17Lg", i, phi);
    }
    if (phi > PI && s > 1e-3L) REQUIRE(maxdiff(axial(vec(w)), got) <= 200 * e / s, "recovered vector is another rotation");
    REQUIRE(norm(vec(w)) <= PI * (1 + 8 * ov::eps<T>()), "recovered rotation %.17Lg exceeds pi", norm(vec(w)));
    g.trivial(phi == 0);
}
LAW(axial_double, 1200000) { axial_law<double>(g); }
LAW(axial_single, 800000) { axial_law<float>(g); }

template <class T> void to_axial(Gen& g) {          // from an arbitrary rotation matrix, not one of av2m's making
    const M R = rot(g.irange(0, 2), g.angle()) * rot(g.irange(0, 2), g.angle()) * rot(g.irange(0, 2), g.angle());
    T m[3][3], w[3] = {77, 77, 77};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = (T) R.a[i][j];
    g.notev("m", &m[0][0], 9);
    ov::m2av(m, w);
    const M got = axial(vec(w)), given = mat(m);
    const V anti = {given.a[1][2] - given.a[2][1], given.a[2][0] - given.a[0][2], given.a[0][1] - given.a[1][0]};
    const ld s = norm(anti) / 2, c = (given.a[0][0] + given.a[1][1] + given.a[2][2] - 1) / 2;
    g.trivial(s < 1e-6L);
    if (c < 0 && s < 1e-3L * (sizeof(T) == 4? 10: 1)) { g.classify("near half a turn: axis not determined"); return; }
    REQUIRE(maxdiff(got, given) <= 60 * ov::eps<T>() * (1 + (c < 0? 1 / s: 1)), "axial vector describes another rotation (%.3Lg)", maxdiff(got, given));
}
LAW(matrix_to_axial_double, 600000) { to_axial<double>(g); }
LAW(matrix_to_axial_single, 400000) { to_axial<float>(g); }
