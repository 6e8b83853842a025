#include "ref.h"
#include "sla_overloads.h"
PROPERTY("C17", "s2tp ds2tp tp2s dtp2s v2tp dv2tp tp2v dtp2v tps2c dtps2c tpv2c dtpv2c",
    "the star is not at the tangent point (or the plate coordinates are not zero)")
using namespace ref;

/// north and east directions of the tangent plane at (ra, dec), dec possibly over the pole
struct Plane { V t, e, n; };
static Plane plane(ld ra, ld dec) { return {dir(ra, dec), {-sinl(ra), cosl(ra), 0}, {-cosl(ra) * sinl(dec), -sinl(ra) * sinl(dec), cosl(dec)}}; }
static Plane plane(const V& v) {
    const ld r = hypotl(v.x, v.y);
    if (r == 0) return {v, {0, 1, 0}, {-v.z, 0, 0}};
    return {v, {-v.y / r, v.x / r, 0}, {-v.x * v.z / r, -v.y * v.z / r, r}};
}
static V deproject(const Plane& p, ld xi, ld eta) { return unit(p.t + xi * p.e + eta * p.n); }

template <class T> static T plate(Gen& g, double big = 5) {
    return g.irange(0, 5)? ov::real<T>(g, -2, 2, {0, 1, -1, 0.01, 1e-6, 1e-3}): (T) g.logmag(-12, big);
}
/// tangent points and stars: independent, close together, at right angles, opposite
template <class T> static void star_pair(Gen& g, T& ra, T& dec, T& ra0, T& dec0) {
    ra0 = ov::angle<T>(g, g.chance(1, 4)? 20: 6.283185307179586); dec0 = ov::lat<T>(g);
    ra = ov::angle<T>(g, g.chance(1, 4)? 20: 6.283185307179586); dec = ov::lat<T>(g);
    switch (g.irange(0, 6)) {
    case 1: { const V v = deproject(plane(ra0, dec0), g.logmag(-9, 1), g.logmag(-9, 1)); ra = (T) lon(v); dec = (T) lat(v); break; }
    case 2: { // nearly 90 degrees away
        const ld a = g.angle(), d = HALF_PI + (g.chance(1, 2)? (ld) g.logmag(-12, -1): (ld) (g.pick({1, -1}) * (1e-6 + g.logmag(-12, -6.5))));
        const Plane p = plane(ra0, dec0);
        const V v = cosl(d) * p.t + sinl(d) * (cosl(a) * p.e + sinl(a) * p.n); ra = (T) lon(v); dec = (T) lat(v); break; }
    case 3: { const V v = deproject(plane(ra0, dec0), g.logmag(-9, 1), g.logmag(-9, 1)); ra = (T) lon(-1 * v); dec = (T) lat(-1 * v); break; }
    case 4: ra = ra0; break;
    case 5: // a few of the smallest possible steps from 90 degrees, where every intermediate result is exact or relatively accurate
        ra0 = 0; dec0 = 0; ra = (T) 1.5707963267948966L;
        if (g.chance(1, 2)) { for (int k = g.irange(-20, 20); k; k += k < 0? 1: -1) ra = std::nextafter(ra, k < 0? (T) 0: (T) 4); }
        else ra += (T) g.logmag(-9, -5);
        if (g.chance(1, 3)) ra = -ra;
        break;
    }
    g.note("ra", ra); g.note("dec", dec); g.note("ra0", ra0); g.note("dec0", dec0);
}
template <class T> static void check_projection(Gen& g, const V& star, const Plane& p, sla::TPPStatus st, T xi, T eta, ld slack, ld scale) {
    const ld e = ov::eps<T>(), den = dot(star, p.t), tiny = 1e-6L, margin = slack * e * scale;
    auto near = [&](ld x) { return fabsl(den - x) <= margin + tiny * e; };
    if (!near(tiny) && !near(0) && !near(-tiny)) {
        const sla::TPPStatus want = den > tiny? sla::TPP_OK: den >= 0? sla::TPP_TOO_FAR: den > -tiny? sla::TPP_ASTAR_ON_TP: sla::TPP_ASTAR_TOO_FAR;
        REQUIRE(st == want, "status %d, expected %d (cosine of the distance from the axis %.6Lg)", (int) st, (int) want, den);
        const ld d = want == sla::TPP_TOO_FAR? tiny: want == sla::TPP_ASTAR_ON_TP? -tiny: den;
        const ld wx = dot(star, p.e) / d, wy = dot(star, p.n) / d;
        if (d == den) {
            if (margin < fabsl(d) / 4) {
                CLOSE(xi, wx, 2 * margin * (1 + fabsl(wx)) / fabsl(d), "xi"); CLOSE(eta, wy, 2 * margin * (1 + fabsl(wy)) / fabsl(d), "eta");
            }
        } else { CLOSE(xi, wx, 2 * margin / tiny + 8 * e * fabsl(wx), "xi in a dubious case"); CLOSE(eta, wy, 2 * margin / tiny + 8 * e * fabsl(wy), "eta in a dubious case"); }
        g.classify(want == sla::TPP_OK? "in front": want == sla::TPP_ASTAR_TOO_FAR? "behind": want == sla::TPP_TOO_FAR? "too far": "antistar near the plane");
    } else {
        // the status may go either way, but the coordinates must be the ones that belong to it
        g.classify("at a threshold");
        const ld nx = dot(star, p.e), ny = dot(star, p.n);
        REQUIRE(st >= sla::TPP_OK && st <= sla::TPP_ASTAR_TOO_FAR, "status %d", (int) st);
        if (st == sla::TPP_TOO_FAR || st == sla::TPP_ASTAR_ON_TP) {
            const ld d = st == sla::TPP_TOO_FAR? tiny: -tiny;
            CLOSE(xi, nx / d, 2 * margin / tiny + 8 * e * fabsl(nx / d), "xi with status %d", (int) st);
            CLOSE(eta, ny / d, 2 * margin / tiny + 8 * e * fabsl(ny / d), "eta with status %d", (int) st);
        } else {
            const ld sgn = st == sla::TPP_OK? 1: -1;
            REQUIRE(fabsl(nx) <= 4 * margin || (xi > 0) == (sgn * nx > 0), "sign of xi %.9g with status %d", (double) xi, (int) st);
            REQUIRE(fabsl(ny) <= 4 * margin || (eta > 0) == (sgn * ny > 0), "sign of eta %.9g with status %d", (double) eta, (int) st);
        }
    }
    REQUIRE(std::isfinite(xi) && std::isfinite(eta), "coordinates %.9g %.9g", (double) xi, (double) eta);
}
template <class T> static void sph_projection(Gen& g) {
    T ra, dec, ra0, dec0;
    star_pair<T>(g, ra, dec, ra0, dec0);
    const sla::Spherical<T> star{ra, dec}, tan{ra0, dec0};
    T xi = (T) 7e7, eta = (T) 7e7;
    const auto st = ov::s2tp(star, tan, xi, eta);
    REQUIRE(star.get_ra() == ra && star.get_dec() == dec && tan.get_ra() == ra0 && tan.get_dec() == dec0, "arguments changed");
    const bool exact = ra0 == 0 && dec0 == 0 && std::fabs(ra) < 2;
    check_projection<T>(g, dir(ra, dec), plane(ra0, dec0), st, xi, eta, 8 + fabsl((ld) ra - ra0), exact? fabsl(cosl(ra) * cosl(dec)): 1);
    // and back again
    if (st == sla::TPP_OK && std::fabs(xi) < 1e3 && std::fabs(eta) < 1e3) {
        sla::Spherical<T> back{(T) 7e7, (T) 7e7};
        ov::tp2s(xi, eta, tan, back);
        const ld far = 1 + (ld) xi * xi + (ld) eta * eta;
        CLOSE(sep(dir(back.get_ra(), back.get_dec()), dir(ra, dec)), 0, ov::eps<T>() * (20 + 3 * fabsl(ra) + 3 * fabsl(ra0)) * sqrtl(far), "star after projection and deprojection");
    }
    g.trivial(ra == ra0 && dec == dec0);
}
LAW(spherical_projection, 700000) { if (g.chance(1, 3)) { g.classify("float"); sph_projection<float>(g); } else sph_projection<double>(g); }

/// directions a rounding error away from an axis or a coordinate plane are often put exactly on it
template <class T> static void tovec(Gen& g, const V& v, T* o) { const bool snap = g.chance(1, 2) && hypotl(v[0], v[1]) > 0.1L; for (int i = 0; i < 3; i++) o[i] = snap && fabsl(v[i]) < 2 * ov::eps<T>()? (T) 0: (T) v[i]; }
template <class T> static void cart_projection(Gen& g) {
    T ra, dec, ra0, dec0;
    star_pair<T>(g, ra, dec, ra0, dec0);
    T s[3], t[3];
    tovec(g, dir(ra, dec), s); tovec(g, dir(ra0, dec0), t);
    if (g.chance(1, 12)) { t[0] = t[1] = 0; t[2] = g.pick({(T) 1, (T) -1}); g.classify("tangent at a pole"); }
    if (g.chance(1, 12)) { s[0] = s[1] = 0; s[2] = g.pick({(T) 1, (T) -1}); g.classify("star at a pole"); }
    bool exact = false;
    if (g.chance(1, 8)) { exact = true; t[0] = 1; t[1] = t[2] = 0; s[0] = g.chance(1, 3)? (T) g.logmag(-9, -5): (T) (1e-6 * g.pick({1, -1}) * (1 + g.pick({1e-5, -1e-5, 0.1, -0.1}))); g.classify("tangent on the x axis"); }
    // the star vector may have any length
    const double k = g.chance(1, 3)? std::fabs(g.logmag(-2, 2)): 1;
    for (int i = 0; i < 3; i++) s[i] = (T) (s[i] * k);
    g.notev("star", s, 3); g.notev("tangent", t, 3);
    if (norm(vec(s)) == 0) g.discard();
    T xi = (T) 7e7, eta = (T) 7e7;
    const T cs[3] = {s[0], s[1], s[2]}, ct[3] = {t[0], t[1], t[2]};
    const auto st = ov::v2tp(s, t, xi, eta);
    for (int i = 0; i < 3; i++) REQUIRE(s[i] == cs[i] && t[i] == ct[i], "arguments changed");
    check_projection<T>(g, vec(s), plane(vec(t)), st, xi, eta, 10, exact? fabsl((ld) s[0]): norm(vec(s)));
    if (st == sla::TPP_OK && std::fabs(xi) < 1e3 && std::fabs(eta) < 1e3) {
        T b[3] = {7, 7, 7};
        ov::tp2v(xi, eta, t, b);
        const ld far = 1 + (ld) xi * xi + (ld) eta * eta;
        CLOSE(sep(vec(b), vec(s)), 0, ov::eps<T>() * 30 * sqrtl(far), "star after projection and deprojection");
    }
    g.trivial(ra == ra0 && dec == dec0);
}
LAW(cartesian_projection, 700000) { if (g.chance(1, 3)) { g.classify("float"); cart_projection<float>(g); } else cart_projection<double>(g); }

template <class T> static void sph_deprojection(Gen& g) {
    const T ra0 = ov::angle<T>(g, g.chance(1, 4)? 20: 6.283185307179586), dec0 = ov::lat<T>(g), xi = plate<T>(g), eta = plate<T>(g);
    g.note("ra0", ra0); g.note("dec0", dec0); g.note("xi", xi); g.note("eta", eta);
    const sla::Spherical<T> tan{ra0, dec0};
    sla::Spherical<T> p{(T) 7e7, (T) 7e7};
    ov::tp2s(xi, eta, tan, p);
    REQUIRE(tan.get_ra() == ra0 && tan.get_dec() == dec0, "tangent changed");
    const ld e = ov::eps<T>();
    CLOSE(sep(dir(p.get_ra(), p.get_dec()), deproject(plane(ra0, dec0), xi, eta)), 0, e * (12 + 2 * fabsl((ld) ra0)), "deprojected direction");
    REQUIRE(p.get_ra() >= 0 && p.get_ra() <= TWO_PI + 4 * e, "right ascension %.9g outside 0..2pi", (double) p.get_ra());
    REQUIRE(std::fabs(p.get_dec()) <= HALF_PI + 2 * e, "declination %.9g outside +-pi/2", (double) p.get_dec());
    g.trivial(xi == 0 && eta == 0);
}
LAW(spherical_deprojection, 500000) { if (g.chance(1, 3)) { g.classify("float"); sph_deprojection<float>(g); } else sph_deprojection<double>(g); }

template <class T> static void cart_deprojection(Gen& g) {
    const T ra0 = ov::angle<T>(g), dec0 = ov::lat<T>(g), xi = plate<T>(g), eta = plate<T>(g);
    T t[3], p[3] = {7, 7, 7};
    tovec(g, dir(ra0, dec0), t);
    if (g.chance(1, 10)) { t[0] = t[1] = 0; t[2] = g.pick({(T) 1, (T) -1}); g.classify("tangent at a pole"); }
    g.notev("tangent", t, 3); g.note("xi", xi); g.note("eta", eta);
    const T ct[3] = {t[0], t[1], t[2]};
    ov::tp2v(xi, eta, t, p);
    for (int i = 0; i < 3; i++) REQUIRE(t[i] == ct[i], "tangent changed");
    const V w = deproject(plane(vec(t)), xi, eta);
    for (int i = 0; i < 3; i++) CLOSE(p[i], w[i], 12 * ov::eps<T>(), "component %d", i);
    g.trivial(xi == 0 && eta == 0);
}
LAW(cartesian_deprojection, 500000) { if (g.chance(1, 3)) { g.classify("float"); cart_deprojection<float>(g); } else cart_deprojection<double>(g); }

template <class T> static void centre_case(Gen& g, T& xi, T& eta, T& ra, T& dec) {
    ra = ov::angle<T>(g); dec = ov::lat<T>(g); xi = plate<T>(g, 2); eta = plate<T>(g, 2);
    switch (g.irange(0, 4)) {
    case 1: { // a field that has a solution, near a pole
        const ld d0 = (ld) g.pick({1, -1}) * (HALF_PI - fabsl((ld) g.logmag(-6, 0))), r0 = g.angle();
        const V v = deproject(plane(r0, d0), xi, eta); ra = (T) lon(v); dec = (T) lat(v); break; }
    case 2: { // near the edge of solvability: tan(dec) = sqrt(1 + eta^2) / |xi|
        if (xi == 0) break;
        dec = (T) (g.pick({1, -1}) * atan2l(sqrtl(1 + (ld) eta * eta), fabsl((ld) xi)) + (ld) g.logmag(-12, -1)); break; }
    case 3: { // near the change from one to two: |sin(dec)| sqrt(1 + xi^2 + eta^2) = 1
        dec = (T) (g.pick({1, -1}) * asinl(1 / sqrtl(1 + (ld) xi * xi + (ld) eta * eta)) + (ld) g.logmag(-12, -1)); break; }
    }
    if (fabsl((ld) dec) > HALF_PI) dec = (T) copysignl(3 - fabsl((ld) dec), dec);
    g.note("xi", xi); g.note("eta", eta); g.note("ra", ra); g.note("dec", dec);
}
/// expected number of useful solutions; -1 at a threshold. sd, cd: sine and cosine of the star's declination
static int expected_count(ld xi, ld eta, ld sd, ld cd, ld e, ld& tol) {
    const ld y1 = 1 + eta * eta, p = cd * cd * y1, q = sd * sd * xi * xi, r2 = p - q, sdf = fabsl(sd) * sqrtl(y1 + xi * xi);
    if (fabsl(r2) <= 60 * e * (p + q) + 1e-30L) return -1;
    if (r2 < 0) return 0;
    // dec of the centre solves sin(d0 + atan eta) = sdf / sqrt(1 + eta^2)
    tol = 40 * e * (1 + (p + q) / sqrtl(r2 * (r2 + xi * xi)));
    if (fabsl(sdf - 1) <= 60 * e * (1 + fabsl(eta) + (p + q) / sqrtl(r2))) return -2;
    const ld be = atanl(eta), k = asinl(std::fmin(1.0L, sdf / sqrtl(y1))) * (sd < 0? -1: 1);
    const ld d1 = k - be, d2 = PI - k - be;
    const int in = (fabsl(remainderl(d1, TWO_PI)) <= HALF_PI) + (fabsl(remainderl(d2, TWO_PI)) <= HALF_PI);
    return in == 1? 1: 2;
}
template <class T> static void centre_sph(Gen& g) {
    T xi, eta, ra, dec;
    centre_case<T>(g, xi, eta, ra, dec);
    const sla::Spherical<T> star{ra, dec};
    sla::Spherical<T> s[2] = {{(T) 7e7, (T) 7e7}, {(T) 7e7, (T) 7e7}};
    const int n = ov::tps2c(xi, eta, star, s[0], s[1]);
    ld tol = 0;
    const ld e = ov::eps<T>();
    const int want = expected_count(xi, eta, sinl(dec), cosl(dec), e, tol);
    REQUIRE(n >= 0 && n <= 2, "%d solutions", n);
    if (want == -1) { g.classify("at the edge of solvability"); return; }
    if (want >= 0) REQUIRE(n == want, "%d useful tangent points, expected %d", n, want); else REQUIRE(n > 0, "no solution although there are two");
    g.classify(n == 0? "none": n == 1? "one": "two");
    if (!n) return;
    for (int i = 0; i < 2; i++) {
        const ld a = s[i].get_ra(), d = s[i].get_dec();
        REQUIRE(a >= 0 && a <= TWO_PI + 4 * e && fabsl(d) <= PI + 4 * e, "solution %d out of range: %.9Lg %.9Lg", i + 1, a, d);
        CLOSE(sep(deproject(plane(a, d), xi, eta), dir(ra, dec)), 0, tol + e * 2 * fabsl((ld) ra), "star reproduced by solution %d", i + 1);
    }
    if (want == 1) {
        REQUIRE(fabsl((ld) s[0].get_dec()) <= HALF_PI + tol, "the useful solution is over the pole");
        REQUIRE(fabsl((ld) s[1].get_dec()) >= HALF_PI - tol, "the second solution is not over the pole");
    }
    // the two are different tangent points
    const ld cd = cosl(dec), sd = sinl(dec), r2 = cd * cd * (1 + (ld) eta * eta) - sd * sd * (ld) xi * xi;
    if (r2 > 1e-4L) REQUIRE(maxdiff(plane(s[0].get_ra(), s[0].get_dec()).n, plane(s[1].get_ra(), s[1].get_dec()).n) > 1e-4L || maxdiff(plane(s[0].get_ra(), s[0].get_dec()).t, plane(s[1].get_ra(), s[1].get_dec()).t) > 1e-4L || fabsl(pbt::angdiff(s[0].get_ra(), s[1].get_ra())) > 1e-4L, "both solutions are the same");
    g.trivial(xi == 0 && eta == 0);
}
LAW(plate_centre_spherical, 700000) { if (g.chance(1, 3)) { g.classify("float"); centre_sph<float>(g); } else centre_sph<double>(g); }
template <class T> static void centre_cart(Gen& g) {
    T xi, eta, ra, dec;
    centre_case<T>(g, xi, eta, ra, dec);
    T p[3], s[2][3] = {{7, 7, 7}, {7, 7, 7}};
    tovec(g, dir(ra, dec), p);
    g.notev("star", p, 3);
    const ld rxy = hypotl(p[0], p[1]), e = ov::eps<T>();
    if (rxy < (sizeof(T) == 4? 1e-7L: 1e-16L)) { g.classify("star at a pole"); }
    const T cp[3] = {p[0], p[1], p[2]};
    const int n = ov::tpv2c(xi, eta, p, s[0], s[1]);
    for (int i = 0; i < 3; i++) REQUIRE(p[i] == cp[i], "star changed");
    REQUIRE(n >= 0 && n <= 2, "%d solutions", n);
    if (rxy < (sizeof(T) == 4? 1e-6L: 1e-15L)) return;
    ld tol = 0;
    const int want = expected_count(xi, eta, p[2], rxy, e, tol);
    if (want == -1) { g.classify("at the edge of solvability"); return; }
    if (want >= 0) REQUIRE(n == want, "%d useful tangent points, expected %d", n, want); else REQUIRE(n > 0, "no solution although there are two");
    g.classify(n == 0? "none": n == 1? "one": "two");
    if (!n) return;
    sla::Spherical<T> q[2];
    ov::tps2c(xi, eta, sla::Spherical<T>{ra, dec}, q[0], q[1]);
    for (int i = 0; i < 2; i++) {
        const V v = vec(s[i]), u = dir(q[i].get_ra(), q[i].get_dec());
        CLOSE(norm(v), 1, tol, "length of solution %d", i + 1);
        // the spherical form says whether it is over the pole
        const bool over = fabsl((ld) q[i].get_dec()) > HALF_PI;
        Plane pl = plane(v);
        if (over) { pl.e = -1 * pl.e; pl.n = -1 * pl.n; }
        const ld rv = hypotl(v.x, v.y);
        CLOSE(sep(deproject(pl, xi, eta), vec(p)), 0, tol * (1 + 1 / std::fmax(rv, 1e-18L)), "star reproduced by solution %d", i + 1);
        CLOSE(sep(u, v), 0, 3 * tol + e * 4 * fabsl((ld) ra) + (sizeof(T) == 4? 2e-6L: 4e-15L) * (tol / e), "spherical and Cartesian forms of solution %d", i + 1);
    }
    g.trivial(xi == 0 && eta == 0);
}
LAW(plate_centre_cartesian, 700000) { if (g.chance(1, 3)) { g.classify("float"); centre_cart<float>(g); } else centre_cart<double>(g); }
