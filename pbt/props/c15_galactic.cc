#include "ref.h"
#include "slalib.h"
PROPERTY("C15", "eqgal galeq galsup supgal eg50 ge50 etrms addet subet",
    "the direction is more than 1e-6 radians from the poles of both systems")
using namespace ref;

/// the published matrix, quoted to 12 decimals (B1950 pole 192.25 +27.4, node 33, carried to J2000 by the standard FK4 to FK5 transformation)
static const M J2000 = {{{-0.054875539726L, -0.873437108010L, -0.483834985808L}, {0.494109453312L, -0.444829589425L, 0.746982251810L}, {-0.867666135858L, -0.198076386122L, 0.455983795705L}}};
/// from the angles: z by P, y by Q, z by 90-R
static M b1950() { return rot(2, HALF_PI - 33 * DEG) * rot(1, 62.6L * DEG) * rot(2, 192.25L * DEG); }
/// pole at L2=47.37 B2=+6.32, origin where the equator rises through the galactic plane at L2=137.37
static M supergal() {
    const V z = dir(47.37L * DEG, 6.32L * DEG), x = dir(137.37L * DEG, 0), y = cross(z, x);
    M m;
    for (int i = 0; i < 3; i++) { m.a[0][i] = x[i]; m.a[1][i] = y[i]; m.a[2][i] = z[i]; }
    return m;
}
static const ld QUOTED = 2e-12L;   // twelve-decimal constants

static V eterms(ld be) {
    const ld T = (be - 1950) * 1.00002135903e-2L;
    const ld e = 0.01673011L - 0.00004193L * T - 0.000000126L * T * T;
    const ld ob = (84404.836L - 46.8495L * T - 0.00319L * T * T - 0.00181L * T * T * T) * ARCSEC;
    const ld pl = (1015489.951L + 6190.67L * T + 1.65L * T * T + 0.012L * T * T * T) * ARCSEC;
    const ld k = e * 20.49552L * ARCSEC;
    return {k * sinl(pl), -k * cosl(pl) * cosl(ob), -k * cosl(pl) * sinl(ob)};
}
static V add_et(const V& v, ld be) { return unit(v + eterms(be)); }
static V sub_et(const V& v, ld be) { const V e = eterms(be); return unit((1 + dot(v, e)) * v - e); }

static void place(Gen& g, double& a, double& b) {
    a = g.angle(g.chance(1, 5)? 30: 6.3); b = g.lat();
    const int k = g.irange(0, 11);
    if (k < 6) {    // poles and origins of the systems
        const M ms[3] = {J2000, b1950(), supergal()};
        M m = ms[k % 3];
        if (k >= 3) m = transp(m);
        V v = {m.a[g.irange(0, 2)][0], 0, 0};
        const int r = g.irange(0, 2);
        v = {m.a[r][0], m.a[r][1], m.a[r][2]};
        if (g.chance(1, 2)) v = -1 * v;
        a = (double) lon(v); b = (double) lat(v);
        if (g.chance(2, 3)) { a += g.logmag(-15, -2); b += g.logmag(-15, -2); }
        if (fabsl(b) > HALF_PI) b = 1.5;
    }
    g.note("lon", a); g.note("lat", b);
}
static void check(Gen& g, const sla::Spherical<double>& o, const V& w, ld tol, const char* what) {
    REQUIRE(o.s_a >= 0 && (ld) o.s_a <= TWO_PI && fabsl(o.s_b) <= HALF_PI, "%s: %.17g %.17g out of range", what, o.s_a, o.s_b);
    const ld d = maxdiff(dir(o.s_a, o.s_b), w), c = hypotl(w.x, w.y);
    REQUIRE(d <= tol, "%s: direction off by %.3Lg (allowed %.3Lg): %.17g %.17g", what, d, tol, o.s_a, o.s_b);
    g.trivial(c < 1e-6L);
}
typedef void (*Fn)(const sla::Spherical<double>&, sla::Spherical<double>&);
static void pair_law(Gen& g, Fn fwd, Fn inv, const M& m, ld tol, const char* what) {
    double a, b;
    place(g, a, b);
    sla::Spherical<double> o{77, 77}, back{77, 77}, p{77, 77};
    const bool f = g.chance(1, 2);
    g.note("forward", (int) f);
    (f? fwd: inv)({a, b}, o);
    check(g, o, unit((f? m: transp(m)) * dir(a, b)), tol, what);
    (f? inv: fwd)(o, back);
    REQUIRE(maxdiff(dir(back.s_a, back.s_b), dir(a, b)) <= 1e-10L, "%s: there and back differs by %.3Lg", what, maxdiff(dir(back.s_a, back.s_b), dir(a, b)));
    double a2, b2;
    place(g, a2, b2);
    (f? fwd: inv)({a2, b2}, p);
    const ld s0 = sep(dir(a, b), dir(a2, b2)), s1 = sep(dir(o.s_a, o.s_b), dir(p.s_a, p.s_b));
    CLOSE(s1, s0, 2 * tol + 1e-10L, "%s: separation changed", what);
    g.trivial(cosl(b) < 1e-6L || cosl(o.s_b) < 1e-6L);
}
LAW(equatorial_galactic, 700000) { pair_law(g, sla::eqgal, sla::galeq, J2000, 8 * EPS + 1e-15L, "J2000 equatorial/galactic"); }
LAW(galactic_supergalactic, 700000) { static const M m = supergal(); pair_law(g, sla::galsup, sla::supgal, m, QUOTED, "galactic/supergalactic"); }

LAW(fk4_galactic, 600000) {
    static const M m = b1950();
    double a, b;
    place(g, a, b);
    sla::Spherical<double> o{77, 77}, back{77, 77};
    if (g.chance(1, 2)) {
        sla::eg50({a, b}, o);
        check(g, o, m * sub_et(dir(a, b), 1950), QUOTED, "FK4 to galactic");
        sla::ge50(o, back);
    } else {
        sla::ge50({a, b}, o);
        check(g, o, add_et(transp(m) * dir(a, b), 1950), QUOTED, "galactic to FK4");
        sla::eg50(o, back);
    }
    REQUIRE(maxdiff(dir(back.s_a, back.s_b), dir(a, b)) <= 1e-10L, "FK4/galactic there and back differs by %.3Lg", maxdiff(dir(back.s_a, back.s_b), dir(a, b)));
    g.trivial(cosl(b) < 1e-6L || cosl(o.s_b) < 1e-6L);
}
LAW(systems_agree, 200000) {
    // the B1950 and J2000 galactic transformations describe one galactic frame: the angle between a direction and a fixed
    // inertial one is preserved, so the J2000 matrix is the B1950 one after a rotation by fifty years of precession
    double a, b;
    place(g, a, b);
    sla::Spherical<double> o{77, 77};
    sla::eqgal({a, b}, o);
    // FK4/FK5 equinox offset 0.525" and precession constant: J2000 galactic pole at 192.85948 +27.12825, theta0 122.93192
    const M iau = rot(2, -122.93192L * DEG + PI) * rot(1, HALF_PI - 27.12825L * DEG) * rot(2, 192.85948L * DEG);
    const V w = iau * dir(a, b);
    REQUIRE(maxdiff(dir(o.s_a, o.s_b), w) <= 3e-7L, "differs from the conventional J2000 galactic frame by %.3Lg", maxdiff(dir(o.s_a, o.s_b), w));
}
static double besselian(Gen& g) { const double be = g.real(1500, 2500, {1950, 1900, 1875, 1850, 2000, 2100, 1984}); g.note("be", be); return be; }
LAW(eterm_vector, 300000) {
    const double be = g.chance(1, 4)? 1950 + g.logmag(-9, 4): besselian(g);
    double et[3] = {7e77, 7e77, 7e77};
    sla::etrms(be, et);
    const V w = eterms(be);
    REQUIRE(maxdiff(vec(et), w) <= 40 * EPS * 2e-6L * (1 + fabsl(be - 1950) / 200), "E-terms of %.17g off by %.3Lg", be, maxdiff(vec(et), w));
}
LAW(eterm_places, 800000) {
    double a, b;
    place(g, a, b);
    const double be = besselian(g);
    sla::Spherical<double> o{77, 77}, back{77, 77};
    const bool add = g.chance(1, 2);
    g.note("add", (int) add);
    const V v = dir(a, b);
    if (add) { sla::addet({a, b}, be, o); sla::subet(o, be, back); } else { sla::subet({a, b}, be, o); sla::addet(o, be, back); }
    const V w = add? add_et(v, be): sub_et(v, be);
    check(g, o, w, 8 * EPS, add? "E-terms added": "E-terms removed");
    REQUIRE(maxdiff(dir(back.s_a, back.s_b), v) <= 1e-11L, "E-terms there and back differ by %.3Lg", maxdiff(dir(back.s_a, back.s_b), v));
    g.trivial(cosl(b) < 1e-6L);
}
