#include "nut_ref.h"
#include "prec_ref.h"
#include "slalib.h"
PROPERTY("C14", "nutc nutc80 nut prenut ecmat eqecl ecleq eqeqx",
    "the date is not the fundamental epoch itself; for directions, the place is off the poles of both systems")
using namespace ref;

static double date(Gen& g, double years) {
    const double span = years * 365.25;
    double d;
    switch (g.irange(0, 3)) {
    case 0: d = 51544.5 + g.logmag(-6, std::log10(span)); break;
    case 1: d = std::floor(g.uniform(51544 - span, 51544 + span)); break;
    default: d = g.real(51544.5 - span, 51544.5 + span, {51544.5, 51544, 0, 15019.5, 33281.9, 41317, 88069, 46233});
    }
    g.note("date", d);
    g.trivial(d == 51544.5);
    return d;
}
LAW(iau1980_series, 150000) {
    const double d = date(g, g.chance(1, 4)? g.chance(1, 4)? 10000: 2000: 300);
    double p = 7e77, e = 7e77, e0 = 7e77;
    sla::nutc80(d, p, e, e0);
    const Nut n = nut80(d);
    CLOSE(p, n.psi, n.tpsi, "IAU 1980 nutation in longitude");
    CLOSE(e, n.eps, n.teps, "IAU 1980 nutation in obliquity");
    CLOSE(e0, n.eps0, n.teps0, "IAU 1980 mean obliquity");
}
LAW(sf2001_series, 100000) {
    const double d = date(g, g.chance(1, 4)? g.chance(1, 4)? 10000: 2000: 300);
    double p = 7e77, e = 7e77, e0 = 7e77;
    sla::nutc(d, p, e, e0);
    const Nut n = nut01(d);
    CLOSE(p, n.psi, n.tpsi, "SF2001 nutation in longitude");
    CLOSE(e, n.eps, n.teps, "SF2001 nutation in obliquity");
    CLOSE(e0, n.eps0, n.teps0, "SF2001 mean obliquity");
}
LAW(theories_agree, 200000) {
    const double d = date(g, 100);
    double p, e, e0, q, f, f0;
    sla::nutc(d, p, e, e0); sla::nutc80(d, q, f, f0);
    CLOSE(p, q, 0.40L * ARCSEC, "nutation in longitude of the two theories");
    CLOSE(e, f, 0.06L * ARCSEC, "nutation in obliquity of the two theories");
    CLOSE(e0, f0, 0.05L * ARCSEC, "mean obliquity of the two theories");
}
LAW(matrices, 100000) {
    const double d = date(g, g.chance(1, 4)? g.chance(1, 4)? 10000: 2000: 300);
    const Nut n = nut01(d);
    sla::Matrix<double> m, pn;
    memset(m, 0x7f, sizeof m); memset(pn, 0x7f, sizeof pn);
    sla::nut(d, m);
    const ld tol = n.tpsi + n.teps + 12 * EPS;
    REQUIRE(maxdiff(mat(m), nut_matrix(n)) <= tol, "nutation matrix off by %.3Lg", maxdiff(mat(m), nut_matrix(n)));
    REQUIRE(orth(mat(m)) <= 12 * EPS && fabsl(det(mat(m)) - 1) <= 12 * EPS, "nutation matrix is not a rotation");
    const double je = g.chance(1, 6)? g.uniform(-4000, 8000): g.real(1500, 2500, {1950, 2000, 1900, 2050});
    g.note("je", je);
    sla::prenut(je, d, pn);
    ld pt;
    const M want = nut_matrix(n) * prec_matrix(iau76(), je, 2000 + (d - 51544.5L) / 365.25L, &pt);
    REQUIRE(maxdiff(mat(pn), want) <= 2 * (tol + pt + 1e-15L * std::fabs(d - 51544.5) / 3e6L + 1e-15L), "precession/nutation matrix off by %.3Lg", maxdiff(mat(pn), want));
}
LAW(equation_of_equinoxes, 100000) {
    const double d = date(g, g.chance(1, 4)? g.chance(1, 4)? 10000: 2000: 300);
    const Nut n = nut01(d);
    const ld om = node80(d), w = n.psi * cosl(n.eps0) + (0.00264L * sinl(om) + 0.000063L * sinl(2 * om)) * ARCSEC;
    CLOSE(sla::eqeqx(d), w, n.tpsi + 1e-8L * 40 * EPS * (2 + fabsl(cy(d)) * 40) + fabsl(n.psi) * n.teps0 + fabsl(n.psi) * 8 * EPS, "equation of the equinoxes");
}
static M ecl_matrix(double d) { return rot(0, obliquity80(d)); }
LAW(ecliptic_matrix, 300000) {
    const double d = date(g, g.chance(1, 4)? g.chance(1, 4)? 12000: 3000: 300);
    sla::Matrix<double> m;
    memset(m, 0x7f, sizeof m);
    sla::ecmat(d, m);
    REQUIRE(maxdiff(mat(m), ecl_matrix(d)) <= 8 * EPS, "ecliptic matrix off by %.3Lg", maxdiff(mat(m), ecl_matrix(d)));
}
LAW(ecliptic_places, 600000) {
    const double d = date(g, g.chance(1, 4)? g.chance(1, 4)? 10000: 2000: 300);
    const double a = g.angle(g.chance(1, 5)? 30: 6.3), b = g.lat();
    g.note("lon", a); g.note("lat", b);
    ld pt;
    const M pr = prec_matrix(iau76(), 2000, 2000 + (d - 51544.5L) / 365.25L, &pt);
    const M full = ecl_matrix(d) * pr;
    const ld tol = 2 * pt + 16 * EPS;
    sla::Spherical<double> o{77, 77}, back{77, 77};
    const bool fwd = g.chance(1, 2);
    g.note("to_ecliptic", (int) fwd);
    V w;
    if (fwd) { sla::eqecl({a, b}, d, o); w = full * dir(a, b); sla::ecleq(o, d, back); }
    else { sla::ecleq({a, b}, d, o); w = transp(full) * dir(a, b); sla::eqecl(o, d, back); }
    REQUIRE(o.s_a >= 0 && (ld) o.s_a <= TWO_PI && fabsl(o.s_b) <= HALF_PI, "%.17g %.17g out of range", o.s_a, o.s_b);
    const ld c = hypotl(w.x, w.y);
    CLOSE(o.s_b, lat(w), tol, "latitude/declination");
    if (tol / c < 0.1L) CLOSE(pbt::angdiff(o.s_a, lon(w)), 0, tol / c + 4 * EPS, "longitude/right ascension %.17g", o.s_a);
    REQUIRE(maxdiff(dir(back.s_a, back.s_b), dir(a, b)) <= 2 * tol, "there and back differs by %.3Lg", maxdiff(dir(back.s_a, back.s_b), dir(a, b)));
    g.trivial(c < 1e-6L || cosl(b) < 1e-6L);
}
