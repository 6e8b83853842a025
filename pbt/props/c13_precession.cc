#include "prec_ref.h"
#include "slalib.h"
PROPERTY("C13", "prec precl prebn preces",
    "the two epochs differ by more than a thousandth of a year; for coordinates, the direction is off the pole as well")
using namespace ref;

static double epoch(Gen& g, double lo, double hi) { return g.real(lo, hi, {1850, 1875, 1900, 1950, 1960, 1975, 1984, 2000, 2000.5, 2050, 2100, 1000, 3000, 0, -1}); }
static void epochs(Gen& g, double lo, double hi, double& a, double& b) {
    a = epoch(g, lo, hi);
    switch (g.irange(0, 5)) {
    case 0: b = a; break;
    case 1: b = a + g.logmag(-9, 1); break;
    default: b = epoch(g, lo, hi);
    }
    g.note("ep0", a); g.note("ep1", b);
}
typedef void (*Fn)(double, double, sla::Matrix<double>);
static void matrix_law(Gen& g, Fn f, const PModel& m, double lo, double hi, ld per_year2) {
    double a, b;
    epochs(g, lo, hi, a, b);
    sla::Matrix<double> p, q;
    memset(p, 0x7f, sizeof p); memset(q, 0x7f, sizeof q);
    f(a, b, p);
    ld tol;
    const M want = prec_matrix(m, a, b, &tol), got = mat(p);
    REQUIRE(maxdiff(got, want) <= tol, "matrix differs from the published angles by %.3Lg (allowed %.3Lg)", maxdiff(got, want), tol);
    REQUIRE(orth(got) <= 12 * EPS && fabsl(det(got) - 1) <= 12 * EPS, "not a proper rotation: %.3Lg, determinant %.20Lg", orth(got), det(got));
    if (a == b) REQUIRE(maxdiff(got, M{}) == 0, "equal epochs do not give the identity: off by %.3Lg", maxdiff(got, M{}));
    f(b, a, q);
    const ld inv = maxdiff(mat(q) * got, M{}), span = fabsl(a - 2000) + fabsl(b - 2000);
    REQUIRE(inv <= 30 * EPS + tol + 1e-12L * fabsl(a - b) + per_year2 * span * span * span, "there and back differs from the identity by %.3Lg", inv);
    g.trivial(std::fabs(a - b) < 1e-3);
}
LAW(fk5_matrix, 700000) { matrix_law(g, sla::prec, iau76(), 0, 4000, 1e-21L); }
LAW(fk5_matrix_far, 300000) { matrix_law(g, sla::prec, iau76(), -8000, 12000, 1); }
LAW(longterm_matrix, 700000) { matrix_law(g, sla::precl, simon94(), -1000, 5000, 1e-15L); }
LAW(longterm_matrix_far, 300000) { matrix_law(g, sla::precl, simon94(), -15000, 15000, 1); }
LAW(fk4_matrix, 700000) { matrix_law(g, sla::prebn, newcomb(), 0, 4000, 1e-21L); }
LAW(fk4_matrix_far, 300000) { matrix_law(g, sla::prebn, newcomb(), -8000, 12000, 1); }

LAW(models_agree, 300000) {
    // the three theories differ by their documented errors only; Newcomb's rate is about 1.1"/century off in longitude
    double a, b;
    epochs(g, 1700, 2300, a, b);
    sla::Matrix<double> p, q, r;
    sla::prec(a, b, p); sla::precl(a, b, q); sla::prebn(a, b, r);
    const ld d = fabsl(a - b) / 100;
    REQUIRE(maxdiff(mat(p), mat(q)) <= 1e-15L + 0.7L * d * ARCSEC, "FK5 and long-term models differ by %.3Lg arcsec over %.4Lg centuries", maxdiff(mat(p), mat(q)) / ARCSEC, d);
    REQUIRE(maxdiff(mat(p), mat(r)) <= 1e-15L + 2.5L * d * ARCSEC, "FK5 and FK4 models differ by %.3Lg arcsec over %.4Lg centuries", maxdiff(mat(p), mat(r)) / ARCSEC, d);
    g.trivial(std::fabs(a - b) < 1e-3);
}
LAW(composition, 300000) {
    double a, b;
    epochs(g, 1700, 2300, a, b);
    const double c = epoch(g, 1700, 2300);
    g.note("ep2", c);
    for (Fn f : {(Fn) sla::prec, (Fn) sla::precl, (Fn) sla::prebn}) {
        sla::Matrix<double> p, q, r;
        f(a, b, p); f(b, c, q); f(a, c, r);
        const ld e = maxdiff(mat(q) * mat(p), mat(r));
        REQUIRE(e <= 1e-15L + 0.02L * ARCSEC, "two steps differ from one by %.3Lg arcsec", e / ARCSEC);
    }
    g.trivial(std::fabs(a - b) < 1e-3 || std::fabs(c - b) < 1e-3);
}
LAW(coordinates, 1200000) {
    double a, b;
    epochs(g, 0, 4000, a, b);
    const double ra = g.angle(g.chance(1, 5)? 30: 6.3), dec = g.lat();
    g.note("ra", ra); g.note("dec", dec);
    const bool fk4 = g.chance(1, 2);
    g.note("fk4", (int) fk4);
    sla::Spherical<double> pos{ra, dec};
    sla::preces(fk4? sla::CAT_FK4: sla::CAT_FK5, a, b, pos);
    ld tol;
    const V w = prec_matrix(fk4? newcomb(): iau76(), a, b, &tol) * dir(ra, dec);
    REQUIRE(pos.get_ra() >= 0 && (ld) pos.get_ra() <= TWO_PI, "right ascension %.17g out of range", pos.get_ra());
    REQUIRE(fabsl(pos.get_dec()) <= HALF_PI, "declination %.17g out of range", pos.get_dec());
    const ld c = hypotl(w.x, w.y), t = 2 * tol + 8 * EPS;
    CLOSE(pos.get_dec(), lat(w), t, "declination");
    if (t / c < 0.1L) CLOSE(pbt::angdiff(pos.get_ra(), lon(w)), 0, t / c + 8 * EPS, "right ascension %.17g", pos.get_ra());
    g.trivial(std::fabs(a - b) < 1e-3 || c < 1e-6L);
}
LAW(unsupported_system, 20000) {
    const sla::Catalogue code = g.pick({sla::CAT_NONE, sla::CAT_FC, sla::CAT_NFK, sla::CAT_FK3, sla::CAT_FK6});
    g.note("code", (int) code);
    sla::Spherical<double> pos{g.angle(), g.lat()};
    sla::preces(code, epoch(g, 1900, 2100), epoch(g, 1900, 2100), pos);
    REQUIRE(pos.get_ra() == -99 && pos.get_dec() == -99, "unsupported system gives %.17g %.17g", pos.get_ra(), pos.get_dec());
}
