#include "ref.h"
#include "slalib.h"
PROPERTY("C06", "gmst gmsta rcc dranrm",
    "the date is not within a day of J2000 (sidereal time); the observer is not at the geocentre or the date is before or after 1950-2050 (clock term)")
using namespace ref;

/// IAU 1982 GMST of the exact sum of the two parts, radians, not reduced
static ld gmst82(ld a, ld b, ld& jc) {
    jc = (a + (b - 51544.5L)) / 36525;
    const ld s = 24110.54841L + (8640184.812866L + (0.093104L - 6.2e-6L * jc) * jc) * jc;
    return (frac(a) + frac(b)) * TWO_PI + s * SEC;
}
static double gen_date(Gen& g) {
    switch (g.irange(0, 4)) {
    case 0: return g.integer(-700000, 700000, {0, 1, -1, 51544, 51545, 51543});
    case 1: return g.uniform(-20000, 100000);
    case 2: return g.chance(1, 3)? g.logmag(5, 9): g.real(-1e6, 1e6, {51544.5, 51544, 0, 0.5, -0.5});
    case 3: return std::floor(g.uniform(0, 90000)) + g.pick({0.0, 0.5, 0.25, 0x1p-30, 1 - 0x1p-30, 1.0 / 3});
    default: return g.uniform(40000, 65000);
    }
}
LAW(single_argument, 1500000) {
    const double ut = gen_date(g);
    g.note("ut1", ut);
    ld jc;
    const ld want = gmst82(ut, 0, jc);
    const double got = sla::gmst(ut);
    REQUIRE(got >= 0 && (ld) got <= (ld) (double) TWO_PI, "GMST %.17g out of [0, 2pi] at %.17g", got, ut);
    CLOSE(pbt::angdiff(got, want), 0, 8 * EPS * (630 * fabsl(jc) * (1 + fabsl(jc) * 1e-6L) + 20), "GMST at %.17g is %.17g", ut, got);
    g.trivial(std::fabs(ut - 51544.5) < 1);
}
LAW(split_date, 2500000) {
    const double ut = gen_date(g);
    double a, b;
    switch (g.irange(0, 5)) {
    case 0: a = std::floor(ut); b = ut - a; break;
    case 1: a = std::floor(ut); b = g.u01(); break;
    case 2: a = ut; b = 0; break;
    case 3: a = g.uniform(-60000, 60000); b = ut - a; break;
    case 4: a = std::floor(ut) + g.integer(-5, 5); b = g.uniform(-6, 6); break;
    default: a = std::ceil(ut); b = -g.u01();
    }
    if (g.chance(1, 2)) std::swap(a, b);
    g.note("date", a); g.note("fdate", b);
    ld jc;
    const ld want = gmst82(a, b, jc);
    const double got = sla::gmsta(a, b);
    REQUIRE(got >= 0 && (ld) got <= (ld) (double) TWO_PI, "GMST %.17g out of [0, 2pi]", got);
    const ld big = std::max(fabsl(a), fabsl(b)), small = std::min(fabsl(a), fabsl(b));
    // rounding: the century argument carries the rounding of the sum, the result that of the seconds
    const ld round = EPS * (fabsl(a + (ld) b - 51544.5L) + (small > 51544? big: 0)) * 2;
    CLOSE(pbt::angdiff(got, want), 0, 16 * EPS * (630 * fabsl(jc) * (1 + fabsl(jc) * 1e-6L) + 20) + round * 0.0173L, "GMST(%.17g, %.17g) is %.17g", a, b, got);
    CLOSE(pbt::angdiff(got, sla::gmsta(b, a)), 0, 16 * EPS * (630 * fabsl(jc) + 20), "argument order matters: (%.17g, %.17g)", a, b);
    g.trivial(std::fabs(a + b - 51544.5) < 1);
}

static const double FB[787][3] = {
#include "data/rcc_table.inc"
};
static ld md(ld deg) { return fmodl(deg, 360) * DEG; }
LAW(clock_term, 400000) {
    const double tdb = g.chance(1, 3)? g.uniform(33282, 69807): g.chance(1, 2)? g.uniform(-700000, 800000): g.real(-700000, 800000, {51544.5, 51544, 0});
    const double ut1 = g.chance(1, 2)? g.u01(): g.chance(1, 4)? g.uniform(-70000, 70000): g.real(-3, 3, {0, 0.5, 1, 0.25, 0.75});
    const double cl = g.angle(g.chance(1, 6)? 40: 6.283185307179586), cda = g.chance(1, 4)? 0: g.chance(1, 6)? std::fabs(g.logmag(-3, 6)): g.real(0, 7000, {6378.137, 5000}), cdp = g.chance(1, 8)? g.logmag(-3, 6): g.real(-7000, 7000, {0, 6356});
    g.note("tdb", tdb); g.note("ut1", ut1); g.note("cl", cl); g.note("cda", cda); g.note("cdp", cdp);
    const ld t = ((ld) tdb - 51544.5L) / 365250;
    const ld ts = frac(ut1) * TWO_PI - cl, w = t / 3600;
    const ld L = md(280.46645683L + 1296027711.03429L * w), Ms = md(357.52910918L + 1295965810.481L * w), D = md(297.85019547L + 16029616012.09L * w),
        J = md(34.35151874L + 109306899.89453L * w), S = md(50.0774443L + 44046398.47038L * w);
    ld want = 1e-10L * (cda * (0.00029L * sinl(ts + L - S) + 0.001L * sinl(ts - 2 * Ms) + 0.00133L * sinl(ts - D) + 0.00133L * sinl(ts + L - J)
        - 0.00229L * sinl(ts + 2 * L + Ms) + 0.05312L * sinl(ts - Ms) - 0.13677L * sinl(ts + 2 * L) + 3.17679L * sinl(ts))
        - cdp * (0.022L * cosl(L + Ms) + 1.3184L * cosl(L)));
    const ld at = fabsl(t);
    // |rounding| of each argument times the amplitude it enters with
    ld tol = EPS * 1e-10L * ((cda * 0.3L + fabsl(cdp) * 3) * (400 + 3.6e5L * at * 8 * DEG) + cda * 0.00133L * 4.5e6L * at * DEG * 8 + cda * 3.2L * 30);
    ld p = 1, ap = 1;
    static const int from[] = {0, 474, 679, 764, 784, 787};
    for (int k = 0; k < 5; k++, p *= t, ap *= at) {
        ld s = 0;
        for (int i = from[k]; i < from[k + 1]; i++) {
            s += (ld) FB[i][0] * sinl((ld) FB[i][1] * t + (ld) FB[i][2]);
            tol += ap * FB[i][0] * EPS * (fabsl(FB[i][1] * t) + 8) * 2;
        }
        want += p * s;
    }
    want += 0.00065e-6L * sinl(6069.776754L * t + 4.021194L) + 0.00033e-6L * sinl(213.299095L * t + 5.543132L)
        - 0.00196e-6L * sinl(6208.294251L * t + 5.696701L) - 0.00173e-6L * sinl(74.781599L * t + 2.4359L) + 0.03638e-6L * t * t;
    CLOSE(sla::rcc(tdb, ut1, cl, cda, cdp), want, 3 * tol, "clock term");
    g.trivial(cda == 0 && tdb > 33282 && tdb < 69807);
}
