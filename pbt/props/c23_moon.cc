#include "moon_ref.h"
#include "slalib.h"
PROPERTY("C23", "moon dmoon", "the date is not the origin of the series (1900 January 0.5)")
using namespace ref;
static double date(Gen& g, double lo, double hi) {
    const double d = g.chance(1, 4)? std::floor(g.uniform(lo, hi)): g.chance(1, 5)? g.real(lo, hi, {51544.5, 15019.5, 33282.0, 0, 60000, 40000, 88068}): g.uniform(lo, hi);
    g.note("date", d);
    return d;
}
struct Moon { double p[3], v[3]; };
static Moon dmoon(double d) {
    sla::VectorPV<double> pv;
    pv.set_x(7e77); pv.set_y(7e77); pv.set_z(7e77); pv.set_dx(7e77); pv.set_dy(7e77); pv.set_dz(7e77);
    sla::dmoon(d, pv);
    return {{pv.get_x(), pv.get_y(), pv.get_z()}, {pv.get_dx(), pv.get_dy(), pv.get_dz()}};
}
static Moon moon(int y, int day, float f) {
    sla::VectorPV<float> pv;
    pv.set_x(7e7f); pv.set_y(7e7f); pv.set_z(7e7f); pv.set_dx(7e7f); pv.set_dy(7e7f); pv.set_dz(7e7f);
    sla::moon(y, day, f, pv);
    return {{pv.get_x(), pv.get_y(), pv.get_z()}, {pv.get_dx(), pv.get_dy(), pv.get_dz()}};
}
LAW(precise_series, 60000) {
    const double d = g.chance(1, 6)? date(g, -300000, 400000): date(g, 15019.5, 88069.5);
    const Moon o = dmoon(d);
    V p, v;
    dmoon_ref(d, p, v);
    const ld cy = fabsl(d - 15019.5L) / 36525, k = 1 + cy;
    // the rounding of arguments of some 1e6 degrees per century leaves about 1e-11 of the 0.0026 AU distance
    for (int i = 0; i < 3; i++) { CLOSE(o.p[i], p[i], 2e-14L * k, "position component %d", i); CLOSE(o.v[i], v[i], 6e-20L * k, "velocity component %d", i); }
    const ld r = norm(vec(o.p)) * 149597870.7L, s = norm(vec(o.v)) * 149597870.7L;
    if (fabsl(cy) < 3) REQUIRE(r > 356000 && r < 407000 && s > 0.94L && s < 1.12L, "distance %.6Lg km, speed %.6Lg km/s", r, s);
    g.trivial(d == 15019.5);
}
LAW(precise_derivative, 100000) {
    const double d = date(g, 15019.5, 88069.5), h = 0.03125;
    const Moon o = dmoon(d), a = dmoon(d - h), b = dmoon(d + h), a2 = dmoon(d - 2 * h), b2 = dmoon(d + 2 * h);
    for (int i = 0; i < 3; i++)
        CLOSE(o.v[i], (8 * ((ld) b.p[i] - a.p[i]) - ((ld) b2.p[i] - a2.p[i])) / (12 * h * 86400), 4e-16L, "derivative of position component %d", i);
}
static void calendar_date(Gen& g, int& y, int& day, float& f) {
    y = g.integer(1900, 2100, {1900, 2000, 2100, 1901, 1999, 1950, 2050, 1904});
    day = g.integer(1, y % 4? 365: 366, {1, 365, 59, 60, 61, 366});
    f = g.realf(0, 1, {0, 0.5, 0.25, 1});
    g.note("year", y); g.note("day", day); g.note("fraction", f);
}
/// days since 1900 January 0.5 in the Julian calendar aligned to the Gregorian one from 1900 March 1
static ld days(int y, int day, ld f) {
    const int n = y - 1900, quad = (n - ((n % 4) + 4) % 4) / 4, in = ((n % 4) + 4) % 4;
    return 1461.0L * quad + (in? 366 + 365 * (in - 1): 0) + day + f - 1.5L;
}
LAW(quick_formula, 400000) {
    int y, day;
    float f;
    calendar_date(g, y, day, f);
    if (g.chance(1, 6)) { y = g.integer(-2000, 5000, {0, -1, -4, 1896, 4, 1899, -3}); g.note("year", y); }
    const Moon o = moon(y, day, f);
    const ld t = days(y, day, f) / 365.25L;
    V p, v;
    moon_ref(t, p, v);
    // single precision arguments: 1e-3 degrees near 1900, growing as the year number
    const ld k = 1 + fabsl(y - 1900.0L) / 40;
    for (int i = 0; i < 3; i++) { CLOSE(o.p[i], p[i], 6e-8L * k, "position component %d", i); CLOSE(o.v[i], v[i], 2.6e-13L * k, "velocity component %d", i); }
    g.trivial(t == 0);
}
LAW(quick_against_precise, 100000) {
    int y, day;
    float f;
    calendar_date(g, y, day, f);
    const Moon o = moon(y, day, f), w = dmoon((double) (15019.5L + days(y, day, f)));
    const V a = vec(o.p), b = vec(w.p), av = vec(o.v), bv = vec(w.v);
    const ld ang = atan2l(norm(cross(a, b)), dot(a, b)) / DEG * 3600, r = fabsl(norm(a) - norm(b)) * 149597870.7L;
    REQUIRE(ang < 80, "directions differ by %.6Lg arcsec", ang);
    REQUIRE(r < 1400, "distances differ by %.6Lg km", r);
    // rates: radial, and transverse angular
    const V ua = (1 / norm(a)) * a, ub = (1 / norm(b)) * b;
    const ld rr = fabsl(dot(av, ua) - dot(bv, ub)) * 149597870700.0L;
    REQUIRE(rr < 7.5, "radial rates differ by %.6Lg m/s", rr);
    const V ta = (1 / norm(a)) * (av - dot(av, ua) * ua), tb = (1 / norm(b)) * (bv - dot(bv, ub) * ub);
    const ld tr = norm(ta - tb) / DEG * 3600 * 3600;
    REQUIRE(tr < 1, "angular rates differ by %.6Lg arcsec/hour", tr);
}
