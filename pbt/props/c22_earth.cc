#include "earth_ref.h"
#include "calendar.h"
#include "slalib.h"
#include <array>
PROPERTY("C22", "earth evp epv ecor", "the date is not the reference epoch itself")
using namespace ref;
static double date(Gen& g, double lo, double hi) {
    const double d = g.chance(1, 4)? std::floor(g.uniform(lo, hi)): g.chance(1, 5)? g.real(lo, hi, {51544.5, 15019.5, 33282.0, 0, 60000, 40000, 88068}): g.uniform(lo, hi);
    g.note("date", d);
    return d;
}
struct Out { double a[4][3]; };
static Out fill() { Out o; for (auto& r: o.a) for (double& x: r) x = 7e77; return o; }
/// order: heliocentric position, velocity, barycentric position, velocity
static Out epv(double d) { Out o = fill(); sla::epv(d, o.a[0], o.a[1], o.a[2], o.a[3]); return o; }
static Out evp(double d, double q) { Out o = fill(); sla::evp(d, q, o.a[3], o.a[2], o.a[1], o.a[0]); return o; }
static const char* NAME[4] = {"heliocentric position", "heliocentric velocity", "barycentric position", "barycentric velocity"};
static V field(const State& s, int k) { return k == 0? s.hp: k == 1? s.hv: k == 2? s.bp: s.bv; }

LAW(precise_series, 12000) {
    const double d = g.chance(1, 6)? date(g, -300000, 400000): date(g, 15019.5, 88069.5);
    const Out o = epv(d);
    const State w = epv_ref(d);
    const ld cy = fabsl(d - 51544.5L) / 36525;
    for (int k = 0; k < 4; k++) for (int i = 0; i < 3; i++)
        CLOSE(o.a[k][i], field(w, k)[i], (k % 2? 1.2e-13L: 3e-12L) * (1 + cy * cy * 0.05L) , "%s, component %d", NAME[k], i);
    g.trivial(d == 51544.5);
}
LAW(precise_derivative, 12000) {
    const double d = date(g, 15019.5, 88069.5), h = 0.125;
    const Out a = epv(d - h), b = epv(d + h), a2 = epv(d - 2 * h), b2 = epv(d + 2 * h), o = epv(d);
    for (int k = 0; k < 4; k += 2) for (int i = 0; i < 3; i++)
        CLOSE(o.a[k + 1][i], (8 * ((ld) b.a[k][i] - a.a[k][i]) - ((ld) b2.a[k][i] - a2.a[k][i])) / (12 * h), 5e-12L, "derivative of the %s, component %d", NAME[k], i);
    // the Sun's barycentric motion is small and slow
    const V s = vec(o.a[2]) - vec(o.a[0]), sv = vec(o.a[3]) - vec(o.a[1]);
    REQUIRE(norm(s) < 0.0115L && norm(sv) < 1.2e-5L, "Sun %.6Lg AU from the barycentre, moving %.6Lg AU/day", norm(s), norm(sv));
    const ld r = norm(vec(o.a[0])), v = norm(vec(o.a[1]));
    REQUIRE(r > 0.9825L && r < 1.0175L && v > 0.01688L && v < 0.01753L, "distance %.6Lg AU, speed %.6Lg AU/day", r, v);
}
LAW(fast_series, 250000) {
    const double d = g.chance(1, 6)? date(g, -100000, 200000): date(g, 15019.5, 88069.5);
    const Out o = evp(d, g.chance(1, 2)? 0: -1);
    const State w = evp_ref(d);
    const ld cy = fabsl(d - 15019.5L) / 36525;
    for (int k = 0; k < 4; k++) for (int i = 0; i < 3; i++)
        CLOSE(o.a[k][i], field(w, k)[i], (k % 2? 1.2e-14L: 6e-8L) * (1 + cy / 3), "%s, component %d", NAME[k], i);
}
LAW(fast_equinox, 120000) {
    const double d = date(g, 15019.5, 88069.5), q = g.chance(1, 4)? g.chance(1, 4)? std::fabs(g.logmag(-6, 4)): g.uniform(1e-3, 4000): g.real(1850, 2150, {1950, 2000, 1900, 2050});
    g.note("equinox", q);
    const Out a = evp(d, 0), b = evp(d, q), c = evp(d, -q);
    ld tol = 0;
    const M p = prec_matrix(iau76(), 2000 + (d - 51544.5L) / 365.25L, q, &tol);
    for (int k = 0; k < 4; k++) {
        const V w = p * vec(a.a[k]);
        for (int i = 0; i < 3; i++) {
            CLOSE(b.a[k][i], w[i], (k % 2? 2.1e-7L: 1.1L) * (tol + 1e-14L), "%s at the equinox, component %d", NAME[k], i);
            REQUIRE(c.a[k][i] == a.a[k][i], "non-positive equinoxes differ in the %s", NAME[k]);
        }
    }
}
LAW(fast_derivative, 120000) {
    const double d = date(g, 15019.5, 88069.5), h = 0.5;
    const Out a = evp(d - h, 2000), b = evp(d + h, 2000), o = evp(d, 2000);
    // the derivative over a day; the centred difference itself errs by h^2/6 of the third derivative
    for (int k = 0; k < 4; k += 2) for (int i = 0; i < 3; i++)
        CLOSE(o.a[k + 1][i], ((ld) b.a[k][i] - a.a[k][i]) / (2 * h * 86400), 9e-12L, "derivative of the %s, component %d", NAME[k], i);
}
LAW(fast_against_precise, 12000) {
    const double d = date(g, 15019.5, 88069.5);
    const Out a = evp(d, 2000), b = epv(d);
    const ld KM = 1 / 149597870.7L;
    const ld lim[4] = {2100 * KM, 0.55e-3L * KM, 13500 * KM, 0.66e-3L * KM};
    for (int k = 0; k < 4; k++) {
        const V w = (k % 2? 1 / 86400.0L: 1) * vec(b.a[k]);
        const ld e = norm(vec(a.a[k]) - w);
        REQUIRE(e < lim[k], "%s differs by %.6Lg (allowed %.6Lg)", NAME[k], e, lim[k]);
    }
}
static void calendar_date(Gen& g, int& y, int& day, float& f) {
    y = g.integer(1900, 2100, {1900, 2000, 2100, 1901, 1999, 1950, 2050, 1904});
    day = g.integer(1, y % 4? 365: 366, {1, 365, 59, 60, 61, 366});
    f = g.realf(0, 1, {0, 0.5, 0.25, 1});
    g.note("year", y); g.note("day", day); g.note("fraction", f);
}
LAW(quick_formula, 500000) {
    int y, day;
    float f;
    calendar_date(g, y, day, f);
    if (g.chance(1, 6)) { y = g.integer(-3000, 5000, {0, -1, -4, 1896, 4}); g.note("year", y); }
    sla::VectorPV<float> pv;
    pv.set_x(7e7f); pv.set_y(7e7f); pv.set_z(7e7f); pv.set_dx(7e7f); pv.set_dy(7e7f); pv.set_dz(7e7f);
    sla::earth(y, day, f, pv);
    V p, v;
    earth_ref(y, day, f, p, v);
    const ld tol = 4e-6L * (1 + fabsl(y - 1900.0L) / 600);
    const float gp[3] = {pv.get_x(), pv.get_y(), pv.get_z()}, gv[3] = {pv.get_dx(), pv.get_dy(), pv.get_dz()};
    for (int i = 0; i < 3; i++) { CLOSE(gp[i], p[i], tol, "position component %d", i); CLOSE(gv[i], v[i], 2e-7L * tol, "velocity component %d", i); }
}
/// MJD of the calendar date, in the calendar of earth()
static ld mjd_of(int y, int day, ld f) { const int n = y - 1901; return 15385 + 365 * n + (n >= 0? n / 4: -((3 - n) / 4)) + day - 1 + f; }
LAW(quick_against_precise, 12000) {
    int y, day;
    float f;
    calendar_date(g, y, day, f);
    y = 1950 + (y - 1900) / 2;
    if (day == 366 && y % 4) day = 365;
    g.note("year", y);
    sla::VectorPV<float> pv;
    sla::earth(y, day, f, pv);
    const ld mjd = mjd_of(y, day, f);
    const Out o = epv((double) mjd);
    ld tol = 0;
    const M p = prec_matrix(iau76(), 2000, 2000 + (mjd - 51544.5L) / 365.25L, &tol);
    const V dp = V{pv.get_x(), pv.get_y(), pv.get_z()} - p * vec(o.a[0]), dv = V{pv.get_dx(), pv.get_dy(), pv.get_dz()} - (1 / 86400.0L) * (p * vec(o.a[1]));
    REQUIRE(norm(dp) < 14e-5L, "position differs by %.6Lg AU", norm(dp));
    REQUIRE(norm(dv) < 49e-10L, "velocity differs by %.6Lg AU/s", norm(dv));
}
LAW(correction, 400000) {
    int y, day;
    float f;
    calendar_date(g, y, day, f);
    const float ra = g.anglef(g.chance(1, 6)? 40.f: 6.2831855f), dec = g.latf();
    g.note("ra", ra); g.note("dec", dec);
    float rv = 7e7f, lt = 7e7f;
    sla::ecor(sla::Spherical<float>{ra, dec}, y, day, f, rv, lt);
    V p, v;
    earth_ref(y, day, f, p, v);
    const V s = dir(ra, dec);
    CLOSE(rv, -149597870.66L * dot(v, s), 3e-4L, "radial velocity"); CLOSE(lt, 499.0047837L * dot(p, s), 3e-3L, "light time");
    REQUIRE(std::fabs(rv) < 31 && std::fabs(lt) < 510, "out of bounds: %.9g km/s, %.9g s", (double) rv, (double) lt);
    // the projection of what the position routine returns
    sla::VectorPV<float> pv;
    sla::earth(y, day, f, pv);
    CLOSE(rv, -149597870.66L * dot(V{pv.get_dx(), pv.get_dy(), pv.get_dz()}, s), 2e-5L, "projected velocity");
    CLOSE(lt, 499.0047837L * dot(V{pv.get_x(), pv.get_y(), pv.get_z()}, s), 3e-4L, "projected light time");
}
