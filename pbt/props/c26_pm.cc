#include "ref.h"
#include "slalib.h"
PROPERTY("C26", "pm", "the epochs differ and the star moves")
using namespace ref;
struct Star { double a, d, ma, md, px, rv, e0, e1; };
static Star star(Gen& g) {
    Star s;
    s.a = g.chance(1, 6)? g.angle(30): g.angle(2 * M_PI);
    s.d = g.lat();
    const double k = g.chance(1, 8)? 1: g.logmag(-30, -10);
    s.ma = g.chance(1, 8)? 0: k * g.uniform(-1, 1) / (g.chance(1, 2)? std::max(std::fabs(std::cos(s.d)), 1e-5): 1);
    s.md = g.chance(1, 8)? 0: k * g.uniform(-1, 1);
    s.px = g.chance(1, 4)? 0: g.chance(1, 4)? g.uniform(0, 1): g.logmag(-20, 0);
    s.rv = g.chance(1, 4)? 0: g.chance(1, 8)? g.logmag(-3, 5.4): g.real(-1000, 1000, {0, 100, -100});
    s.e0 = g.chance(1, 6)? g.uniform(-3000, 5000): g.real(1850, 2150, {1950, 2000, 1900});
    s.e1 = g.chance(1, 12)? s.e0: g.chance(1, 12)? s.e0 + g.logmag(-6, 8): g.chance(1, 6)? g.uniform(-3000, 5000): g.real(1850, 2150, {1950, 2000, 1900});
    g.note("ra", s.a); g.note("dec", s.d); g.note("pm ra", s.ma); g.note("pm dec", s.md); g.note("parallax", s.px); g.note("rv", s.rv); g.note("from", s.e0); g.note("to", s.e1);
    return s;
}
static sla::Spherical<double> move(const Star& s) {
    sla::Spherical<double> o{7e77, 7e77};
    sla::pm({s.a, s.d}, {s.ma, s.md}, s.px, s.rv, s.e0, s.e1, o);
    return o;
}
LAW(straight_line, 1500000) {
    const Star s = star(g);
    const auto o = move(s);
    const ld t = (ld) s.e1 - s.e0;
    const V p = dir(s.a, s.d), ua = {-sinl(s.a), cosl(s.a), 0}, ud = {-sinl(s.d) * cosl(s.a), -sinl(s.d) * sinl(s.a), cosl(s.d)};
    // AU/yr per km/s, times the parallax in radians: radial displacement per year in units of the distance
    const ld w = 86400.0L * 365.25L / 149597870.0L * ARCSEC * s.px * s.rv;
    const V q = p + t * (s.ma * cosl(s.d)) * ua + t * s.md * ud + t * w * p;
    const ld r = norm(q), tr = fabsl(t) * (fabsl(s.ma) + fabsl(s.md));
    // 5e-12: ten digits of the arcsecond constant in the code
    const ld tol = (8 * EPS * (1 + tr + fabsl(t * w)) + EPS * (fabsl(s.e0) + fabsl(s.e1)) * (fabsl(s.ma) + fabsl(s.md) + fabsl(w)) + 2e-11L * fabsl(t * w) * std::min((ld) 1, tr / r)) / r;
    if (!(tol < 0.01L)) { g.discard(); return; }
    REQUIRE(o.s_a >= 0 && o.s_a <= 2 * M_PI && std::fabs(o.s_b) <= M_PI_2 + 1e-15, "position %.17g, %.17g out of range", o.s_a, o.s_b);
    REQUIRE(maxdiff(dir(o.s_a, o.s_b), unit(q)) <= tol + 4 * EPS, "direction off by %.3Lg (allowed %.3Lg)", maxdiff(dir(o.s_a, o.s_b), unit(q)), tol);
    const ld c = cosl(lat(q));
    REQUIRE(fabsl(pbt::angdiff(o.s_a, lon(q))) * c <= 2 * tol + 8 * EPS, "right ascension %.17g, expected %.17Lg", o.s_a, lon(q));
    g.trivial(t == 0 || (s.ma == 0 && s.md == 0));
}
LAW(standing_still, 500000) {
    Star s = star(g);
    s.e1 = s.e0;
    const auto o = move(s);
    REQUIRE(maxdiff(dir(o.s_a, o.s_b), dir(s.a, s.d)) <= 6 * EPS, "equal epochs move the star by %.3Lg", maxdiff(dir(o.s_a, o.s_b), dir(s.a, s.d)));
    g.trivial(s.ma == 0 && s.md == 0);
}
LAW(transverse_only, 500000) {
    Star s = star(g), b = s, c = s;
    b.px = 0;
    c.rv = 0;
    const auto o = move(b), q = move(c);
    b.rv = 0;
    c.px = 0;
    const auto o2 = move(b), q2 = move(c);
    REQUIRE(maxdiff(dir(o.s_a, o.s_b), dir(o2.s_a, o2.s_b)) <= 4 * EPS, "the radial velocity acts without a parallax");
    REQUIRE(maxdiff(dir(q.s_a, q.s_b), dir(q2.s_a, q2.s_b)) <= 4 * EPS, "the parallax acts without a radial velocity");
    g.trivial(s.e0 == s.e1);
}
