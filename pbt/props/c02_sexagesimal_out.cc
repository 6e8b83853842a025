#include "ref.h"
#include "slalib.h"
PROPERTY("C02", "cd2tf dd2tf cr2af dr2af cr2tf dr2tf f77_utils",
    "the value is not zero and at least one field below the leading one is non-zero or the value lies within one unit of a carry")
using namespace ref;

// exact: magnitude in seconds (of time or arc) as an extended-precision number; rel: relative rounding allowed
static void verify(Gen& g, const sla::ConversionResult& r, int ndp, bool below_zero, ld exact_seconds, ld rel) {
    const int n = ndp > 0? ndp: 0;
    ld units = 1;
    for (int i = 0; i < n; i++) units *= 10;
    REQUIRE(r.get_hours() >= 0, "hours %d", r.get_hours());
    REQUIRE(r.get_minutes() >= 0 && r.get_minutes() <= 59, "minutes %d", r.get_minutes());
    REQUIRE(r.get_seconds() >= 0 && r.get_seconds() <= 59, "seconds %d", r.get_seconds());
    REQUIRE(r.get_fraction() >= 0 && (ld) r.get_fraction() < units, "fraction %d at %d decimals", r.get_fraction(), ndp);
    REQUIRE(r.get_sign() == (below_zero? '-': '+'), "sign '%c'", r.get_sign());
    REQUIRE(r.get_degrees() == r.get_hours() && r.get_arcminutes() == r.get_minutes() && r.get_arcseconds() == r.get_seconds(), "views differ");
    const ld got = ((r.get_hours() * 60.0L + r.get_minutes()) * 60 + r.get_seconds()) * units + r.get_fraction();
    const ld want = exact_seconds * units;
    CLOSE(got, want, 0.5L + want * rel + 1e-9L, "fields %d %d %d .%d (%d decimals)", r.get_hours(), r.get_minutes(), r.get_seconds(), r.get_fraction(), ndp);
    const ld dist = std::fabs(want / (60 * units) - roundl(want / (60 * units))) * 60 * units;
    g.trivial(want == 0 || (r.get_minutes() == 0 && r.get_seconds() == 0 && r.get_fraction() == 0 && dist > 1));
    if (dist < 1) g.classify("near a carry into minutes");
}

// a magnitude in seconds that often sits near a rounding boundary at the given resolution
static double gen_seconds(Gen& g, int ndp, double maxs) {
    const int n = ndp > 0? ndp: 0;
    double s;
    switch (g.irange(0, 4)) {
    case 0: s = g.real(0, maxs, {86400.0, 1296000.0, 59.999, 60, 3599.9999, 3600}); break;
    case 1: {   // (k - 1/2 +- tiny) units below a whole minute/hour/day
        const double step = g.pick({1.0, 60.0, 3600.0, 86400.0, 1296000.0, 10.0});
        s = std::floor(g.uniform(0, std::fmin(maxs, 1e6) / step)) * step + step;
        s += g.pick({-0.5, 0.5, -1.0, 0.0, -0.4999, -0.5001, 0.4999, -0.49, -0.51}) * std::pow(10.0, -n);
        break;
    }
    case 2: s = std::floor(g.uniform(0, maxs)) + (g.irange(0, 9) + g.pick({0.5, 0.49999, 0.50001, 0.0})) * std::pow(10.0, -n); break;
    case 3: s = std::pow(10.0, g.uniform(-14, std::log10(maxs))); break;
    default: s = g.uniform(0, 90000);
    }
    if (s < 0) s = -s;
    return s > maxs? maxs: s;
}
/// the argument itself at round values: whole days, turns and fractions of them, radians
static double direct(Gen& g, double max) { const double v = std::fabs(g.real(0, max, {0, 0.25, 0.5, 1, 2, 3, 6, 10, 24, 100, M_PI, 2 * M_PI, M_PI_2, M_PI_4, 3 * M_PI_2, M_PI / 3, M_PI / 12, 4 * M_PI})); return v < 1e-30? 0: v; }
/// decimal places; anything negative counts as none
static int places(Gen& g, int max) { return g.chance(1, 50)? g.integer(-2147483647 - 1, -1, {-1, -2147483647 - 1}): g.integer(-5, max, {0, 1, 2, 3, max}); }
static bool neg(Gen& g) { return g.chance(1, 2); }

LAW(days_double, 500000) {
    const int ndp = places(g, 9);
    double d = g.chance(1, 10)? direct(g, 1000): gen_seconds(g, ndp, 7e12) / 86400.0;
    if (neg(g)) d = -d;
    g.note("ndp", ndp); g.note("days", d);
    sla::ConversionResult r;
    sla::dd2tf(ndp, d, r);
    verify(g, r, ndp, d < 0, std::fabs((ld) d) * 86400, 8 * EPS);
}
LAW(days_single, 400000) {
    const int ndp = places(g, 6);
    float d = (float) (g.chance(1, 10)? direct(g, 1000): gen_seconds(g, ndp, 1e11) / 86400.0);
    if (neg(g)) d = -d;
    g.note("ndp", ndp); g.note("days", d);
    sla::ConversionResult r;
    sla::cd2tf(ndp, d, r);
    verify(g, r, ndp, d < 0, std::fabs((ld) d) * 86400, 2 * FEPS);
}
LAW(radians_to_degrees_double, 400000) {
    const int ndp = places(g, 9);
    double a = g.chance(1, 10)? direct(g, 1000): (double) (gen_seconds(g, ndp, 1e11) * ARCSEC);
    if (neg(g)) a = -a;
    g.note("ndp", ndp); g.note("angle", a);
    sla::ConversionResult r;
    sla::dr2af(ndp, a, r);
    verify(g, r, ndp, a < 0, std::fabs((ld) a) / ARCSEC, 12 * EPS);
}
LAW(radians_to_degrees_single, 400000) {
    const int ndp = places(g, 6);
    float a = (float) (g.chance(1, 10)? direct(g, 1000): gen_seconds(g, ndp, 1e9) * ARCSEC);
    if (neg(g)) a = -a;
    g.note("ndp", ndp); g.note("angle", a);
    sla::ConversionResult r;
    sla::cr2af(ndp, a, r);
    verify(g, r, ndp, a < 0, std::fabs((ld) a) / ARCSEC, 4 * FEPS);
}
LAW(radians_to_hours_double, 400000) {
    const int ndp = places(g, 9);
    double a = g.chance(1, 10)? direct(g, 1000): (double) (gen_seconds(g, ndp, 1e11) * SEC);
    if (neg(g)) a = -a;
    g.note("ndp", ndp); g.note("angle", a);
    sla::ConversionResult r;
    sla::dr2tf(ndp, a, r);
    verify(g, r, ndp, a < 0, std::fabs((ld) a) / SEC, 12 * EPS);
}
LAW(radians_to_hours_single, 400000) {
    const int ndp = places(g, 6);
    float a = (float) (g.chance(1, 10)? direct(g, 1000): gen_seconds(g, ndp, 1e9) * SEC);
    if (neg(g)) a = -a;
    g.note("ndp", ndp); g.note("angle", a);
    sla::ConversionResult r;
    sla::cr2tf(ndp, a, r);
    verify(g, r, ndp, a < 0, std::fabs((ld) a) / SEC, 4 * FEPS);
}
