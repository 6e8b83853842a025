#include "ref.h"
#include "calendar.h"
#include "slalib.h"
PROPERTY("C04", "cldj caldj clyd calyd djcal djcl slalib",
    "the date is outside 1900-2099, or is the first or last day of a month, or has an invalid field, or the MJD is within 1e-3 of midnight or has a fraction")
using namespace ref;

static int gen_year(Gen& g, int lo) {
    switch (g.irange(0, 5)) {
    case 0: return g.integer(lo, 3000, {0, 1, -1, 4, 49, 50, 99, 100, 1582, 1858, 1900, 1999, 2000, 2100, 2400, lo, lo + 1, -4699, -4700, -4711, -4712});
    case 1: return g.irange(1880, 2120);
    case 2: return g.irange(-48, 110) * 100 + g.irange(-1, 1);
    case 3: return g.irange(-5, 105);
    case 4: return g.integer(lo, 1000000, {99999, 100000});
    default: return g.irange(lo, 3000);
    }
}
static int gen_month(Gen& g) { return g.integer(1, 12, {1, 2, 3, 12}); }
static int gen_day(Gen& g, int y, int m) {
    const int n = cal::dim(y, m);
    return g.chance(3, 4)? g.integer(1, n, {1, n, n - 1, 28}): g.chance(3, 4)? g.integer(-2, 34, {0, n + 1, 29, 30, 31, 32}): g.integer(-400, 400, {0, 366});
}
static void mark(Gen& g, int y, int m, int d) {
    g.trivial(y >= 1900 && y <= 2099 && d > 1 && d < cal::dim(y, m));
    if (y % 100 == 0) g.classify("century year");
    if (m == 2 && d == 29) g.classify("Feb 29");
    if (!cal::valid(y, m, d)) g.classify("invalid day");
}

// date -> MJD, with and without the century default
LAW(date_to_mjd, 600000) {
    const bool def = g.chance(1, 2);
    const int y0 = gen_year(g, -4699), m = gen_month(g);
    const int y = def && y0 >= 0 && y0 <= 49? y0 + 2000: def && y0 >= 50 && y0 <= 99? y0 + 1900: y0;
    if (y < -4699) g.discard();
    const int d = gen_day(g, y, m);
    g.note("century_default", def); g.note("year", y0); g.note("month", m); g.note("day", d);
    double mjd = 1e99;
    const int st = def? sla::caldj(y0, m, d, mjd): sla::cldj(y0, m, d, mjd);
    REQUIRE(st == (cal::valid(y, m, d)? sla::G2J_OK: sla::G2J_BAD_DAY), "status %d", st);
    REQUIRE(mjd == (double) cal::mjd(y, m, d), "%d-%d-%d gives MJD %.17g, calendar says %.17g", y0, m, d, mjd, (double) cal::mjd(y, m, d));
    mark(g, y, m, d);
}
// consecutive days and far years: the count advances by one, month by month
LAW(far_years, 200000) {
    const int y = g.integer(1000, 2147483647, {1469000, 1470000, 2000000, 100000000, 2147483647, 1464000});
    const int m = gen_month(g), d = g.irange(1, cal::dim(y, m));
    g.note("year", y); g.note("month", m); g.note("day", d);
    double mjd = 1e99;
    const int st = sla::cldj(y, m, d, mjd);
    REQUIRE(st == sla::G2J_OK, "status %d", st);
    REQUIRE(mjd == (double) cal::mjd(y, m, d), "MJD %.17g, calendar says %.17g", mjd, (double) cal::mjd(y, m, d));
    int jy = -9, jd = -9;
    REQUIRE(sla::clyd(y, m, d, jy, jd) == sla::G2J_OK, "year/day status");
    int64_t ey, ed;
    cal::julian_yd(cal::mjd(y, m, d), ey, ed);
    REQUIRE(jy == ey && jd == ed, "got %d/%d, expected %lld/%lld", jy, jd, (long long) ey, (long long) ed);
}
LAW(date_to_year_day, 600000) {
    const bool def = g.chance(1, 2);
    const int y0 = gen_year(g, -4711), m = gen_month(g);
    const int y = def && y0 >= 0 && y0 <= 49? y0 + 2000: def && y0 >= 50 && y0 <= 99? y0 + 1900: y0;
    if (y < -4711) g.discard();
    int d = gen_day(g, y, m);
    if (y < -4700 && !cal::valid(y, m, d)) d = 1;
    g.note("century_default", def); g.note("year", y0); g.note("month", m); g.note("day", d);
    int jy = -99999, jd = -99999;
    const int st = def? sla::calyd(y0, m, d, jy, jd): sla::clyd(y0, m, d, jy, jd);
    REQUIRE(st == (cal::valid(y, m, d)? sla::G2J_OK: sla::G2J_BAD_DAY), "status %d", st);
    int64_t ey, ed;
    cal::julian_yd(cal::mjd(y, m, d), ey, ed);
    REQUIRE(jy == ey && jd == ed, "%d-%d-%d gives %d/%d, expected %lld/%lld", y0, m, d, jy, jd, (long long) ey, (long long) ed);
    if (cal::valid(y, m, d) && cal::mjd(y, m, d) >= cal::mjd(1901, 1, 1) && cal::mjd(y, m, d) <= cal::mjd(2100, 2, 28))
        REQUIRE(jy == y && jd == cal::mjd(y, m, d) - cal::mjd(y, 1, 1) + 1, "not the Gregorian day in year");
    mark(g, y, m, d);
}
LAW(rejected_fields, 300000) {
    const int which = g.irange(0, 3);
    const bool yd = which >= 2, def = which & 1;
    const int lo = yd? -4711: -4699;
    const bool bad_year = g.chance(1, 2);
    const int y = bad_year? g.integer(-2147483647 - 1, lo - 1, {lo - 1, lo - 2, -5000}): gen_year(g, lo);
    const bool bad_month = !bad_year || g.chance(1, 4);
    const int m = bad_month? (g.chance(1, 2)? g.integer(13, 2147483647, {13, 14, 24}): g.integer(-2147483647 - 1, 0, {0, -1})): gen_month(g);
    const int d = g.irange(-5, 40);
    if (!bad_year && y < lo) g.discard();
    g.note("function", which); g.note("year", y); g.note("month", m); g.note("day", d);
    double mjd = 123.25;
    int jy = 77, jd = 78;
    const int st = which == 0? sla::cldj(y, m, d, mjd): which == 1? sla::caldj(y, m, d, mjd): which == 2? sla::clyd(y, m, d, jy, jd): sla::calyd(y, m, d, jy, jd);
    (void) def;
    REQUIRE((bad_year && st == sla::G2J_BAD_YEAR) || (bad_month && st == sla::G2J_BAD_MONTH), "status %d for year %d month %d", st, y, m);
    REQUIRE(mjd == 123.25 && jy == 77 && jd == 78, "outputs were changed");
}

static double gen_mjd(Gen& g) {
    double v;
    switch (g.irange(0, 5)) {
    case 0: v = g.real(-2395520, 1e9, {-2395519.5, -678941, 0, 51544, 15020, 536870912 - 2400001, 999999999.5}); break;
    case 1: v = g.real(-800000, 200000, {0, -1, 1, 51544.5, -678575}); break;
    case 2: v = (double) cal::mjd(gen_year(g, -4699), gen_month(g), 1) + g.irange(-1, 1); break;
    default: v = g.uniform(-100000, 100000);
    }
    switch (g.irange(0, 4)) {
    case 0: v = std::floor(v); break;
    case 1: v = std::floor(v) + g.logmag(-12, 0); break;
    case 2: v = std::floor(v) + g.irange(0, 10000) / 10000.0 + g.pick({0.0, 0.00005, -0.00005, 0.000049999, 0.5}); break;
    default: break;
    }
    return v;
}
LAW(mjd_to_date, 700000) {
    const double v = gen_mjd(g);
    if (v < -2395519.0 || v > 1e9) g.discard();
    g.note("mjd", v);
    sla::Date dt{-1, -1, -1, -1, -1.0};
    const bool out = sla::djcl(v, dt);
    if (v >= 1e9) { REQUIRE(out, "accepted %.17g", v); return; }
    REQUIRE(!out, "rejected %.17g", v);
    REQUIRE(cal::valid(dt.d_year, dt.d_month, dt.d_day), "impossible date %d-%d-%d", dt.d_year, dt.d_month, dt.d_day);
    REQUIRE(dt.d_fraction >= 0 && dt.d_fraction <= 1.0, "fraction %.17g", dt.d_fraction);
    const ld back = (ld) cal::mjd(dt.d_year, dt.d_month, dt.d_day) + (ld) dt.d_fraction;
    CLOSE(back, v, 4 * EPS, "%d-%d-%d + %.17g", dt.d_year, dt.d_month, dt.d_day, dt.d_fraction);
    if (dt.d_fraction == 1.0) REQUIRE(v - std::floor(v) > 1 - 1e-15, "fraction 1 for %.17g", v);
    g.trivial(v == std::floor(v) && v > 15020 && v < 60000);
}
LAW(mjd_to_rounded_date, 700000) {
    const double v = gen_mjd(g);
    if (v < -2395519.0 || v > 1e9) g.discard();
    const int ndp = g.integer(-3, 4, {0, 1, 4});
    g.note("ndp", ndp); g.note("mjd", v);
    sla::Date dt{-1, -1, -1, -1, -1.0};
    const bool out = sla::djcal(ndp, v, dt);
    if (v >= 1e9) { REQUIRE(out, "accepted %.17g", v); return; }
    REQUIRE(!out, "rejected %.17g", v);
    ld p = 1;
    for (int i = 0; i < ndp; i++) p *= 10;
    REQUIRE(cal::valid(dt.d_year, dt.d_month, dt.d_day), "impossible date %d-%d-%d", dt.d_year, dt.d_month, dt.d_day);
    REQUIRE(dt.d_ifraction >= 0 && dt.d_ifraction < p, "fraction %d at %d decimals", dt.d_ifraction, ndp);
    const ld back = (ld) cal::mjd(dt.d_year, dt.d_month, dt.d_day) * p + dt.d_ifraction;
    CLOSE(back, (ld) v * p, 0.5L + 2 * EPS * std::fabs((ld) v) * p, "%d-%d-%d .%d at %d decimals", dt.d_year, dt.d_month, dt.d_day, dt.d_ifraction, ndp);
    const ld f = frac((ld) v);
    if (std::fabs(f * p - p) < 0.5L && dt.d_ifraction == 0) g.classify("carried into the next day");
    g.trivial(f == 0 && v > 15020 && v < 60000);
}
LAW(mjd_out_of_range, 100000) {
    const double v = g.chance(1, 2)? g.real(-1e12, -2395520, {-2395520, -2395521}): g.real(1e9, 1e15, {1e9, 1000000001.0});
    g.note("mjd", v);
    sla::Date dt{};
    REQUIRE(sla::djcl(v, dt), "accepted %.17g", v);
    REQUIRE(sla::djcal(g.irange(0, 4), v, dt), "accepted %.17g", v);
}
LAW(there_and_back, 300000) {
    const int y = gen_year(g, -4699), m = gen_month(g);
    if (y < -4699) g.discard();
    const int d = g.irange(1, cal::dim(y, m));
    g.note("year", y); g.note("month", m); g.note("day", d);
    double mjd = 0;
    REQUIRE(sla::cldj(y, m, d, mjd) == sla::G2J_OK, "status");
    if (mjd <= -2395520.0 || mjd >= 1e9) g.discard();
    sla::Date a{}, b{};
    REQUIRE(!sla::djcl(mjd, a) && !sla::djcal(g.irange(0, 4), mjd, b), "rejected");
    REQUIRE(a.d_year == y && a.d_month == m && a.d_day == d && a.d_fraction == 0, "djcl %d-%d-%d", a.d_year, a.d_month, a.d_day);
    REQUIRE(b.d_year == y && b.d_month == m && b.d_day == d && b.d_ifraction == 0, "djcal %d-%d-%d", b.d_year, b.d_month, b.d_day);
    mark(g, y, m, d);
}
