#include "ref.h"
#include "calendar.h"
#include "slalib.h"
PROPERTY("C05", "dat dtt dt epj epj2d epb epb2d epco",
    "the date lies within a day of a step of TAI-UTC, in 1960-1972, or anywhere outside the year 2000 for epochs")
using namespace ref;

// TAI-UTC as announced: from the given day at 0h UTC, offset + (MJD - reference) * rate
struct Step { int y, m; double offset; int ry, rm; double rate; };
static const Step STEPS[] = {
    {1961, 1, 1.4228180, 1961, 1, 0.001296},  {1961, 8, 1.3728180, 1961, 1, 0.001296},
    {1962, 1, 1.8458580, 1962, 1, 0.0011232}, {1963, 11, 1.9458580, 1962, 1, 0.0011232},
    {1964, 1, 3.2401300, 1965, 1, 0.001296},  {1964, 4, 3.3401300, 1965, 1, 0.001296},
    {1964, 9, 3.4401300, 1965, 1, 0.001296},  {1965, 1, 3.5401300, 1965, 1, 0.001296},
    {1965, 3, 3.6401300, 1965, 1, 0.001296},  {1965, 7, 3.7401300, 1965, 1, 0.001296},
    {1965, 9, 3.8401300, 1965, 1, 0.001296},  {1966, 1, 4.3131700, 1966, 1, 0.002592},
    {1968, 2, 4.2131700, 1966, 1, 0.002592},
    {1972, 1, 10, 0, 0, 0}, {1972, 7, 11, 0, 0, 0}, {1973, 1, 12, 0, 0, 0}, {1974, 1, 13, 0, 0, 0}, {1975, 1, 14, 0, 0, 0},
    {1976, 1, 15, 0, 0, 0}, {1977, 1, 16, 0, 0, 0}, {1978, 1, 17, 0, 0, 0}, {1979, 1, 18, 0, 0, 0}, {1980, 1, 19, 0, 0, 0},
    {1981, 7, 20, 0, 0, 0}, {1982, 7, 21, 0, 0, 0}, {1983, 7, 22, 0, 0, 0}, {1985, 7, 23, 0, 0, 0}, {1988, 1, 24, 0, 0, 0},
    {1990, 1, 25, 0, 0, 0}, {1991, 1, 26, 0, 0, 0}, {1992, 7, 27, 0, 0, 0}, {1993, 7, 28, 0, 0, 0}, {1994, 7, 29, 0, 0, 0},
    {1996, 1, 30, 0, 0, 0}, {1997, 7, 31, 0, 0, 0}, {1999, 1, 32, 0, 0, 0}, {2006, 1, 33, 0, 0, 0}, {2009, 1, 34, 0, 0, 0},
    {2012, 7, 35, 0, 0, 0}, {2015, 7, 36, 0, 0, 0}, {2017, 1, 37, 0, 0, 0}};
constexpr int NSTEPS = sizeof STEPS / sizeof *STEPS;
static ld tai_utc(double utc) {
    const Step* s = nullptr;
    for (const Step& t: STEPS) if ((ld) utc >= cal::mjd(t.y, t.m, 1)) s = &t;
    if (!s) return 1.417818L + ((ld) utc - cal::mjd(1961, 1, 1)) * 0.001296L;
    return s->rate == 0? (ld) s->offset: (ld) s->offset + ((ld) utc - cal::mjd(s->ry, s->rm, 1)) * (ld) s->rate;
}
static double gen_utc(Gen& g, bool& interesting) {
    interesting = true;
    double v;
    switch (g.irange(0, 5)) {
    case 0: case 1: case 2: {
        const Step& s = STEPS[g.below(NSTEPS)];
        v = (double) cal::mjd(s.y, s.m, 1);
        switch (g.irange(0, 5)) {
        case 0: break;
        case 1: v = std::nextafter(v, 0); break;
        case 2: v -= 1.0 / 86400; break;
        case 3: v += g.uniform(-1, 1); break;
        case 4: v += g.integer(-40, 40); break;
        default: v += g.logmag(-10, 2);
        }
        break;
    }
    case 3: v = g.real(36934, 41320); break;
    case 4: v = g.chance(1, 3)? g.logmag(4, 9): g.real(-1e6, 1e6); interesting = false; break;
    default: v = g.real(35000, 65000); interesting = false;
    }
    return v;
}
LAW(tai_minus_utc, 3000000) {
    bool in;
    const double utc = gen_utc(g, in);
    g.note("utc", utc);
    g.trivial(!in);
    const ld want = tai_utc(utc);
    const double got = sla::dat(utc);
    if (utc >= 41317) REQUIRE((ld) got == want, "TAI-UTC at %.17g is %.17g, announced %Lg", utc, got, want);
    else CLOSE(got, want, 8 * EPS * (10 + fabsl(want) + fabsl(utc - 37300) * 0.0026L), "TAI-UTC at MJD %.17g", utc);
    CLOSE(sla::dtt(utc), want + 32.184L, 8 * EPS * (50 + fabsl(want)), "TT-UTC at MJD %.17g", utc);
}
LAW(all_days, 40000) {      // every midnight and every last instant before midnight from 1959 to the end of 2026
    const int lo = (int) cal::mjd(1959, 1, 1), hi = (int) cal::mjd(2027, 1, 1);
    const int d = g.irange(lo, hi);
    const double utc = g.chance(1, 2)? d: std::nextafter((double) d, 0);
    g.note("utc", utc);
    CLOSE(sla::dat(utc), tai_utc(utc), 1e-13, "TAI-UTC at MJD %.17g", utc);
}
LAW(delta_t, 1500000) {
    const double e = g.chance(1, 3)? g.uniform(-2000, 3000): g.chance(1, 6)? g.logmag(3, 7): g.real(-4000, 6000, {979, 1708, 1800, 1819, 948, 1600, 1650, 979.0258204760233, 1708.185161980887});
    g.note("epoch", e);
    const ld c = ((ld) e - 1800) / 100;
    const ld late = 5.156L + 13.3066L * (c - 0.19L) * (c - 0.19L), mid = 25.5L * c * c, early = 1360 + (320 + 44.3L * c) * c;
    // adjoining parabolas meet at the breakpoints: solve late == mid and mid == early for them
    static const ld b1 = [] { // 12.1934 c^2 + 5.056508 c - 5.63636826 = 0, negative root
        const ld A = 25.5L - 13.3066L, B = 2 * 0.19L * 13.3066L, C = -5.156L - 13.3066L * 0.19L * 0.19L;
        return 1800 + 100 * (-B - sqrtl(B * B - 4 * A * C)) / (2 * A); }();
    static const ld b0 = [] { const ld A = 18.8L, B = 320, C = 1360; return 1800 + 100 * (-B + sqrtl(B * B - 4 * A * C)) / (2 * A); }();
    const ld want = e >= b1? late: e >= b0? mid: early;
    const ld slack = fabsl(e - b1) < 1e-6L || fabsl(e - b0) < 1e-6L? 1e-5L: 0;      // either parabola at the meeting point
    CLOSE(sla::dt(e), want, slack + 20 * EPS * (1400 + 60 * c * c + 400 * fabsl(c)), "Delta T at %.17g", e);
    g.trivial(e > 1999 && e < 2001);
}
static double gen_epoch(Gen& g) { return g.chance(1, 2)? g.uniform(1800, 2200): g.chance(1, 6)? g.logmag(3, 8): g.real(-50000, 50000, {1900, 1950, 2000, 0}); }
LAW(epochs, 1500000) {
    const double e = gen_epoch(g);
    const double mjd = g.chance(1, 8)? g.logmag(4, 10): g.chance(1, 2)? g.real(-3e6, 3e6, {51544.5, 15019.81352, 0, 33281.92345905}): g.uniform(-10000, 90000);
    g.note("epoch", e); g.note("mjd", mjd);
    const ld em = 4 * EPS * (fabsl(e) + 4000) * 366 + EPS * 60000, me = 2 * EPS * (2000 + fabsl(mjd) / 365 * 4);
    CLOSE(sla::epj2d(e), 51544.5L + (e - 2000.0L) * 365.25L, em, "Julian epoch %.17g to MJD", e);
    CLOSE(sla::epb2d(e), 15019.81352L + (e - 1900.0L) * 365.242198781L, em, "Besselian epoch %.17g to MJD", e);
    CLOSE(sla::epj(mjd), 2000 + (mjd - 51544.5L) / 365.25L, 2 * me, "MJD %.17g to Julian epoch", mjd);
    CLOSE(sla::epb(mjd), 1900 + (mjd - 15019.81352L) / 365.242198781L, 2 * me, "MJD %.17g to Besselian epoch", mjd);
    CLOSE(sla::epj(sla::epj2d(e)), e, 4 * EPS * (fabsl(e) + 2000), "Julian round trip");
    CLOSE(sla::epb(sla::epb2d(e)), e, 4 * EPS * (fabsl(e) + 2000), "Besselian round trip");
    g.trivial(fabsl(e - 2000) < 1);
}
LAW(epoch_converter, 600000) {
    const double e = gen_epoch(g);
    const bool valid = g.chance(3, 4);
    char r = g.pick({'B', 'b', 'J', 'j'}), s = g.pick({'B', 'b', 'J', 'j'});
    if (!valid) {
        char& t = g.chance(1, 2)? r: s;
        do t = (char) g.irange(-128, 127); while (strchr("BbJj", t) && t && false);
        if (t && strchr("BbJj", t)) t = 'K';
    }
    g.note("result", (int) r); g.note("given", (int) s); g.note("epoch", e);
    const double got = sla::epco(r, s, e);
    if (!valid) { REQUIRE(r == s || got == 0.0, "epco('%c', '%c', %.17g) = %.17g", r, s, e, got); return; }
    const bool rb = r == 'B' || r == 'b', sb = s == 'B' || s == 'b';
    if (rb == sb) { REQUIRE(got == e, "epco('%c', '%c', %.17g) = %.17g", r, s, e, got); return; }
    const ld mjd = sb? 15019.81352L + (e - 1900.0L) * 365.242198781L: 51544.5L + (e - 2000.0L) * 365.25L;
    const ld want = rb? 1900 + (mjd - 15019.81352L) / 365.242198781L: 2000 + (mjd - 51544.5L) / 365.25L;
    CLOSE(got, want, 8 * EPS * (fabsl(e) + 3000), "epco('%c', '%c', %.17g)", r, s, e);
}
