#include "ref.h"
#include "slalib.h"
PROPERTY("C03", "caf2r daf2r ctf2d dtf2d ctf2r dtf2r",
    "at least two fields are non-zero, or a field is at or beyond its limit")
using namespace ref;

struct Fields { int a, b; double s; };
static Fields gen_fields(Gen& g, int amax, bool single) {
    Fields f;
    const bool wild = g.chance(1, 4);
    f.a = g.chance(3, 4)? g.integer(0, amax, {0, 1, amax, 12, 180}): wild? g.integer(-2000000000, 2000000000, {-1, amax + 1, 2147483647, -2147483647 - 1}): g.integer(-3, amax + 3, {-1, 0, amax, amax + 1});
    f.b = g.chance(3, 4)? g.integer(0, 59, {0, 59, 1, 30}): wild? g.integer(-2000000000, 2000000000, {-1, 60, 61, 2147483647}): g.integer(-3, 63, {-1, 0, 59, 60});
    f.s = g.chance(3, 4)? g.real(0, single? 59.99999: 59.999999999, {0, 1, 30, 59, 59.9999}): g.real(-100, 200, {60, 0, -1, 61, -1e-9, 60.0000001, 59.9999999});
    return f;
}
template <class S> int expected(const Fields& f, S s, int amax) {   // bit mask of the fields out of range
    return (f.a < 0 || f.a > amax? 1: 0) | (f.b < 0 || f.b > 59? 2: 0) | (s < 0 || s >= 60? 4: 0);
}
template <class S> void verify(Gen& g, const Fields& f, S s, int amax, int status, S got, ld unit, ld eps) {
    const int bad = expected<S>(f, s, amax);
    if (bad == 0) REQUIRE(status == 0, "status %d for valid fields %d %d %.17g", status, f.a, f.b, (double) s);
    else REQUIRE(status >= 1 && status <= 3 && (bad & (1 << (status - 1))), "status %d for fields %d %d %.17g", status, f.a, f.b, (double) s);
    const ld want = (f.a * 3600.0L + f.b * 60.0L + s) * unit;
    const ld size = (std::fabs(f.a * 3600.0L) + std::fabs(f.b * 60.0L) + std::fabs((ld) s)) * unit;
    CLOSE(got, want, 6 * eps * size + (eps > 1e-10L? 1e-37L: 1e-300L), "fields %d %d %.17g", f.a, f.b, (double) s);
    g.trivial(!bad && (f.a != 0) + (f.b != 0) + (s != 0) < 2 && f.b != 59 && f.a != amax);
    if (bad) g.classify("out of range");
}
#define NOTES g.note("first", f.a); g.note("minutes", f.b); g.note("seconds", s)

LAW(degrees_double, 400000) { auto f = gen_fields(g, 359, false); const double s = f.s; NOTES; double r = -9; const int st = sla::daf2r(f.a, f.b, s, r); verify<double>(g, f, s, 359, st, r, ARCSEC, EPS); }
LAW(degrees_single, 400000) { auto f = gen_fields(g, 359, true); const float s = (float) f.s; NOTES; float r = -9; const int st = sla::caf2r(f.a, f.b, s, r); verify<float>(g, f, s, 359, st, r, ARCSEC, FEPS); }
LAW(days_double, 400000) { auto f = gen_fields(g, 23, false); const double s = f.s; NOTES; double r = -9; const int st = sla::dtf2d(f.a, f.b, s, r); verify<double>(g, f, s, 23, st, r, 1.0L / 86400, EPS); }
LAW(days_single, 400000) { auto f = gen_fields(g, 23, true); const float s = (float) f.s; NOTES; float r = -9; const int st = sla::ctf2d(f.a, f.b, s, r); verify<float>(g, f, s, 23, st, r, 1.0L / 86400, FEPS); }
LAW(radians_double, 400000) { auto f = gen_fields(g, 23, false); const double s = f.s; NOTES; double r = -9; const int st = sla::dtf2r(f.a, f.b, s, r); verify<double>(g, f, s, 23, st, r, SEC, EPS); }
LAW(radians_single, 400000) { auto f = gen_fields(g, 23, true); const float s = (float) f.s; NOTES; float r = -9; const int st = sla::ctf2r(f.a, f.b, s, r); verify<float>(g, f, s, 23, st, r, SEC, FEPS); }

// value -> fields -> value, within half of the last displayed unit
LAW(round_trip_double, 300000) {
    const int ndp = g.irange(0, 9);
    const int kind = g.irange(0, 2);
    const double top = kind == 0? 0.99999: 6.2831;
    const double v = g.real(0, top);
    g.note("kind", kind); g.note("ndp", ndp); g.note("value", v);
    sla::ConversionResult r;
    if (kind == 0) sla::dd2tf(ndp, v, r); else if (kind == 1) sla::dr2tf(ndp, v, r); else sla::dr2af(ndp, v, r);
    if (r.get_hours() > (kind == 2? 359: 23)) return;
    const double p = std::pow(10.0, ndp), s = r.get_seconds() + r.get_fraction() / p;
    double back = -9;
    int st = kind == 0? (int) sla::dtf2d(r.get_hours(), r.get_minutes(), s, back): kind == 1? (int) sla::dtf2r(r.get_hours(), r.get_minutes(), s, back): (int) sla::daf2r(r.get_hours(), r.get_minutes(), s, back);
    REQUIRE(st == 0, "status %d", st);
    const ld unit = (kind == 0? 1.0L / 86400: kind == 1? SEC: ARCSEC) / p;
    CLOSE(back, v, 0.5L * unit + 32 * EPS * v, "decimals %d", ndp);
}
LAW(round_trip_single, 300000) {
    const int ndp = g.irange(0, 5);
    const int kind = g.irange(0, 2);
    const float top = kind == 0? 0.9999f: 6.283f;
    const float v = g.realf(0, top);
    g.note("kind", kind); g.note("ndp", ndp); g.note("value", v);
    sla::ConversionResult r;
    if (kind == 0) sla::cd2tf(ndp, v, r); else if (kind == 1) sla::cr2tf(ndp, v, r); else sla::cr2af(ndp, v, r);
    if (r.get_hours() > (kind == 2? 359: 23)) return;
    const double p = std::pow(10.0, ndp);
    float s = (float) (r.get_seconds() + r.get_fraction() / p), back = -9;
    if (s >= 60) return;
    int st = kind == 0? (int) sla::ctf2d(r.get_hours(), r.get_minutes(), s, back): kind == 1? (int) sla::ctf2r(r.get_hours(), r.get_minutes(), s, back): (int) sla::caf2r(r.get_hours(), r.get_minutes(), s, back);
    REQUIRE(st == 0, "status %d", st);
    const ld unit = (kind == 0? 1.0L / 86400: kind == 1? SEC: ARCSEC) / p;
    CLOSE(back, v, 0.5L * unit + 16 * FEPS * v, "decimals %d", ndp);
}
