#include "ref.h"
#include "slalib.h"
#include <cstring>
#include <climits>
#include <string>
PROPERTY("C24", "geoc pvobs polmo obs", "the latitude or pole offset is not zero; for the station list, any look-up")
using namespace ref;
constexpr ld RADIUS = 6378140.0L, FLAT = 1 / 298.257L, AU = 1.49597870e11L, RATE = 7.292115855306589e-5L;
/// point at the given height along the outward normal of the spheroid at the given geodetic latitude, metres
static void spheroid(ld lat, ld h, ld& rho, ld& z) {
    const ld b = RADIUS * (1 - FLAT), n = RADIUS * RADIUS * cosl(lat) * cosl(lat) + b * b * sinl(lat) * sinl(lat);
    rho = RADIUS * RADIUS * cosl(lat) / sqrtl(n) + h * cosl(lat);
    z = b * b * sinl(lat) / sqrtl(n) + h * sinl(lat);
}
static double height(Gen& g) {
    const double h = g.chance(1, 5)? g.real(-1e8, 1e9, {0, -6378140, 3.6e7, 4e8, 1, -1}): g.real(-500, 9000, {0, 1000, 2500, 4200, 8848});
    g.note("height", h);
    return h;
}
static double latitude(Gen& g) { const double p = g.lat(); g.note("latitude", p); return p; }
LAW(geocentric, 700000) {
    const double p = latitude(g), h = height(g);
    double a = 7e77, e = 7e77;
    sla::geoc(p, h, a, e);
    ld rho, z;
    spheroid(p, h, rho, z);
    const ld tol = 8 * EPS * (RADIUS + fabsl(h)) / AU;
    CLOSE(a, rho / AU, tol, "distance from the axis"); CLOSE(e, z / AU, tol, "distance from the equator");
    // opposite latitudes mirror each other
    double a2 = 7e77, e2 = 7e77;
    sla::geoc(-p, h, a2, e2);
    CLOSE(a2, a, tol, "mirrored distance from the axis"); CLOSE(e2, -e, tol, "mirrored distance from the equator");
    if (h > -1e5) REQUIRE(a >= -tol && e * p >= 0, "a point at or above ground on the wrong side");
    g.trivial(p == 0);
}
LAW(observer, 700000) {
    const double p = latitude(g), h = height(g), st = g.angle(g.chance(1, 4)? 40: 2 * M_PI);
    g.note("sidereal time", st);
    sla::VectorPV<double> o;
    o.set_x(7e77); o.set_y(7e77); o.set_z(7e77); o.set_dx(7e77); o.set_dy(7e77); o.set_dz(7e77);
    sla::pvobs(p, h, st, o);
    ld rho, z;
    spheroid(p, h, rho, z);
    const ld tol = 10 * EPS * (RADIUS + fabsl(h)) / AU;
    CLOSE(o.get_x(), rho / AU * cosl(st), tol, "x"); CLOSE(o.get_y(), rho / AU * sinl(st), tol, "y"); CLOSE(o.get_z(), z / AU, tol, "z");
    CLOSE(o.get_dx(), -RATE * rho / AU * sinl(st), RATE * tol, "x velocity"); CLOSE(o.get_dy(), RATE * rho / AU * cosl(st), RATE * tol, "y velocity");
    REQUIRE(o.get_dz() == 0, "moves along the axis: %.17g", o.get_dz());
    g.trivial(p == 0);
}
LAW(polar_motion, 700000) {
    const double l = g.angle(g.chance(1, 4)? 30: 2 * M_PI), p = latitude(g);
    const bool large = g.chance(1, 5);
    const auto pole = [&] { return large? g.real(-0.5, 0.5, {0, 0.1, -0.1}): g.chance(1, 10)? 0.0: g.chance(1, 6)? g.logmag(-60, -18) * (g.chance(1, 2)? 1: -1): g.uniform(-3e-6, 3e-6); };
    double x = pole(), y = pole();
    if (g.chance(1, 20)) { x = std::cos(p) * std::cos(l); y = -std::cos(p) * std::sin(l); }    // brings a site near the pole onto the pole
    g.note("longitude", l); g.note("x", x); g.note("y", y);
    double tl = 7e77, tp = 7e77, da = 7e77;
    sla::polmo(l, p, x, y, tl, tp, da);
    REQUIRE(std::isfinite(tl) && std::isfinite(tp) && std::isfinite(da), "results %.9g %.9g %.9g", tl, tp, da);
    const M m = rot(1, x) * rot(0, y);
    const V site = m * dir(l, p), pole_v = m * V{0, 0, 1};
    const ld c = std::hypot(site.x, site.y), tol = 16 * EPS;
    REQUIRE(maxdiff(dir(tl, tp), site) <= tol, "site moves to the wrong place by %.3Lg", maxdiff(dir(tl, tp), site));
    REQUIRE(std::fabs(tp) <= M_PI_2 + 1e-15 && std::fabs(tl) <= M_PI + 1e-15, "true position %.17g, %.17g out of range", tl, tp);
    CLOSE(tp, lat(site), tol, "true latitude");
    if (c > 0) REQUIRE(fabsl(pbt::angdiff(tl, lon(site))) <= tol / c + tol, "true longitude %.17g, expected %.17Lg", tl, lon(site));
    // the terrestrial pole, in the horizon plane of the site: towards the celestial pole and towards east
    const V east = {-sinl(tl), cosl(tl), 0}, north = cross(dir(tl, tp), east);
    const ld e = dot(pole_v, east), n = dot(pole_v, north), r = std::hypot(e, n);
    if (r > 100 * EPS) REQUIRE(fabsl(pbt::angdiff(da, -atan2l(e, n))) <= 2 * tol / r + tol, "azimuth correction %.17g, expected %.17Lg", da, -atan2l(e, n));
    if (!large && std::fabs(x) < 1e-5 && std::fabs(y) < 1e-5 && std::fabs(p) < 1.4) {
        // the documented approximation
        const ld X = cosl(l) * cosl(p), Y = sinl(l) * cosl(p);
        CLOSE(da, atan2l(-X * y - Y * x, X * X + Y * Y), 60 * (x * x + (ld) y * y) + 1e-14L, "documented approximation of the azimuth correction");
    }
    g.trivial(x == 0 && y == 0);
}
struct Station { const char* id; const char* name; int ls, ld_, lm; ld lsec; int ps, pd, pm; ld psec; double h; };
static const Station STATIONS[] = {
#include "data/obs.inc"
};
constexpr int COUNT = sizeof STATIONS / sizeof STATIONS[0];
static sla::Observatory prefilled() { sla::Observatory o; o.o_id = "x"; o.o_name = "y"; o.o_long = o.o_lat = o.o_height = 7e77; return o; }
static void same(Gen& g, const sla::Observatory& o, const Station* s) {
    REQUIRE(o.o_id && o.o_name, "null strings");
    if (!s) {
        REQUIRE(!std::strcmp(o.o_id, "?") && !std::strcmp(o.o_name, "?") && o.o_long == 0 && o.o_lat == 0 && o.o_height == 0, "not-found result is '%s' '%s' %g %g %g", o.o_id, o.o_name, o.o_long, o.o_lat, o.o_height);
        return;
    }
    REQUIRE(!std::strcmp(o.o_id, s->id) && !std::strcmp(o.o_name, s->name), "got '%s' '%s', expected '%s' '%s'", o.o_id, o.o_name, s->id, s->name);
    CLOSE(o.o_long, s->ls * ARCSEC * (3600.0L * s->ld_ + 60 * s->lm + s->lsec), 4e-15L, "longitude of %s", s->id);
    CLOSE(o.o_lat, s->ps * ARCSEC * (3600.0L * s->pd + 60 * s->pm + s->psec), 2e-15L, "latitude of %s", s->id);
    REQUIRE(o.o_height == s->h, "height of %s is %.17g", s->id, o.o_height);
}
LAW(station_by_number, 200000) {
    const int n = g.chance(9, 10)? g.integer(0, 90, {0, 84, 85, 1}): g.integer(0, INT_MAX, {INT_MAX, 86, 128, 255, 256, 257, 65536, INT_MAX - 1});
    g.note("n", n);
    sla::Observatory o = prefilled();
    static const char* ids[] = {"AAT", "", "ZZZ", "UKIRT", "KECK2", "?"};
    const char* id = ids[g.below(6)];
    char buf[16];
    std::strcpy(buf, id);
    const bool ok = sla::obs(n, g.chance(1, 8)? nullptr: buf, o);
    REQUIRE(ok == (n < COUNT), "returned %d", ok);
    REQUIRE(!std::strcmp(buf, id), "the identifier was changed");
    same(g, o, n < COUNT? &STATIONS[n]: nullptr);
    if (ok) {
        // its own identifier finds it, unless an earlier one starts with the same characters
        sla::Observatory o2 = prefilled();
        REQUIRE(sla::obs(-1, o.o_id, o2), "station %d not found by its identifier", n);
        int first = 0;
        while (std::strncmp(STATIONS[first].id, o.o_id, std::strlen(o.o_id))) first++;
        same(g, o2, &STATIONS[first]);
    }
}
LAW(station_by_identifier, 400000) {
    std::string id = STATIONS[g.below(COUNT)].id;
    const unsigned kind = g.below(6);
    if (kind == 1 || kind == 2) id = id.substr(0, g.below(id.size() + 1));
    else if (kind == 3) id += std::string(1 + g.below(3), "0 XKA"[g.below(5)]);
    else if (kind == 4) { if (!id.empty()) id[g.below(id.size())] = "0123456789.ABCDEKLMPRSTUV ?"[g.below(27)]; }
    else if (kind == 5) { id.clear(); for (unsigned k = g.below(14); k--;) id += "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.? "[g.below(39)]; }
    const int n = g.chance(1, 2)? -1: g.chance(1, 2)? -2 - (int) g.below(100): INT_MIN + (int) g.below(3);
    g.note("n", n); g.note("id", id.c_str());
    const Station* want = nullptr;
    for (const Station& s: STATIONS) if (std::string(s.id).compare(0, id.size(), id) == 0) { want = &s; break; }
    char buf[32];
    std::strcpy(buf, id.c_str());
    sla::Observatory o = prefilled();
    const bool ok = sla::obs(n, buf, o);
    if (g.chance(1, 8)) { sla::Observatory o2 = prefilled(); REQUIRE(!sla::obs(n, nullptr, o2), "found without number or identifier"); same(g, o2, nullptr); }
    std::memset(buf, 'X', sizeof buf - 1);    // the result does not depend on the caller's string any more
    REQUIRE(ok == (want != nullptr), "returned %d", ok);
    same(g, o, want);
}
