#include "ref.h"
#include "slalib.h"
PROPERTY("C12", "altaz",
    "the pointing is more than 1e-6 radians from zenith and nadir")
using namespace ref;

/// value and first two derivatives with respect to hour angle
struct J { ld v, d, dd; };
static J operator+(J a, J b) { return {a.v + b.v, a.d + b.d, a.dd + b.dd}; }
static J operator-(J a, J b) { return {a.v - b.v, a.d - b.d, a.dd - b.dd}; }
static J operator*(J a, J b) { return {a.v * b.v, a.d * b.v + a.v * b.d, a.dd * b.v + 2 * a.d * b.d + a.v * b.dd}; }
static J cst(ld c) { return {c, 0, 0}; }
static J atan2j(J y, J x) {
    const ld r2 = x.v * x.v + y.v * y.v;
    const ld n = x.v * y.d - y.v * x.d, dn = x.v * y.dd - y.v * x.dd, dr2 = 2 * (x.v * x.d + y.v * y.d);
    return {atan2l(y.v, x.v), n / r2, (dn * r2 - n * dr2) / (r2 * r2)};
}
static J sqrtj(J a) { const ld s = sqrtl(a.v); return {s, a.d / (2 * s), a.dd / (2 * s) - a.d * a.d / (4 * s * s * s)}; }

static void gen(Gen& g, double& ha, double& dec, double& phi) {
    phi = g.lat(); dec = g.lat(); ha = g.angle(g.chance(1, 5)? 30: 6.3);
    switch (g.irange(0, 11)) {
    case 0: dec = phi; ha = 0; break;
    case 1: dec = -phi; ha = (double) PI; break;
    case 2: case 3: { const double d = std::fabs(g.logmag(-17, -2)); dec = phi + g.uniform(-d, d); ha = g.uniform(-d, d); break; }
    case 4: ha = g.pick({0.0, (double) PI, (double) -PI, (double) HALF_PI, (double) -HALF_PI}); break;
    }
    g.note("ha", ha); g.note("dec", dec); g.note("phi", phi);
}
LAW(rates, 2500000) {
    double ha, dec, phi;
    gen(g, ha, dec, phi);
    sla::AltazMount m;
    memset((void*) &m, 0x7f, sizeof m);
    sla::altaz({ha, dec}, phi, m);
    const double out[9] = {m.get_azimuth(), m.get_az_velocity(), m.get_az_acceleration(), m.get_elevation(), m.get_el_velocity(), m.get_el_acceleration(),
        m.get_pangle(), m.get_pa_velocity(), m.get_pa_acceleration()};
    static const char* NAME[9] = {"azimuth", "azimuth velocity", "azimuth acceleration", "elevation", "elevation velocity", "elevation acceleration",
        "parallactic angle", "parallactic angle velocity", "parallactic angle acceleration"};
    for (int i = 0; i < 9; i++) REQUIRE(std::isfinite(out[i]), "%s is %g", NAME[i], out[i]);
    REQUIRE(out[0] >= 0 && (ld) out[0] <= TWO_PI, "azimuth %.17g out of range", out[0]);
    REQUIRE(fabsl(out[3]) <= HALF_PI, "elevation %.17g out of range", out[3]);
    REQUIRE(fabsl(out[6]) <= PI, "parallactic angle %.17g out of range", out[6]);
    const J c = {cosl(ha), -sinl(ha), -cosl(ha)}, s = {sinl(ha), cosl(ha), -sinl(ha)};
    const J cd = cst(cosl(dec)), sd = cst(sinl(dec)), cp = cst(cosl(phi)), sp = cst(sinl(phi));
    const J x = sd * cp - c * cd * sp, y = cst(0) - s * cd, z = c * cd * cp + sd * sp;
    const ld r = hypotl(x.v, y.v);
    CLOSE(out[3], atan2l(z.v, r), 8 * EPS, "elevation");
    // bounded however close to the zenith: the clamp is at 1e-15 radians
    REQUIRE(fabsl(out[1]) <= 1.1e15L && fabsl(out[7]) <= 1.1e15L && fabsl(out[4]) <= 1.1L && fabsl(out[5]) <= 1.1e16L && fabsl(out[2]) <= 2.5e30L && fabsl(out[8]) <= 2.5e30L,
        "unbounded rates near the zenith: %g %g %g %g %g %g", out[1], out[2], out[4], out[5], out[7], out[8]);
    g.trivial(r < 1e-6L);
    if (r < 1e-13L) { g.classify("inside the zenith clamp"); return; }
    const J A = atan2j(y, x), E = atan2j(z, sqrtj(x * x + y * y)), Q = atan2j(s * cp, cd * sp - c * sd * cp);
    const ld e = 24 * EPS, v1 = e / (r * r) + e, a1 = 2 * e / (r * r * r) + e;
    if (e / r < 0.1L) {
        CLOSE(pbt::angdiff(out[0], A.v), 0, e / r, "azimuth %.17g", out[0]);
        CLOSE(pbt::angdiff(out[6], Q.v), 0, e / r, "parallactic angle %.17g", out[6]);
    }
    CLOSE(out[1], A.d, v1, "azimuth velocity");
    CLOSE(out[2], A.dd, a1, "azimuth acceleration");
    CLOSE(out[4], E.d, e / r + e, "elevation velocity");
    CLOSE(out[5], E.dd, v1, "elevation acceleration");
    CLOSE(out[7], Q.d, v1, "parallactic angle velocity");
    CLOSE(out[8], Q.dd, a1, "parallactic angle acceleration");
}
LAW(finite_differences, 400000) {          // the reported rates against the function's own outputs at nearby hour angles
    const double phi = g.uniform(-1.5, 1.5), dec = g.uniform(-1.5, 1.5), ha = g.uniform(-3, 3);
    g.note("ha", ha); g.note("dec", dec); g.note("phi", phi);
    const ld x = sinl(dec) * cosl(phi) - cosl(dec) * cosl(ha) * sinl(phi), y = -cosl(dec) * sinl(ha), r = hypotl(x, y);
    if (r < 0.05L) g.discard();
    const double h = 1e-4 * (double) r;
    sla::AltazMount m, a, b;
    sla::altaz({ha, dec}, phi, m); sla::altaz({ha + h, dec}, phi, a); sla::altaz({ha - h, dec}, phi, b);
    const ld tol = 1e-7L / (r * r), tol2 = 2e-6L / (r * r * r);
    CLOSE(pbt::angdiff(a.get_azimuth(), b.get_azimuth()) / (2 * h), m.get_az_velocity(), tol, "azimuth velocity");
    CLOSE((a.get_elevation() - b.get_elevation()) / (2 * h), m.get_el_velocity(), tol, "elevation velocity");
    CLOSE(pbt::angdiff(a.get_pangle(), b.get_pangle()) / (2 * h), m.get_pa_velocity(), tol, "parallactic angle velocity");
    CLOSE((a.get_az_velocity() - b.get_az_velocity()) / (2 * h), m.get_az_acceleration(), tol2, "azimuth acceleration");
    CLOSE((a.get_el_velocity() - b.get_el_velocity()) / (2 * h), m.get_el_acceleration(), tol2, "elevation acceleration");
    CLOSE((a.get_pa_velocity() - b.get_pa_velocity()) / (2 * h), m.get_pa_acceleration(), tol2, "parallactic angle acceleration");
}
