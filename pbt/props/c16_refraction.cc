#include "refr_ref.h"
#include "slalib.h"
PROPERTY("C16", "refro refco refcoq refz refv atmdsp",
    "pressure is above 1 mb and the zenith distance above 1e-6 radians")
using namespace ref;

struct Cond { double h, t, p, rh, wl, phi, tlr, eps; };
static double wavelength(Gen& g) {
    return g.irange(0, 3)? g.real(0.3, 2.5, {0.3, 0.4, 0.55, 0.574, 1, 2}):
        g.pick({100.0, 99.999, 100.001, std::nextafter(100.0, 200.0), std::nextafter(100.0, 0.0), 101.0, 50.0, 200.0, 1e4, 1e6, 20.0, 0.1, 0.2});
}
/// ordinary observing conditions
static Cond ordinary(Gen& g) {
    Cond c;
    c.h = g.real(-200, 6000, {0, 2000, 2500, 4200});
    const double dt = g.real(-30, 30, {0});
    c.t = 288 - 0.0065 * c.h + dt;
    c.p = 1013.25 * std::exp(-c.h / (29.3 * (c.t - 3))) * g.real(0.9, 1.05, {1});
    c.rh = g.real(0, 1, {0, 0.5, 1, 0.8});
    c.wl = wavelength(g);
    c.phi = g.lat();
    c.tlr = g.real(0.0045, 0.0085, {0.0055, 0.0065, 0.0075});
    c.eps = g.pick({1e-8, 1e-8, 1e-8, 1e-9, 1e-9, 1e-10, 1e-10, 1e-11, 1e-12});
    g.note("h", c.h); g.note("t", c.t); g.note("p", c.p); g.note("rh", c.rh); g.note("wl", c.wl); g.note("phi", c.phi); g.note("tlr", c.tlr); g.note("eps", c.eps);
    return c;
}
/// anything up to the documented limits
static Cond wild(Gen& g) {
    Cond c;
    c.h = g.real(-1000, 80000, {-1000, 0, 11000, 10999, 11001, 25000, 80000});
    c.t = g.real(100, 500, {100, 500, 273.15, 300, 320, 319, 321});
    c.p = g.real(0, 1500, {0, 1500, 1000, 500});
    c.rh = g.real(0, 1, {0, 0.5, 1});
    c.wl = wavelength(g);
    c.phi = g.angle(2);
    c.tlr = g.real(0.001, 0.01, {0.001, 0.01, 0.0065});
    c.eps = g.pick({1e-8, 1e-9, 1e-10, 1e-6});
    g.note("h", c.h); g.note("t", c.t); g.note("p", c.p); g.note("rh", c.rh); g.note("wl", c.wl); g.note("phi", c.phi); g.note("tlr", c.tlr); g.note("eps", c.eps);
    return c;
}
static double refro(double z, const Cond& c) { return sla::refro(z, c.h, c.t, c.p, c.rh, c.wl, c.phi, c.tlr, c.eps); }
static Atmos atmos(const Cond& c) { return Atmos(c.h, c.t, c.p, c.rh, c.wl, c.phi, c.tlr); }
static double zenith_distance(Gen& g, double hi) {
    const double z = g.chance(1, 3)? hi * g.u01(): g.real(0, hi, {0, 0.7853981633974483, 1.325817663668033, 83 * (double) DEG, 1.5707963267948966, 1.5, 1.55, 1.6231, 1e-9});
    g.note("zd", z);
    return z;
}
LAW(integral, 20000) {
    const Cond c = ordinary(g);
    const double z = zenith_distance(g, 1.6231);
    Atmos a = atmos(c);
    if (a.stiffness() < 0.35L) { g.classify("near ducting"); g.discard(); }
    bool ok = true;
    const ld w = a.refraction(z, ok, z > 1.5? 24: 8);
    if (!ok) { g.classify("grazing beyond the model"); g.discard(); }
    const double r = refro(z, c);
    // near the horizon two successive quadratures can agree by chance before they have converged, whatever the tolerance asked for
    CLOSE(r, w, c.eps + (z > 1.5708? 3e-8L + 3e-6L * w: z > 1.55? 5e-8L: z > 1.5? 2e-8L: z > 1.3? 3e-11L: 1e-11L) + (a.kink? 2e-5L + 1e-3L * w: 0), "refraction of the model atmosphere");
    CLOSE(refro(-z, c), -r, 0, "refraction of the opposite zenith distance");
    REQUIRE(r >= 0, "negative refraction %.17g", r);
    g.trivial(z < 1e-6);
}
LAW(integral_extremes, 60000) {
    const Cond c = wild(g);
    const double z = zenith_distance(g, 1.4);
    Atmos a = atmos(c);
    ld ps;
    Atmos::vapour(c.t, c.p, c.rh, &ps);
    if (c.p > 0 && ps > 0.3L * c.p) { g.classify("boiling"); g.discard(); }
    if (fabsl(a.gamma - a.delta) < 0.2L) g.discard();
    if (!(a.stiffness() > 0.35L)) { g.classify("near ducting"); g.discard(); }
    bool ok = true;
    const ld w = a.refraction(z, ok, 16);
    if (c.t > 315 || c.t < 105) a.kink = true;
    if (!ok) g.discard();
    if (a.kink) CLOSE(refro(z, c), w, 3 * c.eps + 1e-9L + 5e-3L * fabsl(w), "refraction of the model atmosphere");
    else CLOSE(refro(z, c), w, c.eps + 1e-10L + 1e-6L * fabsl(w), "refraction of the model atmosphere");
    g.classify(a.kink? "temperature at its limits": "regular");
    g.trivial(z < 1e-6 || c.p < 1);
}
LAW(limits_are_clamps, 60000) {
    Cond c = ordinary(g), d = c;
    double z = zenith_distance(g, 1.5);
    switch (g.irange(0, 11)) {
    case 0: c.h = -1000; d.h = -1000 - std::fabs(g.logmag(-3, 4)); c.p = d.p = 1000; break;
    case 1: c.h = 80000; d.h = 80000 + std::fabs(g.logmag(-3, 5)); break;
    case 2: c.t = 100; d.t = 100 - g.uniform(0, 100); c.rh = d.rh = 0; break;
    case 3: c.t = 500; d.t = 500 + g.uniform(0, 1000); c.rh = d.rh = 0; break;
    case 4: c.p = 0; d.p = -std::fabs(g.logmag(-3, 4)); break;
    case 5: c.p = 10000; d.p = 10000 + std::fabs(g.logmag(-3, 4)); c.rh = d.rh = 0; break;
    case 6: c.rh = 0; d.rh = -std::fabs(g.logmag(-3, 2)); break;
    case 7: c.rh = 1; d.rh = 1 + std::fabs(g.logmag(-3, 2)); break;
    case 8: c.wl = 0.1; d.wl = g.pick({0.0, 0.05, 0.0999, -1.0}); break;
    case 9: c.tlr = 0.01; d.tlr = g.uniform(0.01, 0.1) * (g.chance(1, 2)? -1: 1); break;
    case 10: c.tlr = 0.001; d.tlr = g.uniform(-0.001, 0.001); break;
    case 11: d.tlr = -c.tlr; break;
    }
    if (!(atmos(c).stiffness() > 0.35L)) { g.classify("near ducting"); g.discard(); }
    g.notev("clamped", &c.h, 8); g.notev("given", &d.h, 8);
    CLOSE(refro(z, d), refro(z, c), 0, "argument beyond its limit");
    Cond e = ordinary(g), f = e;
    if (g.chance(1, 2)) { e.eps = 1e-12; f.eps = g.uniform(-1e-12, 1e-12); } else { e.eps = 0.1; f.eps = g.uniform(0.1, 5) * (g.chance(1, 2)? -1: 1); }
    CLOSE(refro(z, f), refro(z, e), 0, "tolerance beyond its limit");
    if (c.p == 0) REQUIRE(refro(z, c) == 0, "refraction %.17g without air", refro(z, c));
    REQUIRE(refro(0, c) == 0, "refraction %.17g at the zenith", refro(0, c));
    g.trivial(z < 1e-6);
}
LAW(zenith_distance_range, 600) {
    const Cond c = ordinary(g);
    if (atmos(c).stiffness() < 0.35L) { g.classify("near ducting"); g.discard(); }
    // beyond 93 degrees a fixed value; any number of turns
    const double lim = 1.6231562044, z1 = lim + std::fabs(g.logmag(-9, -0.1)), z2 = g.uniform(lim, 3.14);
    g.note("z1", z1); g.note("z2", z2);
    CLOSE(refro(z1, c), refro(z2, c), 0, "beyond 93 degrees");
    bool ok = true;
    const ld w93 = atmos(c).refraction(93 * DEG, ok);
    if (ok && w93 < 0.03L) { g.classify("regular at 93 degrees"); CLOSE(refro(z1, c), refro(93 * (double) DEG - 1e-9, c), 3 * c.eps + 1e-7L, "at 93 degrees"); CLOSE(refro(z1, c), w93, 1e-5L, "at 93 degrees"); }
    CLOSE(refro(-z1, c), -refro(z2, c), 0, "beyond 93 degrees, negative");
    const double z = g.uniform(-1.55, 1.55);
    const int turns = g.irange(-3, 3);
    g.note("z", z); g.note("turns", turns);
    CLOSE(refro(z + turns * 2 * (double) PI, c), refro(z, c), c.eps + 1e-9L + 1e-11L, "whole turns");
    // non-decreasing down to the horizon
    const double a = std::fabs(z) < 1.6? std::fabs(z): 0.3, b = std::fmin(a + std::fabs(g.logmag(-4, 0)), 1.6);
    REQUIRE(refro(b, c) >= refro(a, c) - 2 * c.eps, "refraction falls from z=%.17g to %.17g", a, b);
}
LAW(wavelength_switch, 60000) {
    Cond c = ordinary(g), d = c;
    const double z = zenith_distance(g, 1.5);
    // up to 100 micrometres the optical law, which hardly varies there; beyond it the radio law, which does not vary
    c.wl = g.pick({101.0, 1e3, std::nextafter(100.0, 200.0), 150.0}); d.wl = g.pick({1e6, 1e4, 100.5});
    g.note("wl1", c.wl); g.note("wl2", d.wl);
    CLOSE(refro(z, c), refro(z, d), 0, "radio refraction depends on wavelength");
    c.wl = 100; d.wl = g.uniform(60, 100);
    CLOSE(refro(z, c), refro(z, d), 2 * c.eps + 4e-6L * fabsl(refro(z, c)), "far infrared refraction depends on wavelength");
    g.trivial(z < 1e-6);
}
LAW(constants, 40000) {
    const Cond c = ordinary(g);
    if (atmos(c).stiffness() < 0.5L) { g.classify("near ducting"); g.discard(); }
    double A = 7e77, B = 7e77;
    sla::refco(c.h, c.t, c.p, c.rh, c.wl, c.phi, c.tlr, c.eps, A, B);
    const double z1 = 0.78539816339744831, z4 = 1.3258176636680326;
    const double r1 = refro(z1, c), r4 = refro(z4, c);
    CLOSE((ld) A + B, r1, 1e-14L, "two-constant model at atan(1)");
    CLOSE(4 * (ld) A + 64 * (ld) B, r4, 1e-14L, "two-constant model at atan(4)");
    Cond d = c; d.eps = 1e-10;
    const double z = g.uniform(0, 80 * (double) DEG);
    g.note("zd", z);
    const ld t = tanl(z), m = A * t + B * t * t * t;
    const bool optic = c.wl <= 100;
    CLOSE(m, refro(z, d), (z < 45 * DEG? 0.001L: z < 60 * DEG? 0.01L: 0.5L) * ARCSEC * (optic? 4: 10) + 4 * c.eps * (1 + t * t * t), "two-constant model against the integral");
}
static void quick_ref(ld T, ld P, ld rh, ld wl, ld& A, ld& B) {
    const bool optic = wl <= 100;
    T = clampl(T, 100, 500); P = clampl(P, 0, 10000); rh = clampl(rh, 0, 1); wl = clampl(wl, 0.1L, 1e6L);
    const ld pw = Atmos::vapour(T, P, rh);
    const ld gm = optic? ((77.53484e-6L + 4.39108e-7L / (wl * wl) + 3.666e-9L / (wl * wl * wl * wl)) * P - 11.2684e-6L * pw) / T: (77.6890e-6L * P - 6.3938e-6L * pw + 0.375463L / T * pw) / T;
    ld beta = 4.4474e-6L * T;
    if (!optic) beta *= 1 - 0.0074L * pw;
    A = gm * (1 - beta); B = -gm * (beta - gm / 2);
}
LAW(quick_constants, 400000) {
    const bool w = g.chance(1, 2);
    Cond c = w? wild(g): ordinary(g);
    if (g.chance(1, 5)) { c.t = g.uniform(-100, 800); c.p = g.uniform(-100, 20000); c.rh = g.uniform(-1, 2); g.note("t", c.t); g.note("p", c.p); g.note("rh", c.rh); }
    ld ps, A, B;
    const ld T = clampl(c.t, 100, 500), P = clampl(c.p, 0, 10000);
    Atmos::vapour(T, P, 0, &ps);
    const ld frac = P > 0? (1 - clampl(c.rh, 0, 1)) * ps / P: 0, cond = frac < 1? 1 / (1 - frac): 1;
    if (frac > 0.99L) { g.classify("boiling"); g.discard(); }
    quick_ref(c.t, c.p, c.rh, c.wl, A, B);
    double a = 7e77, b = 7e77;
    sla::refcoq(c.t, c.p, c.rh, c.wl, a, b);
    const ld k = (fabsl(A) + fabsl(B) + 1e-6L + 1e-8L * cond * ps) * cond * cond;
    CLOSE(a, A, 1e-12L * k, "quick constant A");
    CLOSE(b, B, 1e-12L * k * (1 + fabsl(A) + 1), "quick constant B");
    if (P == 0) REQUIRE(a == 0 && b == 0, "constants %.17g %.17g without air", a, b);
    g.trivial(P < 1);
}
LAW(quick_constants_accuracy, 30000) {
    // the documented test conditions
    Cond c;
    c.tlr = g.uniform(0.0055, 0.0075); c.phi = g.uniform(0, 75 * (double) DEG); c.h = g.uniform(0, 5000);
    c.t = 280 - 0.0065 * c.h + g.uniform(-10, 20);
    c.p = 1013.25 * std::pow(1 - 0.0065 * c.h / 288.15, 5.256) * g.uniform(0.9, 1.05);
    c.rh = g.uniform(0, 1); c.wl = g.chance(1, 4)? 1000: g.uniform(0.4, 2); c.eps = 1e-9;
    const double z = g.uniform(0, 75 * (double) DEG);
    g.notev("conditions", &c.h, 8); g.note("zd", z);
    double a, b;
    sla::refcoq(c.t, c.p, c.rh, c.wl, a, b);
    const ld t = tanl(z);
    CLOSE(a * t + b * t * t * t, refro(z, c), (c.wl <= 100? 0.1L: 0.45L) * ARCSEC, "quick constants against the integral");
}
/// refracted zenith distance of the tan/tan^3 model, to convergence
static ld model_z(ld zu, ld A, ld B) {
    ld z = zu;
    for (int i = 0; i < 50; i++) { const ld t = tanl(z), f = z + A * t + B * t * t * t - zu, d = 1 + (A + 3 * B * t * t) * (1 + t * t); z -= f / d; if (fabsl(f) < 1e-19L) break; }
    return z;
}
static void consts(Gen& g, double& A, double& B) {
    const double s = g.real(0, 1.3, {0, 1, 0.6});
    A = 58.3 * (double) ARCSEC * s; B = -0.067 * (double) ARCSEC * s * g.uniform(0.7, 1.3);
    if (g.chance(1, 6)) B = 0;
    g.note("A", A); g.note("B", B);
}
LAW(refracted_angle, 600000) {
    double A, B;
    consts(g, A, B);
    const double z = g.chance(1, 4)? 83 * (double) DEG + g.logmag(-12, -1): g.real(0, 3.1, {0, 83 * (double) DEG, 93 * (double) DEG, 1.5707963267948966, 80 * (double) DEG, 1.2});
    g.note("zu", z);
    const double r = sla::refz(z, A, B);
    const ld lim = 83 * DEG, zl = z < lim? z: lim, base = zl - model_z(zl, A, B);
    ld want = base;
    if (z > lim) {
        const ld e = 90 - (z / DEG > 93? 93: z / DEG);
        auto q = [](ld E) { return (0.55445L - 0.01133L * E + 0.00202L * E * E) / (1 + 0.28385L * E + 0.02390L * E * E); };
        want = base * q(e) / q(7);
    }
    // two Newton steps leave a residue only near the hand-over: 1e-11 arcsec at 80 degrees
    const ld tol = 8 * EPS * (1 + z) + (zl < 80 * DEG? 5e-9L * ARCSEC: 1e-6L * ARCSEC);
    CLOSE(z - r, want, tol * (z > lim? 60: 1), "refraction at %.17g", z);
    REQUIRE(r <= z + 1e-15 && z - r < 0.05, "refraction %.17g is not bounded or not towards the zenith", z - r);
    g.trivial(z < 1e-6 || A == 0);
}
LAW(angle_continuous, 200000) {
    double A, B;
    consts(g, A, B);
    const double at = g.pick({83.0, 93.0}) * (double) DEG, d = std::fabs(g.logmag(-13, -7));
    g.note("at", at); g.note("d", d);
    const ld j = (at + d - sla::refz(at + d, A, B)) - (at - d - sla::refz(at - d, A, B));
    REQUIRE(fabsl(j) <= 2e-6L * ARCSEC + 2 * d * 0.6L + 1e-15L, "step of %.3Lg radians at %.17g", j, at);
    const double za = g.uniform(0, 1.57), zb = za + std::fabs(g.logmag(-6, -1));
    g.note("za", za); g.note("zb", zb);
    if (zb < 1.57 && A > 0) REQUIRE(zb - sla::refz(zb, A, B) >= za - sla::refz(za, A, B) - 1e-13, "refraction falls from %.17g to %.17g", za, zb);
}
LAW(refracted_vector, 600000) {
    double A, B;
    consts(g, A, B);
    const double az = g.angle(), el = g.chance(1, 4)? 0.05 + g.logmag(-9, -1): g.real(-0.3, 1.5707963267948966, {0, 0.05, 0.0500209, 1.5707963267948966, 0.3});
    g.note("az", az); g.note("el", el);
    V u = dir(az, el);
    if (g.chance(1, 8)) u = g.chance(1, 2)? V{u.x < 0? -cosl(el): cosl(el), 0, u.z}: V{0, u.y < 0? -cosl(el): cosl(el), u.z};     // due north, south, east or west
    const double v[3] = {(double) u.x, (double) u.y, (double) u.z};
    g.notev("vector", v, 3);
    double r[3] = {7e77, 7e77, 7e77};
    sla::refv(v, A, B, r);
    // one Newton step on the tangent form; the correction is held below z = 0.05
    const ld x = v[0], y = v[1], zc = v[2] < 0.05L? 0.05L: v[2], rr = hypotl(x, y), t = rr / zc;
    const ld wt = (A + B * t * t) / (1 + (A + 3 * B * t * t) * (1 + t * t)), d = wt * t, cd = 1 - d * d / 2;
    CLOSE(r[0], x * cd * (1 - wt), 8 * EPS, "x"); CLOSE(r[1], y * cd * (1 - wt), 8 * EPS, "y");
    CLOSE(r[2], cd * (zc + d * rr) + (v[2] - zc), 8 * EPS, "z");
    // meaning: the same azimuth, zenith distance as the model's
    CLOSE(r[0] * (ld) y, r[1] * (ld) x, 8 * EPS, "azimuth changed");
    const ld zu = atan2l(rr, (ld) v[2]), zr = atan2l(hypotl(r[0], r[1]), (ld) r[2]);
    REQUIRE(zr <= zu + 1e-15L && zu - zr < 0.02L, "refraction %.3Lg is not bounded or not towards the zenith", zu - zr);
    CLOSE(hypotl(hypotl(r[0], r[1]), r[2]), 1, v[2] > 0.05? 1e-6L: 0.01L, "length");
    if (zu < 83 * DEG) {
        CLOSE(zr, model_z(zu, A, B), (zu < 30 * DEG? 1e-6L: zu < 70 * DEG? 1e-3L: 1.0L) * ARCSEC * 4 + 4 * EPS, "zenith distance against the model");
        CLOSE(zr, (ld) sla::refz((double) zu, A, B), (zu < 30 * DEG? 1e-6L: zu < 70 * DEG? 1e-3L: 1.0L) * ARCSEC * 4 + 4 * EPS, "vector and angle forms");
    }
    // in place
    double ip[3] = {v[0], v[1], v[2]};
    sla::refv(ip, A, B, ip);
    REQUIRE(ip[0] == r[0] && ip[1] == r[1] && ip[2] == r[2], "result in place differs");
    g.trivial(zu < 1e-6L || A == 0);
}
LAW(dispersion, 400000) {
    double A, B;
    consts(g, A, B);
    const double t = g.real(90, 520, {100, 500, 290}), p = g.real(-10, 11000, {0, 800, 1013, 10000}), rh = g.real(-0.2, 1.3, {0, 1, 0.5});
    double w1 = wavelength(g), w2 = wavelength(g);
    if (g.chance(1, 8)) w1 = g.uniform(0, 0.1);
    if (g.chance(1, 8)) w2 = w1;
    g.note("t", t); g.note("p", p); g.note("rh", rh); g.note("w1", w1); g.note("w2", w2);
    double a2 = 7e77, b2 = 7e77;
    sla::atmdsp(t, p, rh, w1, A, B, w2, a2, b2);
    if (w1 > 100 || w2 > 100) { REQUIRE(a2 == A && b2 == B, "radio constants changed: %.17g %.17g", a2, b2); g.classify("radio"); return; }
    const ld T = clampl(t, 100, 500), P = clampl(p, 0, 10000), R = clampl(rh, 0, 1);
    const ld pw = R * powl(10, -8.7115L + 0.03477L * T);
    auto dn = [&](ld w) { w = w < 0.1L? 0.1L: w; const ld l = w * w; return ((77.5317e-6L + 0.43909e-6L / l + 0.00367e-6L / (l * l)) * P - 11.2684e-6L * pw) / T; };
    const ld d1 = dn(w1), d2 = dn(w2);
    if (P == 0 && R == 0) { REQUIRE(a2 == A && b2 == B, "constants changed without air: %.17g %.17g", a2, b2); return; }
    const ld mag = (77.5317e-6L + 0.44e-6L / 0.01L) * P / T + 11.2684e-6L * pw / T;
    const ld rel = 40 * EPS * mag / fabsl(d1);
    if (mag < 1e-200L || rel > 1e-6L || fabsl(d1 - A) < 1e-9L * mag) g.discard();
    CLOSE(a2, A * d2 / d1, fabsl(A * mag / d1) * rel + 1e-18L, "constant A");
    const ld corr = 1 + d1 * (d1 - d2) / (2 * (d1 - A));
    CLOSE(b2, B * d2 / d1 * corr, fabsl(B * mag / d1) * (1 + fabsl(d1) * mag / fabsl(d1 - A)) * (rel + 40 * EPS * mag / fabsl(d1 - A)) + 1e-18L, "constant B");
    g.trivial(w1 == w2 || A == 0);
}
LAW(dispersion_accuracy, 10000) {
    Cond c = ordinary(g), d;
    c.wl = g.uniform(0.35, 1.0); c.rh = g.uniform(0, 0.5); c.t = std::fmin(c.t, 293); d = c;
    g.note("rh", c.rh); g.note("t", c.t); d.wl = g.uniform(0.35, 2.0);
    c.eps = d.eps = 1e-11;
    g.note("wl1", c.wl); g.note("wl2", d.wl);
    double a, b, A, B, a2, b2;
    sla::refco(c.h, c.t, c.p, c.rh, c.wl, c.phi, c.tlr, c.eps, a, b);
    sla::refco(d.h, d.t, d.p, d.rh, d.wl, d.phi, d.tlr, d.eps, A, B);
    sla::atmdsp(c.t, c.p, c.rh, c.wl, a, b, d.wl, a2, b2);
    const ld t = tanl(75 * DEG);
    CLOSE(a2 * t + b2 * t * t * t, A * t + B * t * t * t, 0.2L * ARCSEC, "rescaled constants at 15 degrees elevation");
}
