#include "ref.h"
#include "sla_overloads.h"
PROPERTY("C11", "e2h de2h h2e dh2e zd pa airmas pda2h pdq2h",
    "the star is not at the zenith, nadir or a pole; for the solvers, at least one hour angle with the requested angle exists")
using namespace ref;

/// horizon-frame unit vector (north, east, up) of a star
static V horizon(ld ha, ld dec, ld phi) {
    return {sinl(dec) * cosl(phi) - cosl(dec) * cosl(ha) * sinl(phi), -cosl(dec) * sinl(ha), sinl(dec) * sinl(phi) + cosl(dec) * cosl(ha) * cosl(phi)};
}
template <class T> void gen_star(Gen& g, T& ha, T& dec, T& phi) {
    phi = g.chance(1, 20)? ov::angle<T>(g): ov::lat<T>(g);
    dec = g.chance(1, 20)? ov::angle<T>(g): ov::lat<T>(g);
    ha = ov::angle<T>(g, g.chance(1, 5)? 30: 6.3);
    switch (g.irange(0, 9)) {
    case 0: dec = phi; ha = 0; break;                       // zenith
    case 1: dec = -phi; ha = (T) PI; break;                 // nadir
    case 2: { const double d = std::fabs(g.logmag(sizeof(T) == 4? -5: -12, -2)); dec = (T) (phi + g.uniform(-d, d)); ha = (T) g.uniform(-d, d); break; }
    case 3: ha = g.pick({(T) 0, (T) PI, (T) -PI, (T) HALF_PI, (T) -HALF_PI}); break;
    }
    g.note("ha", ha); g.note("dec", dec); g.note("phi", phi);
}
template <class T> void to_horizon(Gen& g) {
    T ha, dec, phi, az = 77, el = 77;
    gen_star(g, ha, dec, phi);
    ov::e2h(sla::Spherical<T>{ha, dec}, phi, az, el);
    const V h = horizon(ha, dec, phi);
    const ld e = ov::eps<T>(), s = hypotl(h.x, h.y);
    REQUIRE(az >= 0 && (ld) az <= (ld) (T) TWO_PI, "azimuth %.17g out of range", (double) az);
    REQUIRE(fabsl(el) <= (ld) (T) HALF_PI * (1 + e), "elevation %.17g out of range", (double) el);
    CLOSE(el, lat(h), 8 * e, "elevation");
    const ld tol = 8 * e / s + 8 * e;
    if (tol < 0.1L) CLOSE(pbt::angdiff(az, lon(h)), 0, tol, "azimuth %.17g", (double) az);
    REQUIRE(maxdiff(dir(az, el), h) <= 12 * e, "direction differs by %.3Lg", maxdiff(dir(az, el), h));
    sla::Spherical<T> back{77, 77};
    ov::h2e(az, el, phi, back);
    REQUIRE(maxdiff(dir(back.s_a, back.s_b), dir(ha, dec)) <= 30 * e, "not recovered: %.17g %.17g (%.3Lg)", (double) back.s_a, (double) back.s_b, maxdiff(dir(back.s_a, back.s_b), dir(ha, dec)));
    g.trivial(s < 1e-6L || cosl(dec) < 1e-6L);
}
LAW(to_horizon_double, 1200000) { to_horizon<double>(g); }
LAW(to_horizon_single, 800000) { to_horizon<float>(g); }

template <class T> void to_equatorial(Gen& g) {
    T az, el, phi;
    gen_star(g, az, el, phi);
    if (g.chance(1, 10)) { el = phi; az = 0; }              // the celestial pole
    g.note("el", el); g.note("az", az);
    sla::Spherical<T> d{77, 77};
    ov::h2e(az, el, phi, d);
    const V h = horizon(az, el, phi);                       // the rotation is its own inverse
    const ld e = ov::eps<T>(), c = hypotl(h.x, h.y);
    REQUIRE(fabsl(d.s_a) <= (ld) (T) PI * (1 + e) && fabsl(d.s_b) <= (ld) (T) HALF_PI * (1 + e), "%.17g %.17g out of range", (double) d.s_a, (double) d.s_b);
    CLOSE(d.s_b, lat(h), 8 * e, "declination");
    const ld tol = 8 * e / c + 8 * e;
    if (tol < 0.1L) CLOSE(pbt::angdiff(d.s_a, lon(h)), 0, tol, "hour angle %.17g", (double) d.s_a);
    REQUIRE(maxdiff(dir(d.s_a, d.s_b), h) <= 12 * e, "direction differs by %.3Lg", maxdiff(dir(d.s_a, d.s_b), h));
    g.trivial(c < 1e-6L);
}
LAW(to_equatorial_double, 1200000) { to_equatorial<double>(g); }
LAW(to_equatorial_single, 800000) { to_equatorial<float>(g); }

static ld parallactic(ld ha, ld dec, ld phi) { return atan2l(cosl(phi) * sinl(ha), sinl(phi) * cosl(dec) - cosl(phi) * sinl(dec) * cosl(ha)); }
LAW(triangle, 1500000) {
    double ha, dec, phi;
    gen_star(g, ha, dec, phi);
    const sla::Spherical<double> d{ha, dec};
    const V h = horizon(ha, dec, phi);
    const ld s = hypotl(h.x, h.y), z = atan2l(s, h.z);
    const double gz = sla::zd(d, phi), q = sla::pa(d, phi);
    REQUIRE(gz >= 0 && (ld) gz <= PI, "zenith distance %.17g out of range", gz);
    CLOSE(gz, z, 8 * EPS, "zenith distance");
    REQUIRE(fabsl(q) <= PI, "parallactic angle %.17g out of range", q);
    if (ha == 0 && dec == phi) REQUIRE(q == 0, "parallactic angle %.17g at the zenith", q);
    const ld tol = 8 * EPS / s + 4 * EPS;
    if (tol < 0.1L) CLOSE(pbt::angdiff(q, parallactic(ha, dec, phi)), 0, tol, "parallactic angle %.17g", q);
    g.trivial(s < 1e-6L || cosl(dec) < 1e-6L);
}

LAW(air_mass, 1000000) {
    const double lim = 1.52;
    const double z = g.chance(1, 4)? lim + (g.chance(1, 2)? g.logmag(-16, -1): 0): g.chance(1, 4)? g.angle(7): g.real(-1.6, 1.6, {0, lim, -lim, 1.5, 1.5707963267948966});
    const double z2 = g.chance(1, 2)? z + g.logmag(-9, 0): g.real(-1.6, 1.6);
    g.note("z", z); g.note("z2", z2);
    auto ref_am = [&](double zz) { const ld s = 1 / cosl(std::fmin((ld) lim, fabsl(zz))) - 1; return 1 + s * (0.9981833L - s * (0.002875L + 0.0008083L * s)); };
    CLOSE(sla::airmas(z), ref_am(z), 2e-13, "air mass at %.17g", z);
    REQUIRE(sla::airmas(z) == sla::airmas(-z), "air mass depends on the sign of %.17g", z);
    if (std::fabs(z) >= lim) REQUIRE(sla::airmas(z) == sla::airmas(lim), "air mass not constant beyond the limit: %.17g", z);
    const double lo = std::fmin(std::fabs(z), std::fabs(z2)), hi = std::fmax(std::fabs(z), std::fabs(z2));
    REQUIRE(sla::airmas(lo) <= sla::airmas(hi) + 1e-14, "air mass falls from z=%.17g to %.17g", lo, hi);
    REQUIRE(sla::airmas(z) >= 1, "air mass below one at %.17g", z);
    g.trivial(std::fabs(z) < 1e-6);
}

struct Sol { ld ha; bool ok; };
/// common part: compare the solver's valid solutions with the independent ones
static void compare(Gen& g, const char* what, const double* ha, const bool* valid, int n, const Sol* want, bool critical, ld cond) {
    int nv = 0, nw = 0;
    for (int i = 0; i < 2; i++) { nv += valid[i]; if (valid[i]) REQUIRE(fabsl(ha[i]) <= PI, "hour angle %.17g out of range", ha[i]); }
    for (int i = 0; i < n; i++) nw += want[i].ok;
    g.trivial(nw == 0);
    if (critical) { g.classify("critical geometry"); return; }
    REQUIRE(nv == nw, "%s: %d valid solutions reported, %d exist (%.17g %d, %.17g %d; expected %.17Lg, %.17Lg)", what, nv, nw, ha[0], valid[0], ha[1], valid[1], want[0].ha, want[1].ha);
    for (int i = 0; i < n; i++) if (want[i].ok) {
        ld best = 10;
        for (int k = 0; k < 2; k++) if (valid[k]) best = std::fmin(best, fabsl(pbt::angdiff(ha[k], want[i].ha)));
        REQUIRE(best <= cond, "%s: solution %.17Lg not reported (%.17g %d, %.17g %d), nearest off by %.3Lg, allowed %.3Lg", what, want[i].ha, ha[0], valid[0], ha[1], valid[1], best, cond);
    }
    g.classify(nw == 0? "no solution": nw == 1? "one solution": "two solutions");
}
static void gen_site(Gen& g, double& lat_, double& dec) {
    lat_ = g.lat(); dec = g.lat();
    if (g.chance(1, 10)) dec = lat_;
    if (g.chance(1, 10)) dec = -lat_;
    if (g.chance(1, 10)) dec = lat_ + g.logmag(-12, -1);
    if (fabsl(dec) > HALF_PI) dec = 0.3;
}
LAW(azimuth_solver, 1500000) {
    double la, dec;
    gen_site(g, la, dec);
    const double az = g.angle(g.chance(1, 5)? 15: 6.3);
    g.note("lat", la); g.note("dec", dec); g.note("azimuth", az);
    double ha[2] = {77, 77}; bool ok[2] = {true, true};
    sla::pda2h(la, dec, az, ha[0], ok[0], ha[1], ok[1]);
    // forward re-evaluation of whatever is reported valid
    for (int i = 0; i < 2; i++) if (ok[i]) {
        const V h = horizon(ha[i], dec, la);
        const ld s = hypotl(h.x, h.y), tol = 1e-10L / (s * cosl(la) * cosl(dec));
        if (s > 1e-6L && tol < 1e-3L && fabsl(sinl(az)) > 1e-5L && fabsl(sinl(ha[i])) > 1e-5L) CLOSE(pbt::angdiff(lon(h), az), 0, tol, "hour angle %.17g reported valid has azimuth %.17Lg", ha[i], lon(h));
    }
    // sin dec = sin lat sin E + cos lat cos A cos E: both elevations
    const ld a = sinl(la), b = cosl(la) * cosl(az), R = hypotl(a, b), ph = atan2l(a, b), k = sinl(dec) / R;
    Sol w[2] = {};
    ld margin = fabsl(fabsl(k) - 1);
    bool critical = margin < 1e-9L + 1e-10L / (R * R) || cosl(la) < 1e-6L || cosl(dec) < 1e-6L || fabsl(sinl(az)) < 1e-5L || R < 1e-6L;
    if (fabsl(k) <= 1)
        for (int i = 0; i < 2; i++) {
            ld E = ph + (i? 1: -1) * acosl(k);
            E = atan2l(sinl(E), cosl(E));
            const V eq = horizon(az, E, la);
            w[i] = {lon(eq), fabsl(E) <= HALF_PI};
            if (fabsl(fabsl(E) - HALF_PI) < 1e-6L || hypotl(eq.x, eq.y) < 1e-9L || fabsl(sinl(lon(eq))) < 1e-6L) critical = true;
        }
    compare(g, "azimuth", ha, ok, 2, w, critical, 1e-9L / (sqrtl(margin) * cosl(la) * cosl(dec) * fabsl(sinl(az)) * R) + 1e-10L);
}
LAW(parallactic_solver, 1500000) {
    double la, dec;
    gen_site(g, la, dec);
    const double q = g.angle(g.chance(1, 5)? 15: 6.3);
    g.note("lat", la); g.note("dec", dec); g.note("pa", q);
    double ha[2] = {77, 77}; bool ok[2] = {true, true};
    sla::pdq2h(la, dec, q, ha[0], ok[0], ha[1], ok[1]);
    for (int i = 0; i < 2; i++) if (ok[i]) {
        const V h = horizon(ha[i], dec, la);
        const ld s = hypotl(h.x, h.y), tol = 1e-10L / (s * cosl(la) * cosl(dec));
        if (s > 1e-6L && tol < 1e-3L && fabsl(sinl(q)) > 1e-5L && fabsl(sinl(ha[i])) > 1e-5L) CLOSE(pbt::angdiff(parallactic(ha[i], dec, la), q), 0, tol, "hour angle %.17g reported valid has parallactic angle %.17Lg", ha[i], parallactic(ha[i], dec, la));
    }
    // sin lat = sin dec cos z + cos dec sin z cos q: both zenith distances
    const ld a = sinl(dec), b = cosl(dec) * cosl(q), R = hypotl(a, b), ph = atan2l(b, a), k = sinl(la) / R;
    Sol w[2] = {};
    const ld margin = fabsl(fabsl(k) - 1);
    bool critical = margin < 1e-9L + 1e-10L / (R * R) || cosl(la) < 1e-6L || cosl(dec) < 1e-6L || fabsl(sinl(q)) < 1e-5L || R < 1e-6L;
    if (fabsl(k) <= 1)
        for (int i = 0; i < 2; i++) {
            ld z = ph + (i? 1: -1) * acosl(k);
            z = atan2l(sinl(z), cosl(z));
            w[i] = {atan2l(sinl(q) * sinl(z), cosl(z) * cosl(dec) - sinl(z) * sinl(dec) * cosl(q)), z >= 0};
            if (fabsl(sinl(z)) < 1e-6L || fabsl(sinl(w[i].ha)) < 1e-6L) critical = true;
        }
    compare(g, "parallactic angle", ha, ok, 2, w, critical, 1e-9L / (sqrtl(margin) * cosl(la) * cosl(dec) * fabsl(sinl(q)) * R) + 1e-10L);
}
/// requests exactly on (or a rounding away from) the meridian: culminations
static double meridian(Gen& g) {
    double a = g.pick({0.0, (double) PI, -(double) PI, (double) TWO_PI, -(double) TWO_PI, 3 * (double) PI});
    switch (g.irange(0, 3)) { case 0: a = std::nextafter(a, 10); break; case 1: a = std::nextafter(a, -10); break; case 2: a += g.uniform(-9e-13, 9e-13); break; }
    return a;
}
template <class F> void culminations(Gen& g, F solve, bool azimuth) {
    const double la = g.chance(1, 8)? 0: g.uniform(-1.5, 1.5), dec = g.chance(1, 8)? 0: g.uniform(-1.5, 1.5), a = meridian(g);
    if (std::fabs(std::fabs(la) - std::fabs(dec)) < 1e-2) g.discard();
    g.note("lat", la); g.note("dec", dec); g.note("angle", a);
    double ha[2] = {77, 77}; bool ok[2] = {true, true};
    solve(la, dec, a, ha[0], ok[0], ha[1], ok[1]);
    int want = 0, got = 0;
    const ld at[2] = {0, PI};
    for (ld h: at) {
        const V v = horizon(h, dec, la);
        const ld x = azimuth? v.x: sinl(la) * cosl(dec) - cosl(la) * sinl(dec) * cosl(h);
        if ((x > 0) == (cosl(a) > 0)) {
            want++;
            bool found = false;
            for (int i = 0; i < 2; i++) if (ok[i] && fabsl(pbt::angdiff(ha[i], h)) < 1e-9L) found = true;
            REQUIRE(found, "culmination at hour angle %.3Lg has the requested angle but is not reported (%.17g %d, %.17g %d)", h, ha[0], ok[0], ha[1], ok[1]);
        }
    }
    for (int i = 0; i < 2; i++) if (ok[i]) {
        got++;
        const V v = horizon(ha[i], dec, la);
        CLOSE(pbt::angdiff(azimuth? lon(v): parallactic(ha[i], dec, la), a), 0, 1e-10L, "hour angle %.17g reported valid", ha[i]);
    }
    REQUIRE(got == want, "%d solutions reported, %d exist (%.17g %d, %.17g %d)", got, want, ha[0], ok[0], ha[1], ok[1]);
    g.trivial(want == 0);
}
LAW(azimuth_culminations, 500000) { culminations(g, sla::pda2h, true); }
LAW(parallactic_culminations, 500000) { culminations(g, sla::pdq2h, false); }
