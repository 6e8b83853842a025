#include "ref.h"
#include "slalib.h"
PROPERTY("C18", "fitxy pxy xy2xy invf dcmpf", "the measured points are not all the same and the model is not the identity")
using namespace ref;
typedef double XY[640][2];
/// mostly a handful of samples, sometimes a plate full
static int samples(Gen& g, int lo) { return g.irange(0, 5)? g.irange(lo, 8): g.irange(0, 7)? g.irange(9, 40): g.integer(41, 600, {50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512}); }
static double coord(Gen& g, double scale, double off) {
    const double v = g.chance(1, 3)? (double) g.irange(-8, 8): g.real(-10, 10, {0, 1, -1});
    return off + scale * v;
}
static void model(Gen& g, sla::FitCoeffs& f) {
    for (int i = 0; i < 6; i++) f[i] = g.chance(1, 6)? 0.0: g.chance(1, 4)? g.logmag(-6, 6): g.real(-100, 100, {0, 1, -1});
    switch (g.irange(0, 6)) {
    case 1: f[5] = f[1]; f[4] = -f[2]; break;           // solid body
    case 2: f[5] = -f[1]; f[4] = f[2]; break;           // mirrored
    case 3: { const double k = g.real(-3, 3, {0, 1, 2, -1}); f[4] = k * f[1]; f[5] = k * f[2] + (g.chance(1, 2)? 0: g.logmag(-6, -1)); break; } // (nearly) singular
    case 4: f[1] = f[5] = 1; f[2] = f[4] = 0; break;
    }
    for (int i = 0; i < 6; i++) if (std::fabs(f[i]) < 1e-60) f[i] = 0;
    g.notev("model", &f[0], 6);
}
LAW(applying_a_model, 600000) {
    sla::FitCoeffs f;
    model(g, f);
    const double x = g.real(-1e4, 1e4, {0, 1}), y = g.real(-1e4, 1e4, {0, 1});
    g.note("x", x); g.note("y", y);
    double u = 7e77, v = 7e77;
    sla::xy2xy(x, y, f, u, v);
    const ld wu = f[0] + (ld) f[1] * x + (ld) f[2] * y, wv = f[3] + (ld) f[4] * x + (ld) f[5] * y;
    CLOSE(u, wu, 3 * EPS * (fabsl(f[0]) + fabsl((ld) f[1] * x) + fabsl((ld) f[2] * y)) + 1e-300L, "x");
    CLOSE(v, wv, 3 * EPS * (fabsl(f[3]) + fabsl((ld) f[4] * x) + fabsl((ld) f[5] * y)) + 1e-300L, "y");
    sla::FitCoeffs r;
    for (int i = 0; i < 6; i++) r[i] = 7e77;
    const bool ok = sla::invf(f, r);
    const ld p = (ld) f[1] * f[5], q = (ld) f[2] * f[4], det = p - q;
    if (p == 0 && q == 0) { REQUIRE(!ok, "inverse of a singular model"); return; }
    if (fabsl(det) < 1e-12L * (fabsl(p) + fabsl(q)) || fabsl(det) < 1e-280L) {
        if (det == 0 && p == (ld) (double) p && q == (ld) (double) q && fmal(f[1], f[5], -p) == 0 && fmal(f[2], f[4], -q) == 0) REQUIRE(!ok, "inverse of a singular model");
        g.classify("singular");
        return;
    }
    REQUIRE(ok, "no inverse although the determinant is %.6Lg", det);
    const ld rel = 8 * EPS * (fabsl(p) + fabsl(q)) / fabsl(det);
    const ld w[6] = {((ld) f[2] * f[3] - (ld) f[0] * f[5]) / det, f[5] / det, -f[2] / det, ((ld) f[0] * f[4] - (ld) f[1] * f[3]) / det, -f[4] / det, f[1] / det};
    const ld m[6] = {(fabsl((ld) f[2] * f[3]) + fabsl((ld) f[0] * f[5])) / fabsl(det), fabsl(w[1]), fabsl(w[2]), (fabsl((ld) f[0] * f[4]) + fabsl((ld) f[1] * f[3])) / fabsl(det), fabsl(w[4]), fabsl(w[5])};
    for (int i = 0; i < 6; i++) CLOSE(r[i], w[i], (rel + 4 * EPS) * m[i] + 1e-300L, "coefficient %d of the inverse", i);
    // there and back
    double bx, by;
    sla::xy2xy(u, v, r, bx, by);
    const ld tol = 16 * (rel + EPS) * (m[0] + m[3] + (m[1] + m[2] + m[4] + m[5]) * (fabsl(wu) + fabsl(wv) + fabsl((ld) f[0]) + fabsl((ld) f[1] * x) + fabsl((ld) f[2] * y) + fabsl((ld) f[3]) + fabsl((ld) f[4] * x) + fabsl((ld) f[5] * y)));
    CLOSE(bx, x, tol + 1e-300L, "x there and back"); CLOSE(by, y, tol + 1e-300L, "y there and back");
}
LAW(decomposition, 600000) {
    sla::FitCoeffs f;
    model(g, f);
    double xz = 7e77, yz = 7e77, xs = 7e77, ys = 7e77, perp = 7e77, or_ = 7e77;
    sla::dcmpf(f, xz, yz, xs, ys, perp, or_);
    const ld sp = sinl((ld) perp / 2), cp = cosl((ld) perp / 2), so = sinl(or_), co = cosl(or_);
    const ld B = (co * cp + so * sp) * xs, C = (co * sp + so * cp) * ys, E = (-so * cp + co * sp) * xs, F = (-so * sp + co * cp) * ys;
    const ld t1 = 12 * EPS * hypotl(f[1], f[4]) + 1e-300L, t2 = 12 * EPS * hypotl(f[2], f[5]) + 1e-300L;
    const ld det = (ld) f[1] * f[5] - (ld) f[2] * f[4], mag = fabsl((ld) f[1] * f[5]) + fabsl((ld) f[2] * f[4]);
    // the orientation bisects the axes: it is poorly determined by a nearly collapsed model only when an axis vanishes
    if ((f[1] == 0 && f[4] == 0) || (f[2] == 0 && f[5] == 0)) {
        g.classify("collapsed axis");
        REQUIRE(std::isfinite(xz) && std::isfinite(yz) && std::isfinite(perp) && std::isfinite(or_), "not finite");
        REQUIRE(xz == 0 && yz == 0, "zero points %.17g %.17g of a model that maps the plane to a line or a point", xz, yz);
        CLOSE(fabsl((ld) xs), hypotl(f[1], f[4]), t1, "x scale"); CLOSE(fabsl((ld) ys), hypotl(f[2], f[5]), t2, "y scale");
        return;
    }
    const bool fuzzy = fabsl(det) <= 8 * EPS * mag;   // handedness undetermined
    CLOSE(B, f[1], t1 * (fuzzy? 4: 1), "B recomposed"); CLOSE(E, f[4], t1 * (fuzzy? 4: 1), "E recomposed");
    CLOSE(C, f[2], t2 * (fuzzy? 4: 1), "C recomposed"); CLOSE(F, f[5], t2 * (fuzzy? 4: 1), "F recomposed");
    REQUIRE(fabsl((ld) perp) <= PI + 1e-15L && fabsl((ld) or_) <= PI + 1e-15L, "angles out of range: %.17g %.17g", perp, or_);
    if (fabsl(det) > 1e-9L * mag && fabsl(det) > 1e-250L) {
        // offsets move with the axes
        const ld rel = 40 * EPS * hypotl(f[1], f[4]) * hypotl(f[2], f[5]) / fabsl(det);
        const ld zx = (f[5] * (ld) f[0] - f[2] * (ld) f[3]) / det, zy = (-f[4] * (ld) f[0] + f[1] * (ld) f[3]) / det;
        const ld off = hypotl(f[0], f[3]);
        CLOSE(xz, zx, rel * off * hypotl(f[2], f[5]) / fabsl(det) * 4 + 1e-280L, "x zero point");
        CLOSE(yz, zy, rel * off * hypotl(f[1], f[4]) / fabsl(det) * 4 + 1e-280L, "y zero point");
    } else g.classify("singular");
}
LAW(predictions, 200000) {
    const int n = g.chance(1, 4)? g.integer(-2, 3, {0, 1, 2}): samples(g, 1);
    sla::FitCoeffs f;
    model(g, f);
    XY e, m, p;
    const double so = std::fabs(g.logmag(-3, 3));
    for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) { m[i][k] = coord(g, so, 0); }
    const double noise = g.chance(1, 4)? 0: std::fabs(g.logmag(-8, 2));
    for (int i = 0; i < n; i++) { e[i][0] = f[0] + f[1] * m[i][0] + f[2] * m[i][1] + noise * g.gauss(); e[i][1] = f[3] + f[4] * m[i][0] + f[5] * m[i][1] + noise * g.gauss(); }
    for (auto& q: p) q[0] = q[1] = 7e77;
    g.note("n", n); g.notev("measured", &m[0][0], n > 0? 2 * n: 0); g.notev("expected", &e[0][0], n > 0? 2 * n: 0);
    double rx = 7e77, ry = 7e77, r = 7e77;
    sla::pxy(n, e, m, f, p, rx, ry, r);
    ld sx = 0, sy = 0, tx = 0, ty = 0;
    for (int i = 0; i < n; i++) {
        const ld wu = f[0] + (ld) f[1] * m[i][0] + (ld) f[2] * m[i][1], wv = f[3] + (ld) f[4] * m[i][0] + (ld) f[5] * m[i][1];
        const ld mu = fabsl(f[0]) + fabsl((ld) f[1] * m[i][0]) + fabsl((ld) f[2] * m[i][1]), mv = fabsl(f[3]) + fabsl((ld) f[4] * m[i][0]) + fabsl((ld) f[5] * m[i][1]);
        CLOSE(p[i][0], wu, 3 * EPS * mu + 1e-300L, "predicted x of sample %d", i); CLOSE(p[i][1], wv, 3 * EPS * mv + 1e-300L, "predicted y of sample %d", i);
        sx += (e[i][0] - wu) * (e[i][0] - wu); sy += (e[i][1] - wv) * (e[i][1] - wv);
        tx = std::fmax(tx, mu + fabsl(e[i][0])); ty = std::fmax(ty, mv + fabsl(e[i][1]));
    }
    for (int i = n < 0? 0: n; i < 640; i++) REQUIRE(p[i][0] == 7e77 && p[i][1] == 7e77, "sample %d of %d written", i, n);
    if (n <= 0) { REQUIRE(rx == 0 && ry == 0 && r == 0, "residuals %.17g %.17g %.17g without samples", rx, ry, r); return; }
    const ld wx = sqrtl(sx / n), wy = sqrtl(sy / n);
    CLOSE(rx, wx, 8 * EPS * tx + (40 + n) * EPS * wx + 1e-150L, "RMS in x"); CLOSE(ry, wy, 8 * EPS * ty + (40 + n) * EPS * wy + 1e-150L, "RMS in y");
    CLOSE(r, hypotl(wx, wy), 8 * EPS * (tx + ty) + (60 + n) * EPS * (wx + wy) + 1e-150L, "total RMS");
    g.trivial(n < 1);
}
/// sums about the centroid of the measured points, in extended precision
struct Sums { ld n = 0, mx = 0, my = 0, ex = 0, ey = 0, xx = 0, xy = 0, yy = 0, axm = 0, aym = 0, bxm = 0, bym = 0, big_m = 0, big_e = 0; };
static Sums sums(int n, const XY e, const XY m) {
    Sums s; s.n = n;
    for (int i = 0; i < n; i++) { s.mx += m[i][0]; s.my += m[i][1]; s.ex += e[i][0]; s.ey += e[i][1]; for (int k = 0; k < 2; k++) { s.big_m = std::fmax(s.big_m, fabsl(m[i][k])); s.big_e = std::fmax(s.big_e, fabsl(e[i][k])); } }
    s.mx /= n; s.my /= n; s.ex /= n; s.ey /= n;
    for (int i = 0; i < n; i++) {
        const ld dx = m[i][0] - s.mx, dy = m[i][1] - s.my, ux = e[i][0] - s.ex, uy = e[i][1] - s.ey;
        s.xx += dx * dx; s.xy += dx * dy; s.yy += dy * dy;
        s.axm += ux * dx; s.aym += ux * dy; s.bxm += uy * dx; s.bym += uy * dy;
    }
    return s;
}
static ld ssr(int n, const XY e, const XY m, const ld* f) {
    ld s = 0;
    for (int i = 0; i < n; i++) { const ld a = f[0] + f[1] * m[i][0] + f[2] * m[i][1] - e[i][0], b = f[3] + f[4] * m[i][0] + f[5] * m[i][1] - e[i][1]; s += a * a + b * b; }
    return s;
}
static void data(Gen& g, int n, bool sbr, XY e, XY m) {
    const double sc = std::fabs(g.logmag(-1, 3)), off = g.chance(1, 2)? 0: g.logmag(-1, 2) * sc, off2 = g.chance(1, 2)? 0: g.logmag(-1, 2) * sc;
    const double sq = g.chance(1, 4)? std::fabs(g.logmag(-2, 0)): 1;
    for (int i = 0; i < n; i++) { m[i][0] = coord(g, sc, off); m[i][1] = coord(g, sc * sq, off2); if (i && g.chance(1, 8)) { m[i][0] = m[i - 1][0]; m[i][1] = m[i - 1][1]; } }
    sla::FitCoeffs f;
    for (int i = 0; i < 6; i++) f[i] = g.chance(1, 6)? 0.0: g.chance(1, 5)? g.logmag(-3, 3): g.real(-3, 3, {0, 1, -1});
    if (sbr || g.chance(1, 3)) { if (g.chance(1, 2)) { f[5] = f[1]; f[4] = -f[2]; } else { f[5] = -f[1]; f[4] = f[2]; } }
    const double noise = g.chance(1, 3)? 0: g.chance(1, 3)? sc * g.uniform(0, 30): std::fabs(g.logmag(-8, 0)) * sc;
    for (int i = 0; i < n; i++) { e[i][0] = f[0] + f[1] * m[i][0] + f[2] * m[i][1] + noise * g.gauss(); e[i][1] = f[3] + f[4] * m[i][0] + f[5] * m[i][1] + noise * g.gauss(); }
    g.note("n", n); g.notev("measured", &m[0][0], 2 * n); g.notev("expected", &e[0][0], 2 * n);
}
LAW(six_coefficient_fit, 150000) {
    const int n = samples(g, 3);
    XY e, m;
    data(g, n, false, e, m);
    const Sums s = sums(n, e, m);
    const ld det = s.xx * s.yy - s.xy * s.xy;
    if (det <= 0 || n * det < 1e-12L) g.discard();
    // extent of the layout against its distance from the origin: the normal equations square it
    const ld lam = det / (s.xx + s.yy) / n, cond = (1 + s.big_m * s.big_m) / std::fmin(lam, 1.0L) + (1 + s.big_m * s.big_m) * (1 + s.big_m * s.big_m) / lam / std::fmin(1.0L, lam) * 1e-3L;
    if (!(cond < 1e9L)) { g.classify("ill conditioned"); g.discard(); }
    const ld B = (s.axm * s.yy - s.aym * s.xy) / det, C = (s.aym * s.xx - s.axm * s.xy) / det, E = (s.bxm * s.yy - s.bym * s.xy) / det, F = (s.bym * s.xx - s.bxm * s.xy) / det;
    const ld w[6] = {s.ex - B * s.mx - C * s.my, B, C, s.ey - E * s.mx - F * s.my, E, F};
    sla::FitCoeffs f;
    for (int i = 0; i < 6; i++) f[i] = 7e77;
    const auto st = sla::fitxy(false, n, e, m, f);
    REQUIRE(st == sla::FIT_OK, "status %d for %d samples", (int) st, n);
    ld got[6];
    for (int i = 0; i < 6; i++) got[i] = f[i];
    const ld tol = (200 + 2 * n) * EPS * cond * (s.big_e + 1e-6L);
    for (int i = 0; i < 6; i++) CLOSE(got[i], w[i], tol * (i % 3? 1 / sqrtl(lam): 1 + s.big_m / sqrtl(lam)), "coefficient %d", i);
    // nothing of its class is better
    const ld best = ssr(n, e, m, w);
    CLOSE(sqrtl(ssr(n, e, m, got)), sqrtl(best), tol * sqrtl(n), "residual of the fit");
    for (int k = 0; k < 2; k++) {
        ld q[6];
        for (int i = 0; i < 6; i++) q[i] = w[i];
        q[g.irange(0, 5)] += g.logmag(-6, 0);
        REQUIRE(sqrtl(ssr(n, e, m, q)) >= sqrtl(ssr(n, e, m, got)) - tol * sqrtl(n), "a neighbouring model fits better");
    }
}
LAW(solid_body_fit, 150000) {
    const int n = samples(g, 2);
    XY e, m;
    data(g, n, true, e, m);
    const Sums s = sums(n, e, m);
    const ld v = s.xx + s.yy;
    if (v <= 0 || v * v * n * n < 1e-12L) g.discard();
    const ld lam = v / n, cond = (1 + s.big_m * s.big_m) / std::fmin(lam, 1.0L) + (1 + s.big_m * s.big_m) * (1 + s.big_m * s.big_m) / lam / std::fmin(1.0L, lam) * 1e-3L;
    if (!(cond < 1e9L)) { g.classify("ill conditioned"); g.discard(); }
    ld w[2][6], r[2];
    for (int k = 0; k < 2; k++) {
        const ld sg = k? -1: 1, b = (sg * s.axm + s.bym) / v, c = (s.bxm - sg * s.aym) / v;   // sg*xe = a + b xm - c ym, ye = d + c xm + b ym
        const ld a = sg * s.ex - b * s.mx + c * s.my, d = s.ey - c * s.mx - b * s.my;
        const ld t[6] = {sg * a, sg * b, -sg * c, d, c, b};
        for (int i = 0; i < 6; i++) w[k][i] = t[i];
        r[k] = sqrtl(ssr(n, e, m, t));
    }
    sla::FitCoeffs f;
    for (int i = 0; i < 6; i++) f[i] = 7e77;
    const auto st = sla::fitxy(true, n, e, m, f);
    REQUIRE(st == sla::FIT_OK, "status %d for %d samples", (int) st, n);
    ld got[6];
    for (int i = 0; i < 6; i++) got[i] = f[i];
    const bool mirror = !(f[1] == f[5] && f[2] == -f[4]);
    if (mirror) REQUIRE(f[1] == -f[5] && f[2] == f[4], "not a solid-body model: %.17g %.17g %.17g %.17g", f[1], f[2], f[4], f[5]);
    const ld tol = (200 + 2 * n) * EPS * cond * (s.big_e + 1e-6L);
    const int k = mirror? 1: 0;
    const bool sym = f[1] == 0 && f[2] == 0;   // both hands at once
    if (!sym) for (int i = 0; i < 6; i++) CLOSE(got[i], w[k][i], tol * (i % 3? 1 / sqrtl(lam): 1 + s.big_m / sqrtl(lam)), "coefficient %d (%s)", i, mirror? "mirrored": "direct");
    REQUIRE(sqrtl(ssr(n, e, m, got)) <= std::fmin(r[0], r[1]) + tol * sqrtl(n), "residual %.9Lg, but a model with %.9Lg exists", sqrtl(ssr(n, e, m, got)), std::fmin(r[0], r[1]));
    if (n == 2 && !sym) REQUIRE(!mirror || r[0] > r[1] + tol, "two samples cannot justify a mirrored model");
    g.classify(mirror? "mirrored": "direct");
}
LAW(too_few_samples, 100000) {
    const bool sbr = g.chance(1, 2);
    const int n = sbr? g.integer(-3, 1, {0, 1}): g.integer(-3, 2, {0, 1, 2});
    XY e, m;
    for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) { e[i][k] = g.real(-5, 5); m[i][k] = g.real(-5, 5); }
    sla::FitCoeffs f;
    double keep[6];
    for (int i = 0; i < 6; i++) keep[i] = f[i] = g.real(-100, 100, {0, 7});
    g.note("sbr", (int) sbr); g.note("n", n); g.notev("model before", keep, 6);
    const auto st = sla::fitxy(sbr, n, e, m, f);
    REQUIRE(st == sla::FIT_INSUFFICIENT, "status %d", (int) st);
    for (int i = 0; i < 6; i++) REQUIRE(f[i] == keep[i], "model changed: coefficient %d is %.17g", i, f[i]);
}
LAW(undetermined, 100000) {
    // layouts whose normal equations are exactly singular in binary arithmetic
    const bool sbr = g.chance(1, 2);
    const int n = g.chance(1, 12)? g.irange(13, 200): g.irange(sbr? 2: 3, 12);
    XY e, m;
    const double a = g.pick({0.0, 1.0, -1.0, 2.0, -4.0, 0.5}), b = g.pick({0.0, 1.0, -1.0, 2.0, -4.0, 0.5});
    const int kind = sbr? 0: g.irange(0, 2);
    for (int i = 0; i < n; i++) {
        const double t = g.irange(-8, 8);
        m[i][0] = kind == 1? 0: kind == 2? t: sbr? 0: a; m[i][1] = kind == 1? t: kind == 2? 0: sbr? 0: b;
        e[i][0] = g.real(-10, 10); e[i][1] = g.real(-10, 10);
    }
    if (sbr && g.chance(1, 2)) for (int i = 0; i < n; i++) { m[i][0] = a; m[i][1] = 0; }
    if (!sbr && kind == 0) for (int i = 0; i < n; i++) m[i][1] = 0;
    g.note("sbr", (int) sbr); g.note("n", n); g.notev("measured", &m[0][0], 2 * n); g.notev("expected", &e[0][0], 2 * n);
    sla::FitCoeffs f;
    for (int i = 0; i < 6; i++) f[i] = 7;
    const auto st = sla::fitxy(sbr, n, e, m, f);
    REQUIRE(st == sla::FIT_NONE, "status %d for a layout that determines no model", (int) st);
}
