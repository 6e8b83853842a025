#include "ref.h"
#include "slalib.h"
PROPERTY("C21", "svd svdsol svdcov", "the matrix has at least two columns and is not zero")
using namespace ref;
typedef std::vector<double> D;
/// m x n matrices of many kinds: dense, integer, graded, rank deficient, with zero or repeated columns, diagonal, bidiagonal
static D matrix(Gen& g, int m, int n, const char** kind) {
    D a(m * n);
    const int k = g.irange(0, 9);
    *kind = "dense";
    const double sc = g.chance(1, 4)? std::pow(10.0, g.uniform(-6, 6)): 1;
    for (auto& x: a) x = sc * (k == 1? (double) g.irange(-3, 3): g.uniform(-1, 1));
    switch (k) {
    case 1: *kind = "small integers"; break;
    case 2: { *kind = "rank deficient";
        const int r = g.irange(0, n - 1);
        D b(m * r + 1), c(r * n + 1);
        for (auto& x: b) x = g.chance(1, 2)? g.uniform(-1, 1): (double) g.irange(-2, 2);
        for (auto& x: c) x = g.chance(1, 2)? g.uniform(-1, 1): (double) g.irange(-2, 2);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int q = 0; q < r; q++) s += b[i * r + q] * c[q * n + j]; a[i * n + j] = sc * s; }
        break; }
    case 3: { *kind = "zero columns"; for (int j = 0; j < n; j++) if (g.chance(1, 2)) for (int i = 0; i < m; i++) a[i * n + j] = 0; break; }
    case 4: { *kind = "repeated columns"; for (int j = 1; j < n; j++) if (g.chance(1, 2)) { const int p = g.irange(0, j - 1); const double f = g.pick({1.0, -1.0, 2.0, 1.0, 0.3}); for (int i = 0; i < m; i++) a[i * n + j] = f * a[i * n + p]; } break; }
    case 5: { *kind = "graded columns"; for (int j = 0; j < n; j++) { const double f = std::pow(10.0, g.uniform(-12, 0)); for (int i = 0; i < m; i++) a[i * n + j] *= f; } break; }
    case 6: { *kind = "diagonal"; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i != j) a[i * n + j] = 0; else if (g.chance(1, 4)) a[i * n + j] = 0; break; }
    case 7: { *kind = "bidiagonal"; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (j != i && j != i + 1) a[i * n + j] = 0; else if (g.chance(1, 6)) a[i * n + j] = 0; break; }
    case 8: { *kind = "sparse"; for (auto& x: a) if (g.irange(0, 2)) x = 0; break; }
    case 9: { *kind = "zero rows"; for (int i = 0; i < m; i++) if (g.chance(1, 2)) for (int j = 0; j < n; j++) a[i * n + j] = 0; break; }
    }
    if (g.chance(1, 60)) { *kind = "zero"; for (auto& x: a) x = 0; }
    g.note("m", m); g.note("n", n); g.notev("a", a.data(), (int) a.size());
    return a;
}
static const double PAD = -7.25e33;
struct Svd { int m, n, mp, np, st; D u, w, v, ws; };
static Svd run(Gen& g, const D& a, int m, int n) {
    Svd s{m, n, m + (g.chance(1, 2)? 0: g.irange(0, 3)), n + (g.chance(1, 2)? 0: g.irange(0, 3)), 0, {}, {}, {}, {}};
    g.note("mp", s.mp); g.note("np", s.np);
    s.u.assign(s.mp * s.np, PAD); s.v.assign(s.np * s.np, PAD); s.w.assign(s.np, PAD); s.ws.assign(s.np, PAD);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) s.u[i * s.np + j] = a[i * n + j];
    s.st = sla::svd(m, n, s.mp, s.np, s.u.data(), s.w.data(), s.v.data(), s.ws.data());
    return s;
}
static ld frob(const D& a) { ld s = 0; for (double x: a) s += (ld) x * x; return sqrtl(s); }
static void dims(Gen& g, int& m, int& n) { n = g.irange(0, 9)? g.irange(1, 6): g.irange(0, 29)? g.irange(7, 12): g.irange(13, 40); m = n + (g.chance(1, 3)? 0: g.irange(0, 39)? g.irange(0, 8): g.irange(9, 150)); }
static void check_factors(Gen& g, const D& a, const Svd& s) {
    const int m = s.m, n = s.n;
    const ld F = frob(a), tol = 60 * EPS * (m + n);
    for (int j = 0; j < n; j++) REQUIRE(s.w[j] >= 0 && std::isfinite(s.w[j]), "singular value %d is %.17g", j, s.w[j]);
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
        ld uu = 0, vv = 0;
        for (int k = 0; k < m; k++) uu += (ld) s.u[k * s.np + i] * s.u[k * s.np + j];
        for (int k = 0; k < n; k++) vv += (ld) s.v[k * s.np + i] * s.v[k * s.np + j];
        CLOSE(uu, i == j, tol, "columns %d and %d of U", i, j);
        CLOSE(vv, i == j, tol, "columns %d and %d of V", i, j);
    }
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        ld x = 0;
        for (int k = 0; k < n; k++) x += (ld) s.u[i * s.np + k] * s.w[k] * s.v[j * s.np + k];
        CLOSE(x, a[i * n + j], tol * F, "element (%d,%d) of U W VT", i, j);
    }
    // only the logical part is touched
    for (int i = 0; i < s.mp; i++) for (int j = 0; j < s.np; j++) if (i >= m || j >= n) REQUIRE(s.u[i * s.np + j] == PAD, "padding of A written at (%d,%d)", i, j);
    for (int i = 0; i < s.np; i++) for (int j = 0; j < s.np; j++) if (i >= n || j >= n) REQUIRE(s.v[i * s.np + j] == PAD, "padding of V written at (%d,%d)", i, j);
    for (int j = n; j < s.np; j++) REQUIRE(s.w[j] == PAD && s.ws[j] == PAD, "padding of W written at %d", j);
}
/// the documented rare warning: convergence failed "due to chance properties of the matrix", so nearby matrices must not have it
static void accident(Gen& g, const D& a, const Svd& s) {
    g.classify("iteration limit reached");
    REQUIRE(s.st > 0 && s.st < s.n, "status %d for %d columns", s.st, s.n);
    int bad = 0;
    for (int k = 0; k < 4; k++) {
        D b = a;
        for (auto& x: b) x *= 1 + 0.01 * g.uniform(-1, 1);
        const Svd t = run(g, b, s.m, s.n);
        if (t.st != 0) bad++; else check_factors(g, b, t);
    }
    REQUIRE(bad < 3, "no convergence for the matrix and %d of 4 nearby ones", bad);
}
LAW(factorisation, 500000) {
    int m, n;
    dims(g, m, n);
    const char* kind;
    const D a = matrix(g, m, n, &kind);
    g.classify(kind);
    const Svd s = run(g, a, m, n);
    if (s.st != 0) { accident(g, a, s); return; }
    check_factors(g, a, s);
    g.trivial(n < 2 || frob(a) == 0);
}
LAW(wrong_shape, 60000) {
    const int n = g.chance(1, 20)? g.irange(9, 200): g.irange(2, 8), m = g.integer(1, n - 1, {n - 1, 1});
    D a(m * n, 0.5), w(n, PAD), v(n * n, PAD), ws(n, PAD);
    for (auto& x: a) x = g.uniform(-1, 1);
    const D keep = a;
    g.note("m", m); g.note("n", n);
    const int st = sla::svd(m, n, m, n, a.data(), w.data(), v.data(), ws.data());
    REQUIRE(st == -1, "status %d for %d rows and %d columns", st, m, n);
    REQUIRE(a == keep, "matrix of the wrong shape changed");
}
LAW(solution_formula, 100000) {
    // any U, W, V: the answer is V diag(1/w) (UT b), with zero in place of 1/0
    int m, n;
    dims(g, m, n);
    const int mp = m + g.irange(0, 2), np = n + g.irange(0, 2);
    D u(mp * np, PAD), v(np * np, PAD), w(np, PAD), ws(np + 1, PAD), x(n + 1, PAD), b(m);
    for (int i = 0; i < m; i++) { b[i] = g.chance(1, 5)? 0: g.uniform(-5, 5); for (int j = 0; j < n; j++) u[i * np + j] = g.uniform(-1, 1); }
    for (int i = 0; i < n; i++) { w[i] = g.chance(1, 4)? 0: g.chance(1, 4)? std::pow(10.0, g.uniform(-12, 6)): g.uniform(0.1, 3); for (int j = 0; j < n; j++) v[i * np + j] = g.uniform(-1, 1); }
    g.note("m", m); g.note("n", n); g.note("mp", mp); g.note("np", np); g.notev("w", w.data(), n); g.notev("b", b.data(), m);
    const D ku = u, kv = v, kw = w, kb = b;
    sla::svdsol(m, n, mp, np, b.data(), u.data(), w.data(), v.data(), ws.data(), x.data());
    REQUIRE(u == ku && v == kv && w == kw && b == kb, "inputs changed");
    REQUIRE(x[n] == PAD, "written beyond the solution");
    for (int k = 0; k < n; k++) {
        ld s = 0, mag = 0;
        for (int j = 0; j < n; j++) {
            if (w[j] == 0) continue;
            ld t = 0, ta = 0;
            for (int i = 0; i < m; i++) { t += (ld) u[i * np + j] * b[i]; ta += fabsl((ld) u[i * np + j] * b[i]); }
            s += v[k * np + j] * t / w[j]; mag += fabsl(v[k * np + j] * ta / w[j]);
        }
        CLOSE(x[k], s, EPS * (m + n + 4) * mag + 1e-300L, "element %d of the solution", k);
    }
    g.trivial(n < 2);
}
LAW(covariance_formula, 100000) {
    int m, n;
    dims(g, m, n);
    const int np = n + g.irange(0, 2), nc = n + g.irange(0, 2);
    D v(np * np, PAD), w(np, PAD), ws(np + 1, PAD), c(nc * nc, PAD);
    for (int i = 0; i < n; i++) { w[i] = g.chance(1, 4)? 0: g.chance(1, 4)? std::pow(10.0, g.uniform(-12, 6)): g.uniform(0.1, 3); for (int j = 0; j < n; j++) v[i * np + j] = g.uniform(-1, 1); }
    g.note("n", n); g.note("np", np); g.note("nc", nc); g.notev("w", w.data(), n);
    const D kv = v, kw = w;
    sla::svdcov(n, np, nc, w.data(), v.data(), ws.data(), c.data());
    REQUIRE(v == kv && w == kw, "inputs changed");
    for (int i = 0; i < nc; i++) for (int j = 0; j < nc; j++) {
        if (i >= n || j >= n) { REQUIRE(c[i * nc + j] == PAD, "padding written at (%d,%d)", i, j); continue; }
        ld s = 0, mag = 0;
        for (int k = 0; k < n; k++) if (w[k] != 0) { const ld t = (ld) v[i * np + k] * v[j * np + k] / ((ld) w[k] * w[k]); s += t; mag += fabsl(t); }
        CLOSE(c[i * nc + j], s, EPS * (n + 6) * mag + 1e-300L, "covariance (%d,%d)", i, j);
        REQUIRE(c[i * nc + j] == c[j * nc + i], "covariance is not symmetric at (%d,%d)", i, j);
    }
    g.trivial(n < 2);
}
LAW(least_squares, 200000) {
    int m, n;
    dims(g, m, n);
    const char* kind;
    const D a = matrix(g, m, n, &kind);
    Svd s = run(g, a, m, n);
    if (s.st != 0) { accident(g, a, s); return; }
    // drop what is negligible, as the documentation advises
    double wmax = 0, wmin = 1e300;
    for (int j = 0; j < n; j++) wmax = std::fmax(wmax, s.w[j]);
    if (wmax == 0) { g.trivial(); return; }
    int dropped = 0;
    for (int j = 0; j < n; j++) { if (s.w[j] < 1e-10 * wmax) { s.w[j] = 0; dropped++; } else wmin = std::fmin(wmin, s.w[j]); }
    g.classify(dropped? "rank deficient": "full rank");
    if (wmin < 1e-7 * wmax) { g.classify("ill conditioned"); g.discard(); }
    D b(m), x(n, PAD), ws(n, PAD);
    for (auto& q: b) q = g.uniform(-1, 1);
    g.notev("b", b.data(), m);
    sla::svdsol(m, n, s.mp, s.np, b.data(), s.u.data(), s.w.data(), s.v.data(), ws.data(), x.data());
    ld xn = 0, bn = 0;
    for (double q: x) xn += (ld) q * q;
    for (double q: b) bn += (ld) q * q;
    xn = sqrtl(xn); bn = sqrtl(bn);
    const ld tol = 400 * EPS * (m + n) * wmax / wmin + (dropped? 1e-10L * wmax / wmin: 0);
    // the residual is perpendicular to every column of A
    D r(m);
    for (int i = 0; i < m; i++) { ld t = -b[i]; for (int j = 0; j < n; j++) t += (ld) a[i * n + j] * x[j]; r[i] = (double) t; }
    for (int j = 0; j < n; j++) { ld t = 0; for (int i = 0; i < m; i++) t += (ld) a[i * n + j] * r[i]; CLOSE(t, 0, tol * wmax * (bn + wmax * xn), "residual against column %d", j); }
    // shortest among the equivalent solutions: no component along the dropped directions
    for (int j = 0; j < n; j++) if (s.w[j] == 0) { ld t = 0; for (int k = 0; k < n; k++) t += (ld) s.v[k * s.np + j] * x[k]; CLOSE(t, 0, 200 * EPS * (m + n) * (xn + 1e-300L), "component along the null direction %d", j); }
    if (!dropped) {
        D c(n * n, PAD);
        sla::svdcov(n, s.np, n, s.w.data(), s.v.data(), ws.data(), c.data());
        // inverse of AT A
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            ld t = 0;
            for (int k = 0; k < n; k++) { ld q = 0; for (int l = 0; l < m; l++) q += (ld) a[l * n + i] * a[l * n + k]; t += q * c[k * n + j]; }
            CLOSE(t, i == j, 400 * EPS * (m + n) * (ld) wmax * wmax / ((ld) wmin * wmin), "normal matrix times covariance (%d,%d)", i, j);
        }
    }
    g.trivial(n < 2);
}
