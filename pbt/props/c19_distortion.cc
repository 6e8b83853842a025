#include "ref.h"
#include "slalib.h"
PROPERTY("C19", "pcd unpcd", "the coefficient and the distance from the axis are not zero")
using namespace ref;
static double coefficient(Gen& g) {
    const double c = g.chance(1, 3)? g.logmag(-9, 5): g.real(-200, 200, {0, -0.3333, 147.069, 178.585, 21.20, 13.32, 1, -1});
    return std::fabs(c) < 1e-9? 0: c;
}
static void point(Gen& g, double c, double& x, double& y) {
    // radii scaled to the turning point of a barrel of that strength, or plain
    const double s = c != 0 && g.irange(0, 3)? 1 / std::sqrt(3 * std::fabs(c)): 1;
    double r = g.chance(1, 4)? std::fabs(g.logmag(-6, 1)): g.real(0, 3, {0, 1, 2.0 / 3, 0.3, std::sqrt(3.0), 2, 1 / std::sqrt(3.0)});
    if (g.chance(1, 6)) r = 2.0 / 3 + g.logmag(-14, -1);
    const double a = g.angle();
    x = s * r * std::cos(a); y = s * r * std::sin(a);
    if (g.chance(1, 8)) { if (g.chance(1, 2)) x = 0; else y = 0; }
    if (std::hypot(x, y) < 1e-30) x = y = 0;
}
LAW(applying, 1000000) {
    const double c = coefficient(g);
    double x, y;
    point(g, c, x, y);
    g.note("disco", c); g.note("x", x); g.note("y", y);
    double u = x, v = y;
    sla::pcd(c, u, v);
    const ld r2 = (ld) x * x + (ld) y * y, f = 1 + c * r2, t = 4 * EPS * (1 + fabsl(c) * r2);
    CLOSE(u, f * x, t * fabsl((ld) x) + 1e-300L, "x"); CLOSE(v, f * y, t * fabsl((ld) y) + 1e-300L, "y");
    if (c == 0) REQUIRE(u == x && v == y, "moved without distortion");
    g.trivial(c == 0 || r2 == 0);
}
/// real roots of c r^3 + r = p, c != 0, p > 0, polished
static int roots(ld c, ld p, ld* out) {
    int n = 0;
    auto f = [&](ld r) { return (c * r * r + 1) * r - p; };
    auto bisect = [&](ld a, ld b) { const bool up = f(b) > f(a); for (int i = 0; i < 200; i++) { const ld m = (a + b) / 2; if (m == a || m == b) break; if ((f(m) > 0) == up) b = m; else a = m; } out[n++] = (a + b) / 2; };
    if (c > 0) { bisect(0, p); return n; }
    const ld t = 1 / sqrtl(-3 * c), top = 2 * t / 3, far = 2 * (t * 2 + cbrtl(p / -c));
    bisect(-far, -t);
    if (p <= top) { bisect(-t, t); bisect(t, far); }
    return n;
}
/// rounding of the closed-form root: the difference of two cube roots, one of which may come from nearly cancelling terms
static ld precision(ld c, ld p) {
    const ld s = 1 / sqrtl(3 * fabsl(c)), q = 1 / (3 * fabsl(c)), R = p / (2 * fabsl(c)), t = q / cbrtl(2 * R + q * sqrtl(q));
    return 64 * EPS * (cbrtl(p / fabsl(c)) + s) + std::fmin(8 * EPS * R / (t * t), 4 * cbrtl(4 * EPS * R));
}
LAW(removing, 1000000) {
    const double c = coefficient(g);
    double x, y;
    point(g, c, x, y);
    g.note("disco", c); g.note("x", x); g.note("y", y);
    double u = x, v = y;
    sla::unpcd(c, u, v);
    const ld p = hypotl(x, y);
    if (c == 0 || p == 0) { REQUIRE(u == x && v == y, "moved without distortion: %.17g %.17g", u, v); g.trivial(); return; }
    const ld s = 1 / sqrtl(3 * fabsl((ld) c)), r2 = (ld) u * u + (ld) v * v, f = 1 + c * r2;
    const ld prec = precision(c, p), tol = prec * (1 + 3 * fabsl(c) * r2);
    // distorting the answer gives the point back
    CLOSE(f * u, x, tol, "x distorted again"); CLOSE(f * v, y, tol, "y distorted again");
    double ru = u, rv = v;
    sla::pcd(c, ru, rv);
    CLOSE(ru, x, tol * 2, "x after pcd"); CLOSE(rv, y, tol * 2, "y after pcd");
    // on the line through the axis and the point
    CLOSE((ld) u * y, (ld) v * x, 8 * EPS * p * sqrtl(r2) + 1e-300L, "direction from the axis");
    // of all candidates the one nearest the given point
    const ld r = ((ld) u * x + (ld) v * y) / p;
    ld cand[3];
    const int n = roots(c, p, cand);
    ld best = 1e300L;
    for (int i = 0; i < n; i++) best = std::fmin(best, fabsl(cand[i] - p));
    const ld top = c < 0? 2 * s / 3: 0;
    // near the turning point two candidates merge and are only known to the root of the precision
    const ld merge = c < 0 && fabsl(p - top) < 0.02L * top? 4 * sqrtl(fabsl(64 * EPS) * (p + s) * s): 0;
    if (!(merge > 0 && fabsl(p - top) < 1000 * EPS * (p + s))) CLOSE(fabsl(r - p), best, 4 * prec + merge, "distance moved, %d candidates", n);
    g.classify(c > 0? "pincushion": n == 1? "barrel beyond the turning point": "barrel");
}
LAW(removing_what_was_applied, 1000000) {
    const double c = coefficient(g);
    double x, y;
    point(g, c, x, y);
    const ld r = hypotl(x, y);
    if (c == 0 || r == 0) { g.trivial(); }
    // barrel: inside the radius where the inner solution also moves least
    const ld s = c != 0? 1 / sqrtl(3 * fabsl((ld) c)): 1;
    if (c < 0 && r > 0.95L * s) { const double k = (double) (g.uniform(0, 0.95) * s / r); x *= k; y *= k; }
    g.note("disco", c); g.note("x", x); g.note("y", y);
    double u = x, v = y;
    sla::pcd(c, u, v);
    if (c < 0 && r > 0) {
        // nearest among the three images?
        const ld rr = hypotl(x, y), p = hypotl(u, v);
        ld cand[3];
        const int n = p > 0? roots(c, p, cand): 0;
        for (int i = 0; i < n; i++) if (fabsl(cand[i] - rr) > 1e-6L * s && fabsl(cand[i] - p) < fabsl(rr - p) * 1.000001L) { g.classify("outer image nearer"); g.discard(); }
    }
    sla::unpcd(c, u, v);
    const ld rr = hypotl(x, y), slope = 1 + 3 * (ld) c * rr * rr;
    const ld tol = c == 0 || rr == 0? 0: precision(c, rr * fabsl(1 + c * rr * rr)) * (1 + 1 / fabsl(slope)) + 16 * EPS * rr * (1 + fabsl(c) * rr * rr) / fabsl(slope);
    CLOSE(u, x, tol, "x restored"); CLOSE(v, y, tol, "y restored");
}
