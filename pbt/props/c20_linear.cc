#include "ref.h"
#include "sla_overloads.h"
PROPERTY("C20", "dmat smat", "the matrix has at least two rows")
using namespace ref;
/// extended-precision inverse with full pivoting; also the progress of the determinant under partial pivoting
struct Ref { bool ok = true; ld det = 1, running = 1e300L, norm = 0, inorm = 0; std::vector<ld> inv; };
template <class T> static Ref reference(int n, const std::vector<T>& a) {
    Ref r;
    std::vector<ld> m(a.begin(), a.end());
    ld d = 1;
    {   // partial pivoting, to see how small the determinant becomes on the way
        std::vector<ld> q = m;
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (fabsl(q[i * n + k]) > fabsl(q[p * n + k])) p = i;
            for (int j = 0; j < n; j++) std::swap(q[k * n + j], q[p * n + j]);
            d *= q[k * n + k];
            r.running = std::fmin(r.running, std::fmin(fabsl(d), fabsl(q[k * n + k])));
            if (q[k * n + k] == 0) { r.ok = false; return r; }
            for (int i = k + 1; i < n; i++) { const ld f = q[i * n + k] / q[k * n + k]; for (int j = k; j < n; j++) q[i * n + j] -= f * q[k * n + j]; }
        }
    }
    std::vector<ld> inv(n * n, 0);
    std::vector<int> col(n);
    for (int i = 0; i < n; i++) { inv[i * n + i] = 1; col[i] = i; }
    std::vector<bool> used(n, false);
    std::vector<int> prow(n);
    for (int s = 0; s < n; s++) {
        int pr = -1, pc = -1; ld best = -1;
        for (int i = 0; i < n; i++) if (!used[i]) for (int j = 0; j < n; j++) { bool done = false; for (int t = 0; t < s; t++) done |= col[t] == j; if (!done && fabsl(m[i * n + j]) > best) { best = fabsl(m[i * n + j]); pr = i; pc = j; } }
        if (best == 0) { r.ok = false; return r; }
        used[pr] = true; col[s] = pc; prow[s] = pr;
        const ld p = m[pr * n + pc];
        for (int j = 0; j < n; j++) { m[pr * n + j] /= p; inv[pr * n + j] /= p; }
        for (int i = 0; i < n; i++) if (i != pr) { const ld f = m[i * n + pc]; if (f != 0) for (int j = 0; j < n; j++) { m[i * n + j] -= f * m[pr * n + j]; inv[i * n + j] -= f * inv[pr * n + j]; } }
    }
    r.inv.assign(n * n, 0);
    for (int s = 0; s < n; s++) for (int j = 0; j < n; j++) r.inv[col[s] * n + j] = inv[prow[s] * n + j];
    r.det = d;
    // sign of d: the partial pivoting pass did not count its exchanges; recompute by cofactor-free elimination with them
    {
        std::vector<ld> q(a.begin(), a.end());
        ld e = 1;
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (fabsl(q[i * n + k]) > fabsl(q[p * n + k])) p = i;
            if (p != k) { e = -e; for (int j = 0; j < n; j++) std::swap(q[k * n + j], q[p * n + j]); }
            e *= q[k * n + k];
            for (int i = k + 1; i < n; i++) { const ld f = q[i * n + k] / q[k * n + k]; for (int j = k; j < n; j++) q[i * n + j] -= f * q[k * n + j]; }
        }
        r.det = e;
    }
    for (int i = 0; i < n; i++) { ld x = 0, y = 0; for (int j = 0; j < n; j++) { x += fabsl((ld) a[i * n + j]); y += fabsl(r.inv[i * n + j]); } r.norm = std::fmax(r.norm, x); r.inorm = std::fmax(r.inorm, y); }
    return r;
}
template <class T> static T entry(Gen& g, int kind, double sc) { return (T) (kind == 1? (double) g.irange(-3, 3): kind == 2? g.gauss() * sc: g.uniform(-1, 1) * sc); }
template <class T> static void solve(Gen& g) {
    const int n = g.irange(0, 9)? g.irange(1, 6): g.irange(0, 29)? g.irange(7, 10): g.irange(11, 40), kind = g.irange(0, 5);
    const double sc = g.chance(1, 3)? std::pow(10.0, g.uniform(-1, 2)): 1;
    std::vector<T> a(n * n), b(n);
    for (auto& x: a) x = entry<T>(g, kind, sc);
    for (auto& x: b) x = entry<T>(g, g.irange(0, 2), sc);
    switch (kind) {
    case 3: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) a[i * n + j] = 0; break;    // diagonal
    case 4: { // rows exchanged: zero where elimination would start
        std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[g.irange(0, i)]);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j != p[i] && g.irange(0, 3)) a[i * n + j] = 0; else if (j == p[i] && a[i * n + j] == 0) a[i * n + j] = 1;
        break; }
    case 5: for (int i = 0; i < n; i++) { const double f = std::pow(10.0, g.uniform(-2, 2)); for (int j = 0; j < n; j++) a[i * n + j] = (T) (a[i * n + j] * f); } break;
    }
    g.note("n", n); g.notev("a", a.data(), n * n); g.notev("b", b.data(), n);
    const Ref r = reference(n, a);
    const ld e = ov::eps<T>();
    if (!r.ok) { g.classify("singular"); g.discard(); }
    const ld cond = r.norm * r.inorm;
    if (r.running < 1e-14L || cond * e > (sizeof(T) == 4? 1e-3L: 1e-5L) || (sizeof(T) == 4 && fabsl(r.det) > 1e30L)) { g.classify("ill conditioned"); g.discard(); }
    const T PAD = (T) -7.25e9;
    std::vector<T> m(n * n + 2, PAD), v(n + 2, PAD);
    std::vector<int> ws(n + 2, -77);
    for (int i = 0; i < n * n; i++) m[i] = a[i];
    for (int i = 0; i < n; i++) v[i] = b[i];
    T det = PAD;
    const bool sing = ov::mat_inv(n, m.data(), v.data(), det, ws.data());
    REQUIRE(!sing, "reported singular; condition %.3Lg, determinant %.3Lg", cond, r.det);
    REQUIRE(m[n * n] == PAD && m[n * n + 1] == PAD && v[n] == PAD && v[n + 1] == PAD && ws[n] == -77 && ws[n + 1] == -77, "written beyond the arrays");
    const ld tol = 16 * e * n * cond;
    CLOSE(det, r.det, tol * fabsl(r.det), "determinant");
    for (int i = 0; i < n * n; i++) CLOSE(m[i], r.inv[i], tol * r.inorm, "element (%d,%d) of the inverse", i / n, i % n);
    ld bn = 0;
    for (T x: b) bn = std::fmax(bn, fabsl((ld) x));
    for (int i = 0; i < n; i++) { ld s = 0; for (int j = 0; j < n; j++) s += r.inv[i * n + j] * b[j]; CLOSE(v[i], s, tol * r.inorm * bn, "unknown %d", i); }
    if (n == 3 && sizeof(T) == 8) {   // the form that takes the 3x3 matrix and vector types
        double mm[3][3], vv[3], d3 = PAD;
        int w3[3] = {-77, -77, -77};
        for (int i = 0; i < 9; i++) mm[i / 3][i % 3] = a[i];
        for (int i = 0; i < 3; i++) vv[i] = b[i];
        REQUIRE(!sla::dmat(mm, vv, d3, w3), "3x3 form reports singular");
        REQUIRE(d3 == (double) det, "determinant %.17g by the 3x3 form, %.17g by the general one", d3, (double) det);
        for (int i = 0; i < 9; i++) REQUIRE(mm[i / 3][i % 3] == (double) m[i], "element %d of the inverse by the 3x3 form", i);
        for (int i = 0; i < 3; i++) REQUIRE(vv[i] == (double) v[i], "unknown %d by the 3x3 form", i);
        g.classify("3x3 form");
    }
    g.classify(sizeof(T) == 4? "float": "double");
    g.trivial(n < 2);
}
LAW(solution_inverse_determinant, 1000000) { if (g.chance(1, 3)) solve<float>(g); else solve<double>(g); }
template <class T> static void singular(Gen& g) {
    const int n = g.chance(1, 100)? g.irange(9, 40): g.irange(1, 8);
    std::vector<T> a(n * n), v(n);
    std::vector<int> ws(n, 0);
    for (auto& x: a) x = entry<T>(g, g.irange(0, 2), 1);
    for (auto& x: v) x = entry<T>(g, 0, 1);
    // exactly dependent whatever the rounding: a zero row or column, nothing at all, a triangle with a gap
    switch (g.irange(0, 3)) {
    case 0: { const int k = g.irange(0, n - 1); for (int j = 0; j < n; j++) a[k * n + j] = 0; break; }
    case 1: { const int k = g.irange(0, n - 1); for (int j = 0; j < n; j++) a[j * n + k] = 0; break; }
    case 2: for (auto& x: a) x = 0; break;
    case 3: { // triangular with a zero on the diagonal
        const int k = g.irange(0, n - 1);
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (j < i || i == k) a[i * n + j] = 0;
        break; }
    }
    g.note("n", n); g.notev("a", a.data(), n * n);
    T det = 77;
    const bool sing = ov::mat_inv(n, a.data(), v.data(), det, ws.data());
    REQUIRE(sing, "not reported singular");
    REQUIRE(det == 0, "determinant %.9g of a singular matrix", (double) det);
    g.trivial(n < 2);
}
LAW(singular_matrices, 500000) { if (g.chance(1, 3)) singular<float>(g); else singular<double>(g); }
