// Model atmosphere of Hohenkerk & Sinclair (Explanatory Supplement 3.281) and an independent quadrature of it.
#pragma once
#include "ref.h"
namespace ref {
inline ld clampl(ld v, ld lo, ld hi) { return v < lo? lo: v > hi? hi: v; }
struct Atmos {
    ld h, T0, P, rh, wl, phi, alpha;
    bool optic;
    ld r0, rt, rs, g_, gamma, delta = 18.36L, pw, A, w, Tt, nt, b;
    bool kink = false;
    /// vapour pressure of the Crane formula
    static ld vapour(ld T, ld P, ld rh, ld* psat_out = nullptr) {
        const ld c = T - 273.15L;
        const ld ps = powl(10, (0.7859L + 0.03477L * c) / (1 + 0.00412L * c)) * (1 + P * (4.5e-6L + 6e-10L * c * c));
        if (psat_out) *psat_out = ps;
        return P > 0? rh * ps / (1 - (1 - rh) * ps / P): 0;
    }
    Atmos(ld h_, ld T, ld P_, ld rh_, ld wl_, ld phi_, ld tlr) {
        h = clampl(h_, -1000, 80000); T0 = clampl(T, 100, 500); P = clampl(P_, 0, 10000); rh = clampl(rh_, 0, 1);
        wl = wl_ < 0.1L? 0.1L: wl_; phi = phi_; alpha = clampl(fabsl(tlr), 0.001L, 0.01L);
        optic = wl <= 100;
        const ld l2 = wl * wl;
        A = optic? (287.6155L + 1.62887L / l2 + 0.01360L / (l2 * l2)) * 273.15e-6L / 1013.25L: 77.6890e-6L;
        const ld gb = 9.784L * (1 - 0.0026L * cosl(2 * phi) - 0.00000028L * h);
        g_ = gb * 28.9644L / 8314.32L;
        gamma = g_ / alpha;
        pw = vapour(T0, P, rh);
        w = pw * (1 - 18.0152L / 28.9644L) * gamma / (delta - gamma);
        r0 = 6378120 + h; rt = 6378120 + (h > 11000? h: 11000.0L); rs = 6378120 + 80000;
        ld d; tropo(rt, nt, d);
        Tt = temp(rt);
        b = g_ / Tt;
    }
    ld temp(ld r) const { return clampl(T0 - alpha * (r - r0), 100, 320); }
    /// refractive index and dn/dr * r in the troposphere
    void tropo(ld r, ld& n, ld& rdn) const {
        const ld t = temp(r), q = t / T0;
        const ld c1 = A * (P + w) / T0, c2 = (A * w + (optic? 11.2684e-6L: 6.3938e-6L) * pw) / T0, c5 = optic? 0: 0.375463L * pw / T0;
        const ld qg = powl(q, gamma - 2), qd = powl(q, delta - 2);
        n = 1 + (c1 * qg - (c2 - c5 / t) * qd) * q;
        // derivative at constant lapse rate
        const ld dry = (gamma - 1) * alpha * c1 / T0, wet = (delta - 1) * alpha * c2 / T0, vap = c5 * (delta - 2) * alpha / (T0 * T0);
        rdn = r * (-dry * qg + (wet - vap / q) * qd);
    }
    void strato(ld r, ld& n, ld& rdn) const { const ld e = (nt - 1) * expl(-b * (r - rt)); n = 1 + e; rdn = -r * b * e; }
    void at(bool s, ld r, ld& n, ld& rdn) const { if (s) strato(r, n, rdn); else tropo(r, n, rdn); }
    /// smallest n + r dn/dr of the troposphere along the way: rays duct when it reaches zero
    ld stiffness() const {
        ld m = 9, n, d;
        for (int i = -9; i <= 11; i++) { const ld r = r0 + i * 1000; if (r > rt) break; tropo(r, n, d); if (n + d < m) m = n + d; }
        return m;
    }
    ld part(bool s, ld z0, ld z1, ld sk, int panels, bool& ok) const {
        static const ld X[8] = {0.0950125098376374402L, 0.2816035507792589132L, 0.4580167776572273863L, 0.6178762444026437484L, 0.7554044083550030339L, 0.8656312023878317439L, 0.9445750230732325761L, 0.9894009349916499326L};
        static const ld W[8] = {0.1894506104550684963L, 0.1826034150449235888L, 0.1691565193950025382L, 0.1495959888165767321L, 0.1246289712555338720L, 0.0951585116824927848L, 0.0622535239386478929L, 0.0271524594117540949L};
        ld sum = 0, r = s? rt: r0;
        const ld hw = (z1 - z0) / (2 * panels);
        for (int p = 0; p < panels; p++)
            for (int k = -8; k < 8; k++) {
                const int q = k < 0? -k - 1: k;
                const ld z = z0 + hw * (2 * p + 1) + (k < 0? -hw: hw) * X[q], target = sk / sinl(z);
                ld n, d;
                bool conv = false;
                for (int it = 0; it < 60; it++) {
                    at(s, r, n, d);
                    const ld dr = (r * n - target) / (n + d);
                    r -= dr;
                    if (fabsl(dr) < 1e-7L) { conv = true; break; }
                }
                if (!conv) ok = false;
                if (!s && (T0 - alpha * (r - r0) > 320 || T0 - alpha * (r - r0) < 100)) const_cast<Atmos*>(this)->kink = true;
                at(s, r, n, d);
                sum += W[q] * hw * d / (n + d);
            }
        return sum;
    }
    static ld as(ld x) { return x >= 1? HALF_PI: asinl(x); }
    /// refraction for observed zenith distance z in [0, 93 deg]
    ld refraction(ld z, bool& ok, int panels = 6) const {
        ld n, d, ns, ds;
        tropo(r0, n, d);
        const ld sk = n * r0 * sinl(z);
        if (z == 0) return 0;
        strato(rs, ns, ds);
        const ld zt = as(sk / (rt * nt)), zs = as(sk / (rs * ns));
        if (sk / (rt * nt) >= 1 || sk / (rs * ns) >= 1) ok = false;
        return part(false, z, zt, sk, panels, ok) + part(true, zt, zs, sk, panels, ok);
    }
};
} // ref
