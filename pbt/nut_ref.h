// Nutation series evaluated in extended precision with rounding bounds for a double-precision implementation.
#pragma once
#include "ref.h"
namespace ref {
struct Nut { ld psi, eps, eps0, tpsi, teps, teps0; };
struct Arg { ld v, err; };
/// c0 (constant) + polynomial without constant term, arcseconds
inline Arg nut_arg(ld c0, std::initializer_list<ld> p, ld t) {
    ld s = 0, a = 0, w = t;
    for (ld c : p) { s += c * w; a += fabsl(c * w); w *= t; }
    return {fmodl(c0 + s, 1296000.0L) * ARCSEC, 4 * EPS * (fabsl(c0) + a) * ARCSEC + 4 * EPS};
}
struct N80 { int m[5]; ld p, pt, e, et; };
struct N01 { int m[9]; ld p[4], e[4]; };
inline const std::vector<N80>& tab80() { static const std::vector<N80> t = {
#include "data/nut80.inc"
}; return t; }
inline const std::vector<N01>& tab01() { static const std::vector<N01> t = {
#include "data/nut01.inc"
}; return t; }
inline ld cy(ld mjd) { return (mjd - 51544.5L) / 36525; }
inline ld obliquity80(ld mjd) { const ld t = cy(mjd); return (84381.448L - 46.8150L * t - 0.00059L * t * t + 0.001813L * t * t * t) * ARCSEC; }
inline ld node80(ld mjd) { return nut_arg(450160.280L, {-5 * 1296000.0L - 482890.539L, 7.455L, 0.008L}, cy(mjd)).v; }
inline Nut nut80(double mjd) {
    const ld t = cy(mjd), R = 1296000;
    const Arg a[5] = {
        nut_arg(485866.733L, {1325 * R + 715922.633L, 31.310L, 0.064L}, t),
        nut_arg(1287099.804L, {99 * R + 1292581.224L, -0.577L, -0.012L}, t),
        nut_arg(335778.877L, {1342 * R + 295263.137L, -13.257L, 0.011L}, t),
        nut_arg(1072261.307L, {1236 * R + 1105601.328L, -6.891L, 0.019L}, t),
        nut_arg(450160.280L, {-5 * R - 482890.539L, 7.455L, 0.008L}, t)};
    Nut n{};
    for (auto& r : tab80()) {
        ld th = 0, er = 0;
        for (int k = 0; k < 5; k++) { th += r.m[k] * a[k].v; er += std::abs(r.m[k]) * (a[k].err + 8 * EPS); }
        const ld cp = r.p + r.pt * t, ce = r.e + r.et * t;
        n.psi += cp * sinl(th); n.eps += ce * cosl(th);
        n.tpsi += (fabsl(r.p) + fabsl(r.pt * t)) * (er + 6 * EPS); n.teps += (fabsl(r.e) + fabsl(r.et * t)) * (er + 6 * EPS);
    }
    const ld u = ARCSEC / 10000;
    n.psi *= u; n.eps *= u; n.tpsi *= u; n.teps *= u;
    n.tpsi += 1e-18L; n.teps += 1e-18L;
    n.eps0 = obliquity80(mjd);
    n.teps0 = 8 * EPS * (84382 + 47 * fabsl(t) + 0.002L * fabsl(t * t * t)) * ARCSEC;
    return n;
}
inline Nut nut01(double mjd) {
    const ld t = cy(mjd), D = 3600;
    const Arg a[9] = {
        nut_arg(134.96340251L * D, {1717915923.2178L, 31.8792L, 0.051635L, -0.00024470L}, t),
        nut_arg(357.52910918L * D, {129596581.0481L, -0.5532L, 0.000136L, -0.00001149L}, t),
        nut_arg(93.27209062L * D, {1739527262.8478L, -12.7512L, -0.001037L, 0.00000417L}, t),
        nut_arg(297.85019547L * D, {1602961601.209L, -6.3706L, 0.006539L, -0.00003169L}, t),
        nut_arg(125.04455501L * D, {-6962890.5431L, 7.4722L, 0.007702L, -0.00005939L}, t),
        nut_arg(181.97980085L * D, {210664136.433548L}, t),
        nut_arg(355.43299958L * D, {68905077.493988L}, t),
        nut_arg(34.35151874L * D, {10925660.377991L}, t),
        nut_arg(50.07744430L * D, {4399609.855732L}, t)};
    Nut n{};
    n.psi = -153.1L * sinl(a[1].v) - 1.9L * sinl(2 * a[1].v);
    n.tpsi = 160 * (2 * a[1].err + 16 * EPS);
    for (auto& r : tab01()) {
        ld th = 0, er = 0;
        for (int k = 0; k < 9; k++) { th += r.m[k] * a[k].v; er += std::abs(r.m[k]) * (a[k].err + 16 * EPS); }
        const ld c = cosl(th), s = sinl(th);
        n.psi += (r.p[0] + r.p[2] * t) * c + (r.p[1] + r.p[3] * t) * s;
        n.eps += (r.e[0] + r.e[2] * t) * c + (r.e[1] + r.e[3] * t) * s;
        n.tpsi += (fabsl(r.p[0]) + fabsl(r.p[1]) + fabsl(t) * (fabsl(r.p[2]) + fabsl(r.p[3]))) * (er + 8 * EPS);
        n.teps += (fabsl(r.e[0]) + fabsl(r.e[1]) + fabsl(t) * (fabsl(r.e[2]) + fabsl(r.e[3]))) * (er + 8 * EPS);
    }
    n.psi = (n.psi * 1e-6L - 0.042888L - 0.29856L * t) * ARCSEC;
    n.eps = (n.eps * 1e-6L - 0.005171L - 0.02408L * t) * ARCSEC;
    n.tpsi = n.tpsi * 1e-6L * ARCSEC + 8 * EPS * (0.05L + 0.3L * fabsl(t)) * ARCSEC + 1e-18L;
    n.teps = n.teps * 1e-6L * ARCSEC + 8 * EPS * (0.05L + 0.3L * fabsl(t)) * ARCSEC + 1e-18L;
    const ld t2 = t * t;
    n.eps0 = (84381.412L - 46.80927L * t - 0.000152L * t2 + 0.0019989L * t2 * t - 0.00000051L * t2 * t2 - 0.000000025L * t2 * t2 * t) * ARCSEC;
    n.teps0 = 8 * EPS * (84382 + 47 * fabsl(t) + 0.002L * fabsl(t2 * t)) * ARCSEC;
    return n;
}
inline M nut_matrix(const Nut& n) { return rot(0, -(n.eps0 + n.eps)) * rot(2, -n.psi) * rot(0, n.eps0); }
} // ref
