// The Moon theory of Meeus, l'Astronomie, June 1984, p. 348, evaluated in extended precision from its published form.
#pragma once
#include "ref.h"
namespace ref {
struct MoonTerm { ld c; int m, mp, d, f, e; };
#include "data/moon.inc"
/// a quantity with its rate per Julian century
struct Dual { ld v, d; };
inline Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
inline Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
inline Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
inline Dual operator*(ld k, Dual a) { return {k * a.v, k * a.d}; }
inline Dual dsin(Dual a) { return {sinl(a.v), cosl(a.v) * a.d}; }
inline Dual dcos(Dual a) { return {cosl(a.v), -sinl(a.v) * a.d}; }
inline Dual dinv(Dual a) { return {1 / a.v, -a.d / (a.v * a.v)}; }
inline Dual poly(ld t, ld a, ld b, ld c = 0, ld d = 0) { return {a + t * (b + t * (c + t * d)), b + t * (2 * c + 3 * t * d)}; }
inline Dual moon_sum(const MoonTerm* s, int n, bool cosine, Dual m, Dual mp, Dual d, Dual f, Dual e) {
    Dual sum{0, 0};
    for (int i = 0; i < n; i++) {
        const Dual arg = DEG * ((ld) s[i].m * m + (ld) s[i].mp * mp + (ld) s[i].d * d + (ld) s[i].f * f);
        Dual t = s[i].c * (cosine? dcos(arg): dsin(arg));
        for (int k = 0; k < s[i].e; k++) t = t * e;
        sum = sum + t;
    }
    return sum;
}
/// ecliptic position from longitude, latitude (degrees) and horizontal parallax (degrees); AU and AU per century
inline void moon_vector(Dual l, Dual b, Dual p, V& pos, V& vel) {
    const Dual r = (6378.137L / 149597870.0L) * dinv(dsin(DEG * p));
    const Dual x = r * dcos(DEG * b) * dcos(DEG * l), y = r * dcos(DEG * b) * dsin(DEG * l), z = r * dsin(DEG * b);
    pos = V{x.v, y.v, z.v};
    vel = V{x.d, y.d, z.d};
}
constexpr ld CENTURY_S = 86400.0L * 36525;
/// mean equator and equinox of date, AU and AU/s (FK5: the ecliptic vector is turned by the equinox correction and the obliquity)
inline void dmoon_ref(ld mjd, V& pos, V& vel) {
    const ld t = (mjd - 15019.5L) / 36525;
    const Dual om = poly(t, 259.183275L, -1934.1420L, 0.002078L, 0.0000022L), som = dsin(DEG * om);
    const Dual a = dsin(DEG * poly(t, 51.2L, 20.2L)), w = 0.003964L * dsin(DEG * poly(t, 346.560L, 132.870L, -0.0091731L));
    const Dual c = om + poly(t, 275.05L, -2.30L), sc = dsin(DEG * c);
    const Dual lp = poly(t, 270.434164L, 481267.8831L, -0.001133L, 0.0000019L) + 0.000233L * a + w + 0.001964L * som;
    const Dual m = poly(t, 358.475833L, 35999.0498L, -0.000150L, -0.0000033L) + -0.001778L * a;
    const Dual mp = poly(t, 296.104608L, 477198.8491L, 0.009192L, 0.0000144L) + 0.000817L * a + w + 0.002541L * som;
    const Dual d = poly(t, 350.737486L, 445267.1142L, -0.001436L, 0.0000019L) + 0.002011L * a + w + 0.001964L * som;
    const Dual f = poly(t, 11.250889L, 483202.0251L, -0.003211L, -0.0000003L) + w + -0.024691L * som + -0.004328L * sc;
    const Dual e = poly(t, 1, -0.002495L, -0.00000752L);
    const Dual l = lp + moon_sum(MOON_L, 50, false, m, mp, d, f, e);
    const Dual b = moon_sum(MOON_B, 45, false, m, mp, d, f, e) * (Dual{1, 0} - 0.0004664L * dcos(DEG * om) - 0.0000754L * dcos(DEG * c));
    const Dual p = moon_sum(MOON_P, 31, true, m, mp, d, f, e);
    V ep, ev;
    moon_vector(l, b, p, ep, ev);
    const ld u = (mjd - 51544.5L) / 36525;
    const ld eps = DEG / 3600 * (84381.448L + u * (-46.8150L + u * (-0.00059L + u * 0.001813L)));
    const ld q = DEG / 240 * (0.035L + 0.00085L * (2000 + 100 * u - 1949.9997904423L)), s = sinl(eps), k = cosl(eps);
    // first order in the equinox correction, as the published adjustment is
    const auto turn = [&](const V& x) { return V{x[0] - q * (k * x[1] - s * x[2]), q * x[0] + k * x[1] - s * x[2], s * x[1] + k * x[2]}; };
    pos = turn(ep);
    vel = (1 / CENTURY_S) * turn(ev);
}
/// the shortened theory: leading terms, linear arguments, no periodic corrections; t in Julian years from J1900
inline void moon_ref(ld t, V& pos, V& vel) {
    const ld T = t / 100;
    const Dual m = poly(T, 358.475833L, 35999.0498L), mp = poly(T, 296.104608L, 477198.8491L), d = poly(T, 350.737486L, 445267.1142L),
        f = poly(T, 11.250889L, 483202.0251L), one{1, 0};
    const Dual l = poly(T, 270.434164L, 481267.8831L) + moon_sum(MOON_L, 39, false, m, mp, d, f, one);
    const Dual b = moon_sum(MOON_B, 29, false, m, mp, d, f, one), p = moon_sum(MOON_P, 5, true, m, mp, d, f, one);
    V ep, ev;
    moon_vector(l, b, p, ep, ev);
    const ld eps = DEG * (23.45229L - 0.00013L * t), s = sinl(eps), k = cosl(eps);
    const auto turn = [&](const V& x) { return V{x[0], k * x[1] - s * x[2], s * x[1] + k * x[2]}; };
    pos = turn(ep);
    vel = (1 / CENTURY_S) * turn(ev);
}
}
