// Published Earth ephemerides evaluated in extended precision: Stumpff 1980 (evp), simplified VSOP2000 (epv), Newcomb-like (earth).
#pragma once
#include "prec_ref.h"
namespace ref {
struct EpvTerm { ld a, b, c; };
#include "data/epv.inc"
struct State { V hp, hv, bp, bv; };
inline void series(const EpvTerm* s, size_t n, int power, ld t, ld& pos, ld& vel) {
    ld p = 0, v = 0;
    for (size_t i = 0; i < n; i++) { const ld x = s[i].b + s[i].c * t; p += s[i].a * cosl(x); v -= s[i].a * s[i].c * sinl(x); }
    const ld tp = power == 0? 1: power == 1? t: t * t, dtp = power == 0? 0: power == 1? 1: 2 * t;
    pos += tp * p; vel += tp * v + dtp * p;
}
#define EPV_SUM(S, A) series(EPV_##S##A, sizeof(EPV_##S##A) / sizeof(EpvTerm), #S[1] - '0', t, p, v)
/// ICRS, AU and AU/day
inline State epv_ref(ld mjd) {
    const ld t = (mjd - 51544.5L) / 365.25L;
    V hp, hv, bp, bv;
    ld p = 0, v = 0;
#define EPV_AXIS(A, k) p = v = 0; EPV_SUM(E0, A); EPV_SUM(E1, A); EPV_SUM(E2, A); hp[k] = p; hv[k] = v / 365.25L; EPV_SUM(S0, A); EPV_SUM(S1, A); EPV_SUM(S2, A); bp[k] = p; bv[k] = v / 365.25L;
    EPV_AXIS(X, 0) EPV_AXIS(Y, 1) EPV_AXIS(Z, 2)
    // orientation: obliquity 23 26 21.4091 about x, then 0.0475 arcsec about z
    const M r = rot(2, 0.0475L * ARCSEC) * rot(0, -(23 * 3600 + 26 * 60 + 21.4091L) * ARCSEC);
    return {r * hp, r * hv, r * bp, r * bv};
}
namespace stumpff {
#include "data/evp.inc"
}
/// mean equator and equinox (FK5) of date, AU and AU/s
inline State evp_ref(ld mjd) {
    using namespace stumpff;
    const ld T = (mjd - 15019.5L) / 36525;
    ld F[8], S[17];
    for (int k = 0; k < 8; k++) F[k] = DCFEL[k][0] + T * (DCFEL[k][1] + T * DCFEL[k][2]);
    for (int k = 0; k < 17; k++) S[k] = CCSEL[k][0] + T * (CCSEL[k][1] + T * CCSEL[k][2]);
    const ld eps = DCEPS[0] + T * (DCEPS[1] + T * DCEPS[2]), e = S[0], g = F[1];
    ld pl = 0, pld = 0, pr = 0, prd = 0;
    for (int k = 0; k < 4; k++) pl += (CCSEC[k][0] + (k == 2? -7.757020e-08L * T: 0)) * sinl(CCSEC[k][1] + T * CCSEC[k][2]);
    for (int k = 0; k < 15; k++) {
        const ld a = DCARGS[k][0] + T * DCARGS[k][1], c = cosl(a), s = sinl(a);
        pl += CCAMPS[k][0] * c + CCAMPS[k][1] * s; pr += CCAMPS[k][2] * c + CCAMPS[k][3] * s;
        if (k < 10) { pld += (CCAMPS[k][1] * c - CCAMPS[k][0] * s) * CCAMPS[k][4]; prd += (CCAMPS[k][3] * c - CCAMPS[k][2] * s) * CCAMPS[k][4]; }
    }
    // equation of the centre, radius vector and their rates
    const ld phi = 2 * e * ((1 - e * e / 8) * sinl(g) + 0.625L * e * sinl(2 * g) + 0.54166667L * e * e * sinl(3 * g)), f = g + phi;
    const ld psi = (1 - e * e) / (1 + e * cosl(f));
    const ld sgd = 1.990969e-07L, phid = 2 * e * sgd * ((1 + 1.5L * e * e) * cosl(f) + e * (1.25L - sinl(f) * sinl(f) / 2)), psid = sgd * e * sinl(f) / sqrtl(1 - e * e);
    const ld L = F[0] + phi + pl, r = psi * (1 + pr), rd = (1 + pr) * (psid + psi * prd), rld = (1 + pr) * psi * (1.990987e-07L + phid + pld);
    V h{r * cosl(L), r * sinl(L), 0}, hd{rd * cosl(L) - rld * sinl(L), rd * sinl(L) + rld * cosl(L), 0};
    // Earth about the Earth-Moon barycentre
    ld ml = 0, mld = 0, mp = 0, mpd = 0;
    for (int k = 0; k < 3; k++) { const ld a = DCARGM[k][0] + T * DCARGM[k][1]; ml += CCAMPM[k][0] * sinl(a); mld += CCAMPM[k][1] * cosl(a); mp += CCAMPM[k][2] * cosl(a); mpd -= CCAMPM[k][3] * sinl(a); }
    const ld tl = F[2] + ml, sg = 3.122140e-05L / (1 + mp), va = sg * (2.661699e-06L + mld), vb = sg * mpd, bet = 8.978749e-2L * sinl(F[3]);
    hd = hd + V{va * sinl(tl) + vb * cosl(tl), -va * cosl(tl) + vb * sinl(tl), -sg * 2.399485e-07L * cosl(F[3])};
    h = h - V{sg * cosl(bet) * cosl(tl), sg * cosl(bet) * sinl(tl), sg * sinl(bet)};
    V b = 0.99999696L * h, bd = 0.99999696L * hd;
    for (int k = 0; k < 4; k++) {
        const ld pl_ = F[k + 4], om = S[k + 1], ec = S[k + 9], inc = S[k + 13], nod = S[k + 5], lo = pl_ + 2 * ec * sinl(pl_ - om);
        bd = bd + CCPAMV[k] * V{sinl(lo) + ec * sinl(om), -cosl(lo) - ec * cosl(om), -inc * cosl(pl_ - nod)};
        const ld a = CCPAM[k] * (1 - ec * cosl(pl_ - om)), la = inc * sinl(pl_ - nod);
        b = b - a * V{cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)};
    }
    // equator of date, then the equinox correction FK4 -> FK5
    const ld epoch = 2000 + (mjd - 51544.5L) / 365.25L, cor = 0.7272205216643e-4L * (0.035L + 0.00085L * (epoch - 1949.9997904423L));
    auto fin = [&](const V& v) { const V q = rot(0, -eps) * v; return V{q.x - cor * q.y, q.y + cor * q.x, q.z}; };
    return {fin(h), fin(hd), fin(b), fin(bd)};
}
/// heliocentric, mean equator and equinox of date; AU, AU/s. Years since 1900, as a four-year cycle
inline void earth_ref(int year, int day, ld frac, V& pos, V& vel) {
    // days since 1900 January 0.5 in the Julian-style calendar, whose leap years are the multiples of four
    const int y4 = ((year % 4) + 4) % 4;
    const ld yf = (4.0L * (day - (y4 == 0? 1: 0)) - y4 - 2 + 4 * frac) / 1461, t = year - 1900 + yf;
    const ld lm = 4.881628L + TWO_PI * yf + 0.00013420L * t, ga = 4.908230L + 3.0005e-4L * t, em = lm - ga, ep = 0.40931975L - 2.27e-6L * t, e = 0.016751L - 4.2e-7L * t;
    const ld v = em + 2 * e * sinl(em) + 1.25L * e * e * sinl(2 * em), lt = v + ga, r = (1 - e * e) / (1 + e * cosl(v)), mm = 4.72L + 83.9971L * t;
    const V p{-r * cosl(lt) - 3.12e-5L * cosl(mm), -r * sinl(lt), 0}, d{1.9913e-7L * (sinl(lt) + e * sinl(ga)) + 8.31e-11L * sinl(mm), -1.9913e-7L * (cosl(lt) + e * cosl(ga)), 0};
    pos = {p.x, (p.y - 3.12e-5L * sinl(mm)) * cosl(ep), p.y * sinl(ep)};
    vel = {d.x, (d.y - 8.31e-11L * cosl(mm)) * cosl(ep), d.y * sinl(ep)};
}
} // ref
