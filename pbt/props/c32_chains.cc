#include "ref.h"
#include "slalib.h"
PROPERTY("C32", "prec precl prebn preces eqecl ecleq ecmat nut prenut eqgal galeq galsup supgal de2h dh2e deuler dav2m",
    "at least two changes of frame are made and the directions are distinct")
using namespace ref;
typedef sla::Spherical<double> S;
struct Step { int kind; double a, b, c; char order[4]; };
static const char* NAME[] = {"eqgal", "galeq", "galsup", "supgal", "eqecl", "ecleq", "preces FK5", "preces FK4", "de2h", "dh2e", "deuler", "dav2m", "prec", "precl", "prebn", "nut", "prenut", "ecmat"};
enum { EQGAL, GALEQ, GALSUP, SUPGAL, EQECL, ECLEQ, PRECES5, PRECES4, DE2H, DH2E, DEULER, DAV2M, PREC, PRECL, PREBN, NUT, PRENUT, ECMAT, KINDS };
/// matrix of the steps that go through one (and of those that must agree with one)
static void matrix(const Step& s, double (*m)[3]) {
    switch (s.kind) {
    case DEULER: sla::deuler(s.order, s.a, s.b, s.c, m); break;
    case DAV2M: { const double v[3] = {s.a, s.b, s.c}; sla::dav2m(v, m); break; }
    case PREC: case PRECES5: sla::prec(s.a, s.b, m); break;
    case PRECL: sla::precl(s.a, s.b, m); break;
    case PREBN: case PRECES4: sla::prebn(s.a, s.b, m); break;
    case NUT: sla::nut(s.a, m); break;
    case PRENUT: sla::prenut(s.b, s.a, m); break;
    case ECMAT: sla::ecmat(s.a, m); break;
    }
}
static void through(const Step& s, const S& in, S& out, bool inverse) {
    double m[3][3], v[3], w[3];
    matrix(s, m);
    sla::dcs2c(in, v);
    if (inverse) sla::dimxv(m, v, w); else sla::dmxv(m, v, w);
    sla::dcc2s(w, out);
}
static S forward(const Step& s, const S& p) {
    S o = {7e77, 7e77};
    switch (s.kind) {
    case EQGAL: sla::eqgal(p, o); break;
    case GALEQ: sla::galeq(p, o); break;
    case GALSUP: sla::galsup(p, o); break;
    case SUPGAL: sla::supgal(p, o); break;
    case EQECL: sla::eqecl(p, s.a, o); break;
    case ECLEQ: sla::ecleq(p, s.a, o); break;
    case PRECES5: o = p; sla::preces(sla::CAT_FK5, s.a, s.b, o); break;
    case PRECES4: o = p; sla::preces(sla::CAT_FK4, s.a, s.b, o); break;
    case DE2H: { double az = 7e77, el = 7e77; sla::de2h(p, s.a, az, el); o = {az, el}; break; }
    case DH2E: sla::dh2e(p.get_longitude(), p.get_latitude(), s.a, o); break;
    default: through(s, p, o, false);
    }
    return o;
}
/// the reverse of a step, by the opposite function or by a different road
static S back(const Step& s, const S& p, bool other) {
    S o = {7e77, 7e77};
    switch (s.kind) {
    case EQGAL: sla::galeq(p, o); break;
    case GALEQ: sla::eqgal(p, o); break;
    case GALSUP: sla::supgal(p, o); break;
    case SUPGAL: sla::galsup(p, o); break;
    case EQECL:
        if (!other) { sla::ecleq(p, s.a, o); break; }
        { const double ep = sla::epj(s.a); S q; through({ECMAT, s.a, 0, 0, ""}, p, q, true); through({PREC, 2000, ep, 0, ""}, q, o, true); break; }
    case ECLEQ:
        if (!other) { sla::eqecl(p, s.a, o); break; }
        { const double ep = sla::epj(s.a); S q; through({PREC, 2000, ep, 0, ""}, p, q, false); through({ECMAT, s.a, 0, 0, ""}, q, o, false); break; }
    case DE2H:
        if (!other) { sla::dh2e(p.get_longitude(), p.get_latitude(), s.a, o); break; }
        { double az = 7e77, el = 7e77; sla::de2h(p, s.a, az, el); o = {az, el}; break; }     // the two are the same rotation by half a turn
    case DH2E: { double az = 7e77, el = 7e77; sla::de2h(p, s.a, az, el); o = {az, el}; break; }
    default: through(s, p, o, true);
    }
    return o;
}
LAW(rigid_and_reversible, 1000000) {
    const int n = g.irange(1, 3) == 1? 1: g.irange(2, 7);
    S p[3];
    for (auto& q: p) q = {g.angle(), g.lat()};
    switch (g.irange(0, 4)) {
    case 1: p[1] = {p[0].s_a + g.logmag(-12, -1), p[0].s_b}; break;
    case 2: { const V v = dir(p[0].s_a, p[0].s_b); p[1] = {(double) lon(-1 * v), (double) lat(-1 * v)}; break; }
    }
    for (int i = 0; i < 3; i++) { const double a[2] = {p[i].s_a, p[i].s_b}; g.notev("direction", a, 2); }
    V first[3], u[3];
    for (int i = 0; i < 3; i++) first[i] = u[i] = dir(p[i].s_a, p[i].s_b);
    const V lim = {sep(u[0], u[1]), sep(u[1], u[2]), sep(u[2], u[0])};
    const ld triple = dot(u[0], cross(u[1], u[2]));
    std::vector<Step> chain;
    ld tol = 1e-15L;
    for (int k = 0; k < n; k++) {
        Step s = {g.irange(0, KINDS - 1), 0, 0, 0, ""};
        auto epoch = [&]() { return g.chance(1, 3)? g.pick({1950.0, 2000.0, 1875.0, 1900.0, 2050.0}): g.uniform(1600, 2400); };
        switch (s.kind) {
        case DE2H: case DH2E: s.a = g.chance(1, 6)? g.angle(): g.lat(); break;
        case EQECL: case ECLEQ: case NUT: case ECMAT: s.a = g.real(-90000, 190000, {51544.5, 15019.5}); break;
        case PRENUT: s.a = g.real(-90000, 190000, {51544.5, 15019.5}); s.b = epoch(); break;
        case PRECES5: case PRECES4: case PREC: case PRECL: case PREBN: s.a = epoch(); s.b = g.chance(1, 10)? s.a: epoch(); break;
        case DEULER: { s.a = g.angle(); s.b = g.angle(); s.c = g.angle(); const int l = g.irange(0, 3); for (int i = 0; i < l; i++) s.order[i] = "XYZxyz123"[g.below(9)]; break; }
        case DAV2M: s.a = g.real(-4, 4, {0}); s.b = g.real(-4, 4, {0}); s.c = g.real(-4, 4, {0}); for (double* q: {&s.a, &s.b, &s.c}) if (std::fabs(*q) < 1e-140) *q = 0; break;
        }
        if (g.verbose) g.notes += pbt::fmt("%s(%s %.17g,%.17g,%.17g) ", NAME[s.kind], s.order, s.a, s.b, s.c);
        for (int i = 0; i < 3; i++) {
            const S before = p[i];
            p[i] = forward(s, before);
            u[i] = dir(p[i].s_a, p[i].s_b);
            REQUIRE(fabsl(p[i].s_b) <= HALF_PI * (1 + 4 * EPS), "latitude %.17g after %s", p[i].s_b, NAME[s.kind]);
            REQUIRE(fabsl(p[i].s_a) <= TWO_PI * (1 + 4 * EPS), "longitude %.17g after %s", p[i].s_a, NAME[s.kind]);
        }
        // 10-12 digit constants in the galactic and supergalactic matrices
        tol += s.kind == EQGAL || s.kind == GALEQ? 1e-10L: s.kind == GALSUP || s.kind == SUPGAL? 5e-12L: 1.2e-14L;
        const V now = {sep(u[0], u[1]), sep(u[1], u[2]), sep(u[2], u[0])};
        for (int i = 0; i < 3; i++) CLOSE(now[i], lim[i], 2 * tol, "separation of directions %d and %d after %s", i + 1, (i + 1) % 3 + 1, NAME[s.kind]);
        CLOSE(dot(u[0], cross(u[1], u[2])), triple, 4 * tol, "handedness after %s", NAME[s.kind]);
        chain.push_back(s);
    }
    for (int k = n - 1; k >= 0; k--) {
        const bool other = g.chance(1, 2);
        for (int i = 0; i < 3; i++) p[i] = back(chain[k], p[i], other);
        tol += chain[k].kind == EQGAL || chain[k].kind == GALEQ? 1e-10L: chain[k].kind == GALSUP || chain[k].kind == SUPGAL? 5e-12L: chain[k].kind == EQECL || chain[k].kind == ECLEQ? 6e-14L: 1.2e-14L;
    }
    for (int i = 0; i < 3; i++) CLOSE(sep(dir(p[i].s_a, p[i].s_b), first[i]), 0, 2 * tol, "direction %d after going back the whole way", i + 1);
    g.classify(n == 1? "one step": n < 4? "two or three steps": "long chain");
    g.trivial(n == 1 || lim[0] == 0);
}
