#include "ref.h"
#include "sla_overloads.h"
PROPERTY("C09", "cc2s dcc2s cs2c dcs2c cc62s dc62s cs2c6 ds2c6",
    "the point is neither the origin nor exactly on the polar axis, and its velocity (where there is one) is not zero")
using namespace ref;

template <class T> constexpr ld tiny() { return sizeof(T) == 4? 1e-34L: 1e-280L; }
/// vector with axes, planes, near-pole and mixed scales
template <class T> void gen_vec(Gen& g, T* v, double top) {
    const double s = g.chance(1, 2)? 1: std::pow(10.0, g.uniform(-top, top));
    switch (g.irange(0, 5)) {
    case 0: for (int i = 0; i < 3; i++) v[i] = (T) (s * g.integer(-2, 2)); break;
    case 1: { const V u = dir(g.angle(), g.lat()); for (int i = 0; i < 3; i++) v[i] = (T) (s * u[i]); break; }
    case 2: v[0] = (T) (s * g.logmag(-9, -1)); v[1] = (T) (s * (g.chance(1, 3)? 0: g.logmag(-9, -1))); v[2] = (T) (s * (g.chance(1, 2)? 1: -1)); break;
    case 3: for (int i = 0; i < 3; i++) v[i] = (T) (s * (g.chance(1, 3)? 0: g.uniform(-1, 1))); break;
    case 4: for (int i = 0; i < 3; i++) v[i] = (T) (s * g.logmag(-4, 0)); break;
    default: for (int i = 0; i < 3; i++) v[i] = (T) (s * g.uniform(-1, 1));
    }
}
/// a zero component may carry either sign
template <class T> void signed_zeros(Gen& g, T* v) { const int m = g.irange(0, 15); for (int i = 0; i < 3; i++) if (v[i] == 0 && (m >> i & 1)) v[i] = (T) -0.0; }
template <class T> void to_spherical(Gen& g) {
    T v[3];
    gen_vec(g, v, sizeof(T) == 4? 10: 120);
    if (g.chance(1, 40)) v[0] = v[1] = v[2] = 0;
    if (g.chance(1, 20)) v[0] = v[1] = 0;
    signed_zeros(g, v);
    g.notev("v", v, 3);
    const V a = vec(v);
    sla::Spherical<T> s{(T) 77, (T) 77};
    ov::cc2s(v, s);
    const ld e = 6 * ov::eps<T>();
    REQUIRE(maxdiff(vec(v), a) == 0, "input modified");
    REQUIRE(fabsl(s.s_b) <= (ld) (T) HALF_PI * (1 + e), "latitude %.17g out of range", (double) s.s_b);
    REQUIRE(fabsl(s.s_a) <= (ld) (T) PI * (1 + e), "longitude %.17g out of range", (double) s.s_a);
    if (a.x == 0 && a.y == 0) {
        REQUIRE(s.s_a == 0, "longitude %.17g on the polar axis", (double) s.s_a);
        CLOSE(s.s_b, a.z == 0? 0: a.z > 0? HALF_PI: -HALF_PI, e, "latitude on the polar axis");
        g.trivial(); g.classify(a.z == 0? "origin": "pole"); return;
    }
    const ld rxy = hypotl(a.x, a.y);
    if (rxy < (sizeof(T) == 4? 1e-16L: 1e-140L)) { g.trivial(); return; }
    CLOSE(pbt::angdiff(s.s_a, lon(a)), 0, 2 * e, "longitude %.17g", (double) s.s_a);
    CLOSE(s.s_b, lat(a), e, "latitude");
}
LAW(to_spherical_double, 1200000) { to_spherical<double>(g); }
LAW(to_spherical_single, 800000) { to_spherical<float>(g); }

template <class T> void from_spherical(Gen& g) {
    const T lo = ov::angle<T>(g, g.chance(1, 3)? 60: 7), la = g.chance(1, 10)? ov::angle<T>(g): ov::lat<T>(g);
    g.note("longitude", lo); g.note("latitude", la);
    T v[3] = {77, 77, 77};
    ov::cs2c(sla::Spherical<T>{lo, la}, v);
    const V want = dir(lo, la);
    const ld e = 3 * ov::eps<T>();
    for (int i = 0; i < 3; i++) CLOSE(v[i], want[i], e, "component %d", i);
    CLOSE(norm(vec(v)), 1, 2 * e, "not a unit vector");
    sla::Spherical<T> s;
    ov::cc2s(v, s);
    if (fabsl(la) <= (ld) (T) HALF_PI) {
        CLOSE(s.s_b, la, 3 * e + 0, "latitude not recovered");
        const ld c = cosl(la);
        if (c > 10 * e) CLOSE(pbt::angdiff(s.s_a, lo), 0, 3 * e / 1, "longitude not recovered at latitude %.17g", (double) la);
    }
    REQUIRE(sep(dir(s.s_a, s.s_b), want) <= 6 * e, "direction not recovered (%.3Lg)", sep(dir(s.s_a, s.s_b), want));
    g.trivial(lo == 0 && la == 0);
}
LAW(from_spherical_double, 1200000) { from_spherical<double>(g); }
LAW(from_spherical_single, 800000) { from_spherical<float>(g); }

template <class T> void pv_to_spherical(Gen& g) {
    T p[3], v[3];
    gen_vec(g, p, sizeof(T) == 4? 5: 30); gen_vec(g, v, sizeof(T) == 4? 5: 30);
    const int special = g.irange(0, 19);
    if (special == 0) p[0] = p[1] = p[2] = 0;
    if (special == 1 || special == 2) p[0] = p[1] = 0;
    if (special == 3) v[0] = v[1] = v[2] = 0;
    if (special == 4) for (int i = 0; i < 3; i++) v[i] = -p[i];
    signed_zeros(g, p); signed_zeros(g, v);
    g.notev("p", p, 3); g.notev("v", v, 3);
    const sla::VectorPV<T> in(p, v);
    sla::SphericalPV<T> s({{(T) 7, (T) 7}, (T) 7}, {{(T) 7, (T) 7}, (T) 7});
    ov::cc62s(in, s);
    REQUIRE(!memcmp(p, in.get_position(), sizeof p) && !memcmp(v, in.get_velocity(), sizeof v), "input modified");
    const ld e = 16 * ov::eps<T>();
    V P = vec(p), D = vec(v);
    const bool null = norm(P) == 0;
    if (null) { g.classify("null position"); P = D; }
    const ld rxy = hypotl(P.x, P.y), r = norm(P);
    g.trivial(null || rxy == 0 || norm(D) == 0);
    if (!null && r < (sizeof(T) == 4? 1e-8L: 1e-60L)) g.discard();
    const ld fl = tiny<T>() + e * 1e-6L * norm(D) / std::fmin(r > 0? r: 1, 1.0L);      // components tens of orders below the others may underflow
    if (rxy == 0) {
        REQUIRE(s.get_longitude() == 0 && s.get_dlong() == 0 && s.get_dlat() == 0, "polar axis: longitude %g, rates %g %g", (double) s.get_longitude(), (double) s.get_dlong(), (double) s.get_dlat());
        CLOSE(s.get_latitude(), P.z == 0? 0: P.z > 0? HALF_PI: -HALF_PI, e, "latitude on the polar axis");
        CLOSE(s.get_dist(), r, e * r + fl, "distance");
        if (r > 0) CLOSE(s.get_ddist(), P.z * D.z / r, e * fabsl(D.z) + fl, "radial rate");
        return;
    }
    if (rxy < (sizeof(T) == 4? 1e-12L: 1e-80L)) g.discard();
    CLOSE(pbt::angdiff(s.get_longitude(), lon(P)), 0, e, "longitude");
    CLOSE(s.get_latitude(), lat(P), e, "latitude");
    if (null) { CLOSE(s.get_ddist(), norm(D), e * norm(D), "radial rate from the origin"); return; }
    CLOSE(s.get_dist(), r, e * r, "distance");
    CLOSE(s.get_dlong(), (P.x * D.y - P.y * D.x) / (rxy * rxy), e * (fabsl(P.x * D.y) + fabsl(P.y * D.x)) / (rxy * rxy) + fl, "longitude rate");
    const ld xyp = P.x * D.x + P.y * D.y, axyp = fabsl(P.x * D.x) + fabsl(P.y * D.y);
    CLOSE(s.get_dlat(), (D.z * rxy * rxy - P.z * xyp) / (r * r * rxy), e * (fabsl(D.z) * rxy * rxy + fabsl(P.z) * axyp) / (r * r * rxy) + fl, "latitude rate");
    CLOSE(s.get_ddist(), (xyp + P.z * D.z) / r, e * (axyp + fabsl(P.z * D.z)) / r + fl, "radial rate");
}
LAW(pv_to_spherical_double, 1200000) { pv_to_spherical<double>(g); }
LAW(pv_to_spherical_single, 800000) { pv_to_spherical<float>(g); }

template <class T> void pv_from_spherical(Gen& g) {
    const T lo = ov::angle<T>(g, g.chance(1, 6)? 40: 6.283185307179586), la = ov::lat<T>(g);
    const double top = sizeof(T) == 4? 5: 30;
    const T r = g.chance(1, 20)? 0: (T) std::fabs(g.chance(1, 2)? g.uniform(0.1, 10): g.logmag(-top, top));
    auto rate = [&](double k) -> T { return g.chance(1, 5)? 0: (T) (k * (g.chance(1, 2)? g.uniform(-1, 1): g.logmag(-4, 3))); };
    const T dlo = rate(1), dla = rate(1), dr = rate((double) r);
    g.note("longitude", lo); g.note("latitude", la); g.note("dist", r); g.note("dlong", dlo); g.note("dlat", dla); g.note("ddist", dr);
    const sla::SphericalPV<T> s({{lo, la}, r}, {{dlo, dla}, dr});
    T z[3] = {77, 77, 77};
    sla::VectorPV<T> pv(z, z);
    ov::cs2c6(s, pv);
    const ld e = 16 * ov::eps<T>();
    const V u = dir(lo, la), east = {-sinl(lo), cosl(lo), 0}, north = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)};
    const V vel = (ld) dr * u + ((ld) r * dlo * cosl(la)) * east + ((ld) r * dla) * north;
    const ld size = fabsl(dr) + fabsl(r * (ld) dlo) + fabsl(r * (ld) dla);
    for (int i = 0; i < 3; i++) {
        CLOSE(pv.get_position()[i], r * u[i], e * r, "position component %d", i);
        CLOSE(pv.get_velocity()[i], vel[i], e * size + tiny<T>(), "velocity component %d", i);
    }
    g.trivial(size == 0 || r == 0);
    // and back, away from the axis
    if (r == 0 || cosl(la) < 1e-3L || fabsl(la) > HALF_PI) return;
    if (r < (sizeof(T) == 4? 1e-8L: 1e-60L)) return;
    sla::SphericalPV<T> b;
    ov::cc62s(pv, b);
    const ld c = cosl(la);
    CLOSE(pbt::angdiff(b.get_longitude(), lo), 0, e / c, "longitude not recovered");
    CLOSE(b.get_latitude(), la, e / c, "latitude not recovered");
    CLOSE(b.get_dist(), r, e * r, "distance not recovered");
    CLOSE(b.get_dlong(), dlo, 4 * e * size / r / (c * c) + tiny<T>(), "longitude rate not recovered");
    CLOSE(b.get_dlat(), dla, 4 * e * size / r / (c * c) + tiny<T>(), "latitude rate not recovered");
    CLOSE(b.get_ddist(), dr, 4 * e * size / c + tiny<T>(), "radial rate not recovered");
}
LAW(pv_from_spherical_double, 1000000) { pv_from_spherical<double>(g); }
LAW(pv_from_spherical_single, 700000) { pv_from_spherical<float>(g); }
