#include "ref.h"
#include "sla_overloads.h"
PROPERTY("C10", "sep dsep sepv dsepv bear dbear pav dpav",
    "the two directions are distinct")
using namespace ref;

template <class T> struct Pair { sla::Spherical<T> a, b; };
template <class T> Pair<T> gen_pair(Gen& g) {
    Pair<T> p;
    p.a = {ov::angle<T>(g, g.chance(1, 6)? 40: 6.283185307179586), ov::lat<T>(g)};
    switch (g.irange(0, 6)) {
    case 0: p.b = p.a; break;
    case 1: p.b = {(T) (p.a.s_a + (T) PI), (T) -p.a.s_b}; break;
    case 2: { const double d = std::fabs(g.logmag(sizeof(T) == 4? -6: -15, -1)); p.b = {(T) (p.a.s_a + g.uniform(-d, d)), (T) (p.a.s_b + g.uniform(-d, d))}; break; }
    case 3: { const double d = std::fabs(g.logmag(sizeof(T) == 4? -6: -15, -1)); p.b = {(T) (p.a.s_a + (T) PI + g.uniform(-d, d)), (T) (-p.a.s_b + g.uniform(-d, d))}; break; }
    case 4: p.b = {p.a.s_a, ov::lat<T>(g)}; break;
    default: p.b = {ov::angle<T>(g, g.chance(1, 6)? 40: 6.283185307179586), ov::lat<T>(g)};
    }
    g.note("a_lon", p.a.s_a); g.note("a_lat", p.a.s_b); g.note("b_lon", p.b.s_a); g.note("b_lat", p.b.s_b);
    return p;
}
template <class T> void spherical_law(Gen& g) {
    const Pair<T> p = gen_pair<T>(g);
    const V A = dir(p.a.s_a, p.a.s_b), B = dir(p.b.s_a, p.b.s_b);
    const ld want = sep(A, B), e = ov::eps<T>();
    const T got = ov::sep(p.a, p.b);
    REQUIRE(got >= 0 && (ld) got <= PI * (1 + 2 * e), "separation %.17g out of range", (double) got);
    CLOSE(got, want, 8 * EPS + (sizeof(T) == 4? 2 * e * want: 2 * e * want), "separation");
    CLOSE(ov::sep(p.b, p.a), got, 8 * EPS + e * want, "separation is not symmetric");
    if (p.a.s_a == p.b.s_a && p.a.s_b == p.b.s_b) CLOSE(got, 0, 4 * EPS, "separation of identical points");
    // bearing
    const T q = ov::bear(p.a, p.b);
    REQUIRE(fabsl(q) <= PI * (1 + 2 * e), "bearing %.17g out of range", (double) q);
    if (p.a.s_a == p.b.s_a && p.a.s_b == p.b.s_b) { REQUIRE(q == 0, "bearing %.17g of coincident points", (double) q); g.trivial(); return; }
    const ld s = fabsl(sinl(want)), d = (ld) p.b.s_a - p.a.s_a;
    const ld y = sinl(d) * cosl(p.b.s_b), x = sinl(p.b.s_b) * cosl(p.a.s_b) - cosl(p.b.s_b) * sinl(p.a.s_b) * cosl(d);
    const ld tol = e * (12 + fabsl(d)) / s + 4 * e;
    if (tol < 0.1L) CLOSE(pbt::angdiff(q, atan2l(y, x)), 0, tol, "bearing %.17g, separation %.3Lg", (double) q, want);
}
LAW(spherical_double, 1500000) { spherical_law<double>(g); }
LAW(spherical_single, 1000000) { spherical_law<float>(g); }

template <class T> void vector_law(Gen& g) {
    T a[3], b[3];
    const double top = sizeof(T) == 4? 8: 60;
    auto unitv = [&](T* v) {
        const double s = g.chance(1, 3)? 1: std::pow(10.0, g.uniform(-top, top));
        V u;
        if (g.chance(1, 4)) { u = {(ld) g.integer(-2, 2), (ld) g.integer(-2, 2), (ld) g.integer(-2, 2)}; if (norm(u) == 0) u.z = 1; }
        else u = dir(g.angle(), g.lat());
        for (int i = 0; i < 3; i++) v[i] = (T) (s * u[i]);
    };
    unitv(a);
    const int how = g.irange(0, 6);
    bool coincident = false;
    switch (how) {
    case 0: memcpy(b, a, sizeof a); coincident = true; break;
    case 1: { const T k = (T) g.pick({0.5, 2.0, 1024.0}); for (int i = 0; i < 3; i++) b[i] = a[i] * k; break; }
    case 2: { const T k = (T) g.pick({-1.0, -3.0, 3.0, 1.7}); for (int i = 0; i < 3; i++) b[i] = a[i] * k; break; }
    case 3: { const double d = std::fabs(g.logmag(sizeof(T) == 4? -6: -15, -1)); const double n = (double) norm(vec(a)); for (int i = 0; i < 3; i++) b[i] = (T) (a[i] + n * g.uniform(-d, d)); break; }
    default: unitv(b);
    }
    const bool null = g.chance(1, 40);
    if (null) { T* z = g.chance(1, 2)? a: b; z[0] = z[1] = z[2] = 0; coincident = false; }
    g.notev("a", a, 3); g.notev("b", b, 3);
    const V A = vec(a), B = vec(b);
    const T got = ov::sepv(a, b);
    const ld e = ov::eps<T>();
    if (norm(A) == 0 || norm(B) == 0) { REQUIRE(got == 0, "separation from a null vector is %.17g", (double) got); const T q = ov::pav(a, b); REQUIRE(q == 0, "position angle %.17g of a null vector", (double) q); g.trivial(); return; }
    const ld want = sep(A, B);
    REQUIRE(got >= 0 && (ld) got <= PI * (1 + 2 * e), "separation %.17g out of range", (double) got);
    CLOSE(got, want, 8 * EPS + 2 * e * want, "separation");
    CLOSE(ov::sepv(b, a), got, 8 * EPS + e * want, "separation is not symmetric");
    const T q = ov::pav(a, b);
    REQUIRE(fabsl(q) <= PI * (1 + 2 * e), "position angle %.17g out of range", (double) q);
    if (coincident) { REQUIRE(q == 0, "position angle %.17g of coincident points", (double) q); g.trivial(); return; }
    const V u = unit(A), w = unit(B);
    const ld rxy = hypotl(u.x, u.y);
    if (rxy < (sizeof(T) == 4? 1e-6L: 1e-14L)) { g.classify("first point on the polar axis"); return; }
    const ld sq = (w.y * u.x - w.x * u.y) / rxy, cq = w.z * rxy - u.z * (w.x * u.x + w.y * u.y) / rxy;
    const ld tol = 12 * EPS / fabsl(sinl(want)) + 3 * e;
    if (tol < 0.1L) CLOSE(pbt::angdiff(q, atan2l(sq, cq)), 0, tol, "position angle %.17g, separation %.3Lg", (double) q, want);
    REQUIRE(maxdiff(vec(a), A) == 0 && maxdiff(vec(b), B) == 0, "input modified");
}
LAW(vectors_double, 1500000) { vector_law<double>(g); }
LAW(vectors_single, 1000000) { vector_law<float>(g); }

template <class T> void forms_agree(Gen& g) {
    const Pair<T> p = gen_pair<T>(g);
    T a[3], b[3];
    ov::cs2c(p.a, a); ov::cs2c(p.b, b);
    const ld e = ov::eps<T>(), want = sep(dir(p.a.s_a, p.a.s_b), dir(p.b.s_a, p.b.s_b));
    CLOSE(ov::sepv(a, b), ov::sep(p.a, p.b), 16 * e, "the two separations differ");
    const ld s = fabsl(sinl(want)), c = cosl(p.a.s_b), tol = e * (30 + fabsl((ld) p.b.s_a - p.a.s_a)) / (s * c) + 8 * e;
    if (tol < 0.1L && tol > 0) CLOSE(pbt::angdiff(ov::pav(a, b), ov::bear(p.a, p.b)), 0, tol, "the two bearings differ, separation %.3Lg", want);
    g.trivial(want == 0);
}
LAW(forms_agree_double, 500000) { forms_agree<double>(g); }
LAW(forms_agree_single, 500000) { forms_agree<float>(g); }
