#include "ref.h"
#include "slalib.h"
PROPERTY("C01", "range drange ranorm dranrm f77_utils",
    "the angle is finite and lies outside the target range, or within 1e-6 of one of its ends")
using namespace ref;

template <class T> T gen_angle(Gen& g) {
    const int how = g.irange(0, 9);
    const T pi = (T) PI;
    T a;
    if (how < 3) {          // around a multiple of pi/2, few ulps or tiny offsets
        int k = g.integer(-40, 40, {0, 1, 2, 3, 4, -1, -2, -3, -4});
        a = (T) (k * (ld) HALF_PI);
        if (g.chance(1, 2)) { int n = g.irange(-3, 3); for (; n > 0; n--) a = std::nextafter(a, (T) 1e30); for (; n < 0; n++) a = std::nextafter(a, (T) -1e30); }
        else if (g.chance(1, 2)) a += (T) g.logmag(-16, 0);
    } else if (how < 4) a = (T) g.integer(-1000000, 1000000) * pi * 2;
    else if (how < 5) a = (T) g.logmag(-30, 5);
    else if (how < 6) a = (T) g.logmag(-300, 14);
    else if (how < 7) a = (T) g.real(-1e6, 1e6);
    else a = (T) g.angle(20);
    return a;
}

template <class T> void signed_law(Gen& g, T (*f)(T), ld eps) {
    const T a = gen_angle<T>(g);
    g.note("angle", a);
    const T r = f(a);
    const ld pi = (T) PI;
    REQUIRE(std::isfinite(r), "result %g", (double) r);
    REQUIRE(std::fabs((ld) r) <= pi * (1 + 2 * eps), "angle %.17g result %.17g", (double) a, (double) r);
    if (8 * eps * std::fabs((ld) a) < 1) {
        const ld turns = ((ld) a - r) / TWO_PI;
        CLOSE((turns - roundl(turns)) * TWO_PI, 0, 4 * eps * std::fmax(std::fabs((ld) a), PI), "angle %.17g result %.17g", (double) a, (double) r);
    }
    if (std::fabs((ld) a) < pi * (1 - 2 * eps)) REQUIRE(r == a, "angle %.17g changed to %.17g", (double) a, (double) r);
    g.trivial(std::fabs((ld) a) < pi - 1e-6L);
    CLOSE(f(r) - r == 0 || std::fabs(std::fabs((ld) r) - pi) < 4 * eps, 1, 0, "not idempotent: %.17g -> %.17g -> %.17g", (double) a, (double) r, (double) f(r));
}

template <class T> void unsigned_law(Gen& g, T (*f)(T), ld eps) {
    const T a = gen_angle<T>(g);
    g.note("angle", a);
    const T r = f(a);
    const ld pi2 = (T) TWO_PI;
    REQUIRE(std::isfinite(r), "result %g", (double) r);
    REQUIRE(r >= 0 && (ld) r <= pi2, "angle %.17g result %.17g", (double) a, (double) r);
    if (8 * eps * std::fabs((ld) a) < 1) {
        const ld turns = ((ld) a - r) / TWO_PI;
        CLOSE((turns - roundl(turns)) * TWO_PI, 0, 4 * eps * std::fmax(std::fabs((ld) a), TWO_PI), "angle %.17g result %.17g", (double) a, (double) r);
    }
    if (a >= 0 && (ld) a < pi2 * (1 - 2 * eps)) REQUIRE(r == a, "angle %.17g changed to %.17g", (double) a, (double) r);
    g.trivial(a > (T) 1e-6 && (ld) a < pi2 - 1e-6L);
}

LAW(signed_double, 600000) { signed_law<double>(g, sla::drange, EPS); }
LAW(signed_single, 600000) { signed_law<float>(g, sla::range, FEPS); }
LAW(unsigned_double, 600000) { unsigned_law<double>(g, sla::dranrm, EPS); }
LAW(unsigned_single, 600000) { unsigned_law<float>(g, sla::ranorm, FEPS); }
