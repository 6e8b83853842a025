// Published precession angles (arcseconds) as tables of coefficients, rotation composed independently of the library.
#pragma once
#include "ref.h"
namespace ref {
struct PAng { ld zeta, z, theta; ld mag; };
typedef std::vector<std::vector<ld>> Poly2;   // [power of t][power of t0]
inline ld poly2(const Poly2& p, ld t0, ld t, ld& mag) {
    ld s = 0, tp = t;
    for (auto& row : p) { ld q = 0, qa = 0, w = 1; for (ld c : row) { q += c * w; qa += fabsl(c * w); w *= t0; } s += q * tp; mag += fabsl(qa * tp); tp *= t; }
    return s;
}
struct PModel { Poly2 zeta, z, theta; ld origin, unit; };
/// Lieske et al. 1977 (IAU 1976)
inline const PModel& iau76() {
    static const PModel m = {
        {{2306.2181L, 1.39656L, -0.000139L}, {0.30188L, -0.000344L}, {0.017998L}},
        {{2306.2181L, 1.39656L, -0.000139L}, {1.09468L, 0.000066L}, {0.018203L}},
        {{2004.3109L, -0.85330L, -0.000217L}, {-0.42665L, -0.000217L}, {-0.041833L}}, 2000, 100};
    return m;
}
/// Kinoshita 1975 (Bessel-Newcomb)
inline const PModel& newcomb() {
    static const PModel m = {
        {{2303.5548L, 1.39720L, 0.000059L}, {0.30242L, -0.000269L}, {0.017996L}},
        {{2303.5548L, 1.39720L, 0.000059L}, {1.09478L, 0.000387L}, {0.018324L}},
        {{2005.1125L, -0.85294L, -0.000365L}, {-0.42647L, -0.000365L}, {-0.041802L}}, 1850, 100};
    return m;
}
/// Simon et al. 1994
inline const PModel& simon94() {
    static const PModel m = {
        {{23060.9097L, 139.7459L, -0.0038L, -0.5918L, -0.0037L, 0.0007L}, {30.2226L, -0.2523L, -0.3840L, -0.0014L, 0.0007L}, {18.0183L, -0.1326L, 0.0006L, 0.0005L}, {-0.0583L, -0.0001L, 0.0007L}, {-0.0285L}, {-0.0002L}},
        {{23060.9097L, 139.7459L, -0.0038L, -0.5918L, -0.0037L, 0.0007L}, {109.5270L, 0.2446L, -1.3913L, -0.0134L, 0.0026L}, {18.2667L, -1.1400L, -0.0173L, 0.0044L}, {-0.2821L, -0.0093L, 0.0032L}, {-0.0301L, 0.0006L}, {-0.0001L}},
        {{20042.0207L, -85.3131L, -0.2111L, 0.3642L, 0.0008L, -0.0005L}, {-42.6566L, -0.2111L, 0.5463L, 0.0017L, -0.0012L}, {-41.8238L, 0.0359L, 0.0027L, -0.0001L}, {-0.0731L, 0.0019L, 0.0009L}, {-0.0127L, 0.0011L}, {0.0004L}}, 2000, 1000};
    return m;
}
inline PAng prec_angles(const PModel& m, ld ep0, ld ep1) {
    const ld t0 = (ep0 - m.origin) / m.unit, t = (ep1 - ep0) / m.unit;
    PAng a; a.mag = 0;
    a.zeta = poly2(m.zeta, t0, t, a.mag) * ARCSEC; a.z = poly2(m.z, t0, t, a.mag) * ARCSEC; a.theta = poly2(m.theta, t0, t, a.mag) * ARCSEC;
    a.mag *= ARCSEC;
    return a;
}
/// v(ep1) = M v(ep0); tol: rounding of a double-precision evaluation
inline M prec_matrix(const PModel& m, ld ep0, ld ep1, ld* tol = nullptr) {
    const PAng a = prec_angles(m, ep0, ep1);
    if (tol) *tol = 12 * EPS * (1 + a.mag);
    return rot(2, -a.z) * rot(1, a.theta) * rot(2, -a.zeta);
}
} // ref
