#include "prec_ref.h"
#include "slalib.h"
PROPERTY("C25", "rverot rvgalc rvlg rvlsrd rvlsrk", "the component is not zero")
using namespace ref;
/// axes of galactic coordinates in the J2000 equatorial frame
static const V GX{-0.054875539726L, -0.873437108010L, -0.483834985808L}, GY{0.494109453634L, -0.444829594298L, 0.746982248696L}, GZ{-0.867666135858L, -0.198076386122L, 0.455983795705L};
struct Fn { const char* name; float (*f)(const sla::Spherical<float>&); V motion; ld quoted; };
static const Fn FN[] = {
    {"galactic rotation", sla::rvgalc, 220 * GY, 1.2e-5L},
    {"Local Group", sla::rvlg, 300 * GY, 1.2e-5L},
    {"dynamical LSR", sla::rvlsrd, 9 * GX + 12 * GY + 7 * GZ, 2e-5L},
    {"kinematical LSR", sla::rvlsrk, V{0.29000L, -17.31726L, 10.00141L}, 1e-9L},
};
LAW(solar_motion, 1500000) {
    const Fn& f = FN[g.below(4)];
    const float a = g.anglef(g.chance(1, 6)? 40.f: 6.2831855f), b = g.chance(1, 20)? g.anglef(): g.latf();
    g.note("function", f.name); g.note("ra", a); g.note("dec", b);
    const float v = f.f(sla::Spherical<float>{a, b});
    const ld want = -dot(f.motion, dir(a, b)), tol = f.quoted + 3 * FEPS * norm(f.motion);
    CLOSE(v, want, tol, "%s", f.name);
    g.trivial(want == 0);
}
LAW(kinematical_apex, 20000) {
    // 20 km/s towards 18h +30 deg (1900): precess to J2000 and compare; E-terms and frame details are below 0.01 km/s
    const float a = g.anglef(), b = g.latf();
    g.note("ra", a); g.note("dec", b);
    const V apex = prec_matrix(newcomb(), 1900, 2000, nullptr) * dir(1.5L * PI, PI / 6);
    CLOSE(sla::rvlsrk(sla::Spherical<float>{a, b}), -20 * dot(apex, dir(a, b)), 0.002L, "20 km/s towards the apex");
}
LAW(earth_rotation, 1500000) {
    const float p = g.latf(), a = g.anglef(g.chance(1, 6)? 40.f: 6.2831855f), d = g.latf(), st = g.chance(1, 10)? a: g.chance(1, 10)? (float) (a + M_PI): g.anglef(g.chance(1, 6)? 40.f: 6.2831855f);
    g.note("latitude", p); g.note("ra", a); g.note("dec", d); g.note("sidereal time", st);
    const float v = sla::rverot(p, sla::Spherical<float>{a, d}, st);
    const ld ha = (ld) st - a, tol = 3 * FEPS + FEPS * fabsl(ha);
    CLOSE(v, 0.4655L * cosl(p) * sinl(ha) * cosl(d), 0.4655L * tol, "component");
    // the other side of the meridian has the opposite sign
    const float w = sla::rverot(p, sla::Spherical<float>{-a, d}, -st);
    CLOSE(w, -v, 0.4655L * tol, "mirrored component");
    // projection of the rigorous observer's velocity, to the documented accuracy
    if (std::fabs(st) < 10 && std::fabs(a) < 10) {
        sla::VectorPV<double> o;
        sla::pvobs(p, 1000, st, o);
        CLOSE(v, -149597870.0L * dot(V{o.get_dx(), o.get_dy(), o.get_dz()}, dir(a, d)), 0.001L, "observer's velocity");
    }
    g.trivial(v == 0);
}
