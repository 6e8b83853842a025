// Every public function, callable from a flat list of generated numbers, with heap buffers of exactly the documented size.
// Shared by C29 (history independence) and C30 (memory safety, finite results).
#pragma once
#include "engine.h"
#include "slalib.h"
#include <climits>
#include <memory>
#include <string>
namespace reg {

/// One call's environment: reads arguments in order, hands out buffers, collects every documented result.
struct Ctx {
    const std::vector<double>& a;
    size_t pos = 0;
    uint64_t fill;                       ///< seed of the previous contents of outputs
    std::vector<uint64_t> out;           ///< bit patterns of all results
    bool finite = true;
    std::string why;
    struct Buf { void* p; size_t bytes; const void* orig; void (*del)(void*); };
    std::vector<Buf> bufs;
    explicit Ctx(const std::vector<double>& args, uint64_t f): a(args), fill(f) {}
    Ctx(const Ctx&) = delete;
    ~Ctx() { for (auto& b: bufs) { b.del(b.p); ::operator delete((void*) b.orig); } }

    template <class T> static T clean(uint64_t r) {
        if constexpr (std::is_floating_point<T>::value) { static const T v[] = {(T) 0, (T) 1, (T) -7.5, (T) 1e30, (T) -1e-30, std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity()}; return v[r % 7]; }
        else if constexpr (std::is_same<T, bool>::value) return r & 1;
        else return (T) (r * 2654435761u);
    }
    double next() { return pos < a.size()? a[pos++]: 0; }
    double d() { return next(); }
    float f() { return (float) next(); }
    int i() { return (int) next(); }
    template <class T> T* raw(size_t n, bool keep) {
        T* p = new T[n];
        void* o = nullptr;
        if (keep) o = ::operator new(sizeof(T) * (n? n: 1));
        bufs.push_back({p, sizeof(T) * n, o, [](void* q) { delete[] (T*) q; }});
        return p;
    }
    /// input array: must come back unchanged
    template <class T> T* in(size_t n) {
        T* p = raw<T>(n, true);
        for (size_t k = 0; k < n; k++) p[k] = (T) next();
        std::memcpy((void*) bufs.back().orig, p, sizeof(T) * n);
        return p;
    }
    /// array that is both read and written
    template <class T> T* io(size_t n) { T* p = raw<T>(n, false); for (size_t k = 0; k < n; k++) p[k] = (T) next(); return p; }
    /// output array, holding something arbitrary before
    template <class T> T* o(size_t n = 1) { T* p = raw<T>(n, false); for (size_t k = 0; k < n; k++) p[k] = clean<T>(pbt::splitmix(fill)); return p; }
    template <class S, class T> S& ins() { return *(S*) in<T>(sizeof(S) / sizeof(T)); }
    template <class S, class T> S& ios() { return *(S*) io<T>(sizeof(S) / sizeof(T)); }
    template <class S, class T> S& os() { return *(S*) o<T>(sizeof(S) / sizeof(T)); }

    void put(double v) { uint64_t u; std::memcpy(&u, &v, 8); out.push_back(v == 0? (v == 0 && std::signbit(v)? u: 0): u); if (!std::isfinite(v)) { finite = false; why = pbt::fmt("result %zu is %g", out.size() - 1, v); } }
    void put(float v) { put((double) v); }
    void put(int v) { out.push_back((uint64_t) (int64_t) v); }
    void put(bool v) { out.push_back(v); }
    void put(const char* s) { uint64_t h = 14695981039346656037ull; for (; s && *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull; out.push_back(h); }
    template <class T> void puts(const T* p, size_t n) { for (size_t k = 0; k < n; k++) put(p[k]); }
    template <class S> void pets(const S& s, size_t n) { puts((const double*) &s, n); }
    bool inputs_intact() const { for (auto& b: bufs) if (b.orig && std::memcmp(b.p, b.orig, b.bytes)) return false; return true; }
};
struct Fn { const char* name; void (*gen)(Gen&, std::vector<double>&); void (*run)(Ctx&); };

typedef std::vector<double> Args;
// ---- generators of argument values inside the documented domains
inline double any(Gen& g) { return g.chance(1, 3)? g.uniform(-10, 10): g.chance(1, 8)? 0: g.chance(1, 2)? g.logmag(-60, 60): (double) g.irange(-5, 5); }
inline float anyf(Gen& g) { return g.chance(1, 3)? (float) g.uniform(-10, 10): g.chance(1, 8)? 0: g.chance(1, 2)? (float) g.logmag(-12, 12): (float) g.irange(-5, 5); }
inline double ang(Gen& g) { return g.chance(1, 8)? g.angle(1000): g.angle(6.2831853); }
inline float angf(Gen& g) { return g.chance(1, 8)? g.anglef(1000): g.anglef(); }
inline double dec(Gen& g) { return g.lat(); }
inline float decf(Gen& g) { return g.latf(); }
inline double mjd(Gen& g) { return g.chance(1, 6)? g.real(-700000, 1000000, {51544.5, 0, 15019.5}): g.real(15000, 90000, {51544.5, 51544, 33281.9, 41317, 40000, 60000}); }
inline double year(Gen& g) { return g.chance(1, 6)? g.uniform(-4000, 6000): g.real(1800, 2200, {1900, 1950, 2000, 1984, 1875}); }
inline void vec(Gen& g, Args& a) {
    switch (g.below(5)) {
        case 0: { for (int k = 0; k < 3; k++) a.push_back(any(g)); break; }
        case 1: { const double s = g.chance(1, 2)? 1: -1; const int w = (int) g.below(3); for (int k = 0; k < 3; k++) a.push_back(k == w? s: 0); break; }
        case 2: { for (int k = 0; k < 3; k++) a.push_back(g.chance(1, 2)? 0: g.irange(-3, 3)); break; }
        default: { const double l = g.angle(), b = g.lat(); a.push_back(std::cos(l) * std::cos(b)); a.push_back(std::sin(l) * std::cos(b)); a.push_back(std::sin(b)); }
    }
}
inline void vecf(Gen& g, Args& a) {
    if (g.chance(1, 4)) { for (int k = 0; k < 3; k++) a.push_back(anyf(g)); return; }
    const size_t n = a.size();
    do { a.resize(n); vec(g, a); } while (false);
    for (int k = 0; k < 3; k++) { double& x = a[n + k]; if (std::fabs(x) > 1e12) x = std::copysign(1e12, x); if (x != 0 && std::fabs(x) < 1e-12) x = std::copysign(1e-12, x); x = (float) x; }
}
inline void unit(Gen& g, Args& a) { const double l = g.angle(), b = g.lat(); a.push_back(std::cos(l) * std::cos(b)); a.push_back(std::sin(l) * std::cos(b)); a.push_back(std::sin(b)); }
inline void sph(Gen& g, Args& a) { a.push_back(ang(g)); a.push_back(dec(g)); }
inline void sphf(Gen& g, Args& a) { a.push_back(angf(g)); a.push_back(decf(g)); }
inline void mat(Gen& g, Args& a) { for (int k = 0; k < 9; k++) a.push_back(g.chance(1, 4)? 0: g.uniform(-2, 2)); }
inline void rotm(Gen& g, Args& a) {
    // rotation matrix from Euler angles, right-handed
    const double x = g.angle(), y = g.angle(), z = g.angle();
    const double cx = std::cos(x), sx = std::sin(x), cy = std::cos(y), sy = std::sin(y), cz = std::cos(z), sz = std::sin(z);
    for (double v: {cz * cy, cz * sy * sx + sz * cx, -cz * sy * cx + sz * sx, -sz * cy, -sz * sy * sx + cz * cx, sz * sy * cx + cz * sx, sy, -cy * sx, cy * cx}) a.push_back(v);
}
inline void calendar(Gen& g, Args& a) {
    a.push_back(g.chance(1, 5)? g.integer(-6000, INT_MAX, {-4699, -4700, -4711, -4712, 0, 49, 50, 99, 100, INT_MAX, 1900, 2000}): g.irange(-4800, 5000));
    a.push_back(g.integer(-2, 15, {1, 2, 12, 0, 13})); a.push_back(g.integer(-2, 34, {1, 28, 29, 30, 31, 0, 32}));
}
inline void triple(Gen& g, Args& a, bool flt) {
    a.push_back(g.chance(1, 5)? g.integer(-100000, 100000, {-1, 24, 360, 0}): g.integer(0, 23, {0, 23})); a.push_back(g.chance(1, 5)? g.irange(-1000, 1000): g.irange(0, 59));
    const double s = g.chance(1, 5)? g.uniform(-1000, 1000): g.real(0, 60, {0, 60, 59.999999});
    a.push_back(flt? (double) (float) s: s);
}
inline void air(Gen& g, Args& a) {   // height, temperature, pressure, humidity, wavelength, latitude, lapse rate, precision: ordinary sites
    const double h = g.real(-200, 6000, {0, 2500}), t = 288 - 0.0065 * h + g.uniform(-25, 25), p = 1013.25 * std::exp(-h / (29.3 * (t - 3))) * g.uniform(0.92, 1.04);
    for (double v: {h, t, g.chance(1, 10)? 0: p, g.real(0, 1, {0, 1, 0.5}), g.chance(1, 4)? g.real(90, 1e4, {100, 101}): g.real(0.3, 2.5, {0.55}), g.lat(), g.real(0.005, 0.0085, {0.0065}), g.pick({1e-8, 1e-8, 1e-9, 1e-10})}) a.push_back(v);
}
inline void pv(Gen& g, Args& a) { vec(g, a); vec(g, a); }
inline void pvf(Gen& g, Args& a) { vecf(g, a); vecf(g, a); }
inline void spv(Gen& g, Args& a) { sph(g, a); a.push_back(g.chance(1, 4)? any(g): g.uniform(0, 10)); for (int k = 0; k < 3; k++) a.push_back(g.chance(1, 4)? 0: g.uniform(-3, 3)); }
inline void model(Gen& g, Args& a) { for (int k = 0; k < 6; k++) a.push_back(k % 3 == 0? g.uniform(-50, 50): g.chance(1, 12)? 0: g.uniform(-3, 3)); }
inline double frac(Gen& g) { return (double) g.realf(0, 1, {0, 0.5, 0.25}); }

// ---- shorthand
using sla::Spherical; using sla::VectorPV; using sla::SphericalPV; using sla::Matrix;
typedef Spherical<double> SD; typedef Spherical<float> SF;
typedef const double (*CMD2)[2]; typedef double (*MD2)[2]; typedef const double (*CMD)[3]; typedef const float (*CMF)[3]; typedef double (*MD)[3]; typedef float (*MF)[3];
#define SLA_IN_SD c.ins<SD, double>()
#define SLA_IN_SF c.ins<SF, float>()
#define SLA_OUT_SD SD& o = c.os<SD, double>()
#define SLA_OUT_SF SF& o = c.os<SF, float>()
inline void putsd(Ctx& c, const SD& s) { c.put(s.s_a); c.put(s.s_b); }
inline void putsf(Ctx& c, const SF& s) { c.put(s.s_a); c.put(s.s_b); }
template <class T> void putpv(Ctx& c, const VectorPV<T>& v) { c.put(v.get_x()); c.put(v.get_y()); c.put(v.get_z()); c.put(v.get_dx()); c.put(v.get_dy()); c.put(v.get_dz()); }
template <class T> void putspv(Ctx& c, const SphericalPV<T>& v) { c.put(v.get_longitude()); c.put(v.get_latitude()); c.put(v.get_dist()); c.put(v.get_dlong()); c.put(v.get_dlat()); c.put(v.get_ddist()); }
inline void putcr(Ctx& c, const sla::ConversionResult& r) { c.put(r.get_hours()); c.put(r.get_minutes()); c.put(r.get_seconds()); c.put(r.get_fraction()); c.put((int) r.get_sign()); }
#define GEN [](Gen& g, Args& a)
#define RUN [](Ctx& c)
inline sla::ConversionResult& crout(Ctx& c) {
    int* p = c.o<int>(5);
    auto& r = *(sla::ConversionResult*) p;
    r.set_sign(c.fill % 2 == 0);
    return r;
}
inline const char* ORDERS[] = {"XYZ", "ZYZ", "", "x", "zxz", "ZYX", "321", "X", "YY", "1", "ZQX", "yxz"};

/// random singular value problem: m, n, mp, np, then the matrix
inline void svd_args(Gen& g, Args& a) {
    const int n = 1 + (int) g.below(6), m = n + (int) g.below(5), mp = m + (int) g.below(3), np = n + (int) g.below(3);
    a = {(double) m, (double) n, (double) mp, (double) np};
    const int kind = (int) g.below(4);
    for (int k = 0; k < mp * np; k++) a.push_back(kind == 0? g.irange(-3, 3): kind == 1? g.uniform(-1, 1): kind == 2 && (k % np) == 0? 0: g.uniform(-10, 10));
}
inline const Fn FUNCTIONS[] = {
{"airmas", GEN { a = {g.chance(1, 4)? g.angle(7): g.real(-1.6, 1.6, {0, 1.52, 1.5707963})}; }, RUN { c.put(sla::airmas(c.d())); }},
{"range", GEN { a = {g.chance(1, 6)? (float) g.logmag(-30, 30): angf(g)}; }, RUN { c.put(sla::range(c.f())); }},
{"drange", GEN { a = {g.chance(1, 6)? g.logmag(-300, 300): ang(g)}; }, RUN { c.put(sla::drange(c.d())); }},
{"ranorm", GEN { a = {g.chance(1, 6)? (float) g.logmag(-30, 30): angf(g)}; }, RUN { c.put(sla::ranorm(c.f())); }},
{"dranrm", GEN { a = {g.chance(1, 6)? g.logmag(-300, 300): ang(g)}; }, RUN { c.put(sla::dranrm(c.d())); }},
{"av2m", GEN { a.clear(); for (int k = 0; k < 3; k++) a.push_back(g.chance(1, 5)? 0: (float) g.uniform(-4, 4)); }, RUN { auto i = c.in<float>(3); auto o = c.o<float>(9); sla::av2m(i, (MF) o); c.puts(o, 9); }},
{"dav2m", GEN { a.clear(); for (int k = 0; k < 3; k++) a.push_back(g.chance(1, 5)? 0: g.uniform(-4, 4)); }, RUN { auto i = c.in<double>(3); auto o = c.o<double>(9); sla::dav2m(i, (MD) o); c.puts(o, 9); }},
{"cc2s", GEN { a.clear(); vecf(g, a); }, RUN { auto i = c.in<float>(3); SLA_OUT_SF; sla::cc2s(i, o); putsf(c, o); }},
{"dcc2s", GEN { a.clear(); vec(g, a); }, RUN { auto i = c.in<double>(3); SLA_OUT_SD; sla::dcc2s(i, o); putsd(c, o); }},
{"cs2c", GEN { a.clear(); sphf(g, a); }, RUN { auto& i = SLA_IN_SF; auto o = c.o<float>(3); sla::cs2c(i, o); c.puts(o, 3); }},
{"dcs2c", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; auto o = c.o<double>(3); sla::dcs2c(i, o); c.puts(o, 3); }},
{"euler", GEN { a = {(double) g.below(12), angf(g), angf(g), angf(g)}; }, RUN { const char* s = ORDERS[c.i() % 12]; const float p = c.f(), t = c.f(), q = c.f(); auto o = c.o<float>(9); sla::euler(s, p, t, q, (MF) o); c.puts(o, 9); }},
{"deuler", GEN { a = {(double) g.below(12), ang(g), ang(g), ang(g)}; }, RUN { const char* s = ORDERS[c.i() % 12]; const double p = c.d(), t = c.d(), q = c.d(); auto o = c.o<double>(9); sla::deuler(s, p, t, q, (MD) o); c.puts(o, 9); }},
{"imxv", GEN { a.clear(); mat(g, a); vecf(g, a); }, RUN { auto m = c.in<float>(9); auto v = c.in<float>(3); auto o = c.o<float>(3); sla::imxv((CMF) m, v, o); c.puts(o, 3); }},
{"dimxv", GEN { a.clear(); mat(g, a); vec(g, a); }, RUN { auto m = c.in<double>(9); auto v = c.in<double>(3); auto o = c.o<double>(3); sla::dimxv((CMD) m, v, o); c.puts(o, 3); }},
{"m2av", GEN { a.clear(); rotm(g, a); }, RUN { auto m = c.in<float>(9); auto o = c.o<float>(3); sla::m2av((CMF) m, o); c.puts(o, 3); }},
{"dm2av", GEN { a.clear(); rotm(g, a); }, RUN { auto m = c.in<double>(9); auto o = c.o<double>(3); sla::dm2av((CMD) m, o); c.puts(o, 3); }},
{"mxm", GEN { a.clear(); mat(g, a); mat(g, a); }, RUN { auto m = c.in<float>(9), n = c.in<float>(9); auto o = c.o<float>(9); sla::mxm((CMF) m, (CMF) n, (MF) o); c.puts(o, 9); }},
{"dmxm", GEN { a.clear(); mat(g, a); mat(g, a); }, RUN { auto m = c.in<double>(9), n = c.in<double>(9); auto o = c.o<double>(9); sla::dmxm((CMD) m, (CMD) n, (MD) o); c.puts(o, 9); }},
{"mxv", GEN { a.clear(); mat(g, a); vecf(g, a); }, RUN { auto m = c.in<float>(9); auto v = c.in<float>(3); auto o = c.o<float>(3); sla::mxv((CMF) m, v, o); c.puts(o, 3); }},
{"dmxv", GEN { a.clear(); mat(g, a); vec(g, a); }, RUN { auto m = c.in<double>(9); auto v = c.in<double>(3); auto o = c.o<double>(3); sla::dmxv((CMD) m, v, o); c.puts(o, 3); }},
{"vdv", GEN { a.clear(); vecf(g, a); vecf(g, a); }, RUN { auto p = c.in<float>(3), q = c.in<float>(3); c.put(sla::vdv(p, q)); }},
{"dvdv", GEN { a.clear(); vec(g, a); vec(g, a); }, RUN { auto p = c.in<double>(3), q = c.in<double>(3); c.put(sla::dvdv(p, q)); }},
{"vn", GEN { a.clear(); vecf(g, a); }, RUN { auto p = c.in<float>(3); auto o = c.o<float>(3); c.put(sla::vn(p, o)); c.puts(o, 3); }},
{"dvn", GEN { a.clear(); vec(g, a); }, RUN { auto p = c.in<double>(3); auto o = c.o<double>(3); c.put(sla::dvn(p, o)); c.puts(o, 3); }},
{"vxv", GEN { a.clear(); vecf(g, a); vecf(g, a); }, RUN { auto p = c.in<float>(3), q = c.in<float>(3); auto o = c.o<float>(3); sla::vxv(p, q, o); c.puts(o, 3); }},
{"dvxv", GEN { a.clear(); vec(g, a); vec(g, a); }, RUN { auto p = c.in<double>(3), q = c.in<double>(3); auto o = c.o<double>(3); sla::dvxv(p, q, o); c.puts(o, 3); }},
{"zd", GEN { a.clear(); sph(g, a); a.push_back(dec(g)); }, RUN { auto& s = SLA_IN_SD; c.put(sla::zd(s, c.d())); }},
{"pa", GEN { a.clear(); sph(g, a); a.push_back(dec(g)); }, RUN { auto& s = SLA_IN_SD; c.put(sla::pa(s, c.d())); }},
{"bear", GEN { a.clear(); sphf(g, a); sphf(g, a); if (g.chance(1, 6)) { a[2] = a[0]; a[3] = a[1]; } }, RUN { auto& p = SLA_IN_SF; auto& q = SLA_IN_SF; c.put(sla::bear(p, q)); }},
{"dbear", GEN { a.clear(); sph(g, a); sph(g, a); if (g.chance(1, 6)) { a[2] = a[0]; a[3] = a[1]; } }, RUN { auto& p = SLA_IN_SD; auto& q = SLA_IN_SD; c.put(sla::dbear(p, q)); }},
{"pav", GEN { a.clear(); vecf(g, a); vecf(g, a); if (g.chance(1, 6)) for (int k = 0; k < 3; k++) a[3 + k] = a[k]; }, RUN { auto p = c.in<float>(3), q = c.in<float>(3); c.put(sla::pav(p, q)); }},
{"dpav", GEN { a.clear(); vec(g, a); vec(g, a); if (g.chance(1, 6)) for (int k = 0; k < 3; k++) a[3 + k] = a[k]; }, RUN { auto p = c.in<double>(3), q = c.in<double>(3); c.put(sla::dpav(p, q)); }},
{"e2h", GEN { a.clear(); sphf(g, a); a.push_back(decf(g)); }, RUN { auto& s = SLA_IN_SF; const float p = c.f(); auto x = c.o<float>(), y = c.o<float>(); sla::e2h(s, p, *x, *y); c.put(*x); c.put(*y); }},
{"de2h", GEN { a.clear(); sph(g, a); a.push_back(dec(g)); }, RUN { auto& s = SLA_IN_SD; const double p = c.d(); auto x = c.o<double>(), y = c.o<double>(); sla::de2h(s, p, *x, *y); c.put(*x); c.put(*y); }},
{"h2e", GEN { a = {angf(g), decf(g), decf(g)}; }, RUN { const float x = c.f(), y = c.f(), p = c.f(); SLA_OUT_SF; sla::h2e(x, y, p, o); putsf(c, o); }},
{"dh2e", GEN { a = {ang(g), dec(g), dec(g)}; }, RUN { const double x = c.d(), y = c.d(), p = c.d(); SLA_OUT_SD; sla::dh2e(x, y, p, o); putsd(c, o); }},
{"caf2r", GEN { a.clear(); triple(g, a, true); }, RUN { const int x = c.i(), y = c.i(); const float s = c.f(); auto o = c.o<float>(); c.put((int) sla::caf2r(x, y, s, *o)); c.put(*o); }},
{"daf2r", GEN { a.clear(); triple(g, a, false); }, RUN { const int x = c.i(), y = c.i(); const double s = c.d(); auto o = c.o<double>(); c.put((int) sla::daf2r(x, y, s, *o)); c.put(*o); }},
{"ctf2d", GEN { a.clear(); triple(g, a, true); }, RUN { const int x = c.i(), y = c.i(); const float s = c.f(); auto o = c.o<float>(); c.put((int) sla::ctf2d(x, y, s, *o)); c.put(*o); }},
{"dtf2d", GEN { a.clear(); triple(g, a, false); }, RUN { const int x = c.i(), y = c.i(); const double s = c.d(); auto o = c.o<double>(); c.put((int) sla::dtf2d(x, y, s, *o)); c.put(*o); }},
{"ctf2r", GEN { a.clear(); triple(g, a, true); }, RUN { const int x = c.i(), y = c.i(); const float s = c.f(); auto o = c.o<float>(); c.put((int) sla::ctf2r(x, y, s, *o)); c.put(*o); }},
{"dtf2r", GEN { a.clear(); triple(g, a, false); }, RUN { const int x = c.i(), y = c.i(); const double s = c.d(); auto o = c.o<double>(); c.put((int) sla::dtf2r(x, y, s, *o)); c.put(*o); }},
{"cldj", GEN { a.clear(); calendar(g, a); }, RUN { const int y = c.i(), m = c.i(), d = c.i(); auto o = c.o<double>(); const int s = sla::cldj(y, m, d, *o); c.put(s); if (s == sla::G2J_OK || s == sla::G2J_BAD_DAY) c.put(*o); }},
{"caldj", GEN { a.clear(); calendar(g, a); }, RUN { const int y = c.i(), m = c.i(), d = c.i(); auto o = c.o<double>(); const int s = sla::caldj(y, m, d, *o); c.put(s); if (s == sla::G2J_OK || s == sla::G2J_BAD_DAY) c.put(*o); }},
{"clyd", GEN { a.clear(); calendar(g, a); }, RUN { const int y = c.i(), m = c.i(), d = c.i(); auto p = c.o<int>(), q = c.o<int>(); const int s = sla::clyd(y, m, d, *p, *q); c.put(s); if (s == sla::G2J_OK || s == sla::G2J_BAD_DAY) { c.put(*p); c.put(*q); } }},
{"calyd", GEN { a.clear(); calendar(g, a); }, RUN { const int y = c.i(), m = c.i(), d = c.i(); auto p = c.o<int>(), q = c.o<int>(); const int s = sla::calyd(y, m, d, *p, *q); c.put(s); if (s == sla::G2J_OK || s == sla::G2J_BAD_DAY) { c.put(*p); c.put(*q); } }},
{"process_year_defaults", GEN { a = {(double) g.integer(-5000, INT_MAX, {0, 49, 50, 99, 100, -1})}; }, RUN { c.put(sla::process_year_defaults(c.i())); }},
{"validate_gregorian_day", GEN { a = {(double) g.integer(-4711, INT_MAX, {1900, 2000, 4, 100, INT_MAX}), (double) g.integer(1, 12), (double) g.integer(-1, 33, {0, 28, 29, 30, 31, 32})}; }, RUN { const int y = c.i(), m = c.i(), d = c.i(); c.put((int) sla::validate_gregorian_day(y, m, d)); }},
{"djcal", GEN { a = {(double) g.irange(-2, 9), g.chance(1, 5)? g.real(-3e6, 1.1e9, {-2395520, 1e9}): mjd(g)}; }, RUN { const int n = c.i(); const double m = c.d(); auto o = (sla::Date*) c.o<double>(sizeof(sla::Date) / sizeof(double)); const bool b = sla::djcal(n, m, *o); c.put(b); if (!b) { c.put(o->d_year); c.put(o->d_month); c.put(o->d_day); c.put(o->d_ifraction); } }},
{"djcl", GEN { a = {g.chance(1, 5)? g.real(-3e6, 1.1e9, {-2395520, 1e9}): mjd(g)}; }, RUN { const double m = c.d(); auto o = (sla::Date*) c.o<double>(sizeof(sla::Date) / sizeof(double)); const bool b = sla::djcl(m, *o); c.put(b); if (!b) { c.put(o->d_year); c.put(o->d_month); c.put(o->d_day); c.put(o->d_fraction); } }},
{"cd2tf", GEN { a = {(double) g.irange(-2, 6), (float) g.uniform(-3, 3)}; }, RUN { const int n = c.i(); const float v = c.f(); auto& o = crout(c); sla::cd2tf(n, v, o); putcr(c, o); }},
{"dd2tf", GEN { a = {(double) g.irange(-2, 9), g.chance(1, 8)? g.uniform(-8e7, 8e7): g.real(-2, 2, {0, 0.5, 1, -1})}; }, RUN { const int n = c.i(); const double v = c.d(); auto& o = crout(c); sla::dd2tf(n, v, o); putcr(c, o); }},
{"cr2af", GEN { a = {(double) g.irange(-2, 6), (float) g.angle(20)}; }, RUN { const int n = c.i(); const float v = c.f(); auto& o = crout(c); sla::cr2af(n, v, o); putcr(c, o); }},
{"dr2af", GEN { a = {(double) g.irange(-2, 9), g.angle(20)}; }, RUN { const int n = c.i(); const double v = c.d(); auto& o = crout(c); sla::dr2af(n, v, o); putcr(c, o); }},
{"cr2tf", GEN { a = {(double) g.irange(-2, 6), (float) g.angle(20)}; }, RUN { const int n = c.i(); const float v = c.f(); auto& o = crout(c); sla::cr2tf(n, v, o); putcr(c, o); }},
{"dr2tf", GEN { a = {(double) g.irange(-2, 9), g.angle(20)}; }, RUN { const int n = c.i(); const double v = c.d(); auto& o = crout(c); sla::dr2tf(n, v, o); putcr(c, o); }},
{"dat", GEN { a = {mjd(g)}; }, RUN { c.put(sla::dat(c.d())); }},
{"dt", GEN { a = {g.real(-4000, 6000, {979, 1708, 1800, 2000, 948, 1600})}; }, RUN { c.put(sla::dt(c.d())); }},
{"dtt", GEN { a = {mjd(g)}; }, RUN { c.put(sla::dtt(c.d())); }},
{"rcc", GEN { a = {mjd(g), g.u01(), g.angle(), g.uniform(0, 6400), g.uniform(-6400, 6400)}; }, RUN { const double t = c.d(), u = c.d(), l = c.d(), p = c.d(), q = c.d(); c.put(sla::rcc(t, u, l, p, q)); }},
{"gmst", GEN { a = {mjd(g)}; }, RUN { c.put(sla::gmst(c.d())); }},
{"gmsta", GEN { a = {mjd(g), g.real(-1, 1, {0, 0.5})}; }, RUN { const double p = c.d(), q = c.d(); c.put(sla::gmsta(p, q)); }},
{"atmdsp", GEN { a = {g.uniform(240, 310), g.uniform(500, 1050), g.u01(), 0.4, g.uniform(2e-4, 3e-4), -g.uniform(2e-7, 4e-7), g.chance(1, 4)? g.real(90, 1e4, {100}): g.uniform(0.3, 2.5)}; }, RUN { const double t = c.d(), p = c.d(), r = c.d(), w = c.d(), x = c.d(), y = c.d(), v = c.d(); auto o = c.o<double>(), q = c.o<double>(); sla::atmdsp(t, p, r, w, x, y, v, *o, *q); c.put(*o); c.put(*q); }},
{"refcoq", GEN { Args b; air(g, b); a = {b[1], b[2], b[3], b[4]}; }, RUN { const double t = c.d(), p = c.d(), r = c.d(), w = c.d(); auto o = c.o<double>(), q = c.o<double>(); sla::refcoq(t, p, r, w, *o, *q); c.put(*o); c.put(*q); }},
{"refro", GEN { Args b; air(g, b); a = {g.chance(1, 4)? g.angle(1.6231): g.real(-1.55, 1.55, {0, 1.325817663668033})}; a.insert(a.end(), b.begin(), b.end()); }, RUN { double v[9]; for (double& x: v) x = c.d(); c.put(sla::refro(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8])); }},
{"refco", GEN { a.clear(); air(g, a); }, RUN { double v[8]; for (double& x: v) x = c.d(); auto o = c.o<double>(), q = c.o<double>(); sla::refco(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], *o, *q); c.put(*o); c.put(*q); }},
{"refv", GEN { a.clear(); unit(g, a); a.push_back(g.uniform(1e-4, 3e-4)); a.push_back(-g.uniform(1e-7, 3.5e-7)); }, RUN { auto v = c.in<double>(3); const double p = c.d(), q = c.d(); auto o = c.o<double>(3); sla::refv(v, p, q, o); c.puts(o, 3); }},
{"refz", GEN { a = {g.real(-1.7, 1.7, {0, 1.4486, 1.5707963267948966}), g.uniform(1e-4, 3e-4), -g.uniform(1e-7, 3.5e-7)}; }, RUN { const double z = c.d(), p = c.d(), q = c.d(); c.put(sla::refz(z, p, q)); }},
{"ecmat", GEN { a = {mjd(g)}; }, RUN { const double d = c.d(); auto o = c.o<double>(9); sla::ecmat(d, (MD) o); c.puts(o, 9); }},
{"dmat", GEN { const int n = 1 + (int) g.below(7); a = {(double) n}; const bool sing = g.chance(1, 8); for (int k = 0; k < n * n + n; k++) a.push_back(sing && k < n? 0: g.chance(1, 6)? 0: g.uniform(-5, 5)); }, RUN { const int n = c.i(); auto m = c.io<double>(n * n), v = c.io<double>(n), d = c.o<double>(); auto w = c.o<int>(n); const bool s = sla::dmat(n, m, v, *d, w); c.put(s); c.put(*d); if (!s) { c.puts(m, n * n); c.puts(v, n); } }},
{"smat", GEN { const int n = 1 + (int) g.below(7); a = {(double) n}; const bool sing = g.chance(1, 8); for (int k = 0; k < n * n + n; k++) a.push_back(sing && k < n? 0: g.chance(1, 6)? 0: (float) g.uniform(-5, 5)); }, RUN { const int n = c.i(); auto m = c.io<float>(n * n), v = c.io<float>(n), d = c.o<float>(); auto w = c.o<int>(n); const bool s = sla::smat(n, m, v, *d, w); c.put(s); c.put(*d); if (!s) { c.puts(m, n * n); c.puts(v, n); } }},
{"svd", svd_args, RUN { const int m = c.i(), n = c.i(), mp = c.i(), np = c.i(); auto x = c.io<double>(mp * np), w = c.o<double>(np), v = c.o<double>(np * np), ws = c.o<double>(np); const int s = sla::svd(m, n, mp, np, x, w, v, ws); c.put(s); for (int r = 0; r < m; r++) c.puts(x + r * np, n); c.puts(w, n); for (int r = 0; r < n; r++) c.puts(v + r * np, n); }},
{"svdsol", GEN { svd_args(g, a); const int m = a[0], n = a[1], np = a[3]; for (int k = 0; k < m; k++) a.push_back(g.uniform(-5, 5)); for (int k = 0; k < n; k++) a.push_back(g.chance(1, 4)? 0: g.uniform(0.1, 9)); for (int k = 0; k < np * np; k++) a.push_back(g.uniform(-1, 1)); },
    RUN { const int m = c.i(), n = c.i(), mp = c.i(), np = c.i(); auto u = c.in<double>(mp * np), b = c.in<double>(m), w = c.in<double>(n), v = c.in<double>(np * np); auto ws = c.o<double>(n), x = c.o<double>(n); sla::svdsol(m, n, mp, np, b, u, w, v, ws, x); c.puts(x, n); }},
{"svdcov", GEN { const int n = 1 + (int) g.below(6), np = n + (int) g.below(3), nc = n + (int) g.below(3); a = {(double) n, (double) np, (double) nc}; for (int k = 0; k < n; k++) a.push_back(g.chance(1, 4)? 0: g.uniform(0.1, 9)); for (int k = 0; k < np * np; k++) a.push_back(g.uniform(-1, 1)); },
    RUN { const int n = c.i(), np = c.i(), nc = c.i(); auto w = c.in<double>(n), v = c.in<double>(np * np); auto ws = c.o<double>(n), o = c.o<double>(nc * nc); sla::svdcov(n, np, nc, w, v, ws, o); for (int r = 0; r < n; r++) c.puts(o + r * nc, n); }},
{"altaz", GEN { a.clear(); sph(g, a); a.push_back(dec(g)); }, RUN { auto& s = SLA_IN_SD; const double p = c.d(); auto& o = c.os<sla::AltazMount, double>(); sla::altaz(s, p, o);
    for (double v: {o.get_azimuth(), o.get_az_velocity(), o.get_az_acceleration(), o.get_elevation(), o.get_el_velocity(), o.get_el_acceleration(), o.get_pangle(), o.get_pa_velocity(), o.get_pa_acceleration()}) c.put(v); }},
{"nutc", GEN { a = {mjd(g)}; }, RUN { const double d = c.d(); auto x = c.o<double>(), y = c.o<double>(), z = c.o<double>(); sla::nutc(d, *x, *y, *z); c.put(*x); c.put(*y); c.put(*z); }},
{"nutc80", GEN { a = {mjd(g)}; }, RUN { const double d = c.d(); auto x = c.o<double>(), y = c.o<double>(), z = c.o<double>(); sla::nutc80(d, *x, *y, *z); c.put(*x); c.put(*y); c.put(*z); }},
{"nut", GEN { a = {mjd(g)}; }, RUN { const double d = c.d(); auto o = c.o<double>(9); sla::nut(d, (MD) o); c.puts(o, 9); }},
{"epj2d", GEN { a = {year(g)}; }, RUN { c.put(sla::epj2d(c.d())); }},
{"epj", GEN { a = {mjd(g)}; }, RUN { c.put(sla::epj(c.d())); }},
{"epb2d", GEN { a = {year(g)}; }, RUN { c.put(sla::epb2d(c.d())); }},
{"epb", GEN { a = {mjd(g)}; }, RUN { c.put(sla::epb(c.d())); }},
{"epco", GEN { a = {(double) "BbJj"[g.below(4)], (double) "BbJj"[g.below(4)], year(g)}; }, RUN { const char p = (char) c.i(), q = (char) c.i(); c.put(sla::epco(p, q, c.d())); }},
{"prec", GEN { a = {year(g), year(g)}; }, RUN { const double p = c.d(), q = c.d(); auto o = c.o<double>(9); sla::prec(p, q, (MD) o); c.puts(o, 9); }},
{"precl", GEN { a = {year(g), year(g)}; }, RUN { const double p = c.d(), q = c.d(); auto o = c.o<double>(9); sla::precl(p, q, (MD) o); c.puts(o, 9); }},
{"prenut", GEN { a = {year(g), mjd(g)}; }, RUN { const double p = c.d(), q = c.d(); auto o = c.o<double>(9); sla::prenut(p, q, (MD) o); c.puts(o, 9); }},
{"prebn", GEN { a = {year(g), year(g)}; }, RUN { const double p = c.d(), q = c.d(); auto o = c.o<double>(9); sla::prebn(p, q, (MD) o); c.puts(o, 9); }},
{"preces", GEN { a = {(double) g.below(2), year(g), year(g)}; sph(g, a); }, RUN { const auto s = c.i()? sla::CAT_FK5: sla::CAT_FK4; const double p = c.d(), q = c.d(); auto& o = c.ios<SD, double>(); sla::preces(s, p, q, o); putsd(c, o); }},
{"dsepv", GEN { a.clear(); vec(g, a); vec(g, a); }, RUN { auto p = c.in<double>(3), q = c.in<double>(3); c.put(sla::dsepv(p, q)); }},
{"sepv", GEN { a.clear(); vecf(g, a); vecf(g, a); }, RUN { auto p = c.in<float>(3), q = c.in<float>(3); c.put(sla::sepv(p, q)); }},
{"dsep", GEN { a.clear(); sph(g, a); sph(g, a); }, RUN { auto& p = SLA_IN_SD; auto& q = SLA_IN_SD; c.put(sla::dsep(p, q)); }},
{"sep", GEN { a.clear(); sphf(g, a); sphf(g, a); }, RUN { auto& p = SLA_IN_SF; auto& q = SLA_IN_SF; c.put(sla::sep(p, q)); }},
{"supgal", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; SLA_OUT_SD; sla::supgal(i, o); putsd(c, o); }},
{"galsup", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; SLA_OUT_SD; sla::galsup(i, o); putsd(c, o); }},
{"eqgal", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; SLA_OUT_SD; sla::eqgal(i, o); putsd(c, o); }},
{"galeq", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; SLA_OUT_SD; sla::galeq(i, o); putsd(c, o); }},
{"eg50", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; SLA_OUT_SD; sla::eg50(i, o); putsd(c, o); }},
{"ge50", GEN { a.clear(); sph(g, a); }, RUN { auto& i = SLA_IN_SD; SLA_OUT_SD; sla::ge50(i, o); putsd(c, o); }},
{"eqecl", GEN { a.clear(); sph(g, a); a.push_back(mjd(g)); }, RUN { auto& i = SLA_IN_SD; const double d = c.d(); SLA_OUT_SD; sla::eqecl(i, d, o); putsd(c, o); }},
{"ecleq", GEN { a.clear(); sph(g, a); a.push_back(mjd(g)); }, RUN { auto& i = SLA_IN_SD; const double d = c.d(); SLA_OUT_SD; sla::ecleq(i, d, o); putsd(c, o); }},
{"eqeqx", GEN { a = {mjd(g)}; }, RUN { c.put(sla::eqeqx(c.d())); }},
{"rverot", GEN { a = {decf(g)}; sphf(g, a); a.push_back(angf(g)); }, RUN { const float p = c.f(); auto& s = SLA_IN_SF; c.put(sla::rverot(p, s, c.f())); }},
{"rvgalc", GEN { a.clear(); sphf(g, a); }, RUN { auto& s = SLA_IN_SF; c.put(sla::rvgalc(s)); }},
{"rvlg", GEN { a.clear(); sphf(g, a); }, RUN { auto& s = SLA_IN_SF; c.put(sla::rvlg(s)); }},
{"rvlsrd", GEN { a.clear(); sphf(g, a); }, RUN { auto& s = SLA_IN_SF; c.put(sla::rvlsrd(s)); }},
{"rvlsrk", GEN { a.clear(); sphf(g, a); }, RUN { auto& s = SLA_IN_SF; c.put(sla::rvlsrk(s)); }},
{"cc62s", GEN { a.clear(); pvf(g, a); for (auto& x: a) if (std::fabs(x) > 1e4) x = std::copysign(1e4, x); else if (x != 0 && std::fabs(x) < 1e-4) x = std::copysign(1e-4, x); }, RUN { auto& i = c.ins<VectorPV<float>, float>(); auto& o = c.os<SphericalPV<float>, float>(); sla::cc62s(i, o); putspv(c, o); }},
{"dc62s", GEN { a.clear(); pv(g, a); for (auto& x: a) if (std::fabs(x) > 1e30) x = std::copysign(1e30, x); else if (x != 0 && std::fabs(x) < 1e-30) x = std::copysign(1e-30, x); }, RUN { auto& i = c.ins<VectorPV<double>, double>(); auto& o = c.os<SphericalPV<double>, double>(); sla::dc62s(i, o); putspv(c, o); }},
{"cs2c6", GEN { a.clear(); spv(g, a); for (auto& x: a) x = std::fabs(x) > 1e8? 1e8: (float) x; }, RUN { auto& i = c.ins<SphericalPV<float>, float>(); auto& o = c.os<VectorPV<float>, float>(); sla::cs2c6(i, o); putpv(c, o); }},
{"ds2c6", GEN { a.clear(); spv(g, a); }, RUN { auto& i = c.ins<SphericalPV<double>, double>(); auto& o = c.os<VectorPV<double>, double>(); sla::ds2c6(i, o); putpv(c, o); }},
{"etrms", GEN { a = {year(g)}; }, RUN { const double b = c.d(); auto o = c.o<double>(3); sla::etrms(b, o); c.puts(o, 3); }},
{"addet", GEN { a.clear(); sph(g, a); a.push_back(year(g)); }, RUN { auto& i = SLA_IN_SD; const double b = c.d(); SLA_OUT_SD; sla::addet(i, b, o); putsd(c, o); }},
{"subet", GEN { a.clear(); sph(g, a); a.push_back(year(g)); }, RUN { auto& i = SLA_IN_SD; const double b = c.d(); SLA_OUT_SD; sla::subet(i, b, o); putsd(c, o); }},
{"geoc", GEN { a = {dec(g), g.real(-500, 9000, {0})}; }, RUN { const double p = c.d(), h = c.d(); auto x = c.o<double>(), y = c.o<double>(); sla::geoc(p, h, *x, *y); c.put(*x); c.put(*y); }},
{"pvobs", GEN { a = {dec(g), g.real(-500, 9000, {0}), ang(g)}; }, RUN { const double p = c.d(), h = c.d(), s = c.d(); auto& o = c.os<VectorPV<double>, double>(); sla::pvobs(p, h, s, o); putpv(c, o); }},
{"pcd", GEN { a = {g.chance(1, 5)? 0: g.uniform(-500, 500), g.uniform(-0.1, 0.1), g.uniform(-0.1, 0.1)}; if (g.chance(1, 8)) a[1] = a[2] = 0; }, RUN { const double d = c.d(); auto x = c.io<double>(1), y = c.io<double>(1); sla::pcd(d, *x, *y); c.put(*x); c.put(*y); }},
{"unpcd", GEN { a = {g.chance(1, 5)? 0: g.uniform(-500, 500), g.uniform(-0.1, 0.1), g.uniform(-0.1, 0.1)}; if (g.chance(1, 8)) a[1] = a[2] = 0; }, RUN { const double d = c.d(); auto x = c.io<double>(1), y = c.io<double>(1); sla::unpcd(d, *x, *y); c.put(*x); c.put(*y); }},
{"fitxy", GEN { const int n = (int) g.below(8); a = {(double) g.below(2), (double) n}; for (int k = 0; k < 4 * n; k++) a.push_back(g.chance(1, 8)? 0: g.uniform(-9, 9)); }, RUN { const bool s = c.i(); const int n = c.i(); auto e = c.in<double>(2 * n), m = c.in<double>(2 * n); auto& o = c.os<sla::FitCoeffs, double>(); const int r = sla::fitxy(s, n, (CMD2) e, (CMD2) m, o); c.put(r); if (r == sla::FIT_OK) for (int k = 0; k < 6; k++) c.put(o[k]); }},
{"xy2xy", GEN { a = {g.uniform(-90, 90), g.uniform(-90, 90)}; model(g, a); }, RUN { const double x = c.d(), y = c.d(); auto& m = c.ins<sla::FitCoeffs, double>(); auto p = c.o<double>(), q = c.o<double>(); sla::xy2xy(x, y, m, *p, *q); c.put(*p); c.put(*q); }},
{"pxy", GEN { const int n = g.chance(1, 10)? 0: (int) g.below(9); a = {(double) n}; for (int k = 0; k < 4 * n; k++) a.push_back(g.uniform(-9, 9)); model(g, a); }, RUN { const int n = c.i(); auto e = c.in<double>(2 * n), m = c.in<double>(2 * n); auto& f = c.ins<sla::FitCoeffs, double>(); auto p = c.o<double>(2 * n), x = c.o<double>(), y = c.o<double>(), r = c.o<double>(); sla::pxy(n, (CMD2) e, (CMD2) m, f, (MD2) p, *x, *y, *r); c.puts(p, 2 * n); c.put(*x); c.put(*y); c.put(*r); }},
{"invf", GEN { a.clear(); model(g, a); }, RUN { auto& m = c.ins<sla::FitCoeffs, double>(); auto& o = c.os<sla::FitCoeffs, double>(); const bool b = sla::invf(m, o); c.put(b); if (b) for (int k = 0; k < 6; k++) c.put(o[k]); }},
{"dcmpf", GEN { a.clear(); model(g, a); }, RUN { auto& m = c.ins<sla::FitCoeffs, double>(); double* o[6]; for (auto& p: o) p = c.o<double>(); sla::dcmpf(m, *o[0], *o[1], *o[2], *o[3], *o[4], *o[5]); for (auto p: o) c.put(*p); }},
{"pm", GEN { a.clear(); sph(g, a); for (double v: {g.uniform(-1e-5, 1e-5), g.uniform(-1e-5, 1e-5), g.chance(1, 4)? 0: g.u01(), g.uniform(-300, 300), year(g), year(g)}) a.push_back(v); }, RUN { auto& s = SLA_IN_SD; auto& m = SLA_IN_SD; const double p = c.d(), v = c.d(), e = c.d(), f = c.d(); SLA_OUT_SD; sla::pm(s, m, p, v, e, f, o); putsd(c, o); }},
{"earth", GEN { a = {(double) g.irange(1850, 2150), (double) g.irange(1, 366), frac(g)}; }, RUN { const int y = c.i(), d = c.i(); const float f = c.f(); auto& o = c.os<VectorPV<float>, float>(); sla::earth(y, d, f, o); putpv(c, o); }},
{"ecor", GEN { a.clear(); sphf(g, a); for (double v: {(double) g.irange(1850, 2150), (double) g.irange(1, 366), frac(g)}) a.push_back(v); }, RUN { SF s = SLA_IN_SF; const int y = c.i(), d = c.i(); const float f = c.f(); auto p = c.o<float>(), q = c.o<float>(); sla::ecor(s, y, d, f, *p, *q); c.put(*p); c.put(*q); }},
{"polmo", GEN { a = {ang(g), dec(g), g.uniform(-3e-6, 3e-6), g.chance(1, 5)? 0: g.uniform(-3e-6, 3e-6)}; }, RUN { const double l = c.d(), p = c.d(), x = c.d(), y = c.d(); auto q = c.o<double>(), r = c.o<double>(), s = c.o<double>(); sla::polmo(l, p, x, y, *q, *r, *s); c.put(*q); c.put(*r); c.put(*s); }},
{"s2tp", GEN { a.clear(); sphf(g, a); sphf(g, a); if (g.chance(1, 2)) { a[2] = (float) (a[0] + g.uniform(-0.3, 0.3)); a[3] = (float) (a[1] + g.uniform(-0.3, 0.3)); } }, RUN { auto& p = SLA_IN_SF; auto& q = SLA_IN_SF; auto x = c.o<float>(), y = c.o<float>(); c.put((int) sla::s2tp(p, q, *x, *y)); c.put(*x); c.put(*y); }},
{"ds2tp", GEN { a.clear(); sph(g, a); sph(g, a); if (g.chance(1, 2)) { a[2] = a[0] + g.uniform(-0.3, 0.3); a[3] = a[1] + g.uniform(-0.3, 0.3); } }, RUN { auto& p = SLA_IN_SD; auto& q = SLA_IN_SD; auto x = c.o<double>(), y = c.o<double>(); c.put((int) sla::ds2tp(p, q, *x, *y)); c.put(*x); c.put(*y); }},
{"tp2s", GEN { a = {(float) g.uniform(-2, 2), (float) g.uniform(-2, 2)}; sphf(g, a); }, RUN { const float x = c.f(), y = c.f(); auto& t = SLA_IN_SF; SLA_OUT_SF; sla::tp2s(x, y, t, o); putsf(c, o); }},
{"dtp2s", GEN { a = {g.uniform(-2, 2), g.uniform(-2, 2)}; sph(g, a); }, RUN { const double x = c.d(), y = c.d(); auto& t = SLA_IN_SD; SLA_OUT_SD; sla::dtp2s(x, y, t, o); putsd(c, o); }},
{"tps2c", GEN { a = {(float) g.uniform(-2, 2), (float) g.uniform(-2, 2)}; if (g.chance(1, 8)) a[g.below(2)] = 0; sphf(g, a); }, RUN { const float x = c.f(), y = c.f(); auto& t = SLA_IN_SF; SF& p = c.os<SF, float>(); SF& q = c.os<SF, float>(); const int n = sla::tps2c(x, y, t, p, q); c.put(n); if (n > 0) putsf(c, p); if (n > 1) putsf(c, q); }},
{"dtps2c", GEN { a = {g.uniform(-2, 2), g.uniform(-2, 2)}; if (g.chance(1, 8)) a[g.below(2)] = 0; sph(g, a); }, RUN { const double x = c.d(), y = c.d(); auto& t = SLA_IN_SD; SD& p = c.os<SD, double>(); SD& q = c.os<SD, double>(); const int n = sla::dtps2c(x, y, t, p, q); c.put(n); if (n > 0) putsd(c, p); if (n > 1) putsd(c, q); }},
{"tp2v", GEN { a = {(float) g.uniform(-2, 2), (float) g.uniform(-2, 2)}; unit(g, a); }, RUN { const float x = c.f(), y = c.f(); auto t = c.in<float>(3); auto o = c.o<float>(3); sla::tp2v(x, y, t, o); c.puts(o, 3); }},
{"dtp2v", GEN { a = {g.uniform(-2, 2), g.uniform(-2, 2)}; unit(g, a); }, RUN { const double x = c.d(), y = c.d(); auto t = c.in<double>(3); auto o = c.o<double>(3); sla::dtp2v(x, y, t, o); c.puts(o, 3); }},
{"v2tp", GEN { a.clear(); unit(g, a); unit(g, a); }, RUN { auto p = c.in<float>(3), q = c.in<float>(3); auto x = c.o<float>(), y = c.o<float>(); c.put((int) sla::v2tp(p, q, *x, *y)); c.put(*x); c.put(*y); }},
{"dv2tp", GEN { a.clear(); unit(g, a); unit(g, a); }, RUN { auto p = c.in<double>(3), q = c.in<double>(3); auto x = c.o<double>(), y = c.o<double>(); c.put((int) sla::dv2tp(p, q, *x, *y)); c.put(*x); c.put(*y); }},
{"tpv2c", GEN { a = {(float) g.uniform(-2, 2), (float) g.uniform(-2, 2)}; unit(g, a); }, RUN { const float x = c.f(), y = c.f(); auto t = c.in<float>(3); auto p = c.o<float>(3), q = c.o<float>(3); const int n = sla::tpv2c(x, y, t, p, q); c.put(n); if (n > 0) c.puts(p, 3); if (n > 1) c.puts(q, 3); }},
{"dtpv2c", GEN { a = {g.uniform(-2, 2), g.uniform(-2, 2)}; unit(g, a); }, RUN { const double x = c.d(), y = c.d(); auto t = c.in<double>(3); auto p = c.o<double>(3), q = c.o<double>(3); const int n = sla::dtpv2c(x, y, t, p, q); c.put(n); if (n > 0) c.puts(p, 3); if (n > 1) c.puts(q, 3); }},
{"combn", GEN { const int n = g.chance(1, 10)? INT_MAX - (int) g.below(2): g.irange(1, 20), k = 1 + (int) g.below(std::min(n, 6)); a = {(double) k, (double) n}; int v = g.chance(1, 4)? 0: 1 + (int) g.below(3); for (int i = 0; i < k; i++) { a.push_back(std::min(v, n - k + 1 + i)); v += 1 + (int) g.below(3); } if (g.chance(1, 10)) a[0] = n > 20? 0: n + 1; }, RUN { const int k = c.i(), n = c.i(); auto l = c.io<int>(k); c.put((int) sla::combn(k, n, l)); c.puts(l, k > 0 && k <= n? k: 0); }},
{"permut", GEN { const int n = g.chance(1, 12)? 0: 1 + (int) g.below(10); a = {(double) n}; const bool init = g.chance(1, 3); for (int i = 0; i < n; i++) a.push_back(i == 0 && init? -1: init? g.irange(-9, 9): (int) g.below(i + 1)); }, RUN { const int n = c.i(); auto s = c.io<int>(n), o = c.o<int>(n); c.put((int) sla::permut(n, s, o)); c.puts(s, n); c.puts(o, n); }},
{"evp", GEN { a = {mjd(g), g.chance(1, 3)? 0: year(g)}; }, RUN { const double d = c.d(), q = c.d(); double* o[4]; for (auto& p: o) p = c.o<double>(3); sla::evp(d, q, o[0], o[1], o[2], o[3]); for (auto p: o) c.puts(p, 3); }},
{"epv", GEN { a = {mjd(g)}; }, RUN { const double d = c.d(); double* o[4]; for (auto& p: o) p = c.o<double>(3); sla::epv(d, o[0], o[1], o[2], o[3]); for (auto p: o) c.puts(p, 3); }},
{"pdq2h", GEN { a = {dec(g), dec(g), ang(g)}; }, RUN { const double l = c.d(), d = c.d(), q = c.d(); auto x = c.o<double>(), y = c.o<double>(); auto v = c.o<bool>(), w = c.o<bool>(); sla::pdq2h(l, d, q, *x, *v, *y, *w); c.put(*v); c.put(*w); if (*v) c.put(*x); if (*w) c.put(*y); }},
{"pda2h", GEN { a = {dec(g), dec(g), ang(g)}; }, RUN { const double l = c.d(), d = c.d(), q = c.d(); auto x = c.o<double>(), y = c.o<double>(); auto v = c.o<bool>(), w = c.o<bool>(); sla::pda2h(l, d, q, *x, *v, *y, *w); c.put(*v); c.put(*w); if (*v) c.put(*x); if (*w) c.put(*y); }},
{"veri", GEN { a.clear(); }, RUN { c.put(sla::veri()); }},
{"vers", GEN { a.clear(); }, RUN { c.put(sla::vers()); }},
{"moon", GEN { a = {(double) g.irange(1850, 2150), (double) g.irange(1, 366), frac(g)}; }, RUN { const int y = c.i(), d = c.i(); const float f = c.f(); auto& o = c.os<VectorPV<float>, float>(); sla::moon(y, d, f, o); putpv(c, o); }},
{"dmoon", GEN { a = {mjd(g)}; }, RUN { const double d = c.d(); auto& o = c.os<VectorPV<double>, double>(); sla::dmoon(d, o); putpv(c, o); }},
{"obs", GEN { static const char* ids[] = {"AAT", "UKIRT", "K", "KECK2", "ZZZ", "", "LPO", "VLT4", "NANTEN2", "NANTEN22"}; const char* s = ids[g.below(10)]; a = {g.chance(1, 2)? -1.0: (double) g.irange(-3, 90)}; for (; *s; s++) a.push_back(*s); a.push_back(0); },
    RUN { const int n = c.i(); auto s = c.in<char>(c.a.size() - 1); auto& o = *(sla::Observatory*) c.o<double>(sizeof(sla::Observatory) / sizeof(double)); c.put(sla::obs(n, s, o)); c.put(o.o_id); c.put(o.o_name); c.put(o.o_long); c.put(o.o_lat); c.put(o.o_height); }},
};
constexpr int COUNT = sizeof FUNCTIONS / sizeof FUNCTIONS[0];
#undef GEN
#undef RUN
struct Call { int fn; Args args; };
inline Call generate(Gen& g, int fn) { Call k{fn, {}}; FUNCTIONS[fn].gen(g, k.args); return k; }
/// overwrite a good piece of unused stack
__attribute__((noinline)) inline void dirty_stack(uint64_t seed) {
    uint64_t junk[1200];
    for (size_t k = 0; k < 1200; k++) { const uint64_t r = pbt::splitmix(seed); double v = Ctx::clean<double>(r); uint64_t u; std::memcpy(&u, &v, 8); junk[k] = r & 1024? u: r; }
    asm volatile("" :: "r"(junk): "memory");
}
inline std::string describe(const Call& k) { std::string s = std::string(FUNCTIONS[k.fn].name) + "("; for (size_t i = 0; i < k.args.size(); i++) s += pbt::fmt(i? ", %.17g": "%.17g", k.args[i]); return s + ")"; }
} // reg
