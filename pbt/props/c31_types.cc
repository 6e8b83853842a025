#include "ref.h"
#include "slalib.h"
PROPERTY("C31", "slalib", "at least two fields are set")
using namespace ref;

/// a value type as a set of named views of a few fields; the model is a plain array
template <class O, class T> struct Op { const char* name; int field; void (*set)(O&, T); };
template <class O, class T> struct View { const char* name; int field; T (*get)(const O&); };
template <class T> static bool same(T a, T b) { return a == b && std::signbit((double) a) == std::signbit((double) b); }
template <class T> static T value(Gen& g, int k) { return (T) (g.chance(1, 3)? g.real(-1e6, 1e6, {0, 1, -1}): (double) (k + 1) * 1.25 + g.irange(-1000, 1000)); }

template <class O, class T, size_t NO, size_t NV>
static void history(Gen& g, const Op<O, T> (&ops)[NO], const View<O, T> (&views)[NV], O& o, T* model, bool* known) {
    const int steps = g.irange(1, 24);
    int used = 0;
    for (int s = 0; s < steps; s++) {
        const Op<O, T>& op = ops[g.below(NO)];
        const T v = value<T>(g, s);
        g.note(op.name, (double) v);
        op.set(o, v);
        model[op.field] = v; known[op.field] = true; used |= 1 << op.field;
        O copy = o;
        for (const View<O, T>& w: views) if (known[w.field]) {
            const T a = w.get(o), b = w.get(copy);
            REQUIRE(same(a, model[w.field]), "after %s: %s is %.17g, the field holds %.17g", op.name, w.name, (double) a, (double) model[w.field]);
            REQUIRE(same(b, model[w.field]), "%s of a copy is %.17g, the field holds %.17g", w.name, (double) b, (double) model[w.field]);
        }
        if (g.chance(1, 6)) o = copy;
    }
    g.trivial((used & (used - 1)) == 0);
}
#define SET(O, T, name, i) {#name, i, [](O& o, T v) { o.name(v); }}
#define GET(O, T, name, i) {#name, i, [](const O& o) -> T { return o.name(); }}

template <class T> static void spherical(Gen& g) {
    using O = sla::Spherical<T>;
    static const Op<O, T> ops[] = {SET(O, T, set_longitude, 0), SET(O, T, set_ra, 0), SET(O, T, set_ha, 0), SET(O, T, set_latitude, 1), SET(O, T, set_dec, 1),
        {"s_a", 0, [](O& o, T v) { o.s_a = v; }}, {"s_b", 1, [](O& o, T v) { o.s_b = v; }}};
    static const View<O, T> views[] = {GET(O, T, get_longitude, 0), GET(O, T, get_ra, 0), GET(O, T, get_ha, 0), GET(O, T, get_latitude, 1), GET(O, T, get_dec, 1),
        {"s_a", 0, [](const O& o) -> T { return o.s_a; }}, {"s_b", 1, [](const O& o) -> T { return o.s_b; }}};
    T m[2] = {value<T>(g, 0), value<T>(g, 7)};
    bool k[2] = {true, true};
    O o = {m[0], m[1]};
    history(g, ops, views, o, m, k);
}
template <class T> static void spherical_pos(Gen& g) {
    using O = sla::SphericalPos<T>;
    static const Op<O, T> ops[] = {SET(O, T, set_longitude, 0), SET(O, T, set_ra, 0), SET(O, T, set_ha, 0), SET(O, T, set_latitude, 1), SET(O, T, set_dec, 1), SET(O, T, set_dist, 2)};
    static const View<O, T> views[] = {GET(O, T, get_longitude, 0), GET(O, T, get_ra, 0), GET(O, T, get_ha, 0), GET(O, T, get_latitude, 1), GET(O, T, get_dec, 1), GET(O, T, get_dist, 2)};
    T m[3] = {value<T>(g, 0), value<T>(g, 7), value<T>(g, 9)};
    bool k[3] = {true, true, true};
    O o = {{m[0], m[1]}, m[2]};
    history(g, ops, views, o, m, k);
}
template <class T> static void vector_pv(Gen& g) {
    using O = sla::VectorPV<T>;
    static const Op<O, T> ops[] = {SET(O, T, set_x, 0), SET(O, T, set_y, 1), SET(O, T, set_z, 2), SET(O, T, set_dx, 3), SET(O, T, set_dy, 4), SET(O, T, set_dz, 5)};
    static const View<O, T> views[] = {GET(O, T, get_x, 0), GET(O, T, get_y, 1), GET(O, T, get_z, 2), GET(O, T, get_dx, 3), GET(O, T, get_dy, 4), GET(O, T, get_dz, 5),
        {"get_position()[0]", 0, [](const O& o) -> T { return o.get_position()[0]; }}, {"get_position()[1]", 1, [](const O& o) -> T { return o.get_position()[1]; }},
        {"get_position()[2]", 2, [](const O& o) -> T { return o.get_position()[2]; }}, {"get_velocity()[0]", 3, [](const O& o) -> T { return o.get_velocity()[0]; }},
        {"get_velocity()[1]", 4, [](const O& o) -> T { return o.get_velocity()[1]; }}, {"get_velocity()[2]", 5, [](const O& o) -> T { return o.get_velocity()[2]; }}};
    T m[6];
    bool k[6] = {};
    O o;
    if (g.chance(2, 3)) {
        for (int i = 0; i < 6; i++) { m[i] = value<T>(g, 3 * i); k[i] = true; }
        const T p[3] = {m[0], m[1], m[2]}, v[3] = {m[3], m[4], m[5]};
        o = O(p, v);
        for (const auto& w: views) REQUIRE(same(w.get(o), m[w.field]), "constructed: %s is %.17g, not %.17g", w.name, (double) w.get(o), (double) m[w.field]);
    }
    history(g, ops, views, o, m, k);
}
template <class T> static void spherical_pv(Gen& g) {
    using O = sla::SphericalPV<T>;
    static const Op<O, T> ops[] = {SET(O, T, set_longitude, 0), SET(O, T, set_ra, 0), SET(O, T, set_latitude, 1), SET(O, T, set_dec, 1), SET(O, T, set_dist, 2),
        SET(O, T, set_dlong, 3), SET(O, T, set_dra, 3), SET(O, T, set_dlat, 4), SET(O, T, set_ddec, 4), SET(O, T, set_ddist, 5)};
    static const View<O, T> views[] = {GET(O, T, get_longitude, 0), GET(O, T, get_ra, 0), GET(O, T, get_latitude, 1), GET(O, T, get_dec, 1), GET(O, T, get_dist, 2),
        GET(O, T, get_dlong, 3), GET(O, T, get_dra, 3), GET(O, T, get_dlat, 4), GET(O, T, get_ddec, 4), GET(O, T, get_ddist, 5),
        {"get_direction().longitude", 0, [](const O& o) -> T { return o.get_direction().get_longitude(); }}, {"get_direction().latitude", 1, [](const O& o) -> T { return o.get_direction().get_latitude(); }},
        {"get_position().longitude", 0, [](const O& o) -> T { return o.get_position().get_longitude(); }}, {"get_position().latitude", 1, [](const O& o) -> T { return o.get_position().get_latitude(); }},
        {"get_position().dist", 2, [](const O& o) -> T { return o.get_position().get_dist(); }}, {"get_velocity().longitude", 3, [](const O& o) -> T { return o.get_velocity().get_longitude(); }},
        {"get_velocity().latitude", 4, [](const O& o) -> T { return o.get_velocity().get_latitude(); }}, {"get_velocity().dist", 5, [](const O& o) -> T { return o.get_velocity().get_dist(); }}};
    T m[6];
    bool k[6] = {};
    O o;
    if (g.chance(2, 3)) {
        for (int i = 0; i < 6; i++) { m[i] = value<T>(g, 3 * i); k[i] = true; }
        o = O({{m[0], m[1]}, m[2]}, {{m[3], m[4]}, m[5]});
        for (const auto& w: views) REQUIRE(same(w.get(o), m[w.field]), "constructed: %s is %.17g, not %.17g", w.name, (double) w.get(o), (double) m[w.field]);
    }
    history(g, ops, views, o, m, k);
}
LAW(directions, 150000) { if (g.chance(1, 2)) spherical<double>(g); else { g.classify("float"); spherical<float>(g); } }
LAW(positions, 150000) { if (g.chance(1, 2)) spherical_pos<double>(g); else { g.classify("float"); spherical_pos<float>(g); } }
LAW(cartesian_position_velocity, 150000) { if (g.chance(1, 2)) vector_pv<double>(g); else { g.classify("float"); vector_pv<float>(g); } }
LAW(spherical_position_velocity, 150000) { if (g.chance(1, 2)) spherical_pv<double>(g); else { g.classify("float"); spherical_pv<float>(g); } }
LAW(mount, 150000) {
    using O = sla::AltazMount;
    using T = double;
    static const Op<O, T> ops[] = {SET(O, T, set_azimuth, 0), SET(O, T, set_az_velocity, 1), SET(O, T, set_az_acceleration, 2), SET(O, T, set_elevation, 3), SET(O, T, set_el_velocity, 4),
        SET(O, T, set_el_acceleration, 5), SET(O, T, set_pangle, 6), SET(O, T, set_pa_velocity, 7), SET(O, T, set_pa_acceleration, 8)};
    static const View<O, T> views[] = {GET(O, T, get_azimuth, 0), GET(O, T, get_az_velocity, 1), GET(O, T, get_az_acceleration, 2), GET(O, T, get_elevation, 3), GET(O, T, get_el_velocity, 4),
        GET(O, T, get_el_acceleration, 5), GET(O, T, get_pangle, 6), GET(O, T, get_pa_velocity, 7), GET(O, T, get_pa_acceleration, 8)};
    T m[9];
    bool k[9] = {};
    O o;
    history(g, ops, views, o, m, k);
}
LAW(plate_model, 150000) {
    using O = sla::FitCoeffs;
    using T = double;
    static const Op<O, T> ops[] = {SET(O, T, set_a, 0), SET(O, T, set_b, 1), SET(O, T, set_c, 2), SET(O, T, set_d, 3), SET(O, T, set_e, 4), SET(O, T, set_f, 5),
        {"[0]=", 0, [](O& o, T v) { o[0] = v; }}, {"[3]=", 3, [](O& o, T v) { o[3] = v; }}, {"[5]=", 5, [](O& o, T v) { o[5] = v; }},
        {"()[1]=", 1, [](O& o, T v) { o()[1] = v; }}, {"()[4]=", 4, [](O& o, T v) { o()[4] = v; }},
        {"abc[0]=", 0, [](O& o, T v) { o.get_abc()[0] = v; }}, {"abc[1]=", 1, [](O& o, T v) { o.get_abc()[1] = v; }}, {"abc[2]=", 2, [](O& o, T v) { o.get_abc()[2] = v; }},
        {"def[0]=", 3, [](O& o, T v) { o.get_def()[0] = v; }}, {"def[1]=", 4, [](O& o, T v) { o.get_def()[1] = v; }}, {"def[2]=", 5, [](O& o, T v) { o.get_def()[2] = v; }}};
    static const View<O, T> views[] = {GET(O, T, get_a, 0), GET(O, T, get_b, 1), GET(O, T, get_c, 2), GET(O, T, get_d, 3), GET(O, T, get_e, 4), GET(O, T, get_f, 5),
        {"[1]", 1, [](const O& o) -> T { return const_cast<O&>(o)[1]; }}, {"[2]", 2, [](const O& o) -> T { return const_cast<O&>(o)[2]; }}, {"[4]", 4, [](const O& o) -> T { return const_cast<O&>(o)[4]; }},
        {"()[0]", 0, [](const O& o) -> T { return const_cast<O&>(o)()[0]; }}, {"()[3]", 3, [](const O& o) -> T { return const_cast<O&>(o)()[3]; }}, {"()[5]", 5, [](const O& o) -> T { return const_cast<O&>(o)()[5]; }},
        {"abc[2]", 2, [](const O& o) -> T { return const_cast<O&>(o).get_abc()[2]; }}, {"def[0]", 3, [](const O& o) -> T { return const_cast<O&>(o).get_def()[0]; }}};
    T m[6];
    bool k[6] = {};
    O o;
    REQUIRE(o.get_nfields() == 6, "%d coefficients", o.get_nfields());
    history(g, ops, views, o, m, k);
}
LAW(sexagesimal_fields, 150000) {
    using O = sla::ConversionResult;
    using T = int;
    static const Op<O, T> ops[] = {SET(O, T, set_hours, 0), SET(O, T, set_degrees, 0), SET(O, T, set_minutes, 1), SET(O, T, set_arcminutes, 1), SET(O, T, set_seconds, 2), SET(O, T, set_arcseconds, 2),
        SET(O, T, set_fraction, 3), {"set_sign(char)", 4, [](O& o, T v) { o.set_sign(v & 1? '+': '-'); }}, {"set_sign(bool)", 4, [](O& o, T v) { o.set_sign((v & 1) != 0); }}};
    static const View<O, T> views[] = {GET(O, T, get_hours, 0), GET(O, T, get_degrees, 0), GET(O, T, get_minutes, 1), GET(O, T, get_arcminutes, 1), GET(O, T, get_seconds, 2), GET(O, T, get_arcseconds, 2),
        GET(O, T, get_fraction, 3)};
    T m[5];
    bool k[5] = {};
    O o;
    const int steps = g.irange(1, 24);
    int used = 0;
    for (int s = 0; s < steps; s++) {
        const auto& op = ops[g.below(sizeof ops / sizeof *ops)];
        const T v = g.chance(1, 4)? g.pick({0, 1, -1, 59, 60, 2147483647, -2147483647 - 1, 999999999}): g.irange(-100000, 100000);
        g.note(op.name, v);
        op.set(o, v); m[op.field] = v; k[op.field] = true; used |= 1 << op.field;
        const O copy = o;
        for (const auto& w: views) if (k[w.field]) REQUIRE(w.get(o) == m[w.field] && w.get(copy) == m[w.field], "after %s: %s is %d, the field holds %d", op.name, w.name, w.get(o), m[w.field]);
        if (k[4]) REQUIRE(o.get_sign() == (m[4] & 1? '+': '-') && copy.get_sign() == o.get_sign(), "after %s: sign '%c'", op.name, o.get_sign());
    }
    g.trivial((used & (used - 1)) == 0);
}
