// Small property-based testing engine: choice-tape generation, laws, shrinking, crash isolation, replay.
#pragma once
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <string>
#include <vector>

typedef long double ld;

namespace pbt {

constexpr ld PI = 3.14159265358979323846264338327950288L;
constexpr ld TWO_PI = 2 * PI;
constexpr ld HALF_PI = PI / 2;

struct Fail { std::string msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

/// Numeric literals found in the sources under test; used only to aim generators at boundaries.
extern std::vector<double> g_dict;
/// call before running a law: a law may name the one source file whose literals it wants
void aim(int law);

class Gen {
    std::vector<uint64_t> m_tape;
    size_t m_pos = 0;
    bool m_replay;
    uint64_t m_state;
    int m_nchecks = 0;
    bool m_trivial = false;
    double m_recent[6];     ///< latest values of real(): later ones sometimes coincide with them
    unsigned m_nrecent = 0;
    double fresh(double lo, double hi, const std::vector<double>& specials);
public:
    bool verbose = false;
    std::string notes;
    std::vector<const char*> classes;

    explicit Gen(uint64_t seed): m_replay(false), m_state(seed) {}
    explicit Gen(std::vector<uint64_t> tape): m_tape(std::move(tape)), m_replay(true), m_state(0) {}

    uint64_t raw() {
        if (m_replay) return m_pos < m_tape.size()? m_tape[m_pos++]: (m_pos++, 0);
        const uint64_t v = splitmix(m_state);
        m_tape.push_back(v);
        m_pos++;
        return v;
    }
    const std::vector<uint64_t>& tape() const { return m_tape; }
    size_t used() const { return m_pos; }
    void checked() { m_nchecks++; }
    int nchecks() const { return m_nchecks; }
    /// the law declares this case uninteresting (degenerate by the law's own rule)
    void trivial(bool t = true) { m_trivial = t; }
    bool is_trivial() const { return m_trivial; }
    void classify(const char* name) { classes.push_back(name); }
    [[noreturn]] void discard() { throw Discard{}; }

    uint64_t below(uint64_t n) { return n <= 1? (raw(), 0): raw() % n; }
    int irange(int lo, int hi) { return (int) ((int64_t) lo + (int64_t) below((uint64_t) ((int64_t) hi - lo) + 1)); }
    bool chance(int num, int den) { return (int) below(den) >= den - num; }
    double u01() { return (double) (raw() >> 11) * 0x1p-53; }
    double uniform(double lo, double hi) { const double v = lo + (hi - lo) * u01(); return v < lo? lo: v > hi? hi: v; }
    template <class T> const T& pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
    template <class T> const T& pick(const std::vector<T>& l) { return l[below(l.size())]; }

    /// double in [lo, hi], mixing uniform, special points, their neighbourhoods, source literals, round and log-scaled values,
    /// and values that equal, oppose or nearly equal one drawn before
    double real(double lo, double hi, const std::vector<double>& specials = {});
    float realf(float lo, float hi, const std::vector<double>& specials = {});
    /// integer in [lo, hi] with special points favoured
    int integer(int lo, int hi, const std::vector<int>& specials = {});
    /// any angle: many special directions, within +-span radians
    double angle(double span = 6.283185307179586);
    float anglef(float span = 6.2831855f);
    double lat();   ///< latitude / declination in [-pi/2, pi/2], poles and equator favoured
    float latf();
    double gauss(); ///< roughly normal deviate
    double logmag(double elo, double ehi) { const double e = uniform(elo, ehi); const double m = std::pow(10.0, e); return chance(1, 2)? -m: m; }

    void note(const char* name, double v) { if (verbose) notes += fmt("%s=%.17g ", name, v); }
    void note(const char* name, float v) { if (verbose) notes += fmt("%s=%.9gf ", name, (double) v); }
    void note(const char* name, int v) { if (verbose) notes += fmt("%s=%d ", name, v); }
    void note(const char* name, const char* v) { if (verbose) notes += fmt("%s=\"%s\" ", name, v); }
    void note(const char* name, const std::string& v) { note(name, v.c_str()); }
    template <class T> void notev(const char* name, const T* v, int n) {
        if (!verbose) return;
        notes += fmt("%s={", name);
        for (int i = 0; i < n; i++) notes += fmt(i? ",%.17g": "%.17g", (double) v[i]);
        notes += "} ";
    }
};

struct Law {
    const char* name;
    long cases;       ///< cases in the quick tier
    std::function<void(Gen&)> fn;
    const char* stem = nullptr;   ///< source file whose literals feed this law instead of the property's
};
std::vector<Law>& laws();
extern const char* g_property;
extern const char* g_rule;      ///< what makes a case non-trivial
extern const char* g_stems;     ///< source files whose literals feed the generators
extern bool g_thorough;

struct Reg { Reg(const char* name, long cases, std::function<void(Gen&)> fn, const char* stem = nullptr) { laws().push_back({name, cases, std::move(fn), stem}); } };

#define PROPERTY(id, stems, rule) \
    namespace pbt { const char* g_property = id; const char* g_stems = stems; const char* g_rule = rule; }
#define LAW_CAT2(a, b) a##b
#define LAW_CAT(a, b) LAW_CAT2(a, b)
#define LAW(ident, cases) \
    static void ident(pbt::Gen& g); \
    static pbt::Reg LAW_CAT(reg_, ident)(#ident, cases, ident); \
    static void ident(pbt::Gen& g)

#define REQUIRE(cond, ...) do { g.checked(); if (!(cond)) throw pbt::Fail{std::string(#cond) + ": " + pbt::fmt(__VA_ARGS__)}; } while (0)
/// |got - want| <= tol, false for NaN
#define CLOSE(got, want, tol, ...) do { \
    const ld close_g = (got), close_w = (want), close_t = (tol); g.checked(); \
    if (!(std::fabs(close_g - close_w) <= close_t)) \
        throw pbt::Fail{pbt::fmt("%s = %.20Lg, expected %s = %.20Lg (difference %.3Lg, allowed %.3Lg): ", #got, close_g, #want, close_w, close_g - close_w, close_t) + pbt::fmt(__VA_ARGS__)}; \
    } while (0)

inline ld angdiff(ld a, ld b) { ld d = std::fmod(a - b, TWO_PI); if (d > PI) d -= TWO_PI; if (d < -PI) d += TWO_PI; return d; }

} // pbt

using pbt::Gen;
