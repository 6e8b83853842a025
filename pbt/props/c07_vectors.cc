#include "ref.h"
#include "sla_overloads.h"
PROPERTY("C07", "vdv dvdv vn dvn vxv dvxv mxm dmxm mxv dmxv imxv dimxv",
    "at least two components of each operand are non-zero")
using namespace ref;

/// components of mixed kinds: zeros, small integers, axis-like, wide magnitudes; scale kept inside the squared range
template <class T> void gen_n(Gen& g, T* v, int n) {
    const double top = sizeof(T) == 4? 12: 100;
    const int kind = g.irange(0, 5);
    const double scale = kind == 5? std::pow(10.0, g.uniform(-top, top)): 1;
    for (int i = 0; i < n; i++)
        switch (kind) {
        case 0: v[i] = (T) g.integer(-3, 3); break;
        case 1: v[i] = (T) g.uniform(-1, 1); break;
        case 2: v[i] = (T) (g.chance(1, 2)? 0: g.uniform(-2, 2)); break;
        case 3: v[i] = (T) g.logmag(-6, 6); break;
        case 4: v[i] = (T) (g.chance(1, 2)? 1: -1) * (T) (1 + g.uniform(-1e-5, 1e-5)); break;
        default: v[i] = (T) (scale * g.uniform(-1, 1));
        }
}
template <class T> bool rich(const T* v, int n) { int k = 0; for (int i = 0; i < n; i++) k += v[i] != 0; return k >= 2; }
template <class T> bool same(const T* a, const T* b, int n) { return memcmp(a, b, n * sizeof(T)) == 0; }
/// tolerance floor against underflow of the products
template <class T> constexpr ld tiny() { return sizeof(T) == 4? 1e-36L: 1e-300L; }

template <class T> void products(Gen& g) {
    T a[3], b[3], a0[3], b0[3], c[3] = {9, 9, 9};
    gen_n(g, a, 3); gen_n(g, b, 3);
    if (g.chance(1, 8)) for (int i = 0; i < 3; i++) b[i] = a[i] * (T) 2;
    g.notev("a", a, 3); g.notev("b", b, 3);
    memcpy(a0, a, sizeof a); memcpy(b0, b, sizeof b);
    const V A = vec(a), B = vec(b), C = cross(A, B);
    const ld e = 4 * ov::eps<T>();
    CLOSE(ov::dot(a, b), dot(A, B), e * (fabsl(A.x * B.x) + fabsl(A.y * B.y) + fabsl(A.z * B.z)) + tiny<T>(), "scalar product");
    auto check = [&](const T* r, const char* how) {
        for (int i = 0; i < 3; i++) {
            const int j = (i + 1) % 3, k = (i + 2) % 3;
            CLOSE(r[i], C[i], e * (fabsl(A[j] * B[k]) + fabsl(A[k] * B[j])) + tiny<T>(), "vector product component %d (%s)", i, how);
        }
    };
    ov::vxv(a, b, c);
    check(c, "separate output");
    REQUIRE(same(a, a0, 3) && same(b, b0, 3), "an input was modified");
    ov::vxv(a, b, a); check(a, "output is the first input");
    REQUIRE(same(b, b0, 3), "the other input was modified");
    memcpy(a, a0, sizeof a);
    ov::vxv(a, b, b); check(b, "output is the second input");
    REQUIRE(same(a, a0, 3), "the other input was modified");
    T s[3]; memcpy(s, a0, sizeof s);
    ov::vxv(s, s, s);
    const ld m2 = dot(A, A);
    for (int i = 0; i < 3; i++) CLOSE(s[i], 0, e * m2 + tiny<T>(), "a x a in place");
    g.trivial(!rich(a0, 3) || !rich(b0, 3));
}
LAW(vector_products_double, 900000) { products<double>(g); }
LAW(vector_products_single, 900000) { products<float>(g); }

template <class T> void normalise(Gen& g) {
    T a[3], a0[3], n[3] = {9, 9, 9};
    gen_n(g, a, 3);
    if (g.chance(1, 20)) a[0] = a[1] = a[2] = 0;
    if (g.chance(1, 10)) { const int k = g.irange(0, 2); for (int i = 0; i < 3; i++) if (i != k) a[i] = 0; }
    g.notev("a", a, 3);
    memcpy(a0, a, sizeof a);
    const V A = vec(a);
    const ld m = norm(A), e = 4 * ov::eps<T>();
    const T got = ov::vn(a, n);
    REQUIRE(same(a, a0, 3), "the input was modified");
    if (m == 0) {
        REQUIRE(got == 0 && n[0] == 0 && n[1] == 0 && n[2] == 0, "zero vector gives modulus %g, {%g,%g,%g}", (double) got, (double) n[0], (double) n[1], (double) n[2]);
        const T again = ov::vn(a, a);
        REQUIRE(again == 0 && same(a, a0, 3), "zero vector in place");
        g.classify("zero vector"); g.trivial(); return;
    }
    if (m < (sizeof(T) == 4? 1e-16L: 1e-140L)) g.discard();
    CLOSE(got, m, e * m, "modulus");
    for (int i = 0; i < 3; i++) CLOSE(n[i], A[i] / m, e * fabsl(A[i] / m) + tiny<T>(), "unit vector component %d", i);
    const T again = ov::vn(a, a);
    CLOSE(again, m, e * m, "modulus, in place");
    for (int i = 0; i < 3; i++) CLOSE(a[i], A[i] / m, e * fabsl(A[i] / m) + tiny<T>(), "in-place unit vector component %d", i);
    g.trivial(!rich(a0, 3));
}
LAW(normalisation_double, 900000) { normalise<double>(g); }
LAW(normalisation_single, 900000) { normalise<float>(g); }

template <class T> void matvec(Gen& g) {
    T m[3][3], v[3], m0[3][3], v0[3], r[3] = {9, 9, 9};
    gen_n(g, &m[0][0], 9); gen_n(g, v, 3);
    g.notev("m", &m[0][0], 9); g.notev("v", v, 3);
    memcpy(m0, m, sizeof m); memcpy(v0, v, sizeof v);
    const ld e = 4 * ov::eps<T>();
    for (int inv = 0; inv < 2; inv++) {
        ld want[3], tol[3];
        for (int i = 0; i < 3; i++) {
            want[i] = tol[i] = 0;
            for (int k = 0; k < 3; k++) { const ld p = (ld) (inv? m0[k][i]: m0[i][k]) * v0[k]; want[i] += p; tol[i] += fabsl(p); }
            tol[i] = tol[i] * e + tiny<T>();
        }
        for (int alias = 0; alias < 2; alias++) {
            memcpy(v, v0, sizeof v);
            T* out = alias? v: r;
            inv? ov::imxv(m, v, out): ov::mxv(m, v, out);
            for (int i = 0; i < 3; i++) CLOSE(out[i], want[i], tol[i], "%s component %d%s", inv? "transposed product": "product", i, alias? ", in place": "");
            REQUIRE(same(&m[0][0], &m0[0][0], 9) && (alias || same(v, v0, 3)), "an input was modified");
        }
    }
    g.trivial(!rich(&m0[0][0], 9) || !rich(v0, 3));
}
LAW(matrix_vector_double, 700000) { matvec<double>(g); }
LAW(matrix_vector_single, 700000) { matvec<float>(g); }

template <class T> void matmat(Gen& g) {
    T a[3][3], b[3][3], a0[3][3], b0[3][3], c[3][3];
    gen_n(g, &a[0][0], 9); gen_n(g, &b[0][0], 9);
    g.notev("a", &a[0][0], 9); g.notev("b", &b[0][0], 9);
    memcpy(a0, a, sizeof a); memcpy(b0, b, sizeof b);
    const ld e = 4 * ov::eps<T>();
    auto check = [&](const T (*r)[3], const T (*p)[3], const T (*q)[3], const char* how) {
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            ld want = 0, tol = 0;
            for (int k = 0; k < 3; k++) { const ld x = (ld) p[i][k] * q[k][j]; want += x; tol += fabsl(x); }
            CLOSE(r[i][j], want, tol * e + tiny<T>(), "product element %d,%d (%s)", i, j, how);
        }
    };
    ov::mxm(a, b, c); check(c, a0, b0, "separate output");
    REQUIRE(same(&a[0][0], &a0[0][0], 9) && same(&b[0][0], &b0[0][0], 9), "an input was modified");
    ov::mxm(a, b, a); check(a, a0, b0, "output is the first input");
    REQUIRE(same(&b[0][0], &b0[0][0], 9), "the other input was modified");
    memcpy(a, a0, sizeof a);
    ov::mxm(a, b, b); check(b, a0, b0, "output is the second input");
    REQUIRE(same(&a[0][0], &a0[0][0], 9), "the other input was modified");
    memcpy(c, a0, sizeof c);
    ov::mxm(c, c, c); check(c, a0, a0, "square in place");
    g.trivial(!rich(&a0[0][0], 9) || !rich(&b0[0][0], 9));
}
LAW(matrix_matrix_double, 600000) { matmat<double>(g); }
LAW(matrix_matrix_single, 600000) { matmat<float>(g); }

template <class T> void there_and_back(Gen& g) {
    const M R = rot(g.irange(0, 2), g.angle()) * rot(g.irange(0, 2), g.angle()) * rot(g.irange(0, 2), g.angle());
    T m[3][3], v[3], r[3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = (T) R.a[i][j];
    gen_n(g, v, 3);
    g.notev("m", &m[0][0], 9); g.notev("v", v, 3);
    ov::mxv(m, v, r); ov::imxv(m, r, r);
    const ld n = norm(vec(v));
    for (int i = 0; i < 3; i++) CLOSE(r[i], v[i], 20 * ov::eps<T>() * n + tiny<T>(), "rotation and its inverse");
    g.trivial(!rich(v, 3));
}
LAW(rotation_inverse_double, 200000) { there_and_back<double>(g); }
LAW(rotation_inverse_single, 200000) { there_and_back<float>(g); }
