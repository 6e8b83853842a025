#include "ref.h"
#include "forked.h"
#include "slalib.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <thread>
#include <sys/time.h>
PROPERTY("C28", "random gresid wait", "at least two calls of a generator are made")
// the library once more, compiled with SLALIB_THREAD_SAFE set (see tools/check.py)
namespace sla_mt { float random(float seed); float gresid(float stdev); }
static float seed(Gen& g) {
    switch (g.below(6)) {
        case 0: return (float) g.irange(-20, 100);
        case 1: return (float) g.logmag(-38, 38);
        case 2: return g.realf(-1e6f, 1e6f, {0, 1, -1, 0.5, 9, 99, 999999});
        case 3: return g.pick({0.0f, 1.0f, -1.0f, 3.4e38f, 1e-38f, 2.1623f, 2.16227f, 30.6228f, 123456.0f, -0.0f});
        default: return (float) g.uniform(0, 1e5);
    }
}
static uint32_t bits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
/// n values from a fresh process; later seeds come from the given list, cyclically
static void uniform_run(pbt::Shared<float>& out, size_t n, float s, const std::vector<float>& later, bool mix) {
    const int st = pbt::in_child([&] {
        for (size_t i = 0; i < n; i++) {
            out[i] = sla::random(i == 0 || later.empty()? s: later[i % later.size()]);
            if (mix && i % 3 == 1) { sla::permut(-1, nullptr, nullptr); volatile double d = sla::dranrm(7); (void) d; }
        }
    });
    if (st) throw pbt::Fail{pbt::fmt("the process ended abnormally (wait status %d)", st)};
}
LAW(uniform_history, 3000) {
    const float s = seed(g);
    const size_t n = 2 + g.below(60);
    std::vector<float> l1, l2;
    for (int i = (int) g.below(5); i--;) l1.push_back(seed(g));
    for (int i = (int) g.below(5); i--;) l2.push_back(seed(g));
    g.note("seed", s); g.note("calls", (int) n);
    pbt::Shared<float> a(n), b(n), c(n);
    uniform_run(a, n, s, l1, false);
    uniform_run(b, n, s, l2, true);
    for (size_t i = 0; i < n; i++) {
        REQUIRE(a[i] >= 0 && a[i] < 1, "call %zu returned %.9g", i, (double) a[i]);
        REQUIRE(bits(a[i]) == bits(b[i]), "call %zu returned %.9g or %.9g depending on a later seed", i, (double) a[i], (double) b[i]);
    }
    // a first seed of clearly different magnitude selects another sequence
    const ld m = (fabsl(s) + 1) * g.uniform(1.5, 5);
    if (m < 3e38L && n >= 8) {
        const float s2 = (float) (m - 1);
        uniform_run(c, n, s2, l1, false);
        size_t same = 0;
        for (size_t i = 0; i < n; i++) same += bits(a[i]) == bits(c[i]);
        REQUIRE(same < n / 2, "%zu of %zu values equal for first seeds %.9g and %.9g", same, n, (double) s, (double) s2);
    }
}
static void statistics(Gen& g, const float* x, size_t n) {
    // all thresholds are beyond 6.5 standard deviations of the statistic under independence
    ld sum = 0, sq = 0;
    std::vector<long> bin(64), pair(256);
    for (size_t i = 0; i < n; i++) {
        REQUIRE(x[i] >= 0 && x[i] < 1, "value %zu is %.9g", i, (double) x[i]);
        const ld d = x[i] - 0.5L;
        sum += d; sq += d * d;
        bin[(int) (x[i] * 64)]++;
        if (i % 2) pair[(int) (x[i] * 16) * 16 + (int) (x[i - 1] * 16)]++;
    }
    REQUIRE(fabsl(sum) < 6.5L * sqrtl(n / 12.0L), "mean %.6Lg", 0.5L + sum / n);
    REQUIRE(fabsl(sq / n - 1 / 12.0L) < 6.5L * sqrtl(1 / 180.0L / n), "variance %.6Lg", sq / n);
    ld chi = 0, chi2 = 0;
    for (long b: bin) chi += (b - n / 64.0L) * (b - n / 64.0L) / (n / 64.0L);
    for (long b: pair) chi2 += (b - n / 512.0L) * (b - n / 512.0L) / (n / 512.0L);
    REQUIRE(chi < 63 + 7 * sqrtl(126.0L) + 20, "chi-squared over 64 intervals %.4Lg", chi);
    REQUIRE(chi2 < 255 + 7 * sqrtl(510.0L) + 20, "chi-squared over 16x16 pairs %.4Lg", chi2);
    for (size_t lag: {1, 2, 3, 4, 5, 7, 16}) {
        ld c = 0;
        for (size_t i = lag; i < n; i++) c += (x[i] - 0.5L) * (x[i - lag] - 0.5L);
        REQUIRE(fabsl(c) < 6.5L * sqrtl((ld) n) / 12, "correlation at lag %zu: %.6Lg", lag, 12 * c / n);
    }
}
LAW(uniform_distribution, 300) {
    const float s = seed(g);
    const size_t n = 20000 + g.below(60000);
    g.note("seed", s); g.note("calls", (int) n);
    pbt::Shared<float> a(n);
    uniform_run(a, n, s, {}, false);
    statistics(g, a.p, n);
}
/// n deviates from a fresh process
static void normal_run(pbt::Shared<float>& out, size_t n, const std::vector<float>& sd, bool mix) {
    const int st = pbt::in_child([&] {
        for (size_t i = 0; i < n; i++) {
            out[i] = sla::gresid(sd[i % sd.size()]);
            if (mix && i % 5 == 2) { volatile double d = sla::drange(9); (void) d; }
        }
    });
    if (st) throw pbt::Fail{pbt::fmt("the process ended abnormally (wait status %d)", st)};
}
LAW(normal_scaling, 3000) {
    const size_t n = 2 + g.below(200);
    std::vector<float> sd;
    for (int i = 1 + (int) g.below(7); i--;) sd.push_back(g.chance(1, 6)? g.realf(0, 10, {0, 0.5, 1, 2, 0.25}): (float) std::fabs(g.logmag(-20, 20)));
    g.note("calls", (int) n); g.notev("deviations", sd.data(), (int) sd.size());
    pbt::Shared<float> a(n), b(n);
    normal_run(a, n, {1.0f}, false);
    normal_run(b, n, sd, true);
    for (size_t i = 0; i < n; i++) {
        const ld want = (ld) a[i] * sd[i % sd.size()];
        REQUIRE(std::isfinite(a[i]) && std::fabs(a[i]) < 8, "unit deviate %zu is %.9g", i, (double) a[i]);
        CLOSE(b[i], want, fabsl(want) * 1.2e-7L + 1e-44L, "deviate %zu is not the unit deviate times the deviation", i);
    }
}
LAW(normal_distribution, 60) {
    const size_t n = 60000 + g.below(pbt::g_thorough? 2000000: 200000), skip = g.below(100000);
    const float sd = g.chance(1, 2)? 1: (float) std::fabs(g.logmag(-6, 6));
    g.note("calls", (int) n); g.note("after", (int) skip); g.note("deviation", sd);
    pbt::Shared<float> a(n + skip);
    normal_run(a, n + skip, {sd}, false);
    const float* x = a.p + skip;
    ld m1 = 0, m2 = 0, m3 = 0, m4 = 0, big = 0;
    std::vector<long> bin(32);
    std::vector<ld> u(n);
    for (size_t i = 0; i < n; i++) {
        const ld d = u[i] = x[i] / (ld) sd;
        m1 += d; m2 += d * d; m3 += d * d * d; m4 += d * d * d * d;
        big = std::max(big, fabsl(d));
        bin[std::min(31, (int) (32 * 0.5L * erfcl(-d / sqrtl(2))))]++;
    }
    const ld r = sqrtl((ld) n);
    REQUIRE(fabsl(m1 / n) < 6.5L / r, "mean %.6Lg", m1 / n);
    REQUIRE(fabsl(m2 / n - 1) < 6.5L * sqrtl(2) / r, "variance %.6Lg", m2 / n);
    REQUIRE(fabsl(m3 / n) < 6.5L * sqrtl(15) / r, "third moment %.6Lg", m3 / n);
    REQUIRE(fabsl(m4 / n - 3) < 7 * sqrtl(96) / r, "fourth moment %.6Lg", m4 / n);
    REQUIRE(big > 3.2L && big < 8, "largest deviate %.6Lg", big);
    ld chi = 0;
    for (long b: bin) chi += (b - n / 32.0L) * (b - n / 32.0L) / (n / 32.0L);
    REQUIRE(chi < 31 + 7 * sqrtl(62.0L) + 20, "chi-squared over 32 equal classes %.4Lg", chi);
    for (size_t lag: {1, 2, 3, 4}) {
        ld c = 0, c2 = 0;
        for (size_t i = lag; i < n; i++) { c += u[i] * u[i - lag]; c2 += (u[i] * u[i] - 1) * (u[i - lag] * u[i - lag] - 1); }
        REQUIRE(fabsl(c) < 6.5L * r, "correlation at lag %zu: %.6Lg", lag, c / n);
        REQUIRE(fabsl(c2) < 8 * 2 * r, "correlation of squares at lag %zu: %.6Lg", lag, c2 / n / 2);
    }
}
LAW(threads, 1500) {
    // built thread-safe, every thread has generators of its own: each behaves as a fresh process would
    const int T = 2 + (int) g.below(5);
    const size_t n = 2 + g.below(g.chance(1, 4)? 4000: 300);
    std::vector<float> s(T), sd(T);
    for (int t = 0; t < T; t++) { s[t] = t > 0 && g.chance(1, 3)? s[t - 1]: seed(g); sd[t] = (float) (1 + g.below(3)); }
    g.note("threads", T); g.note("calls", (int) n); g.notev("seeds", s.data(), T);
    pbt::Shared<float> u(T * n), v(T * n), wu(n), wv(n);
    const unsigned jitter = (unsigned) g.below(4);
    const int st = pbt::in_child([&] {
        std::vector<std::thread> th;
        std::atomic<int> ready{0};
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
            ready++;
            while (ready < T) std::this_thread::yield();
            for (size_t i = 0; i < n; i++) {
                u[t * n + i] = sla_mt::random(i == 0? s[t]: 5);
                v[t * n + i] = sla_mt::gresid(sd[t]);
                if (jitter && i % (16 << jitter) == (size_t) t) std::this_thread::yield();
            }
        });
        for (auto& x: th) x.join();
    });
    REQUIRE(st == 0, "wait status %d", st);
    for (int t = 0; t < T; t++) {
        REQUIRE(pbt::in_child([&] { for (size_t i = 0; i < n; i++) { wu[i] = sla::random(i == 0? s[t]: 5); wv[i] = sla::gresid(sd[t]); } }) == 0, "abnormal end");
        for (size_t i = 0; i < n; i++) {
            REQUIRE(bits(u[t * n + i]) == bits(wu[i]), "thread %d, call %zu: uniform %.9g, alone %.9g", t, i, (double) u[t * n + i], (double) wu[i]);
            REQUIRE(bits(v[t * n + i]) == bits(wv[i]), "thread %d, call %zu: normal %.9g, alone %.9g", t, i, (double) v[t * n + i], (double) wv[i]);
        }
    }
}
static void on_signal(int) {}
LAW(delay, 8) {
    // several delays at once, each in a process of its own, some of them interrupted by signals
    const int N = 6;
    float s[N];
    bool sig[N];
    for (int i = 0; i < N; i++) {
        s[i] = g.chance(1, 4)? g.pick({0.0f, -1.0f, -100.0f, 0.49f, -0.5f, 0.5f, 1.5f, 0.51f}): g.chance(1, 6)? (float) -std::fabs(g.logmag(-3, 6)): (float) g.uniform(0, 2.4);
        sig[i] = g.chance(1, 3);
    }
    g.notev("seconds", s, N);
    pbt::Shared<double> took(N);
    pid_t pid[N];
    fflush(nullptr);
    for (int i = 0; i < N; i++) if (!(pid[i] = fork())) {
        if (sig[i]) {
            struct sigaction sa;
            std::memset(&sa, 0, sizeof sa);
            sa.sa_handler = on_signal;
            sigaction(SIGALRM, &sa, nullptr);
            const itimerval it{{0, 70000}, {0, 70000}};
            setitimer(ITIMER_REAL, &it, nullptr);
        }
        const auto t0 = std::chrono::steady_clock::now();
        sla::wait(s[i]);
        took[i] = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        _exit(0);
    }
    for (int i = 0; i < N; i++) { int st; while (waitpid(pid[i], &st, 0) < 0) {} REQUIRE(st == 0, "delay %d ended with wait status %d", i, st); }
    for (int i = 0; i < N; i++) {
        const double want = std::max(0.0, std::round((double) s[i]));
        REQUIRE(took[i] >= want - 0.002, "wait(%.9g)%s took %.4f s", (double) s[i], sig[i]? " with signals": "", took[i]);
        // generous: a loaded machine delays the wake-up
        REQUIRE(took[i] <= want + 20, "wait(%.9g) took %.4f s", (double) s[i], took[i]);
    }
}
LAW(version, 50) {
    const char* v = sla::vers();
    const int i = sla::veri();
    g.note("version", v); g.note("number", i);
    int a = -1, b = -1, c = -1, end = -1;
    REQUIRE(sscanf(v, "%d.%d-%d%n", &a, &b, &c, &end) == 3 && end == (int) std::strlen(v), "'%s' is not of the form M.N-R", v);
    REQUIRE(std::string(v) == pbt::fmt("%d.%d-%d", a, b, c), "'%s' has superfluous characters", v);
    REQUIRE(b >= 0 && b < 1000 && c >= 0 && c < 1000 && i == a * 1000000 + b * 1000 + c, "'%s' but %d", v, i);
    REQUIRE(a == SLALIB_PACKAGE_VERSION_MAJOR && b == SLALIB_PACKAGE_VERSION_MINOR && c == SLALIB_PACKAGE_VERSION_RELEASE, "'%s' is not the version of the package", v);
    for (int k = (int) g.below(5); k--;) REQUIRE(sla::veri() == i && !std::strcmp(sla::vers(), v), "the version changes");
}
