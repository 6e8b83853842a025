#include "registry.h"
#include "forked.h"
#include <algorithm>
#include <atomic>
#include <cfenv>
#include <thread>
PROPERTY("C29", "slalib nutc evp epv dmoon obs rcc refro svd fitxy dmat", "at least two library calls are made, in two histories that differ in order, prior contents of outputs and stack, or concurrency")
// The worker itself never calls the library: every history starts in a new process.
using reg::Call;
static bool structured(int fn) {
    static const std::vector<bool> s = [] {
        std::vector<bool> v(reg::COUNT);
        for (int f = 0; f < reg::COUNT; f++)
            for (const char* n: {"dmat", "smat", "svd", "svdsol", "svdcov", "fitxy", "pxy", "combn", "permut", "obs", "m2av", "dm2av", "veri", "vers"})
                if (!strcmp(n, reg::FUNCTIONS[f].name)) v[f] = true;
        return v;
    }();
    return s[fn];
}
/// same function, arguments that differ slightly or in one place only
static Call neighbour(Gen& g, const Call& k) {
    Call n = k;
    if (structured(k.fn) || k.args.empty()) return reg::generate(g, k.fn);
    const size_t i = g.below(k.args.size());
    double& x = n.args[i];
    if (x == std::floor(x) || g.chance(1, 4)) {
        const Call o = reg::generate(g, k.fn);
        if (o.args.size() == n.args.size()) x = o.args[i];
    } else switch (g.below(5)) {
        case 0: x = (float) x == x? std::nextafterf((float) x, 0): std::nextafter(x, 0); break;
        case 1: x = (float) x == x? (float) (x * (1 - 1e-6)): x * (1 - 1e-13); break;
        case 2: x *= 1 - 1e-9; break;
        case 3: x *= 1 - 1e-6; break;
        default: x *= 1 - 1e-3;
    }
    return n;
}
static std::vector<int> functions(Gen& g) {
    std::vector<int> f{(int) g.below(reg::COUNT)};
    for (int i = (int) g.below(4); i--;)
        f.push_back(g.chance(1, 2)? std::min(reg::COUNT - 1, std::max(0, f[0] + g.irange(-6, 6))): (int) g.below(reg::COUNT));
    return f;
}
static std::vector<Call> history(Gen& g, const std::vector<int>& fs, size_t n) {
    std::vector<Call> h;
    while (h.size() < n) {
        const int what = (int) g.below(4);
        if (h.empty() || what < 2) h.push_back(reg::generate(g, fs[g.below(fs.size())]));
        else if (what == 2) h.push_back(h[g.below(h.size())]);
        else h.push_back(neighbour(g, h[g.below(h.size())]));
    }
    return h;
}
constexpr size_t W = 160;
struct Rec { uint64_t n, w[W]; int intact, round, done; };
static void perform(const Call& k, uint64_t fill, Rec& r) {
    reg::Ctx c(k.args, fill);
    uint64_t s = fill;
    reg::dirty_stack(pbt::splitmix(s));
    reg::FUNCTIONS[k.fn].run(c);
    r.n = c.out.size();
    for (size_t i = 0; i < c.out.size(); i++) if (i < W) r.w[i] = c.out[i]; else r.w[i % W] = r.w[i % W] * 31 + c.out[i];
    r.intact = c.inputs_intact(); r.round = fegetround() == FE_TONEAREST; r.done = 1;
}
static void compare(Gen& g, const Call& k, const Rec& a, const Rec& b, const char* how) {
    const std::string d = reg::describe(k);
    REQUIRE(a.done && b.done, "%s was not completed (%s)", d.c_str(), how);
    REQUIRE(a.intact && b.intact, "%s modifies an input argument", d.c_str());
    REQUIRE(a.round && b.round, "%s changes the rounding mode", d.c_str());
    REQUIRE(a.n == b.n, "%s has %d or %d results, %s", d.c_str(), (int) a.n, (int) b.n, how);
    for (size_t i = 0; i < std::min<size_t>(a.n, W); i++) {
        double x, y; std::memcpy(&x, &a.w[i], 8); std::memcpy(&y, &b.w[i], 8);
        REQUIRE(a.w[i] == b.w[i], "result %d of %s is %.17g (%lld) or %.17g (%lld), %s", (int) i, d.c_str(), x, (long long) a.w[i], y, (long long) b.w[i], how);
    }
}
static void ended(int st, const char* what) { if (st) throw pbt::Fail{pbt::fmt("the process ended abnormally (wait status %d) during %s", st, what)}; }
static void note(Gen& g, const std::vector<Call>& h) { if (g.verbose) for (size_t i = 0; i < h.size() && i < 14; i++) g.note("call", reg::describe(h[i])); }
static void orders(Gen& g, const std::vector<Call>& h, bool singly) {
    const size_t n = h.size();
    const uint64_t f1 = g.raw(), f2 = g.raw();
    note(g, h);
    pbt::Shared<Rec> a(n), b(n);
    auto fill = [](uint64_t f, size_t i) { uint64_t s = f + i * 7919; return pbt::splitmix(s); };
    ended(pbt::in_child([&] { for (size_t i = 0; i < n; i++) perform(h[i], fill(f1, i), a[i]); }), "the first history");
    if (singly) for (size_t i = 0; i < n; i++) ended(pbt::in_child([&] { perform(h[i], fill(f2, i), b[i]); }), "a single call");
    else ended(pbt::in_child([&] { for (size_t i = n; i--;) perform(h[i], fill(f2, i), b[i]); }), "the reversed history");
    for (size_t i = 0; i < n; i++) compare(g, h[i], a[i], b[i], singly? "after the others or on its own": "depending on the calls before it or on what its outputs held");
}
LAW(reordered, 9000) {
    const auto fs = functions(g);
    orders(g, history(g, fs, 3 + g.below(12)), false);
}
LAW(alone, 1500) {
    const auto fs = functions(g);
    orders(g, history(g, fs, 2 + g.below(5)), true);
}
LAW(long_history, 400) {
    std::vector<int> fs{(int) g.below(reg::COUNT)};
    if (g.chance(1, 2)) fs.push_back((int) g.below(reg::COUNT));
    const size_t n = 200 + g.below(g.chance(1, 4)? 2000: 200);
    std::vector<Call> h;
    while (h.size() < n) {
        if (h.size() < 12) { h.push_back(g.chance(1, 3) && !h.empty()? neighbour(g, h[g.below(h.size())]): reg::generate(g, fs[h.size() % fs.size()])); continue; }
        h.push_back(h[(h.size() * 7 + h.size() / 5) % 12]);
    }
    orders(g, h, false);
}
LAW(every_function_mixed, 200) {
    // one call of each function in random order, then the same calls in reverse
    std::vector<Call> h;
    for (int f = 0; f < reg::COUNT; f++) h.push_back(reg::generate(g, f));
    for (size_t i = h.size() - 1; i > 0; i--) std::swap(h[i], h[g.below(i + 1)]);
    orders(g, h, false);
}
#ifdef __SANITIZE_THREAD__
constexpr size_t more_calls = 6;
constexpr int repetitions_quick = 2, repetitions_thorough = 12;  // unordered accesses are seen whenever they happen
#else
constexpr size_t more_calls = 0;
constexpr int repetitions_quick = 600, repetitions_thorough = 3000;
#endif
LAW(concurrent, 1500) {
    const int repetitions = pbt::g_thorough? repetitions_thorough: repetitions_quick;
    const size_t T = 2 + g.below(3);
    std::vector<int> fs{(int) g.below(reg::COUNT)};
    if (g.chance(1, 3)) fs.push_back((int) g.below(reg::COUNT));
    std::vector<std::vector<Call>> h(T);
    for (auto& v: h) for (size_t i = 0, n = 1 + more_calls + g.below(2); i < n; i++) v.push_back(reg::generate(g, fs[g.below(fs.size())]));
    const uint64_t f1 = g.raw(), f2 = g.raw();
    size_t total = 0;
    for (auto& v: h) { note(g, v); total += v.size(); }
    pbt::Shared<Rec> a(total), b(total);
    ended(pbt::in_child([&] { size_t k = 0; for (auto& v: h) for (auto& c: v) perform(c, f1 + k, a[k]), k++; }), "the sequential calls");
    // each thread keeps repeating its own calls and stops at the first result that differs
    ended(pbt::in_child([&] {
        std::atomic<int> ready{0}, stop{0};
        std::vector<std::thread> th;
        size_t base = 0;
        for (size_t t = 0; t < T; t++) {
            th.emplace_back([&, t, base] {
                std::vector<Rec> r(h[t].size());
                ready++;
                while (ready < (int) T) {}
                for (int rep = 0; !stop && rep < repetitions; rep++)
                    for (size_t i = 0; i < h[t].size(); i++) {
                        reg::Ctx c(h[t][i].args, f2 + rep);
                        reg::FUNCTIONS[h[t][i].fn].run(c);
                        Rec& q = b[base + i];
                        q.n = c.out.size();
                        for (size_t w = 0; w < c.out.size(); w++) if (w < W) q.w[w] = c.out[w]; else q.w[w % W] = q.w[w % W] * 31 + c.out[w];
                        q.intact = c.inputs_intact(); q.round = 1; q.done = 1;
                        const Rec& p = a[base + i];
                        if (q.n != p.n || std::memcmp(q.w, p.w, 8 * std::min<size_t>(W, p.n)) || !q.intact) { stop = 1; break; }
                    }
            });
            base += h[t].size();
        }
        for (auto& x: th) x.join();
    }), "the concurrent calls");
    size_t k = 0;
    for (auto& v: h) for (auto& c: v) { compare(g, c, a[k], b[k], "depending on calls in other threads"); k++; }
}
