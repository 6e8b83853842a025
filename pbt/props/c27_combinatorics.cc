#include "ref.h"
#include "slalib.h"
#include <climits>
#include <numeric>
#include <set>
#include <algorithm>
PROPERTY("C27", "combn permut", "more than one combination or permutation exists")
/// array of exactly the documented size between guard words
struct Guarded {
    std::vector<int> v;
    int n;
    Guarded(int n, int fill): v(n + 8, 0x5a5a5a5a), n(n) { for (int i = 0; i < n; i++) v[4 + i] = fill + i; }
    int* data() { return v.data() + 4; }
    std::vector<int> get() const { return {v.begin() + 4, v.begin() + 4 + n}; }
    bool intact() const { for (int i = 0; i < 4; i++) if (v[i] != 0x5a5a5a5a || v[4 + n + i] != 0x5a5a5a5a) return false; return true; }
};
static double choose(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::floor(r + 0.5); }
static std::vector<int> iota(int n) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 1); return v; }

LAW(all_combinations, 4000) {
    const double limit = g.chance(1, 40)? 60000: 2500;
    int n = 1 + (int) g.below(g.chance(1, 4)? 60: 14), k = 1 + (int) g.below(n);
    while (choose(n, k) > limit) { if (k > n / 2 && k < n) k++; else if (k <= n / 2 && k > 1) k--; else n--; if (k > n) k = n; }
    const int turns = choose(n, k) < 300? 3: 1;
    const int first = g.chance(1, 2)? 0: -(int) g.below(1000);
    g.note("choose", k); g.note("from", n); g.note("initial", first);
    Guarded a(k, 77);
    a.data()[0] = first;
    // a second, unrelated enumeration running in between must not disturb the first
    Guarded other(2, 5);
    other.data()[0] = 0;
    const bool interleave = g.chance(1, 3);
    const long total = (long) choose(n, k);
    std::vector<std::vector<int>> order;
    for (int t = 0; t < turns; t++) {
        std::set<std::vector<int>> seen;
        for (long i = 0; i < total; i++) {
            const sla::CPStatus s = sla::combn(k, n, a.data());
            if (interleave) sla::combn(2, 5, other.data());
            const std::vector<int> c = a.get();
            REQUIRE(a.intact(), "wrote outside the %d items", k);
            REQUIRE(s == (t > 0 && i == 0? sla::CPS_NO_MORE: sla::CPS_OK), "status %d at combination %ld of round %d", s, i, t);
            for (int j = 0; j < k; j++) REQUIRE(c[j] >= 1 && c[j] <= n && (j == 0 || c[j] > c[j - 1]), "item %d of combination %ld is %d", j, i, c[j]);
            REQUIRE(seen.insert(c).second, "combination %ld repeats an earlier one", i);
            if (t == 0) order.push_back(c); else REQUIRE(c == order[i], "round %d delivers a different sequence at %ld", t, i);
        }
        REQUIRE(order.front() == iota(k), "does not start with 1, 2, 3...");
    }
    REQUIRE(sla::combn(k, n, a.data()) == sla::CPS_NO_MORE, "end not reported after %ld combinations", total);
    REQUIRE(a.get() == iota(k), "does not start over with the first combination");
    g.trivial(total == 1);
}
LAW(next_combination, 400000) {
    // from any combination: the lowest item that can move up does, those below it restart
    const int n = g.chance(1, 10)? g.integer(1, INT_MAX, {INT_MAX, INT_MAX - 1, 1 << 30}): g.integer(1, g.chance(1, 20)? 1000: 200, {1, 2, 3});
    const int k = 1 + (int) g.below(std::min(n, g.chance(1, 60)? 400: g.chance(1, 4)? 60: 8));
    std::set<int> s;
    const bool top = g.chance(1, 3);
    const int fixed = top? (int) g.below(k + 1): 0;         // that many items at the very top
    for (int i = 0; i < fixed; i++) s.insert(n - i);
    const bool run = g.chance(1, 3);
    int run_at = 1 + (int) g.below(n - k + 1);
    while ((int) s.size() < k) { if (run) s.insert(run_at > n? (run_at = 1): run_at), run_at++; else s.insert(g.chance(1, 3)? 1 + (int) g.below(std::min(n, 2 * k)): 1 + (int) g.below(n)); }
    std::vector<int> c(s.begin(), s.end()), want = c;
    g.note("choose", k); g.note("from", n); g.notev("list", c.data(), k);
    Guarded a(k, 0);
    std::copy(c.begin(), c.end(), a.data());
    bool last = true;
    for (int i = 0; i < k && last; i++) {
        const long up = i + 1 < k? c[i + 1] - 1L: n;
        if (c[i] < up) { want[i]++; for (int j = 0; j < i; j++) want[j] = j + 1; last = false; }
    }
    if (last) want = iota(k);
    const sla::CPStatus st = sla::combn(k, n, a.data());
    REQUIRE(st == (last? sla::CPS_NO_MORE: sla::CPS_OK), "status %d", st);
    const std::vector<int> got = a.get();
    for (int i = 0; i < k; i++) REQUIRE(got[i] == want[i], "item %d is %d, expected %d", i, got[i], want[i]);
    REQUIRE(a.intact(), "wrote outside the %d items", k);
    g.trivial(n == k);
}
LAW(all_permutations, 400) {
    const int n = 1 + (int) (g.chance(1, pbt::g_thorough? 20: 60)? 7 + g.below(2): g.below(7));
    long total = 1;
    for (int i = 2; i <= n; i++) total *= i;
    const int turns = n <= 5? 3: 1;
    const int first = g.chance(1, 2)? -1: -1 - (int) g.below(100000);
    g.note("n", n); g.note("initial", first);
    Guarded state(n, 1000), order(n, 2000), ostate(3, 7), oorder(3, 7);
    state.data()[0] = first;
    ostate.data()[0] = -1;
    const bool interleave = g.chance(1, 3);
    std::vector<std::vector<int>> list;
    for (int t = 0; t < turns; t++) {
        std::set<std::vector<int>> seen;
        for (long i = 0; i < total; i++) {
            if (g.chance(1, 5)) for (int j = 0; j < n; j++) order.data()[j] = (int) g.below(2000) - 1000;     // the output array carries nothing over
            const sla::CPStatus s = sla::permut(n, state.data(), order.data());
            if (interleave) sla::permut(3, ostate.data(), oorder.data());
            std::vector<int> p = order.get(), q = p;
            REQUIRE(state.intact() && order.intact(), "wrote outside the %d items", n);
            REQUIRE(s == (t > 0 && i == 0? sla::CPS_NO_MORE: sla::CPS_OK), "status %d at permutation %ld of round %d", s, i, t);
            std::sort(q.begin(), q.end());
            REQUIRE(q == iota(n), "permutation %ld is not a permutation of 1..%d", i, n);
            REQUIRE(seen.insert(p).second, "permutation %ld repeats an earlier one", i);
            if (t == 0) list.push_back(p); else REQUIRE(p == list[i], "round %d delivers a different sequence at %ld", t, i);
        }
        std::vector<int> down = iota(n);
        std::reverse(down.begin(), down.end());
        REQUIRE(list.front() == down, "the first permutation is not n, n-1, ... 1");
        REQUIRE(list.back() == iota(n), "the last permutation is not 1, 2, ... n");
    }
    REQUIRE(sla::permut(n, state.data(), order.data()) == sla::CPS_NO_MORE, "end not reported after %ld permutations", total);
    REQUIRE(order.get() == list.front(), "does not start over with the first permutation");
    g.trivial(n == 1);
}
LAW(next_permutation, 200000) {
    // from any state of the mixed-radix counter, whatever the size: increment, then place n, n-1, ... into the free slots it names
    const int n = g.chance(1, 100)? 60 + (int) g.below(340): g.chance(1, 8)? 1 + (int) g.below(60): 1 + (int) g.below(14);
    Guarded state(n, 0), order(n, 3);
    std::vector<int> s(n);
    const int full = (int) g.below(n + 1);                // that many low digits at their maximum: a long carry
    for (int i = 0; i < n; i++) s[i] = i < full? i: (int) g.below(i + 1);
    std::copy(s.begin(), s.end(), state.data());
    g.note("n", n); g.notev("state", s.data(), n);
    bool over = true;
    for (int i = 0; i < n; i++) { if (s[i] < i) { s[i]++; over = false; break; } s[i] = 0; }
    std::vector<int> want(n, 0);
    for (int v = n; v >= 1; v--) {
        int skip = v >= 2? s[v - 1]: 0, slot = 0;
        for (;; slot++) if (want[slot] == 0 && skip-- == 0) break;
        want[slot] = v;
    }
    const sla::CPStatus st = sla::permut(n, state.data(), order.data());
    REQUIRE(st == (over? sla::CPS_NO_MORE: sla::CPS_OK), "status %d", st);
    const std::vector<int> got = order.get();
    for (int i = 0; i < n; i++) REQUIRE(got[i] == want[i], "item %d is %d, expected %d", i, got[i], want[i]);
    REQUIRE(state.intact() && order.intact(), "wrote outside the %d items", n);
    g.trivial(n == 1);
}
LAW(inadmissible, 100000) {
    const bool comb = g.chance(1, 2);
    Guarded a(6, (int) g.below(5) - 2), b(6, 40);
    const std::vector<int> a0 = a.get(), b0 = b.get();
    sla::CPStatus s;
    if (comb) {
        int k, n;
        switch (g.below(3)) {
            case 0: k = g.integer(INT_MIN, 0, {0, -1, INT_MIN}); n = g.integer(INT_MIN, INT_MAX, {0, 1, 5, INT_MAX}); break;
            case 1: k = g.integer(INT_MIN, INT_MAX, {0, 1, 5}); n = g.integer(INT_MIN, 0, {0, -1, INT_MIN}); break;
            default: n = g.integer(1, INT_MAX - 1, {1, 2, 5}); k = g.integer(n + 1, INT_MAX, {n + 1, INT_MAX});
        }
        g.note("choose", k); g.note("from", n);
        s = sla::combn(k, n, a.data());
    } else {
        const int n = g.integer(INT_MIN, 0, {0, -1, INT_MIN});
        g.note("n", n);
        s = sla::permut(n, a.data(), b.data());
    }
    REQUIRE(s == sla::CPS_INVALID_ARG, "status %d", s);
    REQUIRE(a.get() == a0 && b.get() == b0 && a.intact() && b.intact(), "the arrays were changed");
}
