#include "engine.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <chrono>
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

std::vector<double> g_dict;
static std::vector<double> g_common;
static std::map<std::string, std::vector<double>> g_stem;
void aim(int law) {
    static const void* now = nullptr;
    const char* stem = laws()[law].stem;
    const auto it = stem? g_stem.find(stem): g_stem.end();
    const std::vector<double>& want = it == g_stem.end()? g_common: it->second;
    if (now != &want) { g_dict = want; now = &want; }
}
bool g_thorough = false;

std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

std::vector<Law>& laws() { static std::vector<Law> l; return l; }

static double ulps(double v, int n) {
    for (; n > 0; n--) v = std::nextafter(v, HUGE_VAL);
    for (; n < 0; n++) v = std::nextafter(v, -HUGE_VAL);
    return v;
}

double Gen::real(double lo, double hi, const std::vector<double>& sp) {
    double v = 0;
    bool done = false;
    if (below(28) == 27) {
        if (m_nrecent && below(4)) {
            v = m_recent[below(std::min(m_nrecent, 6u))];
            switch (below(7)) {
            case 1: case 2: v = -v; break;
            case 3: v = ulps(v, irange(-2, 2)); break;
            case 4: v += below(2)? (double) PI: (double) -PI; break;
            case 5: v *= 1.0 + (u01() - 0.5) * std::pow(10.0, -uniform(3.0, 12.0)); break;
            }
        } else v = irange(-8, 8) * (below(3)? 1.0: 0.5);
        done = v >= lo && v <= hi;
    }
    if (!done) v = fresh(lo, hi, sp);
    m_recent[m_nrecent++ % 6] = v;
    return v;
}
double Gen::fresh(double lo, double hi, const std::vector<double>& sp) {
    const uint64_t k = below(64);
    double v;
    if (k < 22 || hi <= lo) return uniform(lo, hi);
    auto special = [&]() -> double {
        const size_t n = sp.size() + 3;
        const size_t i = below(n);
        if (i < sp.size()) return sp[i];
        return i == sp.size()? lo: i == sp.size() + 1? hi: 0.0;
    };
    if (k < 31) v = special();
    else if (k < 37) v = ulps(special(), irange(-3, 3));
    else if (k < 44) { v = special(); const double m = std::pow(10.0, -uniform(0.0, 17.0)); const double sc = below(2)? 1.0: std::max(1.0, std::fabs(v)); v += (below(2)? m: -m) * sc; }
    else if (k < 50) {
        if (g_dict.empty()) return uniform(lo, hi);
        v = g_dict[below(g_dict.size())];
        const int how = irange(0, 7);
        if (how == 1) v = -v;
        else if (how == 2) v = ulps(v, irange(-2, 2));
        else if (how == 3) v += (below(2)? 1: -1) * std::pow(10.0, -uniform(0.0, 14.0)) * std::max(1.0, std::fabs(v));
        else if (how == 4) v *= 1.0 + (u01() - 0.5) * 0.02;
        else if (how == 5) v *= (double) (PI / 180);
        if (!(v >= lo && v <= hi)) return uniform(lo, hi);
    } else if (k < 57) {
        v = uniform(lo, hi);
        const double p = std::pow(10.0, irange(-2, 4));
        v = std::round(v * p) / p;
    } else {
        const double m = std::max(std::fabs(lo), std::fabs(hi));
        v = m * std::pow(10.0, -uniform(0.0, 12.0));
        if (lo < 0 && below(2)) v = -v;
        if (lo > 0) { v = lo * std::pow(hi / lo, u01()); }
    }
    if (!(v >= lo)) v = lo;
    if (v > hi) v = hi;
    if (v == 0 && lo < 0 && hi > 0 && (k & 1)) v = -0.0;
    return v;
}

float Gen::realf(float lo, float hi, const std::vector<double>& sp) {
    float v = (float) real(lo, hi, sp);
    const int k = irange(0, 7);
    if (k == 6) v = std::nextafterf(v, HUGE_VALF);
    if (k == 7) v = std::nextafterf(v, -HUGE_VALF);
    if (!(v >= lo)) v = lo;
    if (v > hi) v = hi;
    return v;
}

int Gen::integer(int lo, int hi, const std::vector<int>& sp) {
    const uint64_t k = below(32);
    int64_t v;
    if (k < 12) return irange(lo, hi);
    if (k < 20 && !sp.empty()) v = sp[below(sp.size())];
    else if (k < 24 && !sp.empty()) v = (int64_t) sp[below(sp.size())] + irange(-2, 2);
    else if (k < 26) v = below(2)? hi: lo;
    else if (k < 28 && !g_dict.empty()) { const double d = g_dict[below(g_dict.size())]; if (!(std::fabs(d) < 2e9)) return irange(lo, hi); v = (int64_t) d + irange(-1, 1); }
    else { const double m = std::max(std::fabs((double) lo), std::fabs((double) hi)); v = (int64_t) (m * std::pow(10.0, -uniform(0.0, 9.0))); if (lo < 0 && below(2)) v = -v; }
    if (v < lo || v > hi) return irange(lo, hi);
    return (int) v;
}

double Gen::angle(double span) {
    static const std::vector<double> sp = {0, M_PI_2, -M_PI_2, M_PI, -M_PI, 2 * M_PI, -2 * M_PI, M_PI_4, 1.0, 3 * M_PI_2};
    return span == 6.283185307179586 && below(40) == 39? real(-60 * span, 60 * span, sp): real(-span, span, sp);
}
float Gen::anglef(float span) {
    static const std::vector<double> sp = {0, M_PI_2, -M_PI_2, M_PI, -M_PI, 2 * M_PI, -2 * M_PI, M_PI_4, 1.0};
    return span == 6.2831855f && below(40) == 39? realf(-20 * span, 20 * span, sp): realf(-span, span, sp);
}
double Gen::lat() {
    static const std::vector<double> sp = {0, M_PI_4, -M_PI_4};
    return real(-M_PI_2, M_PI_2, sp);
}
float Gen::latf() {
    static const std::vector<double> sp = {0, M_PI_4};
    return realf(-1.57079632f, 1.57079632f, sp);
}
double Gen::gauss() {
    double s = 0;
    for (int i = 0; i < 4; i++) s += u01();
    return (s - 2.0) * 1.7320508;
}

// ---------------------------------------------------------------- runner

static uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull;
    return h;
}
static uint64_t case_seed(uint64_t seed, const char* law, uint64_t i) {
    uint64_t s = seed * 0xD1342543DE82EF95ull + hash_str(law);
    splitmix(s);
    s ^= i * 0x9E3779B97F4A7C15ull;
    splitmix(s);
    return s;
}

struct Slot {          // one per worker, in shared memory
    volatile int law;
    volatile long idx;
    volatile long done;
    volatile int failed;
    char msg[2048];
};

struct Options {
    uint64_t seed = 1;
    double scale = 1.0, cap = 600;
    int jobs = 8;
    std::string out, dict, replay, replay_out, only, tmp = "/tmp";
} opt;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Item { int law; std::vector<uint64_t> tape; bool seeded = false; uint64_t seed = 0; };

static std::vector<uint64_t> expand(uint64_t seed, size_t n) {
    std::vector<uint64_t> t(n);
    for (auto& v: t) v = splitmix(seed);
    return t;
}

// runs items in a fresh child; returns 0 = all fine, 1 = the last one (or an earlier one) failed, with message
static int run_child(const std::vector<Item>& items, std::string& msg, std::string* notes = nullptr, double limit = 60, bool quiet = true, std::vector<size_t>* used = nullptr) {
    struct Box { char msg[4096]; char notes[8192]; int at; size_t used[64]; };
    Box* box = (Box*) mmap(nullptr, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    box->msg[0] = box->notes[0] = 0; box->at = -1;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (quiet) { const int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        for (size_t i = 0; i < items.size(); i++) {
            box->at = (int) i;
            Gen g = items[i].seeded? Gen(items[i].seed): Gen(items[i].tape);
            g.verbose = true;
            try {
                aim(items[i].law);
                laws()[items[i].law].fn(g);
            } catch (const Fail& f) {
                snprintf(box->msg, sizeof box->msg, "%s", f.msg.c_str());
                snprintf(box->notes, sizeof box->notes, "%s", g.notes.c_str());
                if (i < 64) box->used[i] = g.used();
                _exit(i + 1 == items.size()? 10: 11);
            } catch (const Discard&) {}
            snprintf(box->notes, sizeof box->notes, "%s", g.notes.c_str());
            if (i < 64) box->used[i] = g.used();
        }
        _exit(0);
    }
    const double t0 = now();
    int st = 0, res = 0;
    for (;;) {
        const pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); st = -1; break; }
        usleep(now() - t0 < 0.05? 200: 5000);
    }
    if (st == -1) { res = 1; msg = "the call does not return (endless loop)"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = 0;
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11)) { res = 1; msg = box->msg; }
    else if (WIFSIGNALED(st)) { res = 1; msg = fmt("the process was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
    else { res = 1; msg = fmt("the process ended with status %d (assertion or sanitizer report)", WIFEXITED(st)? WEXITSTATUS(st): -1); }
    if (notes) *notes = box->notes;
    if (used) used->assign(box->used, box->used + std::min<size_t>(64, items.size()));
    munmap(box, sizeof(Box));
    return res;
}

static void shrink(std::vector<Item>& items, double budget) {
    const double t0 = now();
    std::string m;
    auto fails = [&](const std::vector<Item>& c) { return now() - t0 < budget && run_child(c, m, nullptr, 20) != 0; };
    // history first
    for (bool again = true; again && items.size() > 1;) {
        again = false;
        for (size_t chunk = std::max<size_t>(1, (items.size() - 1) / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + 1 < items.size();) {
                std::vector<Item> c = items;
                const size_t n = std::min(chunk, c.size() - 1 - i);
                c.erase(c.begin() + i, c.begin() + i + n);
                if (fails(c)) { items = c; again = true; } else i += n;
            }
            if (chunk == 1) break;
        }
        if (now() - t0 > budget) return;
    }
    if (items.size() > 64) return;
    {   // turn seeds into explicit tapes, cut to the draws actually made
        std::vector<size_t> used;
        run_child(items, m, nullptr, 20, true, &used);
        std::vector<Item> c = items;
        for (size_t i = 0; i < c.size(); i++) if (c[i].seeded) { c[i].seeded = false; c[i].tape = expand(c[i].seed, used[i]? used[i]: 20000); }
        if (run_child(c, m, nullptr, 20) == 0) return;
        items = c;
    }
    for (size_t it = 0; it < items.size(); it++) {
        bool again = true;
        for (int round = 0; again && round < 6; round++) {
            again = false;
            // drop the tail, then blocks
            for (size_t n = items[it].tape.size(); n > 0; n /= 2) {
                std::vector<Item> c = items;
                if (c[it].tape.size() < n) continue;
                c[it].tape.resize(c[it].tape.size() - n);
                if (fails(c)) { items = c; again = true; }
            }
            for (size_t blk = 8; blk >= 1; blk /= 2) {
                for (size_t i = 0; i < items[it].tape.size();) {
                    std::vector<Item> c = items;
                    const size_t n = std::min(blk, c[it].tape.size() - i);
                    c[it].tape.erase(c[it].tape.begin() + i, c[it].tape.begin() + i + n);
                    if (fails(c)) { items = c; again = true; } else i += n;
                    if (now() - t0 > budget) return;
                }
            }
            for (size_t i = 0; i < items[it].tape.size(); i++) {
                uint64_t& ref = items[it].tape[i];
                if (ref == 0) continue;
                auto attempt = [&](uint64_t v) {
                    if (v == items[it].tape[i]) return false;
                    std::vector<Item> c = items;
                    c[it].tape[i] = v;
                    if (fails(c)) { items = c; again = true; return true; }
                    return false;
                };
                if (attempt(0)) continue;
                if (ref > 4096) { attempt(ref % 64); }
                // clear low bits (uniform draws become round), then halve small numbers
                if (ref > 4096) {
                    for (int b = 60; b >= 12; b -= 6) if (attempt(ref >> b << b)) break;
                } else {
                    for (uint64_t s = ref / 2; s > 0; s /= 2) if (ref >= s) attempt(ref - s);
                }
                if (now() - t0 > budget) return;
            }
        }
    }
}

static std::string json_esc(const std::string& s) {
    std::string o;
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += (char) c;
    }
    return o;
}

static void write_replay(const std::string& path, const std::vector<Item>& items, const std::string& msg, const std::string& notes) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "# property %s: %s\n# inputs: %s\n", g_property, msg.c_str(), notes.c_str());
    fprintf(f, "@dict");
    for (double v: g_common) fprintf(f, " %a", v);
    fprintf(f, "\n");
    for (const auto& it: items) {
        const char* stem = laws()[it.law].stem;
        if (!stem || !g_stem.count(stem)) continue;
        fprintf(f, "@stem %s", stem);
        for (double v: g_stem[stem]) fprintf(f, " %a", v);
        fprintf(f, "\n");
    }
    for (const auto& it: items) {
        fprintf(f, "%s", laws()[it.law].name);
        if (it.seeded) fprintf(f, " seed %llx", (unsigned long long) it.seed);
        for (uint64_t v: it.tape) fprintf(f, " %llx", (unsigned long long) v);
        fprintf(f, "\n");
    }
    fclose(f);
}

static std::vector<Item> read_replay(const std::string& path) {
    std::vector<Item> items;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) { perror(path.c_str()); exit(3); }
    std::string text;
    char buf[65536];
    for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) text.append(buf, n);
    fclose(f);
    size_t p = 0;
    while (p < text.size()) {
        const size_t e = std::min(text.find('\n', p), text.size());
        std::string line = text.substr(p, e - p);
        p = e + 1;
        if (line.empty() || line[0] == '#') continue;
        Item it{-1, {}};
        char* save = nullptr;
        char* tok = strtok_r(&line[0], " ", &save);
        if (!strcmp(tok, "@dict")) {
            g_common.clear();
            while ((tok = strtok_r(nullptr, " ", &save))) g_common.push_back(strtod(tok, nullptr));
            continue;
        }
        if (!strcmp(tok, "@stem")) {
            std::vector<double>& d = g_stem[strtok_r(nullptr, " ", &save)];
            d.clear();
            while ((tok = strtok_r(nullptr, " ", &save))) d.push_back(strtod(tok, nullptr));
            continue;
        }
        for (size_t l = 0; l < laws().size(); l++) if (!strcmp(laws()[l].name, tok)) it.law = (int) l;
        if (it.law < 0) { fprintf(stderr, "unknown law %s\n", tok); exit(3); }
        while ((tok = strtok_r(nullptr, " ", &save)))
            if (!strcmp(tok, "seed")) { it.seeded = true; it.seed = strtoull(strtok_r(nullptr, " ", &save), nullptr, 16); }
            else it.tape.push_back(strtoull(tok, nullptr, 16));
        items.push_back(it);
    }
    return items;
}

struct Counts { long evals = 0, discards = 0, trivial = 0; std::map<std::string, long> classes; };

static void load_dict() {
    if (opt.dict.empty()) return;
    FILE* f = fopen(opt.dict.c_str(), "r");
    if (!f) return;
    char line[256], stem[128];
    double v;
    const std::string stems = std::string(" ") + g_stems + " ";
    const bool all = stems == " * ";
    while (fgets(line, sizeof line, f))
        if (sscanf(line, "%127s %lf", stem, &v) == 2) {
            if (all || stems.find(std::string(" ") + stem + " ") != std::string::npos) g_common.push_back(v);
            g_stem[stem].push_back(v);
        }
    fclose(f);
}

static int do_replay() {
    std::vector<Item> items = read_replay(opt.replay);
    std::string msg, notes;
    const int r = run_child(items, msg, &notes, 60, false);
    if (r) { printf("FAILS: %s\ninputs: %s\n", msg.c_str(), notes.c_str()); return 1; }
    printf("holds on this replay; inputs: %s\n", notes.c_str());
    return 0;
}

static int driver() {
    const int J = opt.jobs;
    std::vector<long> n;
    std::vector<int> sel;
    for (size_t l = 0; l < laws().size(); l++) {
        long c = (long) (laws()[l].cases * opt.scale);
        if (!opt.only.empty() && opt.only != laws()[l].name) c = 0;
        n.push_back(c > 0? std::max<long>(c, 1): 0);
    }
    const long maxn = *std::max_element(n.begin(), n.end());
    Slot* slots = (Slot*) mmap(nullptr, sizeof(Slot) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*) slots, 0, sizeof(Slot) * J);
    const double t0 = now();
    // cases of all laws are spread evenly over the run so that a time cap starves none of them
    auto visit = [&](int w, const std::function<bool(int, long)>& f) {
        for (long i = w; i < maxn; i += J)
            for (size_t l = 0; l < n.size(); l++) {
                const long a = (long) ((double) i * n[l] / maxn), b = (long) ((double) (i + 1) * n[l] / maxn);
                for (long c = a; c < b; c++) if (!f((int) l, c)) return;
            }
    };
    std::vector<pid_t> pids(J);
    fflush(nullptr);
    for (int w = 0; w < J; w++) {
        pids[w] = fork();
        if (pids[w] != 0) continue;
        prctl(PR_SET_PDEATHSIG, SIGKILL);   // never outlive the check
        const int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
        const int fe = open((opt.tmp + fmt("/w%d.err", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fe, 2);
        Slot& s = slots[w];
        std::vector<Counts> cnt(n.size());
        std::unordered_set<uint64_t> seen;
        long done = 0;
        visit(w, [&](int l, long c) {
            s.law = l; s.idx = c; s.done = done;
            Gen g(case_seed(opt.seed, laws()[l].name, (uint64_t) c));
            aim(l);
            try {
                laws()[l].fn(g);
                if (g.is_trivial() || g.nchecks() == 0) cnt[l].trivial++;
                else {
                    uint64_t h = 0x1234567 + l;
                    for (uint64_t v: g.tape()) { h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
                    if (seen.size() < 2000000) seen.insert(h);
                }
            } catch (const Fail& f) {
                snprintf(s.msg, sizeof s.msg, "%s", f.msg.c_str());
                s.failed = 1;
                _exit(10);
            } catch (const Discard&) { cnt[l].discards++; }
            for (const char* k: g.classes) cnt[l].classes[k]++;
            cnt[l].evals++;
            done++;
            return (done & 63) != 0 || now() - t0 < opt.cap;
        });
        FILE* f = fopen((opt.tmp + fmt("/w%d.cnt", w)).c_str(), "w");
        for (size_t l = 0; l < n.size(); l++) {
            fprintf(f, "L %zu %ld %ld %ld\n", l, cnt[l].evals, cnt[l].discards, cnt[l].trivial);
            for (auto& k: cnt[l].classes) fprintf(f, "C %zu %ld %s\n", l, k.second, k.first.c_str());
        }
        for (uint64_t h: seen) fprintf(f, "H %llx\n", (unsigned long long) h);
        fclose(f);
        _exit(0);
    }
    // wait; a worker that stops progressing for long is hanging inside one call
    std::vector<bool> alive(J, true);
    std::vector<long> last(J, -1);
    std::vector<double> since(J, now());
    int bad = -1;
    bool hang = false;
    for (int left = J; left > 0 && bad < 0;) {
        bool any = false;
        for (int w = 0; w < J && bad < 0; w++) {
            if (!alive[w]) continue;
            int st;
            const pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                alive[w] = false; left--; any = true;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = w;
            } else if (slots[w].done != last[w]) { last[w] = slots[w].done; since[w] = now(); }
            else if (now() - since[w] > 90) { bad = w; hang = true; }
        }
        if (!any && bad < 0) usleep(2000);
    }
    if (bad >= 0) {
        for (int w = 0; w < J; w++) if (alive[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
        const int fl = slots[bad].law;
        const long fc = slots[bad].idx;
        std::string wmsg = slots[bad].msg;
        if (hang) wmsg = "the call does not return";
        fprintf(stderr, "law %s case %ld failed in worker %d: %s\n", laws()[fl].name, fc, bad, wmsg.c_str());
        if (getenv("PBT_FIRST_FAILURE")) return 1;   // development aid (mutation trials): no shrinking, no replay file
        // collect the worker's history
        std::vector<std::pair<int, long>> hist;
        visit(bad, [&](int l, long c) { hist.push_back({l, c}); return !(l == fl && c == fc); });
        std::vector<Item> items;
        std::string msg, notes;
        bool ok = false;
        for (size_t k = 1; !ok; k = std::min(hist.size(), k * 8)) {
            items.clear();
            const size_t use = std::min(k, hist.size());
            for (size_t i = hist.size() - use; i < hist.size(); i++) items.push_back({hist[i].first, {}, true, case_seed(opt.seed, laws()[hist[i].first].name, (uint64_t) hist[i].second)});
            ok = run_child(items, msg, &notes, 120) != 0;
            if (use == hist.size() || use > 40000) break;
        }
        if (!ok) {
            fprintf(stderr, "not reproducible from the recorded cases; not reported\n");
            FILE* f = fopen(opt.out.c_str(), "w");
            fprintf(f, "{\"status\": \"unreproduced\", \"message\": \"%s\"}\n", json_esc(wmsg).c_str());
            fclose(f);
            return 4;
        }
        shrink(items, 25);
        run_child(items, msg, &notes, 120);
        write_replay(opt.replay_out, items, msg, notes);
        int fails = 0;
        for (int i = 0; i < 3; i++) { std::string m; fails += run_child(items, m, nullptr, 120); }
        FILE* f = fopen(opt.out.c_str(), "w");
        fprintf(f, "{\"status\": \"%s\", \"law\": \"%s\", \"message\": \"%s\", \"inputs\": \"%s\", \"wall\": %.2f, \"done\": %ld}\n",
            fails == 3? "violation": "flaky", laws()[items.back().law].name, json_esc(msg).c_str(), json_esc(notes).c_str(), now() - t0, slots[bad].done);
        fclose(f);
        fprintf(stderr, "minimal failing case (%zu step%s): %s\n  inputs: %s\n", items.size(), items.size() == 1? "": "s", msg.c_str(), notes.c_str());
        return fails == 3? 1: 4;
    }
    // merge statistics
    std::vector<Counts> tot(n.size());
    std::unordered_set<uint64_t> all;
    long capped = 0;
    for (int w = 0; w < J; w++) {
        FILE* f = fopen((opt.tmp + fmt("/w%d.cnt", w)).c_str(), "r");
        if (!f) continue;
        char line[512];
        while (fgets(line, sizeof line, f)) {
            size_t l; long a, b, c; int off;
            if (line[0] == 'L' && sscanf(line, "L %zu %ld %ld %ld", &l, &a, &b, &c) == 4) { tot[l].evals += a; tot[l].discards += b; tot[l].trivial += c; }
            else if (line[0] == 'C' && sscanf(line, "C %zu %ld %n", &l, &a, &off) == 2) { std::string k = line + off; while (!k.empty() && k.back() == '\n') k.pop_back(); tot[l].classes[k] += a; }
            else if (line[0] == 'H') all.insert(strtoull(line + 2, nullptr, 16));
        }
        fclose(f);
    }
    FILE* f = fopen(opt.out.c_str(), "w");
    long ev = 0, dis = 0, triv = 0;
    fprintf(f, "{\"status\": \"ok\", \"rule\": \"%s\", \"laws\": {", json_esc(g_rule).c_str());
    for (size_t l = 0; l < n.size(); l++) {
        ev += tot[l].evals; dis += tot[l].discards; triv += tot[l].trivial;
        if (tot[l].evals < n[l]) capped++;
        fprintf(f, "%s\"%s\": {\"evaluations\": %ld, \"discarded\": %ld, \"trivial\": %ld, \"classes\": {", l? ", ": "", laws()[l].name, tot[l].evals, tot[l].discards, tot[l].trivial);
        bool first = true;
        for (auto& k: tot[l].classes) { fprintf(f, "%s\"%s\": %ld", first? "": ", ", json_esc(k.first).c_str(), k.second); first = false; }
        fprintf(f, "}}");
    }
    fprintf(f, "}, \"evaluations\": %ld, \"discarded\": %ld, \"trivial\": %ld, \"distinct_nontrivial\": %zu, \"laws_cut_by_time\": %ld, \"samples\": [", ev, dis, triv, all.size(), capped);
    bool first = true;
    for (size_t l = 0; l < n.size(); l++) {
        if (n[l] == 0) continue;
        for (long c = 0, got = 0; c < std::min<long>(n[l], 20) && got < 1; c++) {
            std::vector<Item> it(1);
            it[0] = {(int) l, {}, true, case_seed(opt.seed, laws()[l].name, (uint64_t) c)};
            std::string m, nt;
            if (run_child(it, m, &nt, 60) == 0 && !nt.empty()) { fprintf(f, "%s\"%s: %s\"", first? "": ", ", laws()[l].name, json_esc(nt.substr(0, 600)).c_str()); first = false; got++; }
        }
    }
    fprintf(f, "], \"wall\": %.2f}\n", now() - t0);
    fclose(f);
    return 0;
}

} // pbt

int main(int argc, char** argv) {
    using namespace pbt;
    for (int i = 1; i < argc; i++) {
        const std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc? argv[++i]: ""; };
        if (a == "--seed") opt.seed = strtoull(val(), nullptr, 10);
        else if (a == "--scale") opt.scale = atof(val());
        else if (a == "--cap") opt.cap = atof(val());
        else if (a == "--jobs") opt.jobs = atoi(val());
        else if (a == "--out") opt.out = val();
        else if (a == "--dict") opt.dict = val();
        else if (a == "--tmp") opt.tmp = val();
        else if (a == "--replay") opt.replay = val();
        else if (a == "--replay-out") opt.replay_out = val();
        else if (a == "--law") opt.only = val();
        else if (a == "--thorough") g_thorough = true;
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    load_dict();
    if (!opt.replay.empty()) return do_replay();
    return driver();
}
