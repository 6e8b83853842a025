#!/usr/bin/env python3
"""Builds the library from /repo's working tree, runs one property's laws, writes evidence.

  check.py Cxx [--thorough]        exit 0: held; exit 1: VIOLATION line printed
  check.py --setup                 prebuild everything
  check.py Cxx --replay FILE       re-run a saved failing case
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
PBT = os.path.join(ROOT, "pbt")
JOBS = os.cpu_count() or 4

VARIANTS = {
    "plain": "-O2",
    # same code under the address and undefined-behaviour sanitizers; locals start out as a pattern, not as zeros
    "asan": "-O1 -g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all "
            "-fno-omit-frame-pointer -ftrivial-auto-var-init=pattern",
    # concurrent calls observed by the race detector: two threads need not collide in time for a race to be seen
    "tsan": "-O1 -g1 -fsanitize=thread",
}
CLEAN_ENV = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS")}
CLEAN_ENV.update(CC="gcc", CXX="g++", LC_ALL="C.UTF-8",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
                 UBSAN_OPTIONS="print_stacktrace=1:exitcode=98",
                 TSAN_OPTIONS="halt_on_error=1:exitcode=96:report_thread_leaks=0")

# development aid: other floating-point flags for the library only, to see how much room the tolerances leave
EXTRA = os.environ.get("VERIF_LIBFLAGS", "")

# properties whose laws run under the sanitizers as well, with the fraction of cases (quick, thorough)
ASAN = {"C30": (1.0, 1.0)}

# properties with laws that run under the thread sanitizer as well: law, scale (quick, thorough)
TSAN = {"C28": ("threads", 1.0, 10.0), "C29": ("concurrent", 1.5, 20.0)}

# properties that also need the library built thread-safe
THREAD_SAFE = {"C28"}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=CLEAN_ENV, **kw)
    if r.returncode != 0:
        sys.stdout.write("build step failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        sys.exit(2)
    return r.stdout


def tree_hash():
    h = hashlib.sha256(EXTRA.encode())
    names = []
    for base in ("src", "tests"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in files:
                if base == "src" or f == "CMakeLists.txt" or f.endswith(".cmake"):
                    names.append(os.path.join(d, f))
    names.append(os.path.join(REPO, "CMakeLists.txt"))
    for n in sorted(names):
        if os.path.isfile(n):
            h.update(n.encode() + b"\0")
            h.update(open(n, "rb").read())
    return h.hexdigest()[:16]


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def prune(prefix, keep, n):
    ds = [d for d in os.listdir(BUILD) if d.startswith(prefix) and d != keep]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in ds[:-n] if n else ds:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build_lib(variant, th):
    """libslalib.a of the current tree, through the project's own CMake files"""
    name = "lib-%s-%s" % (variant, th)
    d = os.path.join(BUILD, name)
    lib = os.path.join(d, "lib", "libslalib.a")
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(d)
        return lib
    prune("lib-%s-" % variant, name, 1)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    flags = VARIANTS[variant] + " " + EXTRA
    sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
        "-DCMAKE_CXX_FLAGS=-Wno-error " + flags, "-DCMAKE_C_FLAGS=" + flags])
    sh(["ninja", "-C", d, "slalib"])
    if not os.path.exists(lib):
        found = [os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs if f == "libslalib.a"]
        if not found:
            print("no libslalib.a was built")
            sys.exit(2)
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        shutil.copy(found[0], lib)
    open(os.path.join(d, "ok"), "w").close()
    return lib


def build_mt(variant, th):
    """the library compiled with SLALIB_THREAD_SAFE set, as namespace sla_mt, next to the ordinary one"""
    name = "mt-%s-%s" % (variant, th)
    d = os.path.join(BUILD, name)
    lib = os.path.join(d, "libslalib_mt.a")
    if os.path.exists(lib):
        os.utime(d)
        return lib
    prune("mt-%s-" % variant, name, 1)
    shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(d, "src")
    shutil.copytree(os.path.join(REPO, "src"), src)
    h = os.path.join(src, "slalib.h")
    text = open(h).read()
    open(h, "w").write(re.sub(r"(#\s*define\s+SLALIB_THREAD_SAFE)\s+\S+", r"\1 1", text))
    files = [f for f in sorted(os.listdir(src)) if f.endswith((".cc", ".cpp", ".cxx"))]
    def one(f):
        o = os.path.join(d, f + ".o")
        sh(["g++", "-std=c++17", "-w", "-Dsla=sla_mt"] + VARIANTS[variant].split() + ["-I" + src, "-c", os.path.join(src, f), "-o", o])
        return o
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, files))
    sh(["ar", "rcs", lib + ".tmp"] + objs)
    os.rename(lib + ".tmp", lib)
    return lib


def headers():
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(PBT) for f in fs if f.endswith((".h", ".inc")))


def build_obj(src, variant, extra=()):
    flags = ["-std=c++17", "-Wall", "-Wno-unused-function", "-I" + PBT, "-I" + os.path.join(REPO, "src")] + VARIANTS[variant].split()
    hs = headers() + [os.path.join(REPO, "src", "slalib.h")]
    key = file_hash([src] + hs, " ".join(flags))
    stem = os.path.splitext(os.path.basename(src))[0]
    o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (stem, variant, key))
    if os.path.exists(o):
        return o
    os.makedirs(os.path.dirname(o), exist_ok=True)
    for f in os.listdir(os.path.dirname(o)):
        if f.startswith("%s-%s-" % (stem, variant)):
            try: os.remove(os.path.join(os.path.dirname(o), f))
            except OSError: pass
    tmp = o + ".%d.tmp" % os.getpid()
    sh(["g++"] + flags + ["-c", src, "-o", tmp])
    os.rename(tmp, o)
    return o


def prop_src(pid):
    fs = [f for f in sorted(os.listdir(os.path.join(PBT, "props"))) if f.lower().startswith(pid.lower()) and f.endswith(".cc")]
    return os.path.join(PBT, "props", fs[0])


def build_binary(pid, variant, th, outdir):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fl = ex.submit(build_lib, variant, th)
        fe = ex.submit(build_obj, os.path.join(PBT, "engine.cc"), variant)
        fp = ex.submit(build_obj, prop_src(pid), variant)
        lib, eng, prop = fl.result(), fe.result(), fp.result()
    exe = os.path.join(outdir, "%s-%s" % (pid, variant))
    libs = [lib] + ([build_mt(variant, th)] if pid in THREAD_SAFE else [])
    sh(["g++"] + VARIANTS[variant].split() + [prop, eng] + libs + ["-lpthread", "-ldl", "-o", exe])
    return exe


def tsan_works(tmp):
    """the thread sanitizer needs an address-space layout that not every kernel setting gives it"""
    src, exe = os.path.join(tmp, "t.cc"), os.path.join(tmp, "t")
    open(src, "w").write("#include <thread>\nint main() { int a = 0; std::thread t([&] { a = 1; }); t.join(); return a - 1; }\n")
    sh(["g++", "-O1", "-fsanitize=thread", src, "-o", exe])
    return all(subprocess.run([exe], env=CLEAN_ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 for _ in range(3))


NUM = re.compile(r"(?<![\w.])(\d[\d']*\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)[fFlLuU]*")
UNITS = [(r"(?i)DEG|D2R", 0.017453292519943295), (r"(?i)ARCSEC|AS2R", 4.84813681109536e-06), (r"PI\b", 3.141592653589793)]
def write_dict(path):
    """numeric literals of the sources: values the generators should also try (aiming only, never an oracle)"""
    src = os.path.join(REPO, "src")
    with open(path, "w") as out:
        for f in sorted(os.listdir(src)):
            stem, ext = os.path.splitext(f)
            if ext not in (".cc", ".h"):
                continue
            text = open(os.path.join(src, f), errors="replace").read()
            text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
            text = re.sub(r"//[^\n]*", " ", text)
            text = re.sub(r'"(?:[^"\\]|\\.)*"', " ", text)
            text = re.sub(r"(?<=[0-9])'(?=[0-9])", "", text)
            vals, derived = set(), set()
            for m in NUM.finditer(text):
                try: v = float(m.group(1))
                except ValueError: continue
                if v == v and abs(v) < 1e300:
                    vals.add(v)
                    # a number written in degrees, arcseconds or parts of pi
                    line = text[text.rfind("\n", 0, m.start()) + 1:(text + "\n").find("\n", m.end())]
                    for pat, unit in UNITS:
                        if 0 < v < 400 / (1 if unit > 1e-3 else 1e-4) and re.search(pat, line):
                            derived.add(v * unit)
                            if unit > 3: derived.add(unit / v)
            vals = sorted(vals)
            if len(vals) > 160:       # big coefficient tables: keep the short (hand-written looking) numbers
                vals = sorted(vals, key=lambda v: (len("%.12g" % v), v))[:80]
            vals += sorted(derived)[:40]
            for v in vals:
                out.write("%s %r\n" % (stem, v))


def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if "--setup" in args:
        th = tree_hash()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(build_lib, "plain", th), ex.submit(build_lib, "asan", th), ex.submit(build_lib, "tsan", th), ex.submit(build_mt, "plain", th)]
            for f in sorted(os.listdir(os.path.join(PBT, "props"))):
                if f.endswith(".cc"):
                    fs.append(ex.submit(build_obj, os.path.join(PBT, "props", f), "plain"))
            for pid in TSAN: fs.append(ex.submit(build_obj, prop_src(pid), "tsan"))
            for v in VARIANTS:
                fs.append(ex.submit(build_obj, os.path.join(PBT, "engine.cc"), v))
            for f in fs:
                f.result()
        print("setup done")
        return 0
    pid = args[0].upper()
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    th = tree_hash()
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    try:
        return run(pid, args, thorough, tier, seed, t0, th, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, args, thorough, tier, seed, t0, th, tmp):
    dic = os.path.join(tmp, "dict.txt")
    write_dict(dic)
    plan = []                       # (variant, scale, cap seconds)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if pid in ASAN:
        plan.append(("asan", (40.0 if thorough else 2.0) * scale, 600 if thorough else 150))
    else:
        plan.append(("plain", (40.0 if thorough else 5.0) * scale, 500 if thorough else 150))
        if thorough:
            plan.append(("asan", 1.0 * scale, 200))
    if pid in TSAN and tsan_works(tmp):
        plan.append(("tsan", TSAN[pid][2 if thorough else 1] * scale, 400 if thorough else 150))
    if "--variant" in args:
        v = args[args.index("--variant") + 1]
        plan = [(v, scale, 300)]
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        var = ([v for v in VARIANTS if ".%s." % v in os.path.basename(f)] + [plan[0][0]])[0]
        exe = build_binary(pid, var, th, tmp)
        r = subprocess.run([exe, "--replay", f, "--dict", dic], env=CLEAN_ENV)
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return r.returncode
    total = dict(evaluations=0, distinct_nontrivial=0)
    runs, samples, rule, violation, problem = [], [], "", None, None
    for variant, sc, cap in plan:
        exe = build_binary(pid, variant, th, tmp)
        out = os.path.join(tmp, "out-%s.json" % variant)
        rep = os.path.join(rdir, "%s-%s-%d.%s.replay" % (pid, tier, seed, variant))
        cmd = [exe, "--seed", str(seed), "--scale", str(sc), "--cap", str(cap), "--jobs", str(JOBS), "--out", out,
               "--dict", dic, "--tmp", tmp, "--replay-out", rep]
        if thorough: cmd.append("--thorough")
        if variant == "tsan": cmd += ["--law", TSAN[pid][0]]
        elif "--law" in args: cmd += ["--law", args[args.index("--law") + 1]]
        for attempt in range(2):
            r = subprocess.run(cmd, env=CLEAN_ENV)
            if r.returncode != 4:
                break
            # seen once but not reproduced from its recorded case: run everything again before concluding
        try:
            res = json.load(open(out))
        except Exception as e:
            print("engine gave no result (%s), exit %d" % (e, r.returncode))
            return 2
        res["variant"] = variant
        if r.returncode == 1:
            violation = dict(variant=variant, replay=rep, law=res.get("law"), message=res.get("message"), inputs=res.get("inputs"))
            total["evaluations"] += res.get("done", 0) * JOBS
            break
        if r.returncode == 4:
            problem = res
            print("note: a failure was seen twice but did not replay: %s" % res.get("message"))
            break
        if r.returncode != 0:
            print("engine error %d" % r.returncode)
            return 2
        total["evaluations"] += res["evaluations"]
        total["distinct_nontrivial"] += res["distinct_nontrivial"]
        rule = res["rule"]
        samples += res["samples"] if not samples else []
        runs.append(res)
    if problem and not violation:
        # failing twice under the same seed although single cases pass: the behaviour depends on something uncontrolled
        rep = os.path.join(rdir, "%s-%s-%d.unstable.txt" % (pid, tier, seed))
        open(rep, "w").write("seed %d: %s\n" % (seed, problem.get("message")))
        violation = dict(variant="?", replay=rep, law="?", message=problem.get("message"), inputs="")
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct_nontrivial"],
                            rule=("each case is a tape of random draws decoded by a law's generator (uniform, special points, "
                                  "their neighbourhoods, source literals, log-scaled); distinct = different tapes; non-trivial: " + rule),
                            samples=samples or ["(violated) " + json.dumps(violation)],
                            laws={r["variant"]: r["laws"] for r in runs},
                            discarded={r["variant"]: r["discarded"] for r in runs},
                            laws_cut_by_time={r["variant"]: r["laws_cut_by_time"] for r in runs}),
              assumptions=["IEEE double/float arithmetic and 80-bit long double reference models",
                           "inputs restricted to the documented domains described in DESIGN.md"],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for line in open(os.path.join(ROOT, "known-findings.txt")) if os.path.exists(os.path.join(ROOT, "known-findings.txt")) else []:
        if line.startswith("known: property=%s " % pid):
            print("KNOWN-FINDING: " + line[len("known: "):].strip())
    if violation:
        print("law %s: %s\n  inputs: %s" % (violation["law"], violation["message"], violation["inputs"]))
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        return 1
    print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, tier, total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
    return 0


sys.exit(main())
