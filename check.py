#!/usr/bin/env python3
"""Property checks for INNC.

  check.py setup                 build the harness from /repo's working tree
  check.py quick C01             the check to run on every change
  check.py thorough C01          more cases, plus coverage-guided fuzzing
  check.py replay FILE           re-run a saved failure

Exit 0: the property held on everything explored. Exit 1: VIOLATION line.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = os.cpu_count() or 8

# quick case counts: each about 20-25 s of search on 8 cores
CASES = {
    "C01": 80000, "C02": 60000, "C03": 200000, "C04": 300000, "C05": 180000,
    "C06": 110000, "C07": 200000, "C08": 160000, "C09": 34000, "C10": 34000,
    "C11": 36000, "C12": 12000, "C13": 34000, "C14": 8000, "C15": 22000,
    "C16": 9000, "C17": 22000, "C18": 12000, "C19": 6000,
}
THOROUGH_FACTOR = 25
FUZZ_SECONDS = 240

CXX = "clang++"
# allocation functions that the harness can make fail (the C++ library is linked
# statically so that its own allocations count), and the source of random seeds
WRAP = ["_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc", "calloc", "realloc",
        "_ZNSt13random_device9_M_getvalEv"]
BASE = ["-std=c++20", "-include", "algorithm", "-I", os.path.join(REPO, "include"), "-g1", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,null,bounds,return,unreachable,integer-divide-by-zero",
       "-fno-sanitize-recover=all"]
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=65:max_malloc_fill_size=1000000000:"
        "free_fill_byte=66:max_free_fill_size=100000:quarantine_size_mb=16:hard_rss_limit_mb=11000:"
        "max_allocation_size_mb=6000:handle_abort=1:detect_stack_use_after_return=0:symbolize=0:"
        "allocator_release_to_os_interval_ms=-1")


def sources():
    try:
        text = subprocess.run(["meson", "introspect", "--targets", "meson.build"], cwd=REPO, check=True,
                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        out = []
        for t in json.loads(text[text.index("["):]):
            if t["name"] == "INNC" and not t["subproject"]:
                for s in t["target_sources"]:
                    out += s["sources"]
        out = [s if os.path.isabs(s) else os.path.join(REPO, s) for s in out]
        if out and all(os.path.exists(s) for s in out):
            return sorted(set(out))
    except Exception:
        pass
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def tree_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    files = sources()
    for d in ("include", "src"):
        for root, _, names in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, n) for n in names]
    files += glob.glob(os.path.join(HERE, "harness", "*"))
    for f in sorted(set(files)):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("build failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        sys.exit(2)


def build(kind="quick"):
    """kind: quick (-O0 library), deep (-O2 library), fuzz (coverage-instrumented), tsan (for threads)"""
    SAN, wrap, hx = globals()["SAN"], WRAP, []
    if kind == "tsan":
        SAN, wrap, hx = ["-fsanitize=thread"], WRAP[-1:], ["-DTSAN", "-fsanitize=thread"]
    if kind == "fuzz":  # libFuzzer's own runtime needs the shared C++ library and malloc as they are
        wrap = [f for f in WRAP if f.startswith("_Z")]
    opt = {"quick": "-O0", "deep": "-O2"}.get(kind, "-O1")
    cov = ["-fsanitize=fuzzer-no-link"] if kind == "fuzz" else []
    key = tree_hash([kind, opt, SAN, BASE, CXX, wrap, hx, kind != "fuzz" and "static"])
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, kind + "-" + key)
    exe = os.path.join(d, "harness")
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, kind + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        srcs = sources()
        cmds, objs = [], []
        for i, s in enumerate(srcs):
            o = os.path.join(d, "lib%d.o" % i)
            cmds.append([CXX, *BASE, opt, *SAN, *cov, "-c", s, "-o", o])
            objs.append(o)
        for s in ("props.cpp", "main.cpp"):
            o = os.path.join(d, s + ".o")
            fz = ["-DFUZZ"] if kind == "fuzz" else []
            cmds.append([CXX, *BASE, "-O1", *fz, *hx, "-c", os.path.join(HERE, "harness", s), "-o", o])
            objs.append(o)
        # the longest compilations first
        cmds.sort(key=lambda c: -os.path.getsize(c[-3]) - (10**6 if "props.cpp" in c[-3] or "tensorImpl" in c[-3] else 0))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(run, cmds))
        link = SAN[0] + ",fuzzer" if kind == "fuzz" else SAN[0]
        run([CXX, *objs, link, *SAN[1:], *([] if kind == "fuzz" else ["-static-libstdc++"]), "-Wl," + ",".join("--wrap=" + f for f in wrap), "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
    return exe


def env_for(seed):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:symbolize=0:report_signal_unsafe=0:history_size=4"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    e["HARNESS_RD"] = str(seed)
    return e


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            out = json.load(f)["findings"]
    except FileNotFoundError:
        pass
    return [k for k in out if k.get("status") == "known"]


def harness_run(exe, prop, seed, cases, tmp, replay, budget, tape=None, workers=None):
    out = os.path.join(tmp, "result.json")
    cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--workers", str(workers or JOBS),
           "--out", out, "--replay", replay, "--tmp", tmp, "--budget", str(budget)]
    if tape:
        cmd += ["--tape", tape]
    r = subprocess.run(cmd, env=env_for(seed), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        sys.stderr.write("harness ended with %s and no result\n%s\n" % (r.returncode, r.stderr[-3000:]))
        sys.exit(2)


def fuzz(prop, seed, tmp, seconds, replay):
    """Coverage-guided search over the same case function."""
    exe = build("fuzz")
    deep = build("deep")
    procs = []
    for j in range(JOBS):
        wd = os.path.join(tmp, "fz%d" % j)
        os.makedirs(os.path.join(wd, "corpus"))
        e = env_for(seed * 100 + j)
        e["FUZZ_PROP"] = prop
        e["FUZZ_STATS"] = os.path.join(wd, "stats")
        cmd = [exe, os.path.join(wd, "corpus"), "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % seconds,
               "-max_len=2048", "-len_control=20", "-timeout=60", "-rss_limit_mb=3500", "-verbosity=0", "-print_final_stats=0",
               "-artifact_prefix=" + wd + "/art-"]
        procs.append((wd, subprocess.Popen(cmd, env=e, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    runs = nt = dist = 0
    result = None
    for wd, p in procs:
        try:
            p.wait(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            a, b, c = open(os.path.join(wd, "stats")).read().split()
            runs, nt, dist = runs + int(a), nt + int(b), dist + int(c)
        except Exception:
            pass
    for wd, p in procs:
        for art in sorted(glob.glob(wd + "/art-crash-*") + glob.glob(wd + "/art-timeout-*")):
            tape = os.path.join(tmp, "fuzz.tape")
            subprocess.run([deep, "tape", "--prop", prop, "--in", art, "--out", tape], env=env_for(seed),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = harness_run(deep, prop, seed, 1, tmp, replay, 60, tape=tape)
            if r["verdict"] == "violation":
                result = r
                break
        if result:
            break
    return runs, nt, dist, result


def check(tier, prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev_file = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_file), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", "%s-%d.txt" % (prop, seed))
    exe = build("tsan" if prop == "C19" else "quick" if tier == "quick" else "deep")
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="innc-check-")
    violations = []
    try:
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        cases = int(CASES[prop] * scale) * (1 if tier == "quick" else THOROUGH_FACTOR)
        r = harness_run(exe, prop, seed, cases, tmp, replay, 420 if tier == "quick" else 3600)
        if r["verdict"] == "violation":
            violations.append((replay, r["message"]))
        cov = {
            "evaluations": r["evaluations"],
            "distinct_nontrivial": r["distinct_nontrivial"],
            "rule": r["rule"],
            "samples": r["samples"],
            "classes": r["labels"],
            "planned_cases": cases,
            "nontrivial_executions": r["nontrivial"],
            "search_s": round(r["search_s"], 2),
            "build_s": round(t_build, 2),
        }
        if r["verdict"] == "unreproduced":
            cov["unreproduced_failure"] = r["message"]
        if tier == "thorough" and not violations and prop != "C19":
            runs, nt, dist, fr = fuzz(prop, seed, tmp, int(FUZZ_SECONDS * scale), replay)
            if runs == 0:
                sys.stderr.write("the fuzzer did not run\n")
                sys.exit(2)
            cov["fuzz_executions"] = runs
            cov["fuzz_nontrivial"] = nt
            cov["fuzz_distinct_nontrivial"] = dist
            if fr:
                violations.append((replay, fr["message"]))
        for k in known_findings():
            if k["property"] != prop:
                continue
            p = subprocess.run([exe, k["probe"]], env=env_for(seed), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True)
            if p.returncode != 0:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        }
        with open(ev_file, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (prop, tier, cov["evaluations"],
                                                                cov["distinct_nontrivial"], time.time() - t0))
    if violations:
        path, msg = violations[0]
        print("  " + msg)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


ASSUMPTIONS = [
    "the library is compiled from /repo's working tree with clang (-O0 quick, -O2 thorough), AddressSanitizer and part of UBSan (C19: -O1, ThreadSanitizer)",
    "elements are read through to_string() (six decimals) and, where that leaves a float open, through == against the expected value",
    "operations whose result C++ leaves undefined (integer division by zero, i32/i64 overflow, out-of-range float to integer) are not generated",
]


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build("quick")
        return 0
    if a[:1] == ["replay"] and len(a) == 2:
        exe = build("tsan" if "property C19" in open(a[1]).read() else "quick")
        return subprocess.run([exe, "replay", a[1]], env=env_for(1)).returncode
    if len(a) == 2 and a[0] in ("quick", "thorough") and a[1] in CASES:
        return check(a[0], a[1])
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
