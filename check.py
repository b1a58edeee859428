#!/usr/bin/env python3
"""Solver-based checks of veeg/disir-c.

  check.py <property> [--tier quick|thorough] [--case NAME] [-v]
  check.py --replay <file>       run a recorded counterexample natively again
  check.py --setup               build the symbolic executor

For each case of a property: the repository's current C sources and the case's
harness are compiled to LLVM bitcode and executed symbolically by build/sx
(every path within the stated bounds, every assertion an SMT query); a
counterexample is replayed against a native AddressSanitizer build of the same
sources and only reported when it reproduces there.
"""
import sys, os, re, json, subprocess, hashlib, glob, shutil, time, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
SX = os.path.join(BUILD, "sx")
NPROC = min(8, os.cpu_count() or 4)

INC = ["-I%s/include" % REPO, "-I%s/lib/include" % REPO, "-I%s/lib" % REPO,
       "-I%s/3rdparty/void-multimap" % REPO, "-I%s/3rdparty/void-list/include" % REPO,
       "-I%s/3rdparty" % REPO, "-I%s/3rdparty/jsoncpp" % REPO, "-I%s/3rdparty/boost_fdstream" % REPO, "-I" + ENG, "-I" + HAR]
CBASE = ["-std=gnu11", "-DNDEBUG", "-w", "-g1", "-fwrapv", "-fno-strict-aliasing",
         "-ftrivial-auto-var-init=pattern", "-D__NO_CTYPE"]
BCFLAGS = CBASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-emit-llvm", "-c"]
PASSES = "sroa,simplifycfg"
NATFLAGS = CBASE + ["-O1", "-fno-builtin", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-pie", "-c"]

# the C++ part (lib/fslib, jsoncpp, tinytoml): the library's templates are
# instantiated here and encoded; text streams come from engine/cxx, the native
# replay uses the real ones. A thrown exception ends the path as an abort.
CXXOFF = {"-std=gnu11", "-D__NO_CTYPE"}
BCXXFLAGS = [f for f in BCFLAGS if f not in CXXOFF] + ["-std=gnu++14", "-fno-threadsafe-statics",
                                                       "-include", ENG + "/cxx/first.h", "-I" + ENG + "/cxx"]
NATCXXFLAGS = [f for f in NATFLAGS if f not in CXXOFF] + ["-std=gnu++14"]

FSCALLS = ("opendir", "readdir", "closedir", "fopen", "fclose", "stat", "lstat", "mkdir", "remove", "unlink", "ferror", "fflush", "access",
           "dlopen", "dlsym", "dlclose", "dlerror", "fileno", "read", "write")

MANIFEST_LEVEL = "model_checking"


class CheckError(Exception):
    pass


def run(cmd, timeout=300, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd)[:600], r.stderr.decode(errors="replace")[-3000:]))
    return r


def setup():
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(SX):
        ref = max(os.path.getmtime(os.path.join(ENG, f)) for f in ("sx.cpp", "sx_exec.inc"))
        if os.path.getmtime(SX) >= ref:
            return
    t = tempfile.mkdtemp(prefix="sxb.", dir=BUILD)
    run(["make", "-s", "-C", ENG, "B=" + t], timeout=900)
    os.replace(os.path.join(t, "sx"), SX)
    shutil.rmtree(t, ignore_errors=True)


# ------------------------------------------------------------------ sources
def repo_sources():
    src = sorted(glob.glob(REPO + "/lib/*.c")) + sorted(glob.glob(REPO + "/lib/fslib/*.c")) + \
        sorted(glob.glob(REPO + "/3rdparty/void-*/*.c"))
    return src


def cxx_sources(kind):
    src = sorted(glob.glob(REPO + "/lib/fslib/*.cc"))
    if kind > 1:
        src += sorted(glob.glob(REPO + "/lib/fslib/*/*.cc")) + sorted(glob.glob(REPO + "/3rdparty/jsoncpp/*.cpp"))
    return src


def tree_hash():
    h = hashlib.sha256()
    files = repo_sources() + cxx_sources(2) + sorted(glob.glob(ENG + "/cxx/*"))
    for d in ("include", "lib", "3rdparty/void-multimap", "3rdparty/void-list", "3rdparty/jsoncpp",
              "3rdparty/tinytoml", "3rdparty/boost_fdstream"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith((".h", ".hpp"))]
    for f in ("models.c", "logstubs.c", "native.c", "sx.h"):
        files.append(os.path.join(ENG, f))
    for f in sorted(set(files)):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(repr((BCFLAGS, NATFLAGS, BCXXFLAGS, NATCXXFLAGS, PASSES, FSCALLS)).encode())
    return h.hexdigest()[:24]


def build_repo(pool):
    """bitcode and native objects of the current tree, cached by content"""
    key = tree_hash()
    d = os.path.join(BUILD, "tree." + key)
    if os.path.exists(os.path.join(d, "ok")):
        return d
    t = tempfile.mkdtemp(prefix="tree.", dir=BUILD)
    jobs = []
    bcs, objs = [], []
    link = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
    srcs = repo_sources()
    for i, s in enumerate(srcs):
        n = "%03d_%s" % (i, os.path.basename(s)[:-2])
        b, o = "%s/%s.bc" % (t, n), "%s/%s.o" % (t, n)
        jobs.append(["clang"] + BCFLAGS + INC + [s, "-o", b])
        jobs.append(["clang"] + NATFLAGS + INC + [s, "-o", o])
        bcs.append(b)
        objs.append(o)
    for n in ("models", "logstubs"):
        jobs.append(["clang"] + BCFLAGS + INC + [ENG + "/%s.c" % n, "-o", "%s/%s.bc" % (t, n)])
    jobs.append(["clang"] + NATFLAGS + INC + [ENG + "/native.c", "-o", t + "/native.o"])
    list(pool.map(run, jobs))
    log = [b for b in bcs if b.endswith("_log.bc")]
    rest = [b for b in bcs if not b.endswith("_log.bc")]
    run([link] + rest + log +
        ["--override=" + t + "/logstubs.bc", t + "/models.bc", "-o", t + "/repo.bc"])
    run([link] + rest + log + [t + "/models.bc", "-o", t + "/repo_log.bc"])
    run(["ar", "rcs", t + "/librepo.a"] + objs)
    # the file system is the harness' model in the native replay, too
    red = []
    for a in FSCALLS:
        red += ["--redefine-sym", "%s=sxfs_%s" % (a, a)]
    run(["objcopy"] + red + [t + "/librepo.a"])
    for b in bcs + objs:
        os.unlink(b)
    open(t + "/ok", "w").close()
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    olds = sorted(glob.glob(BUILD + "/tree.*"), key=os.path.getmtime)
    for o in olds[:-6]:
        if time.time() - os.path.getmtime(o) > 1800:      # not from under a concurrent run
            shutil.rmtree(o, ignore_errors=True)
    return d


def build_cxx(pool, tree, kind):
    """bitcode and native objects of the C++ part, only for the cases that depend on it"""
    d = "%s/cxx%d" % (tree, kind)
    if os.path.exists(d):
        return d
    t = tempfile.mkdtemp(prefix="cxx.", dir=tree)
    link = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
    opt = "opt-18" if shutil.which("opt-18") else "opt"
    src = cxx_sources(kind)
    bc, o = ["%s/x%d.bc" % (t, i) for i in range(len(src))], ["%s/x%d.o" % (t, i) for i in range(len(src))]
    jobs = [["clang++"] + BCXXFLAGS + INC + [s, "-o", b] for s, b in zip(src, bc)] + \
        [["clang++"] + NATCXXFLAGS + INC + [s, "-o", b] for s, b in zip(src, o)]
    list(pool.map(run, sorted(jobs, key=lambda j: -os.path.getsize(j[-3]))))
    run([link] + bc + ["-o", t + "/all.bc"])
    run([opt, "-passes=lowerinvoke,simplifycfg", t + "/all.bc", "-o", t + "/cxx.bc"])
    run(["ar", "rcs", t + "/libcxx.a"] + o)
    run(["objcopy"] + [x for a in FSCALLS for x in ("--redefine-sym", "%s=sxfs_%s" % (a, a))] + [t + "/libcxx.a"])
    for b in bc + o + [t + "/all.bc"]:
        os.unlink(b)
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return d


# ------------------------------------------------------------------ cases
def parse_cases(prop):
    cases = []
    for f in sorted(glob.glob(HAR + "/%s_*.c" % prop)):
        txt = open(f).read()
        bounds = re.findall(r"sx-bound:\s*(.*)", txt)
        assumes = re.findall(r"sx-assume:\s*(.*)", txt)
        base = os.path.basename(f)[:-2].split("_", 1)[1]
        found = re.findall(r"sx-case:\s*(.*)", txt) or ["name=" + base]
        for line in found:
            c = {"name": base, "file": f, "defs": [], "tier": "quick", "time": 200.0, "log": False,
                 "steps": 20000000, "samples": 24, "cxx": 0, "bounds": bounds, "assumes": assumes, "reach": []}
            for tok in line.split():
                if tok.startswith("-D"):
                    c["defs"].append(tok)
                    continue
                k, _, v = tok.partition("=")
                if k == "name":
                    c["name"] = base + "." + v if v != base else base
                elif k in ("time",):
                    c[k] = float(v)
                elif k in ("steps", "samples", "queryms", "cxx"):
                    c[k] = int(v)
                elif k in ("log",):
                    c[k] = v == "1"
                elif k == "reach":
                    c["reach"] = v.split(",")
                else:
                    c[k] = v
            cases.append(c)
    return cases


def build_case(tree, c, work):
    n = os.path.join(work, re.sub(r"\W", "_", c["name"]))
    defs = c["defs"] + ["-DSX_TIER_THOROUGH=%d" % (1 if c["run_tier"] == "thorough" else 0)]
    link = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
    opt = "opt-18" if shutil.which("opt-18") else "opt"
    run(["clang"] + BCFLAGS + INC + defs + [c["file"], "-o", n + ".h.bc"])
    run([link, tree + ("/repo_log.bc" if c["log"] else "/repo.bc")] + (["%s/cxx%d/cxx.bc" % (tree, c["cxx"])] if c["cxx"] else []) + ["--override=" + n + ".h.bc", "-o", n + ".l.bc"])
    run([opt, "-passes=internalize,globaldce," + PASSES, "-internalize-public-api-list=harness,main", n + ".l.bc", "-o", n + ".bc"])
    os.unlink(n + ".l.bc")
    return n


def build_native(tree, c, n):
    defs = c["defs"] + ["-DSX_TIER_THOROUGH=%d" % (1 if c["run_tier"] == "thorough" else 0)]
    run(["clang"] + NATFLAGS + INC + defs + [c["file"], "-o", n + ".o"])
    run(["clang", "-fsanitize=address", "-no-pie", n + ".o", tree + "/native.o"] + (["%s/cxx%d/libcxx.a" % (tree, c["cxx"])] if c["cxx"] else []) + [tree + "/librepo.a",
         "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition", "-lm", "-ldl"] +
        (["-lstdc++"] if c["cxx"] else []) + ["-o", n + ".exe"])
    return n + ".exe"


NATENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=190:"
              "detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=1:exitcode=99:max_allocation_size_mb=16",
              LC_ALL="C")


def native_run(exe, inputs, path, timeout=20):
    with open(path, "w") as f:
        for k, v in inputs:
            f.write("%s %s\n" % (v, k))
    d = tempfile.mkdtemp(prefix="sxn.")
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=NATENV, cwd=d)
        rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out, err = "timeout", "", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
    obs = [l[7:] for l in out.splitlines() if l.startswith("SX-OBS ")]
    asrt = [l[10:] for l in out.splitlines() if l.startswith("SX-ASSERT ")]
    summ = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l]
    return {"rc": rc, "obs": obs, "assert": asrt, "asan": summ, "out": out[-2000:], "err": err[-6000:]}


def nat_violates(r):
    """does the native run, on these concrete inputs, show a failure?"""
    return r["rc"] == "timeout" or r["rc"] == 10 or bool(r["asan"]) or (isinstance(r["rc"], int) and r["rc"] < 0)


def describe(r):
    if r["rc"] == "timeout":
        return "does not terminate (20 s)"
    if r["assert"]:
        return "assertion: " + r["assert"][0]
    if r["asan"]:
        return re.sub(r"==\d+==", "", r["asan"][0])
    return "exit %s" % r["rc"]


# ------------------------------------------------------------------ check
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


EMPTY_RESULT = dict({k: 0 for k in ("paths", "error_paths", "killed", "dropped", "instructions", "queries", "sat", "unsat", "unknown",
                                    "asserts", "assert_queries", "solver_s", "wall_s")},
                    complete=False, why="", functions=[], reach=[], samples=[], errors=[])


def check(prop, tier, only=None, verbose=False, keep=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup()
    budget = float(os.environ.get("SX_BUDGET", "700" if tier == "thorough" else "420"))
    cases = [c for c in parse_cases(prop) if (tier == "thorough" or c["tier"] == "quick") and (not only or only in c["name"])]
    if not cases:
        raise CheckError("no cases for " + prop)
    work = tempfile.mkdtemp(prefix="run.%s." % prop, dir=BUILD)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    violations, known, notes = [], [], []
    kf = known_findings(prop)
    try:
        with ThreadPoolExecutor(NPROC) as pool:
            tree = build_repo(pool)
            for k in sorted({c["cxx"] for c in cases if c["cxx"]}):
                build_cxx(pool, tree, k)

            def do_case(c):
                c["run_tier"] = tier
                n = build_case(tree, c, work)
                left = budget - (time.time() - t0)
                tl = max(5.0, min(c["time"] * (4 if tier == "thorough" else 1), left))
                cmd = [SX, n + ".bc", "--out", n + ".json", "--max-time", "%.0f" % tl, "--src", REPO + "/",
                       "--max-steps", str(c["steps"]), "--samples", str(c["samples"] * (4 if tier == "thorough" else 1)),
                       "--query-ms", str(c.get("queryms", 60000)), "--max-errors", "6"]
                if verbose:
                    cmd.append("-v")
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tl + 200)
                except subprocess.TimeoutExpired:
                    # nothing was decided: said in the evidence, and no alarm
                    notes.append("%s: the executor gave no answer within %.0f s" % (c["name"], tl + 200))
                    c["res"] = dict(EMPTY_RESULT, why="the executor gave no answer in time")
                    c["validated"] = 0
                    c["diverged"] = []
                    return c
                if verbose and r.stderr:
                    sys.stderr.write(r.stderr.decode(errors="replace")[-400000:])
                if r.returncode != 0 or not os.path.exists(n + ".json"):
                    raise CheckError("sx failed on %s: rc=%s %s" % (c["name"], r.returncode, r.stderr.decode(errors="replace")[-2000:]))
                res = json.load(open(n + ".json"))
                exe = build_native(tree, c, n)
                c["res"] = res
                c["validated"] = 0
                c["diverged"] = []
                # counterexamples: report only what the real code reproduces
                for i, e in enumerate(res["errors"]):
                    if e["kind"] == "external":
                        notes.append("%s: %s" % (c["name"], e["msg"]))
                        res["complete"] = False
                        res["why"] = (res["why"] + "; " + e["msg"]).strip("; ")
                        continue
                    nr = native_run(exe, e["inputs"], "%s.e%d" % (n, i))
                    desc = "%s: %s [%s]" % (e["kind"], e["msg"], e["where"])
                    if not nat_violates(nr):
                        notes.append("%s: solver counterexample not reproduced natively, not reported: %s (native rc=%s %s)" % (c["name"], desc, nr["rc"], nr["out"][-200:]))
                        res["complete"] = False
                        res["why"] = (res["why"] + "; unconfirmed counterexample").strip("; ")
                        continue
                    hit = [k for k in kf if k[0] in c["name"] and re.search(k[1], desc)]
                    if hit:
                        known.append(hit[0][2])
                        continue
                    path = os.path.join(replays, "%s.%s.%d.json" % (prop, re.sub(r"\W", "_", c["name"]), i))
                    json.dump({"property": prop, "case": c["name"], "tier": tier, "error": e, "native": describe(nr),
                               "native_stderr": nr["err"], "how": "python3 %s --replay %s" % (os.path.abspath(__file__), path)},
                              open(path, "w"), indent=1)
                    violations.append((c["name"], desc, describe(nr), e, path))
                # cross-validation of explored paths against the native build
                for i, s in enumerate(res["samples"]):
                    nr = native_run(exe, s["inputs"], "%s.s%d" % (n, i))
                    if nr["rc"] == 0 and nr["obs"] == s["obs"]:
                        c["validated"] += 1
                        continue
                    if nat_violates(nr):
                        desc = "native run of an explored path: " + describe(nr)
                        hit = [k for k in kf if k[0] in c["name"] and re.search(k[1], desc)]
                        if hit:
                            known.append(hit[0][2])
                            continue
                        path = os.path.join(replays, "%s.%s.s%d.json" % (prop, re.sub(r"\W", "_", c["name"]), i))
                        json.dump({"property": prop, "case": c["name"], "tier": tier, "error": s, "native": describe(nr),
                                   "native_stderr": nr["err"], "how": "python3 %s --replay %s" % (os.path.abspath(__file__), path)},
                                  open(path, "w"), indent=1)
                        violations.append((c["name"], desc, describe(nr), s, path))
                        break
                    c["diverged"].append({"inputs": s["inputs"][:40], "sx": s["obs"][:40], "native": nr["obs"][:40], "rc": nr["rc"], "out": nr["out"][-300:], "err": nr["err"][-600:]})
                return c

            def guarded(c):
                try:
                    return do_case(c)
                except CheckError as e:
                    broken.append(e)
                    c["res"], c["validated"], c["diverged"] = dict(EMPTY_RESULT, why=str(e)[:300]), 0, []

            broken = []
            list(pool.map(guarded, cases))
            if broken and not violations:
                raise broken[0]
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)

    tot = lambda k: sum(c["res"][k] for c in cases)
    funcs = sorted(set(f for c in cases for f in c["res"]["functions"]))
    complete = all(c["res"]["complete"] for c in cases)
    miss = ["%s: %s" % (c["name"], r) for c in cases for r in c["reach"] if r not in c["res"]["reach"]]
    samples = []
    for c in cases:
        for s in c["res"]["samples"][:2]:
            samples.append({"case": c["name"], "inputs": s["inputs"][:24], "observed": s["obs"][:16]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": MANIFEST_LEVEL,
        "coverage": {
            "states": max(1, tot("paths") + tot("error_paths") + tot("killed")),
            "transitions": max(1, tot("instructions")),
            "traces_validated_against_impl": sum(c["validated"] for c in cases),
            "samples": samples[:12],
            "explanation": "states = execution paths decided (each an SMT-distinct class of inputs), transitions = IR instructions executed symbolically; "
                           "traces_validated = explored paths whose solver model was re-run against the native build with identical observations",
            "exhaustive_within_bounds": complete,
            "functions_encoded": funcs,
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3),
            "assertions_checked": tot("asserts"), "assertions_by_solver": tot("assert_queries"),
            "bounds": sorted(set(b for c in cases for b in c["bounds"])),
            "assumptions": sorted(set(b for c in cases for b in c["assumes"])) + [
                "logging is stubbed unless stated", "memory allocation does not fail", "libc is modelled (engine/models.c)"],
            "unreached_witnesses": miss,
            "native_divergences": [d for c in cases for d in c["diverged"]][:5],
            "notes": notes,
            "cases": [{"name": c["name"], "paths": c["res"]["paths"], "dropped": c["res"]["dropped"], "complete": c["res"]["complete"], "why": c["res"]["why"],
                       "wall_s": c["res"]["wall_s"], "solver_s": c["res"]["solver_s"], "queries": c["res"]["queries"],
                       "reach": c["res"]["reach"], "validated": c["validated"]} for c in cases],
        },
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 3),
    }
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    for c in cases:
        print("case %-40s paths=%d killed=%d queries=%d solver=%.1fs wall=%.1fs validated=%d/%d %s" % (
            c["name"], c["res"]["paths"], c["res"]["killed"], c["res"]["queries"], c["res"]["solver_s"], c["res"]["wall_s"], c["validated"],
            len(c["res"]["samples"]), "complete" if c["res"]["complete"] else "INCOMPLETE: " + c["res"]["why"]))
        if verbose and c["diverged"]:
            print("  DIVERGED", json.dumps(c["diverged"][0])[:1500])
    for n in notes:
        print("note:", n)
    for m in miss:
        print("note: witness not reached:", m)
    if any(c["diverged"] for c in cases):
        print("note: %d explored paths diverged natively" % sum(len(c["diverged"]) for c in cases))
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for (n, desc, nat, e, path) in violations:
        print("  %s\n    %s\n    native: %s\n    inputs: %s" % (n, desc, nat, " ".join("%s=%s" % (a, b) for a, b in e["inputs"])[:600]))
        if verbose and "stack" in e:
            print("    stack: " + e["stack"])
    print("%s %s: %d paths, %d queries, %.1fs" % (prop, tier, tot("paths"), tot("queries"), time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][4]))
        return 1
    return 0


def replay(path):
    j = json.load(open(path))
    setup()
    work = tempfile.mkdtemp(prefix="replay.", dir=BUILD)
    try:
        with ThreadPoolExecutor(NPROC) as pool:
            tree = build_repo(pool)
            for k in sorted({c["cxx"] for c in parse_cases(j["property"]) if c["name"] == j["case"] and c["cxx"]}):
                build_cxx(pool, tree, k)
        c = [c for c in parse_cases(j["property"]) if c["name"] == j["case"]][0]
        c["run_tier"] = j["tier"]
        n = os.path.join(work, "r")
        exe = build_native(tree, c, n)
        nr = native_run(exe, j["error"]["inputs"], n + ".in")
        print(nr["out"], nr["err"])
        print("reproduced: " + describe(nr) if nat_violates(nr) else "not reproduced (rc=%s)" % nr["rc"])
        return 1 if nat_violates(nr) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        setup()
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    only, v, keep = None, False, False
    prop = None
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--case":
            only = a[i + 1]; i += 1
        elif a[i] == "-v":
            v = True
        elif a[i] == "--keep":
            keep = True
        else:
            prop = a[i]
        i += 1
    return check(prop, tier, only, v, keep)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception as e: # a failure of the machinery is no verdict
        import traceback
        traceback.print_exc()
        print("ERROR:", e)
        sys.exit(2)
