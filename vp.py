#!/usr/bin/env python3
"""Driver of the checks: builds the symbolic execution engine and, from /repo's working tree, the
LLVM module of a property's harnesses, runs the engine on every job of the property, replays each
counterexample natively, and writes evidence/<id>.json.

  vp.py check ID [quick|thorough]     exit 0: holds within bounds; 1: VIOLATION; 2: no answer
  vp.py replay FILE                   runs a saved counterexample against /repo's working tree
  vp.py setup                         builds the engine
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
TOOLCHAIN = "1.90.0"
sys.path.insert(0, HERE)


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME=e.get("HOME", "/root"))
    e.update(kw)
    return e


class NoAnswer(Exception):
    pass


class ConstPanic(NoAnswer):
    """The compiler's evaluation of a constant of the crate under test panicked: the layouts of bit
    fields are checked that way, whatever the value of the field."""


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise NoAnswer("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    d = os.path.join(BUILD, "engine")
    with Lock("engine"):
        sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "engine"),
           env=env(CARGO_TARGET_DIR=d, RUSTFLAGS=""))
    return os.path.join(d, "release", "llsym")


def forget(target, profile):
    """Makes cargo compile the crate under test and the harness anew."""
    for n in ("dmidecode", "vpharness", "vpreplay"):
        for p in glob.glob(os.path.join(target, profile, ".fingerprint", n + "-*")):
            shutil.rmtree(p, ignore_errors=True)


def lockfile(crate):
    """The dependencies' versions are those of /repo."""
    src = open("/repo/Cargo.lock").read() if os.path.exists("/repo/Cargo.lock") else None
    dst = os.path.join(crate, "Cargo.lock")
    return src, dst


def module(feature):
    """LLVM IR of the harnesses and the crate under test, from the current tree."""
    crate = os.path.join(HERE, "harness")
    d = os.path.join(BUILD, "h_" + feature)
    with Lock("h_" + feature):
        forget(d, "release")
        for p in glob.glob(os.path.join(d, "release", "deps", "vpharness-*.ll")):
            os.remove(p)
        try:
            sh(["cargo", "build", "--release", "--offline", "-q", "--features", feature], cwd=crate,
               env=env(CARGO_TARGET_DIR=d, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-ir"))
        except NoAnswer as e:
            codes = set(re.findall(r"^error\[(E\d+)\]", str(e), re.M))
            if codes == {"E0080"} and re.search(r"evaluation of `.*dmidecode::", str(e)):
                raise ConstPanic(str(e))
            raise
        ll = glob.glob(os.path.join(d, "release", "deps", "vpharness-*.ll"))
        if len(ll) != 1:
            raise NoAnswer("no LLVM module was produced")
    return ll[0]


NATIVE = {}


def native(feature, profile):
    if (feature, profile) not in NATIVE:
        NATIVE[feature, profile] = build_native(feature, profile)
    return NATIVE[feature, profile]


def build_native(feature, profile):
    crate = os.path.join(HERE, "replay")
    d = os.path.join(BUILD, "r_" + feature)
    out = "debug" if profile == "dev" else "release"
    with Lock("r_" + feature):
        forget(d, out)
        sh(["cargo", "build", "--offline", "-q", "--features", feature] + (["--release"] if profile != "dev" else []),
           cwd=crate, env=env(CARGO_TARGET_DIR=d, RUSTFLAGS=""))
    return os.path.join(d, out, "libvpreplay.so")


def replay_one(lib, harness, params, inputs, timeout=20):
    e = env(VP_INPUTS=",".join(str(v) for _, v in inputs), VP_PARAMS=",".join(map(str, params)))
    try:
        p = subprocess.run([sys.executable, "-c",
                            "import ctypes,resource,sys;resource.setrlimit(resource.RLIMIT_CORE,(0,0));"
                            "resource.setrlimit(resource.RLIMIT_AS,(8<<30,8<<30));"
                            "f=getattr(ctypes.CDLL(sys.argv[1]),sys.argv[2]);f.restype=None;f()", lib, harness],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode == 77:
        m = re.findall(r"VP-ASSERT (.*)", err)
        return True, "assertion failed: " + (m[-1] if m else "?")
    if p.returncode < 0:
        t = [l for l in err.splitlines() if "panicked at" in l]
        i = err.splitlines().index(t[0]) if t else 0
        if t and "/harness/src/" in t[0]:
            # a defect of the harness, not of the code under test
            return False, "panic in the harness: " + " ".join(err.splitlines()[i:i + 2])
        return True, ("panic: " + " ".join(err.splitlines()[i:i + 2])) if t else "killed by signal %d" % -p.returncode
    return False, "exit %d %s" % (p.returncode, err.strip()[-200:])


def replay(feature, harness, params, inputs):
    """[(profile, reproduced, what)]"""
    r = []
    for prof in ("dev", "release"):
        ok, what = replay_one(native(feature, prof), harness, params, inputs)
        r.append((prof, ok, what))
    return r


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def matches(f, harness, v):
    """A finding names the harness, the kind of failure, and the value of the inputs it notes."""
    if f["harness"] != harness or f["kind"] != v["kind"] or f.get("msg", v["msg"]) != v["msg"]:
        return False
    notes = dict((n, x) for n, x in v["notes"])
    return all(n in notes and notes[n] in vals for n, vals in f.get("notes", {}).items())


TIME, MEMORY, UNKNOWN, STEPS = "time limit", "memory limit", "solver returned unknown", "path exceeded the step limit"


def check(pid, tier):
    import spec
    t0 = time.time()
    c = spec.CHECKS[pid]
    feature = c["feature"]
    jobs = [(h, tuple(p)) for h, ps in c["quick"] for p in ps]
    if tier == "thorough":
        jobs += [j for j in ((h, tuple(p)) for h, ps in c["thorough"] for p in ps) if j not in set(jobs)]
    budget = c.get("time", {"quick": 600, "thorough": 10800})[tier]
    limit = {"quick": 240, "thorough": 1800}[tier]
    eng = engine()
    try:
        ll = module(feature)
    except ConstPanic as e:
        if not c.get("const_eval"):
            raise
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        path = os.path.join(EVID, "replay", "%s-build.json" % pid)
        json.dump({"property": pid, "feature": feature, "const_eval": str(e)}, open(path, "w"), indent=1)
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c["level"],
                   "coverage": {"technique": "evaluation of constants by the compiler: it panicked for every value", "bounds": c["bounds"]},
                   "wall_s": round(time.time() - t0, 2), "assumptions": spec.ASSUMPTIONS,
                   "violations": [{"replay": path, "kind": "panic", "msg": str(e)[-1500:]}]},
                  open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
        print(str(e)[-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    tb = time.time() - t0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    steps = c.get("steps", 12000000)

    kf = known_findings(pid)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for p in glob.glob(os.path.join(EVID, "replay", pid + "-*.json")):
        os.remove(p)

    def run(job, merge=True):
        h, p = job
        left = budget - (time.time() - t0)
        if left < 1:
            return job, merge, {"status": "error", "errors": [TIME], "violations": []}
        q = subprocess.run([eng, ll, h, "--time", str(min(int(left) + 1, limit)), "--query-ms", "60000", "--steps", str(steps),
                            "--param", ",".join(map(str, p)), "--max-violations", "6"] + ([] if merge else ["--no-merge"]),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(VERIF_SEED=str(seed)))
        try:
            r = json.loads(q.stdout)
        except ValueError:
            e = "engine exit %s: %s" % (q.returncode, q.stderr[-400:])
            if "memory allocation" in q.stderr or "out of memory" in q.stderr or "bad_alloc" in q.stderr or q.returncode == -9:
                e = MEMORY
            r = {"status": "error", "errors": [e], "violations": []}
        return job, merge, r

    # jobs expected to take longest first
    jobs.sort(key=lambda j: -c.get("cost", lambda h, p: sum(p))(*j))
    results, errors, confirmed, known, spurious, again, unfinished = [], [], [], {}, [], [], []

    def settle(job, merge, r):
        """Replays the candidates of a job; False: to be run again without merging paths."""
        h, p = job
        err, spur, conf = list(r.get("errors", [])), [], False
        for v in r.get("violations", []):
            f = next((k for k in kf if matches(k, h, v)), None)
            if f and f["id"] in known or not f and len(confirmed) >= 5:
                continue
            rep = replay(feature, h, p, v["inputs"])
            rec = {"property": pid, "feature": feature, "harness": h, "params": list(p), "kind": v["kind"], "msg": v["msg"],
                   "stack": v["stack"], "inputs": v["inputs"], "notes": v["notes"], "replay": rep}
            if not any(x[1] for x in rep):
                if STEPS in v["msg"]:
                    # a long path, but one that ends
                    err.append(STEPS)
                else:
                    spur.append(rec)
            elif f:
                # a listed finding has to be real, too
                known[f["id"]] = f
            else:
                path = os.path.join(EVID, "replay", "%s-%d.json" % (pid, len(confirmed) + 1))
                json.dump(rec, open(path, "w"), indent=1)
                confirmed.append((path, rec))
                conf = True
        gone = [e for e in err if e in (TIME, MEMORY, STEPS) or not merge and e.startswith(UNKNOWN)]
        if gone and not conf:
            # no verdict beyond the paths that were explored: the bounds of this run are smaller
            unfinished.append("%s %s" % (h, list(p)))
            err = [e for e in err if e not in gone]
            if not err:
                results.append((job, r))
                return True
        if (err or spur) and not conf and merge:
            again.append("%s %s: %s" % (h, list(p), (err + [x["msg"] for x in spur])[0]))
            return False
        errors.extend("%s %s: %s" % (h, list(p), e) for e in err)
        spurious.extend(spur)
        results.append((job, r))
        return True

    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
        todo = {ex.submit(run, j) for j in jobs}
        while todo:
            done, todo = concurrent.futures.wait(todo, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                if f.cancelled():
                    continue
                job, merge, r = f.result()
                if not settle(job, merge, r):
                    todo.add(ex.submit(run, job, False))
            if confirmed:
                # no need to start the remaining jobs
                todo = {f for f in todo if not f.cancel()}
    results.sort(key=lambda r: r[0])
    stop = bool(confirmed)

    covers, asserts, funcs = {}, {}, set()
    tot = dict.fromkeys("paths insts forks merged_regions queries sat unsat unknown cache_hits assumed_away".split(), 0)
    solver_s, maxq = 0.0, 0.0
    samples = []
    for (h, p), r in results:
        for k, n in r.get("covers", {}).items():
            covers[h + ": " + k] = covers.get(h + ": " + k, 0) + n
        for k, n in r.get("asserts", {}).items():
            a = asserts.setdefault(h + ": " + k, [0, 0])
            a[0] += n[0]
            a[1] += n[1]
        funcs.update(r.get("functions", []))
        for k in tot:
            tot[k] += r.get(k, 0)
        solver_s += r.get("solver_s", 0)
        maxq = max(maxq, r.get("max_query_s", 0))
    if not confirmed and not stop:
        for h, name in c.get("covers", []):
            if not covers.get(h + ": " + name) and not any(u.split(" ")[0] == h for u in unfinished):
                errors.append("vacuous: %s never reached '%s'" % (h, name))
        if not asserts and not c.get("no_asserts") and not unfinished:
            errors.append("vacuous: no assertion was reached")
    dm = encoded(ll, funcs)
    ours = [f for f in dm if "dmidecode" in f]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": c["level"],
        "coverage": {
            "technique": "symbolic execution of the LLVM IR of the real crate, decided by Z3",
            "bounds": c["bounds"],
            "outside_bounds": c["outside"],
            "jobs": len(results),
            "jobs_planned": len(jobs),
            "jobs_unfinished": sorted(unfinished),
            "paths": tot["paths"],
            "instructions": tot["insts"],
            "forks": tot["forks"],
            "merged_regions": tot["merged_regions"],
            "queries": tot["queries"],
            "queries_sat": tot["sat"],
            "queries_unsat": tot["unsat"],
            "queries_unknown": tot["unknown"],
            "query_cache_hits": tot["cache_hits"],
            "solver_s": round(solver_s, 3),
            "max_query_s": round(maxq, 3),
            "build_s": round(tb, 2),
            "slowest_jobs": [["%s %s" % (j[0], list(j[1])), r.get("wall_s"), r.get("paths")] for j, r in
                             sorted(results, key=lambda x: -x[1].get("wall_s", 0))[:12]],
            "functions_encoded": ours,
            "functions_encoded_total": len(dm),
            "assertions": {k: {"reached": v[0], "symbolic": v[1]} for k, v in sorted(asserts.items())},
            "covers": dict(sorted(covers.items())),
            "known_findings": sorted(known),
            "rerun_without_merging": again[:20],
            "unconfirmed": spurious[:5],
            "errors": errors[:20],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": spec.ASSUMPTIONS + c.get("assumptions", []),
        "violations": [{"replay": p, "harness": r["harness"], "params": r["params"], "kind": r["kind"], "msg": r["msg"],
                        "replays": r["replay"]} for p, r in confirmed],
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s %s: %d jobs, %d paths, %d queries (%d sat, %d unsat), solver %.1f s, wall %.1f s" %
          (pid, tier, len(results), tot["paths"], tot["queries"], tot["sat"], tot["unsat"], solver_s, time.time() - t0))
    for j in sorted(unfinished)[:20]:
        print("  unfinished, no violation among the paths explored: " + j)
    for path, r in confirmed:
        print("  %s %s: %s: %s" % (r["harness"], r["params"], r["msg"], "; ".join("%s: %s" % (a, w) for a, ok, w in r["replay"] if ok)))
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (pid, confirmed[0][0]))
        return 1
    if spurious or errors:
        for s in spurious[:5]:
            print("  not reproduced: %s %s %s" % (s["harness"], s["msg"], s["replay"]))
        for e in errors[:10]:
            print("  error: %s" % e)
        return 2
    return 0


def encoded(ll, executed):
    """Source functions whose code is part of the executed LLVM functions, inlined ones included."""
    sub, loc, scope = {}, {}, {}
    used, cur = set(), None
    for line in open(ll):
        if line.startswith("define "):
            m = re.search(r'@"?([^"(]+)"?\(', line)
            cur = m and m.group(1) in executed
        elif line.startswith("}"):
            cur = None
        elif cur:
            used.update(re.findall(r"!dbg !(\d+)", line))
        elif line.startswith("!"):
            m = re.match(r"!(\d+) = (?:distinct )?!(DISubprogram|DILocation|DILexicalBlock)\((.*)\)", line)
            if not m:
                continue
            k, t, body = m.groups()
            sc = re.search(r"scope: !(\d+)", body)
            if t == "DISubprogram":
                n = re.search(r'linkageName: "([^"]+)"', body) or re.search(r'name: "([^"]+)"', body)
                sub[k] = n.group(1)
            else:
                scope[k] = sc and sc.group(1)
                if t == "DILocation":
                    i = re.search(r"inlinedAt: !(\d+)", body)
                    loc[k] = i and i.group(1)
    names, seen = set(executed), set()
    for k in used:
        while k and k not in seen:
            seen.add(k)
            s = scope.get(k)
            while s and s not in sub:
                s = scope.get(s)
            if s:
                names.add(sub[s])
            k = loc.get(k)
    return sorted(set(demangle(n) for n in names))


def demangle(s):
    m = re.match(r"_ZN(.*)E$", s)
    if not m:
        return s
    out, t = [], m.group(1)
    while t:
        k = re.match(r"(\d+)", t)
        if not k:
            break
        n = int(k.group(1))
        t = t[len(k.group(1)):]
        out.append(t[:n])
        t = t[n:]
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$u27$", "'"), ("$RF$", "&"), ("$LP$", "("), ("$RP$", ")"),
                 ("$C$", ","), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$BP$", "*"), ("..", "::")):
        r = r.replace(a, b)
    return r


def main():
    os.makedirs(EVID, exist_ok=True)
    try:
        if sys.argv[1] == "setup":
            print(engine())
            return 0
        if sys.argv[1] == "check":
            tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
            return check(sys.argv[2], tier)
        if sys.argv[1] == "replay":
            r = json.load(open(sys.argv[2]))
            if "const_eval" in r:
                try:
                    module(r["feature"])
                except ConstPanic as e:
                    print("reproduced: %s" % e)
                    return 1
                print("not reproduced")
                return 0
            hit = False
            for prof, ok, what in replay(r["feature"], r["harness"], r["params"], r["inputs"]):
                print("%s: %s (%s)" % (prof, "reproduced" if ok else "not reproduced", what))
                hit |= ok
            return 1 if hit else 0
    except NoAnswer as e:
        print("no answer: %s" % e)
        return 2
    print(__doc__)
    return 2


sys.exit(main())
