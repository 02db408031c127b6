#!/usr/bin/env python3
"""Driver of the solver-based checks: builds the instrumented code from /repo, runs the scenarios of one property symbolically,
replays candidate counterexamples on the natively compiled real code, writes the evidence file.
usage: driver.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--keep]"""
import sys, os, json, threading, subprocess, hashlib, time, shutil, tempfile, glob, re, fcntl
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_EXCEPTION

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
CACHE = os.path.join(VERIF, ".cache")     # only a speed-up: entries are keyed by the preprocessed text of /repo's current source
NCPU = os.cpu_count() or 4
JOBS = min(8, NCPU)

DEFS = ["-DCPPQED_HAS_GSL", "-DNDEBUG", "-DBZ_HAVE_BOOST_SERIALIZATION", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_ALIGN"]
INCS = ["-I" + ENGINE + "/rt"] + ["-I" + os.path.join(REPO, d) for d in (
    "CPPQEDutils", "CPPQEDcore/quantumdata", "CPPQEDcore/quantumoperator", "CPPQEDcore/structure", "CPPQEDcore/composites",
    "CPPQEDcore/quantumtrajectory", "CPPQEDcore/high", "CPPQEDelements/frees", "CPPQEDelements/interactions", "CPPQEDelements/utils")] + \
    ["-I/usr/include/eigen3", "-I" + ENGINE + "/stubs"]
PRE = ["-include", "boost/preprocessor/iteration/iterate.hpp"]
LIBS_SYM = ["-Wl,--allow-multiple-definition", "-lboost_serialization", "-lboost_iostreams", "-lgmpxx", "-lgmp"]
LIBS_NAT = ["-Wl,--allow-multiple-definition", "-lboost_serialization", "-lboost_iostreams", "-lgsl", "-lgslcblas"]
NO_TU = {"Version.cc", "Transformation.cc", "Random.cc"}


def say(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def cached(key, suffix, make):
    """make(path) builds the file; the result is stored under its key"""
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(CACHE, key + suffix)
    if os.path.exists(p):
        os.utime(p)
        return p
    t = p + ".%d.%d.tmp" % (os.getpid(), time.monotonic_ns())
    make(t)
    os.rename(t, p)
    return p


def prune_cache(limit=1500 * 1000 * 1000):
    try:
        fs = sorted((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(CACHE + "/*"))
        tot = sum(s for _, s, _ in fs)
        for _, s, f in fs:
            if tot <= limit:
                break
            os.unlink(f)
            tot -= s
    except OSError:
        pass


def build_tools():
    def plugin(t):
        flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        r = sh(["clang++-18", "-O1", "-fPIC", "-shared"] + flags + ["-fno-rtti", ENGINE + "/pass/SymReal.cpp", "-o", t])
        if r.returncode:
            raise BuildError("plugin: " + r.stdout[-3000:])

    def rt(t):
        r = sh(["g++", "-O2", "-std=c++20", "-w", "-c", ENGINE + "/rt/rt.cpp", "-o", t])
        if r.returncode:
            raise BuildError("rt: " + r.stdout[-3000:])

    def nat(t):
        r = sh(["g++", "-O1", "-std=c++20", "-w", "-c", ENGINE + "/rt/native.cpp", "-o", t])
        if r.returncode:
            raise BuildError("native: " + r.stdout[-3000:])
    with ThreadPoolExecutor(3) as ex:
        a = ex.submit(cached, "plugin-" + file_hash(ENGINE + "/pass/SymReal.cpp"), ".so", plugin)
        b = ex.submit(cached, "rt-" + file_hash(ENGINE + "/rt/rt.cpp"), ".o", rt)
        c = ex.submit(cached, "nat-" + file_hash(ENGINE + "/rt/native.cpp"), ".o", nat)
        return a.result(), b.result(), c.result()


class Builder:
    def __init__(self, scratch, extra_defs=()):
        self.scratch = scratch
        self.plugin, self.rt, self.nat = build_tools()
        self.phash = file_hash(self.plugin)
        self.extra = list(extra_defs)

    def compile(self, src, mode):
        if mode == "sym":
            base = ["clang++-18", "-std=c++20", "-w", "-I" + ENGINE + "/shim"] + DEFS + self.extra + ["-DSR_SYMBOLIC"] + INCS + PRE
            tail = ["-O1", "-fpass-plugin=" + self.plugin, "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only"]
        else:
            base = ["g++", "-std=c++20", "-w"] + DEFS + self.extra + INCS + PRE
            tail = ["-O1"]
        pp = sh(base + ["-E", src, "-o", "-"]) if False else subprocess.run(base + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pp.returncode:
            raise BuildError("preprocessing %s: %s" % (src, pp.stderr.decode()[-3000:]))
        key = hashlib.sha256(pp.stdout + repr(base + (tail if mode != "sym" else tail[:1] + tail[2:])).encode() + (self.phash if mode == "sym" else "").encode()).hexdigest()[:32]

        def make(t):
            env = dict(os.environ)
            env["SR_TRACE_PREFIX"] = REPO
            r = subprocess.run(base + tail + ["-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode:
                raise BuildError("compiling %s (%s): %s" % (src, mode, r.stdout[:3000]))
        return cached(key, ".o", make)

    def build(self, sources, mode, out):
        say("[build] %s: %d translation units" % (mode, len(sources)))
        t0 = time.time()
        sources = sorted(sources, key=lambda s: -(0 if s.startswith(REPO) else 1e9) - os.path.getsize(s))
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda s: self.compile(s, mode), sources))
        link = (["clang++-18"] if mode == "sym" else ["g++"]) + objs + [self.rt if mode == "sym" else self.nat] + ["-o", out] + (LIBS_SYM if mode == "sym" else LIBS_NAT)
        r = sh(link)
        if r.returncode:
            raise BuildError("link: " + r.stdout[-6000:])
        say("[build] %s done in %.1f s" % (mode, time.time() - t0))
        return out


def all_tus():
    r = []
    for pat in ("CPPQEDutils/*.cc", "CPPQEDcore/*/*.cc", "CPPQEDelements/*/*.cc"):
        for f in glob.glob(os.path.join(REPO, pat)):
            d = os.path.basename(os.path.dirname(f))
            if d in ("examples", "testsuite", "Testing", "doc") or os.path.basename(f) in NO_TU:
                continue
            r.append(f)
    return sorted(r)


def resolve(tus):
    if tus == "all":
        return all_tus()
    idx = {os.path.basename(f)[:-3]: f for f in all_tus()}
    return [idx[t] for t in tus if t in idx]


def link_with_fallback(b, harness, tus, mode, out):
    try:
        return b.build(harness + resolve(tus), mode, out)
    except BuildError as e:
        if not str(e).startswith("link:") or tus == "all":
            raise
        say("[build] linking with the listed translation units failed; taking all of the libraries")
        return b.build(harness + all_tus(), mode, out)


def read_records(path, partial=False):
    rs = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    rs.append(json.loads(line))
                except ValueError:
                    if partial:
                        continue
                    rs.append({"type": "fatal", "scenario": "?", "msg": "unreadable record: " + line[:200], "choices": []})
    return rs


STOP = threading.Event()  # set some time after the first confirmed violation: the rest would only repeat it


def run_scenario(binary, scen, scratch, tier, limit, env_extra):
    d = os.path.join(scratch, "run_" + scen)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    env.update({"SR_OUT": d + "/out.jsonl", "SR_TMP": d, "VERIF_TIER": tier})
    env.update(env_extra)
    t0 = time.time()
    p = subprocess.Popen([binary, "--run", scen], stdout=open(d + "/stdout", "w"), stderr=open(d + "/stderr", "w"), cwd=d, env=env, start_new_session=True)
    to = stopped = False
    while True:
        try:
            rc = p.wait(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            to = time.time() - t0 > limit
            stopped = STOP.is_set() and not to
            if to or stopped:
                rc = None
                os.killpg(p.pid, 9)
                p.wait()
                break
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    return {"scenario": scen, "rc": rc, "timeout": to, "stopped": stopped, "wall": time.time() - t0, "records": read_records(d + "/out.jsonl", partial=to or stopped),
            "stderr": open(d + "/stderr", errors="replace").read()[-1500:]}


def replay(binary, scen, point, choices, scratch, tier, limit=120, dump=False):
    pf = os.path.join(scratch, "point_%d" % time.monotonic_ns())
    write_point(pf, point, choices)
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    try:
        r = subprocess.run([binary, "--run", scen, pf] + (["--dump"] if dump else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, cwd=scratch, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "native run exceeded %d s" % limit
    if r.returncode < 0:
        return "reproduced", "native run ended by signal %d\n%s" % (-r.returncode, r.stdout[-1500:])
    if "ASSUMPTION-NOT-MET" in r.stdout and r.returncode == 1:
        return "assumption", r.stdout
    if r.returncode == 1:
        return "reproduced", r.stdout
    if r.returncode == 0:
        return "holds", r.stdout
    return "error", "rc=%d %s" % (r.returncode, r.stdout)


def write_point(path, point, choices):
    with open(path, "w") as f:
        for k, v in (point or {}).items():
            f.write("v %s %s\n" % (k, repr(float(v))))
        for k, v in choices or []:
            f.write("c %s %d\n" % (k, v))


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == pid and k.get("status") == "known"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "--keep":
            keep = True
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_start = time.time()
    cdir = os.path.join(VERIF, "checks", pid)
    spec = json.load(open(os.path.join(cdir, "spec.json")))
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 4e9 else None
    scratch = tempfile.mkdtemp(prefix="srcheck_%s_" % pid, dir=base)
    rc = 2
    try:
        rc = check(pid, spec, cdir, tier, seed, scratch, only, t_start, keep)
    except BuildError as e:
        say("ERROR property=%s could not build: %s" % (pid, e))
        rc = 2
    finally:
        if keep:
            say("[keep]", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
        prune_cache()
    sys.exit(rc)


def check(pid, spec, cdir, tier, seed, scratch, only, t_start, keep):
    b = Builder(scratch, [x.replace("@ENGINE", ENGINE) for x in spec.get("defs", [])])
    harness = sorted(glob.glob(cdir + "/*.cc")) + [os.path.join(ENGINE, "env", x) for x in spec.get("env", [])]
    harness_sym = harness + [os.path.join(ENGINE, "env", x) for x in ["gsl_model.cc"]+spec.get("env_sym", [])]
    harness_nat = harness + [os.path.join(ENGINE, "env", x) for x in spec.get("env_nat", [])]
    tus = spec.get("tus", "all")
    sym = link_with_fallback(b, harness_sym, tus, "sym", os.path.join(scratch, "sym"))
    t_build = time.time() - t_start
    scens = sh([sym, "--list"]).stdout.split()
    scens.sort()
    thorough_only = set(spec.get("thorough_only", []))
    if tier == "quick":
        scens = [s for s in scens if s not in thorough_only]
    if only:
        scens = [s for s in scens if re.fullmatch(only, s)]
    limit = spec.get("scenario_timeout", {"quick": 400, "thorough": 3000})[tier]
    env_extra = {"SR_SOLVER": "z3-new", "SR_TIMEOUT": "20" if tier == "quick" else "60", "SR_MAXPATHS": str(spec.get("max_paths", 3000))}
    if tier == "thorough":
        env_extra["SR_SOLVER2"] = "cvc5"
    env_extra.update(spec.get("run_env", {}))
    if keep:
        env_extra["SR_KEEP"] = "1"
    heavy = spec.get("heavy_first", [])
    scens.sort(key=lambda s: (heavy.index(s) if s in heavy else 999, s))
    nat = None

    def native():
        nonlocal nat
        if nat is None:
            nat = link_with_fallback(b, harness_nat, tus, "nat", os.path.join(scratch, "nat"))
        return nat

    # ---- candidates: replay on the real code
    known = load_known(pid)
    violations, known_hit, unconfirmed = [], {}, []
    seen = {}
    replays = 0
    handled = set()

    def handle(c):
        nonlocal replays
        key = json.dumps(c, sort_keys=True)
        if key in handled:
            return
        handled.add(key)
        k = (c["scenario"], re.sub(r"[0-9]+", "#", c["label"]))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2:
            return
        kf = next((x for x in known if re.fullmatch(x["scenario"], c["scenario"]) and re.search(x["label"], c["label"])), None)
        if kf is not None and kf["id"] in known_hit:
            return
        if len(violations) >= (3 if tier == "quick" else 6) and kf is None:
            return
        if c["point"] is None:
            unconfirmed.append((c, "no counterexample point found"))
            return
        status, out = replay(native(), c["scenario"], c["point"], c["choices"], scratch, tier, 45 if tier == "quick" else 120)
        replays += 1
        if c["kind"] == "timeout":
            if status == "timeout":
                status = "reproduced"
            else:
                unconfirmed.append((c, "symbolic run exceeded its time, native run does not"))
                return
        if status == "timeout":
            status = "reproduced"
        if status == "reproduced":
            if kf is not None:
                known_hit[kf["id"]] = (kf, c, out)
            else:
                violations.append((c, out))
        else:
            unconfirmed.append((c, "replay: %s\n%s" % (status, out[-600:])))

    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(run_scenario, sym, s, scratch, tier, limit, env_extra) for s in scens]
        first = None
        while True:
            done, rest = wait(fs, timeout=2, return_when=FIRST_EXCEPTION)
            for s in scens:
                if violations:
                    break
                for rec in read_records(os.path.join(scratch, "run_" + s, "out.jsonl"), partial=True):
                    if rec["type"] == "candidate":
                        handle(rec)
            if violations and first is None:
                first = time.time()
            if first is not None and time.time() - first > (20 if tier == "quick" else 300):
                STOP.set()
            if not rest:
                break
        runs = [f.result() for f in fs]
    runs.sort(key=lambda r: r["scenario"])

    paths, cands, problems = [], [], []
    infeasible = 0
    for r in runs:
        np = 0
        for rec in r["records"]:
            t = rec["type"]
            if t == "path":
                paths.append(rec)
                np += 1
            elif t == "infeasible":
                infeasible += 1
            elif t == "candidate":
                cands.append(rec)
            elif t == "crash":
                cands.append({"type": "candidate", "kind": "crash", "scenario": r["scenario"], "label": "crash signal %s" % rec.get("signal"), "detail": "the instrumented run ended by a signal", "choices": rec["choices"], "point": {}, "source": "symbolic run"})
            elif t == "fatal":
                problems.append("%s: %s" % (r["scenario"], rec["msg"]))
        if r["timeout"]:
            cands.append({"type": "candidate", "kind": "timeout", "scenario": r["scenario"], "label": "no result within %d s" % limit, "detail": "", "choices": [], "point": {}, "source": "symbolic run"})
        elif r["stopped"]:
            pass
        elif r["rc"] is not None and r["rc"] < 0:
            cands.append({"type": "candidate", "kind": "crash", "scenario": r["scenario"], "label": "crash signal %d" % -r["rc"], "detail": "the instrumented run ended by a signal", "choices": [], "point": {}, "source": "symbolic run"})
        elif r["rc"] not in (0, 3):
            problems.append("%s: unexpected exit %s %s" % (r["scenario"], r["rc"], r["stderr"]))
        if np == 0 and r["rc"] == 0:
            problems.append("%s: no path completed (vacuous)" % r["scenario"])
        say("[run] %-44s %6.1f s  paths %d%s" % (r["scenario"], r["wall"], np, "  TIMEOUT" if r["timeout"] else "  stopped" if r["stopped"] else ""))

    for c in cands:
        handle(c)

    # ---- translator validation: model values against the native run at sampled points
    tv = {"points": 0, "values": 0, "mismatches": 0}
    if (tier == "thorough" or os.environ.get("SR_VALIDATE")) and not only:
        samples = {}
        for p in paths:
            s = p.get("sample")
            if s and len(samples.setdefault(p["scenario"], [])) < 3:
                samples[p["scenario"]].append(p)
        for scen, ps in samples.items():
            for p in ps:
                status, out = replay(native(), scen, p["sample"]["point"], p["choices"], scratch, tier, dump=True)
                vals = [tuple(map(float, l.split()[1:3])) for l in out.splitlines() if l.startswith("VAL ")]
                exp = p["sample"]["values"]
                tv["points"] += 1
                if len(vals) != len(exp):
                    tv["mismatches"] += 1
                    tv.setdefault("notes", []).append("%s: %d native values, %d model values (%s)" % (scen, len(vals), len(exp), status))
                    continue
                for (x, y), (u, v) in zip(vals, exp):
                    for m, n in ((x, u), (y, v)):
                        tv["values"] += 1
                        if not (abs(m - n) <= 1e-6 * (1 + abs(m) + abs(n))):
                            tv["mismatches"] += 1
                            if len(tv.setdefault("notes", [])) < 20:
                                tv["notes"].append("%s: native %.12g model %.12g" % (scen, m, n))

    # ---- vacuity
    dead = [p["scenario"] for p in paths if p["reach"] == "unknown"]
    nass = sum(p["asserts"] + p["bool_asserts"] for p in paths)
    for s in scens:
        if any(r["scenario"] == s and r["rc"] == 0 for r in runs) and not any(p["scenario"] == s and p["asserts"] + p["bool_asserts"] > 0 for p in paths):
            problems.append("%s: no assertion reached (vacuous)" % s)

    # ---- results
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    exit_code = 0
    lines = []
    vio_json = []
    if violations:
        os.makedirs(rep_dir, exist_ok=True)
        for i, (c, out) in enumerate(violations[:6]):
            path = os.path.join(rep_dir, "%s_%d.txt" % (pid, i))
            with open(path, "w") as f:
                f.write("# property %s, scenario %s\n# assertion: %s\n# %s\n# counterexample from: %s\n# replay: %s %s --replay %s\n" % (pid, c["scenario"], c["label"], c["detail"][:2000].replace("\n", " "), c["source"], os.path.join(VERIF, "check"), pid, path))
                f.write("s %s\n" % c["scenario"])
                for k, v in (c["point"] or {}).items():
                    f.write("v %s %s\n" % (k, repr(float(v))))
                for k, v in c["choices"]:
                    f.write("c %s %d\n" % (k, v))
                f.write("# native run:\n" + "".join("#   " + l + "\n" for l in out.splitlines()[:25]))
            say("VIOLATION property=%s replay=%s" % (pid, path))
            say("   scenario %s: %s" % (c["scenario"], c["label"]))
            say("   " + "\n   ".join(out.splitlines()[:4]))
            vio_json.append({"scenario": c["scenario"], "label": c["label"], "replay": path})
        exit_code = 1
    for kid, (kf, c, out) in sorted(known_hit.items()):
        say("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    if exit_code == 0:
        for c, why in unconfirmed[:10]:
            say("INCONCLUSIVE property=%s scenario=%s assertion=%s: %s | %s" % (pid, c["scenario"], c["label"], why, c["detail"][:600]))
            exit_code = 2
        for p in problems[:10]:
            say("INCONCLUSIVE property=%s %s" % (pid, p))
            exit_code = 2
        if tv["mismatches"]:
            say("INCONCLUSIVE property=%s translator validation: %s" % (pid, tv.get("notes")))
            exit_code = 2

    funcs = sorted(set(f for p in paths for f in p["functions"]))
    dem = demangle([f.split("|")[0] for f in funcs])
    fl = sorted(set("%s  [%s]" % (shorten(d), os.path.relpath(f.split("|")[1], REPO) if "|" in f and f.split("|")[1].startswith("/") else f.split("|")[-1]) for d, f in zip(dem, funcs)))
    cov = {
        "method": "symbolic execution of the real code (LLVM-instrumented, exact real arithmetic) with SMT discharge",
        "scenarios": len(scens), "states": len(paths), "states_are": "symbolic end states, i.e. feasible paths through the real code, each standing for all inputs that follow it",
        "transitions": sum(p["forks"] for p in paths), "transitions_are": "branch decisions taken on symbolic data along these paths",
        "traces_validated_against_impl": replays + tv["points"],
        "samples": [{"scenario": p["scenario"], "choices": p.get("choices"), "symbolic_inputs": p["vars"], "assertions": p["asserts"], "queries": p["queries"], "solver_s": p["solver_s"]} for p in paths[::max(1, len(paths) // 5)]][:6],
        "infeasible_paths": infeasible,
        "paths_by_reachability": {k: sum(1 for p in paths if p["reach"] == k) for k in ("trivial", "sat", "witness", "unknown")},
        "symbolic_inputs_max": max([p["vars"] for p in paths] or [0]),
        "assertions": sum(p["asserts"] for p in paths), "assertions_discharged": sum(p["discharged"] for p in paths),
        "assertions_identical_after_normalisation": sum(p["identical_normal_form"] for p in paths),
        "assertions_up_to_constant_rounding": sum(p["rounded"] for p in paths),
        "concrete_facts_checked_on_paths": sum(p["bool_asserts"] for p in paths),
        "solver_queries": sum(p["queries"] for p in paths), "queries_unsat": sum(p["unsat"] for p in paths),
        "queries_sat": sum(p["sat"] for p in paths), "queries_unknown": sum(p["unknown"] for p in paths),
        "solver_seconds": round(sum(p["solver_s"] for p in paths), 2), "solver": "z3-new 5.3.2" + (" + cvc5 1.1.2 cross-check" if tier == "thorough" else ""),
        "native_replays": replays,
        "translator_validation": tv, "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""),
        "functions_encoded_count": len(fl), "functions_encoded": fl[:400],
        "per_scenario": {r["scenario"]: {"paths": sum(1 for p in paths if p["scenario"] == r["scenario"]), "assertions": sum(p["asserts"] for p in paths if p["scenario"] == r["scenario"]), "wall_s": round(r["wall"], 2)} for r in runs},
        "build_s": round(t_build, 1),
        "known_findings_seen": sorted(known_hit), "inconclusive": [c["scenario"] + ": " + c["label"] for c, _ in unconfirmed][:20] + problems[:20],
    }
    if not only:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov, "wall_s": round(time.time() - t_start, 2),
              "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "violations": len(violations)}
        if spec.get("level") == "other":
            ev["coverage"]["explanation"] = spec.get("explanation", "")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp%d" % os.getpid())
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    say("[%s] %s tier: %d scenarios, %d paths, %d assertions (%d discharged), %d solver queries, %.1f s solver, %.1f s wall -> exit %d" % (
        pid, tier, len(scens), len(paths), cov["assertions"], cov["assertions_discharged"], cov["solver_queries"], cov["solver_seconds"], time.time() - t_start, exit_code))
    return exit_code


COMMON_ASSUMPTIONS = [
    "IEEE double arithmetic is idealised as exact real arithmetic; assertions are equalities/inequalities over the reals, so rounding, overflow and NaN propagation of ordinary operations are outside the claim",
    "constants that the code rounds to double are compared up to a relative 1e-10",
    "denominators that occur on a path are non-zero; a path on which one must vanish is reported",
    "the pass plugin, the runtime's normal forms, clang 18 and z3 are trusted; the thorough tier cross-checks against cvc5 and against native runs at sampled points",
]


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


def shorten(s):
    # strip argument lists and long template arguments
    out, depth = "", 0
    for ch in s:
        if ch == "<":
            depth += 1
            if depth == 1:
                out += "<>"
            continue
        if ch == ">" and depth:
            depth -= 1
            continue
        if depth == 0:
            out += ch
    m = re.match(r"(.*?)\(", out)
    return (m.group(1) if m and m.group(1) else out)[:140]


if __name__ == "__main__":
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        pid, f = sys.argv[1], sys.argv[i + 1]
        spec = json.load(open(os.path.join(VERIF, "checks", pid, "spec.json")))
        scratch = tempfile.mkdtemp(prefix="srreplay_")
        b = Builder(scratch, [x.replace("@ENGINE", ENGINE) for x in spec.get("defs", [])])
        cdir = os.path.join(VERIF, "checks", pid)
        harness = sorted(glob.glob(cdir + "/*.cc")) + [os.path.join(ENGINE, "env", x) for x in spec.get("env", []) + spec.get("env_nat", [])]
        nat = link_with_fallback(b, harness, spec.get("tus", "all"), "nat", os.path.join(scratch, "nat"))
        scen = next(l.split()[1] for l in open(f) if l.startswith("s "))
        r = sh([nat, "--run", scen, f])
        print(r.stdout)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(r.returncode)
    main()
