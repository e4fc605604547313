#!/usr/bin/env python3
"""Decide one property:  check.py ID  |  build everything:  check.py --setup  |  check.py --replay FILE

Compiles /repo/src and the property's harness to LLVM bitcode, runs every job of the
property in the symbolic executor, replays what it finds natively (AddressSanitizer)
against /repo/src, and writes evidence/<ID>.json."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CACHE = os.path.join(BUILD, "cache")
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(ROOT, "tools"))

INC = [f"-I{REPO}/src", f"-I{REPO}", f"-I{ROOT}/harness"]
COMMON = ["-std=c++20", "-fno-access-control", "-w", "-DEIP_VERIF"]
BCFLAGS = COMMON + ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-emit-llvm", "-c"]
NATFLAGS = COMMON + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-c"]
REDIR = """socket close shutdown fcntl connect bind setsockopt getsockopt send sendto recv recvfrom select read write
inet_ntoa inet_ntop inet_aton inet_pton inet_addr""".split()
REDIR_MAP = {n: "env_" + n for n in REDIR} | {
    "_ZNSt6chrono3_V212steady_clock3nowEv": "env_steady_now",
    "_ZNSt6chrono3_V212system_clock3nowEv": "env_system_now",
    "_ZNSt13random_device9_M_getvalEv": "env_rd_getval",
    "_ZNSt13random_device7_M_finiEv": "env_rd_fini",
    "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": "env_rd_init",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(p, memo={}):
    if p not in memo:
        try:
            with open(p, "rb") as f:
                memo[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            memo[p] = "missing"
    return memo[p]


RUNNING, STOP = set(), []


class BuildError(Exception):
    pass


def compile_one(src, kind):
    """content-addressed compile; returns object path"""
    flags = BCFLAGS if kind == "bc" else NATFLAGS
    cxx = "clang++-18"
    base = hashlib.sha256("\0".join([src, kind, cxx] + flags + INC).encode()).hexdigest()[:24]
    depf = os.path.join(CACHE, base + ".deps")
    if os.path.exists(depf):
        deps = open(depf).read().split("\n")
        key = hashlib.sha256("".join(d + fhash(d) for d in deps).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, f"{base}.{key}.o")
        if os.path.exists(out):
            return out
    tmp = os.path.join(CACHE, f"{base}.{os.getpid()}")
    r = sh([cxx] + flags + INC + [src, "-o", tmp + ".o", "-MD", "-MF", tmp + ".d"])
    if r.returncode:
        raise BuildError(f"{src}: {r.stdout[-3000:]}")
    if kind == "nat" and not src.endswith("native_rt.cpp"):
        args = []
        for k, v in REDIR_MAP.items():
            args += [f"--redefine-sym={k}={v}"]
        r = sh(["objcopy"] + args + [tmp + ".o"])
        if r.returncode:
            raise BuildError(r.stdout)
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted({d for d in txt.split(":", 1)[1].split() if d.startswith(REPO + "/") or d.startswith(ROOT + "/")})
    with open(tmp + ".deps", "w") as f:
        f.write("\n".join(deps))
    key = hashlib.sha256("".join(d + fhash(d) for d in deps).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, f"{base}.{key}.o")
    os.replace(tmp + ".o", out)
    os.replace(tmp + ".deps", depf)
    os.unlink(tmp + ".d")
    return out


def repo_sources():
    out = []
    for d, _, fs in os.walk(f"{REPO}/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def build(units, outdir):
    """returns (bitcode path, native replay binary future)"""
    os.makedirs(CACHE, exist_ok=True)
    engine()
    hs = [f"{ROOT}/harness/{u}" for u in units]
    srcs = repo_sources()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bc = [ex.submit(compile_one, s, "bc") for s in srcs + hs + [f"{ROOT}/harness/env.cpp", f"{ROOT}/harness/rt.cpp"]]
        nat = [ex.submit(compile_one, s, "nat") for s in srcs + hs + [f"{ROOT}/harness/env.cpp", f"{ROOT}/harness/native_rt.cpp"]]
        bc = [f.result() for f in bc]
        nat = [f.result() for f in nat]
    all_bc, opt = f"{outdir}/all.bc", f"{outdir}/opt.bc"
    r = sh(["llvm-link-18"] + bc + ["-o", all_bc])
    if r.returncode:
        raise BuildError("llvm-link: " + r.stdout[-3000:])
    r = sh(["opt-18", "-passes=function(sroa,early-cse,simplifycfg)", all_bc, "-o", opt])
    if r.returncode:
        raise BuildError("opt: " + r.stdout[-3000:])
    os.unlink(all_bc)
    exe = f"{outdir}/replay"
    p = subprocess.Popen(["clang++-18", "-fsanitize=address", "-rdynamic", "-o", exe] + nat + ["-ldl", "-lpthread"],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return opt, exe, p


def engine():
    exe = f"{BUILD}/symex"
    stamp = f"{BUILD}/symex.stamp"
    key = "".join(fhash(f) for f in sorted(glob.glob(f"{ROOT}/engine/*")))
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    r = sh(["make", "-j4", "-C", f"{ROOT}/engine", f"B={BUILD}"])
    if r.returncode:
        raise BuildError("engine: " + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return exe


STEPS = 16000000                            # instructions on one path
NARROW = {}                                # groups of jobs that need the narrower bounds


def run_job(bc, outdir, i, job, deadline, seed):
    """Jobs with an "alt" entry have a narrower variant (restricted length fields), used when
    the solver does not get through the wide one. What looks endless within the step bound is
    looked at again with a larger one."""
    r = run_job1(bc, outdir, i, job, deadline, seed)
    if any(v["kind"] == "hang" for v in r.get("violations", [])):
        steps = 10 * job.get("steps", STEPS)
        r = run_job1(bc, outdir, i, dict(job, steps=steps), deadline, seed)
        r["job"] = job
    return r


def run_job1(bc, outdir, i, job, deadline, seed):
    if "alt" not in job:
        return run_once(bc, outdir, i, job, deadline, seed)
    group = (job["entry"], job["args"][0] if job["args"] else 0)
    if group not in NARROW:
        r = run_once(bc, outdir, i, dict(job, time=job["alt"]), deadline, seed)
        if r.get("violations") or not (r.get("inconclusive") or r.get("error")):
            return r
        NARROW[group] = f"{group[0]}({group[1]}, ..)"
    r = run_once(bc, outdir, i, job, deadline, seed, ["--restrict"])
    r["job"] = job
    return r


def run_once(bc, outdir, i, job, deadline, seed, extra=()):
    d = f"{outdir}/job{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    left = deadline - time.time()
    if left < 3:
        return dict(job=job, skipped=True)
    cmd = [f"{BUILD}/symex", "--bc", bc, "--entry", job["entry"], "--out", d, "--seed", str(seed + i),
           "--time", str(min(job.get("time", 600), left - 1)), "--samples", str(job.get("samples", 6))]
    cmd += extra
    for a in job["args"]:
        cmd += ["--arg", str(a)]
    job = dict({"steps": STEPS}, **job)
    for k in ("steps", "conc", "viol", "qtimeout"):
        if k in job:
            cmd += ["--" + k, str(job[k])]
    if STOP:
        return dict(job=job, skipped=True)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=left + 20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(job=job, error="the executor overran its time limit")
    finally:
        RUNNING.discard(p)
    f = f"{d}/result.json"
    if p.returncode or not os.path.exists(f):
        return dict(job=job, error=f"executor ended with {p.returncode}: {out[-1500:]}")
    res = json.load(open(f))
    res["job"] = job
    return res


def replay(exe, entry, files):
    if not files:
        return []
    try:
        r = subprocess.run([exe, entry] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=30 + 25 * len(files))
    except subprocess.TimeoutExpired:
        return ["TIMEOUT"] * len(files)
    out = r.stdout.strip("\n").split("\n")
    out += ["ERROR no output " + r.stderr[-300:]] * (len(files) - len(out))
    return out


def confirmed(v, line):
    """does the native replay show the violation the solver reported?"""
    k = v["kind"]
    bad = not line.startswith(("OK", "ASSUME", "DIVERGED", "MISMATCH", "ERROR", "TIMEOUT"))
    if k == "assert":
        return bad
    return bad


def known_findings():
    out = []
    p = f"{ROOT}/known-findings"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) label=(\S+) (.*)", line.strip())
            if m:
                out.append(dict(zip(("property", "entry", "label", "what"), m.groups())))
    return out


def main():
    if sys.argv[1] == "--setup":
        return setup()
    if sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import jobs
    spec = jobs.SPECS[pid]
    outdir = f"{BUILD}/run/{pid}"
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    try:
        bc, exe, link = build(spec["units"], outdir)
    except BuildError as e:
        print(f"ERROR building for {pid}: {e}")
        return 2
    budget = spec.get("budget", {}).get(tier, 780 if tier == "quick" else 3000)
    deadline = t0 + budget
    jl = spec["jobs"](tier)
    # longest first
    order = sorted(range(len(jl)), key=lambda i: -jl[i].get("cost", 1))
    results, stop = [], False
    t1 = time.time()
    viols, unconfirmed, errors = [], [], []
    known = [k for k in known_findings() if k["property"] == pid]
    knownHit = {}
    linked = [False]

    def ensure_link():
        if not linked[0]:
            o, _ = link.communicate()
            linked[0] = True
            if link.returncode:
                raise BuildError("replay link: " + (o or "")[-2000:])

    ex = cf.ThreadPoolExecutor(NCPU)
    futs = {ex.submit(run_job, bc, outdir, i, jl[i], deadline, seed): i for i in order}
    try:
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if r.get("error"):
                errors.append(f"{r['job']['entry']}{tuple(r['job']['args'])}: {r['error']}")
                continue
            if r.get("skipped"):
                errors.append(f"{r['job']['entry']}{tuple(r['job']['args'])}: not run, the time budget was used up")
                continue
            for v in r.get("violations", []):
                ensure_link()
                line = replay(exe, r["job"]["entry"], [v["file"]])[0]
                v["native"] = line
                v["entry"] = r["job"]["entry"]
                v["args"] = r["job"]["args"]
                if not confirmed(v, line):
                    unconfirmed.append(v)
                    continue
                lab = v["label"].replace(" ", "_")
                kf = [k for k in known if k["entry"] == v["entry"] and k["label"] == lab]
                if kf:
                    knownHit[(kf[0]["entry"], kf[0]["label"])] = kf[0]["what"]
                    continue
                n = len(viols)
                dst = f"{ROOT}/evidence/replay_{pid}_{n}.in"
                with open(v["file"]) as a, open(dst, "w") as b:
                    b.write(f"# property {pid}\n# entry {v['entry']}\n# native {line}\n" + a.read())
                v["replay"] = dst
                viols.append(v)
            if viols and not stop:
                stop = True
                for g in futs:
                    g.cancel()
                STOP.append(1)
                for p in list(RUNNING):
                    p.kill()
                break
    except BuildError as e:
        print(f"ERROR {e}")
        return 2
    ex.shutdown(wait=True, cancel_futures=True)
    tsym = time.time() - t1
    # translation validation: sampled paths must behave natively exactly as encoded
    validated, mismatch, samples = 0, [], []
    if not viols:
        try:
            ensure_link()
        except BuildError as e:
            print(f"ERROR {e}")
            return 2
        todo = [(r["job"]["entry"], r["samples"]) for r in results if r.get("samples")]
        with cf.ThreadPoolExecutor(NCPU) as ex2:
            for (entry, files), lines in zip(todo, ex2.map(lambda t: replay(exe, t[0], t[1]), todo)):
                for fn, line in zip(files, lines):
                    if line.startswith("OK"):
                        validated += 1
                        if len(samples) < 6:
                            samples.append({"entry": entry, "input": [l for l in open(fn).read().split("\n") if l[:1] in "AIO"][:14]})
                    else:
                        mismatch.append(f"{entry} {fn}: {line}")
    tot = {}
    for k in ("paths", "pruned", "states", "forks", "instructions", "checks", "checks_symbolic", "queries", "sat", "unsat", "unknown", "cache_hits", "interval_hits", "unexplored", "uninit_reads"):
        tot[k] = sum(r.get(k, 0) for r in results)
    solver_s = sum(r.get("solver_s", 0) for r in results)
    reach = {}
    funcs = {}
    for r in results:
        for k, n in r.get("reach", {}).items():
            reach[k] = reach.get(k, 0) + n
        for k, n in r.get("functions", {}).items():
            o = funcs.get(k, [0, 0, 0])
            funcs[k] = [o[0] + n[0], max(o[1], n[1]), n[2]]
        for k, n in r.get("inconclusive", {}).items():
            errors.append(f"{r['job']['entry']}{tuple(r['job']['args'])}: {k} ({n}x)")
    missing = [x for x in spec.get("reach", []) if x not in reach]
    names = sorted(funcs)
    dem = {}
    if names:
        r = subprocess.run(["c++filt", "-p"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
        dem = dict(zip(names, r.stdout.split("\n")))
    enc = sorted({dem.get(n, n) for n in names if dem.get(n, n).startswith("eipScanner::")})
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path was replayed", "violations": [v["label"] for v in viols]}],
            "jobs": len(jl), "jobs_run": len(results), "paths_completed": tot["paths"], "paths_outside_bounds": tot["pruned"],
            "assertions_checked": tot["checks"], "assertions_symbolic": tot["checks_symbolic"],
            "solver_queries": tot["queries"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"],
            "solver_cache_hits": tot["cache_hits"], "decided_by_intervals": tot["interval_hits"], "solver_seconds": round(solver_s, 2),
            "symbolic_execution_wall_s": round(tsym, 2),
            "max_symbolic_bytes_on_a_path": max([r.get("max_sym_bytes", 0) for r in results] + [0]),
            "uninitialised_bytes_made_symbolic": tot["uninit_reads"],
            "reached": reach, "functions_encoded_count": len(enc), "functions_encoded": enc[:250],
            "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""), "narrower_bounds_for": sorted(NARROW.values()),
            "exhaustive": not errors and not viols,
            "inconclusive": errors[:20],
            "known_findings": sorted(f"{a} {b}" for a, b in knownHit),
        },
        "assumptions": jobs.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    with open(f"{ROOT}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for (e, l), w in sorted(knownHit.items()):
        print(f"KNOWN-FINDING: property={pid} {w} (entry {e}, {l})")
    print(f"{pid} [{tier}]: {len(results)}/{len(jl)} jobs, {tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} solver queries "
          f"({solver_s:.1f} s), {validated} paths replayed natively, {wall:.1f} s")
    if os.environ.get("VERIF_DEBUG"):
        for r in sorted(results, key=lambda r: -r.get("wall_s", 0))[:12]:
            print("   ", r["job"]["entry"], r["job"]["args"], {k: r.get(k) for k in ("paths", "states", "queries", "wall_s", "solver_s", "instructions", "unexplored")})
        print("    reach", reach)
    if viols:
        for v in viols:
            print(f"  {v['kind']}: {v['label']} in {v['entry']}{tuple(v['args'])} at {v['where'][:400]}; native replay: {v['native']}")
        for v in viols:
            print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    rc = 0
    for v in unconfirmed:
        print(f"UNCONFIRMED: {v['kind']} {v['label']} in {v['entry']}{tuple(v['args'])} at {v['where'][:300]}; native replay said: {v['native']} ({v['file']})")
        rc = 2
    for m in mismatch[:10]:
        print(f"ENCODING MISMATCH: {m}")
        rc = 2
    seen = set()
    for e in errors:
        rc = 2
        k = e.split(": ", 1)[-1]
        if k in seen:
            continue
        seen.add(k)
        print(f"INCONCLUSIVE: {e}")
    if missing:
        print(f"VACUOUS: these situations were never reached: {', '.join(missing)}")
        rc = 2
    if rc == 0 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(outdir, ignore_errors=True)
    return rc


def setup():
    import jobs
    t = time.time()
    units = sorted({u for s in jobs.SPECS.values() for u in s["units"]})
    d = f"{BUILD}/run/setup"
    os.makedirs(d, exist_ok=True)
    os.makedirs(CACHE, exist_ok=True)
    try:
        engine()
        hs = [f"{ROOT}/harness/{u}" for u in units] + [f"{ROOT}/harness/env.cpp"]
        todo = [(s, k) for s in repo_sources() + hs for k in ("bc", "nat")] + [(f"{ROOT}/harness/rt.cpp", "bc"), (f"{ROOT}/harness/native_rt.cpp", "nat")]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda t: compile_one(*t), todo))
    except BuildError as e:
        print("setup failed:", e)
        return 1
    shutil.rmtree(d, ignore_errors=True)
    print(f"setup done in {time.time() - t:.0f} s")
    return 0


def do_replay(path):
    import jobs
    txt = open(path).read()
    pid = re.search(r"# property (\S+)", txt).group(1)
    entry = re.search(r"# entry (\S+)", txt).group(1)
    d = f"{BUILD}/run/replay_{pid}"
    os.makedirs(d, exist_ok=True)
    bc, exe, link = build(jobs.SPECS[pid]["units"], d)
    o, _ = link.communicate()
    r = subprocess.run([exe, entry, path])
    return r.returncode


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:                       # no verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
