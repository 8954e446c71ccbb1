#!/usr/bin/env python3
"""Runs one check:  check.py <property> [quick|thorough] [--job NAME] [--keep]

Builds the harness of the property from /repo's current working tree in a
scratch directory, runs its exploration jobs in parallel, merges their reports,
writes /verif/evidence/<property>.json and prints the verdict.
Exit 0: held on everything explored.  1: VIOLATION line.  2: the check broke.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DIST_REPO", "/repo")
NCPU = max(1, min(8, os.cpu_count() or 8))
CACHE = os.path.join(VERIF, "build", "cache")      # used only where it already exists (development)

sys.path.insert(0, VERIF)
from checks import CHECKS, CONFIGS                  # noqa: E402


STOP, RUNNING = [], set()                           # one job without an end stops the others


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(cmd_flags, src, obj, extra):
    cmd = ["g++"] + cmd_flags + extra
    key = None
    if os.path.isdir(CACHE):
        pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if pre.returncode == 0:
            h = hashlib.sha256(("\0".join(cmd)).encode() + pre.stdout).hexdigest()
            key = os.path.join(CACHE, h + ".o")
            if os.path.exists(key):
                shutil.copy(key, obj)
                return
    r = sh(cmd + ["-c", src, "-o", obj])
    if r.returncode:
        raise Broken("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    if key:
        shutil.copy(obj, key + ".%d" % os.getpid())
        os.rename(key + ".%d" % os.getpid(), key)


def repo_sources():
    out = []
    for d, _, names in sorted(os.walk(os.path.join(REPO, "src"))):
        for n in sorted(names):
            p = os.path.join(d, n)
            if n.endswith(".cc") and not n.startswith("test_") and not n.startswith("benchmark") and n != "schema.pb.cc":
                out.append(p)
    return out


def build_cc(check, work):
    """Compiles every binary of the check; returns {name: path}."""
    gen = os.path.join(work, "gen")
    os.makedirs(os.path.join(gen, "distributions", "io"), exist_ok=True)
    r = sh(["protoc", "--cpp_out=" + gen, "distributions/io/schema.proto"], cwd=REPO)
    if r.returncode:
        raise Broken("protoc failed: " + r.stdout)
    jobs, bins = {}, {}
    for b in check["bins"]:
        cfg = dict(CONFIGS[b["config"]])
        flags = cfg["flags"] + b.get("flags", []) + ["-I" + gen, "-I" + os.path.join(VERIF, "cc"), "-I" + os.path.join(REPO, "include")]
        objs = []

        def need(src, extra=(), tag=""):
            f = flags + list(extra)
            h = hashlib.sha1(("\0".join(f) + src + tag).encode()).hexdigest()[:16]
            obj = os.path.join(work, h + ".o")
            jobs[obj] = (f, src, obj, [])
            objs.append(obj)

        for s in b["srcs"]:
            need(os.path.join(VERIF, "cc", s), b.get("harness_flags", ()))
        skip = b.get("skip", ["niw.cc"])
        if b.get("lib", True):
            for s in repo_sources():
                if os.path.basename(s) not in skip:
                    need(s, b.get("lib_flags", ()))
        if b.get("proto", True):
            f = CONFIGS["plain"]["flags"] + ["-I" + gen]
            obj = os.path.join(work, "pb.o")
            jobs[obj] = (f, os.path.join(gen, "distributions", "io", "schema.pb.cc"), obj, [])
            objs.append(obj)
        for s in b.get("plain_srcs", []):
            f = CONFIGS["plain"]["flags"] + b.get("plain_flags", []) + ["-I" + os.path.join(VERIF, "cc")]
            obj = os.path.join(work, s + ".plain.o")
            jobs[obj] = (f, os.path.join(VERIF, "cc", s), obj, [])
            objs.append(obj)
        bins[b["name"]] = (objs, cfg["link"] + b.get("link", []) + (["-lprotobuf"] if b.get("proto", True) else []) + ["-lpthread", "-lm"])
    with ThreadPoolExecutor(NCPU) as pool:
        for f in [pool.submit(compile_one, *j) for j in sorted(jobs.values(), key=lambda j: -os.path.getsize(j[1]) if VERIF not in j[1] else -1e9)]:
            f.result()
    out = {}
    for name, (objs, link) in bins.items():
        exe = os.path.join(work, name)
        r = sh(["g++"] + objs + ["-o", exe] + link)
        if r.returncode:
            raise Broken("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        out[name] = exe
    return out


def run_job(argv, report, timeout, env):
    t0 = time.time()
    log = report + ".log"
    if STOP:
        return "stopped", None, "", 0.0
    with open(log, "w") as f:
        p = subprocess.Popen(argv, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=os.path.dirname(report))
        RUNNING.add(p.pid)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = "stopped" if STOP else "timeout"
            STOP.append(1)
            for pid in list(RUNNING):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
        RUNNING.discard(p.pid)
        if STOP and rc == -signal.SIGKILL:
            rc = "stopped"
    rep = None
    if os.path.exists(report):
        try:
            rep = json.load(open(report, errors="replace"))
        except ValueError:
            rep = None
    return rc, rep, open(log, errors="replace").read()[-6000:], time.time() - t0


def known_findings(prop):
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m[1] == prop:
                known[m[2]] = m[3]
    return known


def selftest():
    """setup_cmd: the tools the checks call are there (nothing needs building ahead)."""
    for tool in (["g++", "--version"], ["protoc", "--version"], ["/usr/bin/python3", "-c", "import numpy"], ["cmake", "--version"], ["ninja", "--version"]):
        r = sh(tool)
        if r.returncode:
            sys.exit("missing tool %s: %s" % (tool[0], r.stdout))
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    print("ready: %d checks" % len(CHECKS))


def main():
    if "--selftest" in sys.argv:
        return selftest()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = next((a[6:] for a in sys.argv if a.startswith("--job=")), None)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    status = 2
    try:
        status = run(prop, tier, seed, check, work, only, t0)
    except Broken as e:
        print("check %s is broken: %s" % (prop, e))
    finally:
        if "--keep" in sys.argv:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


def run(prop, tier, seed, check, work, only, t0):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               NUMPY_EXPERIMENTAL_DTYPE_API="1", VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_WORK=work, DIST_REPO=REPO)
    jobs = []
    if check.get("bins"):
        bins = build_cc(check, work)
        env.update(("BIN_" + k, v) for k, v in bins.items())
        for b in check["bins"]:
            if b.get("driver_only"):
                continue
            exe = bins[b["name"]]
            r = subprocess.run([exe, "--list", "--tier=" + tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise Broken("cannot list jobs of %s: %s" % (exe, r.stderr))
            for j in r.stdout.split():
                jobs.append((b["name"] + ":" + j, [exe, "--tier=" + tier, "--seed=%d" % seed, "--job=" + j]))
    if check.get("py"):
        import pybuild.build as pb
        if check.get("pybuild"):
            try:
                tree = pb.build(REPO, work, tuple(check["pybuild"]), NCPU, CACHE)
            except pb.BuildError as e:
                raise Broken("python build failed: %s" % e)
            env["PYTHONPATH"] = tree + ":" + os.path.join(VERIF, "py")
        else:
            env["PYTHONPATH"] = os.path.join(VERIF, "py")
        script = os.path.join(VERIF, "py", check["py"])
        r = subprocess.run(["/usr/bin/python3", script, "--list", "--tier=" + tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        if r.returncode:
            raise Broken("cannot list jobs of %s: %s" % (script, r.stderr[-3000:]))
        for j in r.stdout.split():
            jobs.append(("py:" + j, ["/usr/bin/python3", "-W", "ignore", script, "--tier=" + tier, "--seed=%d" % seed, "--job=" + j]))
    build_s = time.time() - t0
    if only:
        jobs = [j for j in jobs if only in j[0]]
    total = {"states": 0, "transitions": 0, "traces": 0, "evals": 0}
    violations, extra, samples, times, broken, complete = [], {}, [], {}, [], True
    timeout = check.get("timeout", 420 if tier == "quick" else 3 * 3600)
    with ThreadPoolExecutor(check.get("parallel", NCPU)) as pool:
        futs = {}
        for i, (name, argv) in enumerate(jobs):
            rep = os.path.join(work, "report%d.json" % i)
            futs[pool.submit(run_job, argv + ["--out=" + rep], rep, timeout, env)] = (name, argv)
        for f in as_completed(futs):
            name, argv = futs[f]
            rc, rep, log, dt = f.result()
            times[name] = round(dt, 2)
            if rep:
                for k in total:
                    total[k] += rep.get(k, 0)
                for v in rep["violations"]:
                    violations.append(dict(v, job=name, log=log if v["key"] == "crash" else "", count=rep.get("violation_counts", {}).get(v["key"], 1)))
                for k, v in rep.get("extra", {}).items():
                    extra[name.split("/")[0] + "." + k] = (extra.get(name.split("/")[0] + "." + k, 0) + v) if k.startswith(("sched", "memory_acc", "synchron", "programs_", "sampled_")) else max(v, extra.get(name.split("/")[0] + "." + k, v)) if isinstance(v, (int, float)) else v
                if len(samples) < 12:
                    samples += [name + ": " + s for s in rep.get("samples", [])[:2]]
                complete = complete and rep.get("complete", False)
            if rc == "timeout":
                violations.append({"key": "no-end", "detail": "job %s, which takes seconds, had not ended after %d s: some operation hangs" % (name, timeout), "job": name, "log": log})
                complete = False
            elif rc == "stopped":
                complete = False
            elif rc not in (0, 3) or not rep:
                if isinstance(rc, int) and (rc < 0 or rc == 3):
                    violations.append({"key": "crash", "detail": "job %s ended with status %s" % (name, rc), "job": name, "log": log})
                else:
                    broken.append("job %s: status %s\n%s" % (name, rc, log))
                complete = False
    known = known_findings(prop)
    real, seen_known = [], {}
    for v in violations:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            real.append(v)
    cov = {
        "states": total["states"], "transitions": total["transitions"], "traces_validated_against_impl": total["traces"],
        "oracle_evaluations": total["evals"], "jobs": len(jobs), "exhaustive": bool(complete and not check.get("capped")),
        "bounds": check["bounds"][tier] if isinstance(check["bounds"], dict) else check["bounds"],
        "samples": samples[:12] or ["none"], "measured": extra, "job_seconds": times, "build_seconds": round(build_s, 1),
        "known_findings_reproduced": sorted(seen_known),
    }
    if check["level"] == "exploration":
        cov["evaluations"] = total["evals"]
        cov["distinct_nontrivial"] = total["traces"]
        cov["rule"] = check.get("rule", check["bounds"] if isinstance(check["bounds"], str) else check["bounds"][tier])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check["level"], "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
    if real:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", prop + ".json")
        json.dump({"property": prop, "tier": tier, "seed": seed, "violations": real,
                   "replay": "python3 /verif/check.py %s %s --job=%s" % (prop, tier, real[0]["job"])}, open(path, "w"), indent=1)
        keys = {}
        for v in real:
            keys.setdefault(v["key"], v)
        for k, v in list(keys.items())[:12]:
            print("  [%s] %s: %s" % (k, v["job"], v["detail"][:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        raise Broken("; ".join(broken))
    if not jobs or total["evals"] == 0:
        raise Broken("nothing was explored")
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d evaluations=%d build=%.1fs wall=%.1fs" % (
        prop, tier, total["states"], total["transitions"], total["traces"], total["evals"], build_s, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
