#!/usr/bin/env python3
"""Development tool: tries a planted bug of /verif/seeded on /repo.
plant.py ID [--notest] [--check C01[,C02]]: the demo passes on the clean tree; with the
patch /repo builds, the stable tests pass, the demo fails; then the checks run.  Undoes the patch."""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print("BUILD FAILED", r.stdout[-3000:]); return False
    return True
def demo(d):
    t = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), t)
    r = sh("timeout 300 bash %s/demo.sh" % t, cwd="/repo")
    shutil.rmtree(t)
    return r
def main(sid):
    d = os.path.join(VERIF, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    checks = next((a[8:].split(",") for a in sys.argv if a.startswith("--check=")), [prop])
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    ok = True
    if "--notest" not in sys.argv:
        if not build(): return
        r = demo(d)
        if r.returncode: print(sid, "DEMO FAILS ON CLEAN TREE", r.stdout[-2000:]); ok = False
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(sid, "DOES NOT APPLY", r.stdout); return
    try:
        if "--notest" not in sys.argv:
            if not build(): return
            out = tempfile.mktemp()
            sh("bash /opt/vp/test.sh " + out)
            passed = set(json.load(open(out))["passed"]); os.unlink(out)
            lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
            if lost: print(sid, "TESTS FAIL", sorted(lost)[:5]); ok = False
            r = demo(d)
            if not r.returncode: print(sid, "DEMO PASSES WITH PATCH", r.stdout[-1000:]); ok = False
            else: print(sid, "demo with patch:", r.stdout.strip()[-300:])
        for c in checks:
            t = time.time()
            r = sh("python3 %s/check.py %s quick" % (VERIF, c))
            line = [l for l in r.stdout.splitlines() if l.startswith("  [")]
            print(sid, c, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "BROKEN " + r.stdout[-1500:]), "%.0fs" % (time.time() - t), line[0][:260] if line else "")
    finally:
        sh("git -C /repo checkout -- .")
    print(sid, "valid" if ok else "NOT VALID")
for s in [a for a in sys.argv[1:] if not a.startswith("--")]: main(s)
sh("bash /opt/vp/build.sh")
