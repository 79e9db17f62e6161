#!/usr/bin/env python3
"""seedtest.py ID... : validates planted bugs against /repo (apply, build, tests, demo, check) and undoes them.
Not a check: a development aid."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def demo(i):
    d = tempfile.mkdtemp(); t = os.path.join(d, "x"); shutil.copytree(os.path.join(V, "seeded", i), t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(os.path.join(t, f))
    r = sh("timeout 300 bash %s/demo.sh" % t, cwd="/repo"); shutil.rmtree(d)
    return r
args = [a for a in sys.argv[1:] if a[0] not in "-+"]
nocheck = "-n" in sys.argv
if not args: args = sorted(os.listdir(os.path.join(V, "seeded")))
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
for i in args:
    meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    out = [i, meta["property"]]
    r0 = demo(i)
    out.append("clean-demo=%d" % r0.returncode)
    if r0.returncode: print(r0.stdout[-1500:])
    p = os.path.join(V, "seeded", i, "patch.diff")
    r = sh("git -C /repo apply %s" % p)
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    try:
        b = sh("bash /opt/vp/build.sh"); out.append("build=%d" % b.returncode)
        o = tempfile.mktemp(); sh("bash /opt/vp/test.sh %s" % o)
        t = json.load(open(o)); 
        passed = set(t.get("passed", t.get("pass", [])))
        miss = base - passed
        out.append("tests=%s" % ("ok" if not miss else "FAIL %s" % sorted(miss)))
        d = demo(i); out.append("demo=%d" % d.returncode)
        if not nocheck:
            props = [a[1:] for a in sys.argv if a.startswith("+")] or [meta["property"]]
            for pr in props:
                c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s quick" % pr, cwd=V)
                out.append("check[%s]=%d" % (pr, c.returncode))
                out.append(([l for l in c.stdout.splitlines() if l.startswith("  ")] or c.stdout.splitlines()[-2:] or [""])[0][:220])
    finally:
        sh("git -C /repo checkout -- .")
    print(" ".join(map(str, out)), flush=True)
sh("bash /opt/vp/build.sh")
