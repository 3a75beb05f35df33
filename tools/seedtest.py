#!/usr/bin/env python3
"""Development helper: seedtest.py ID.. [--check C01,C02]: confirms planted changes (builds, passes the tests, demo fails) in a
scratch copy of /repo and runs the checks of their property against that copy. Not used by any registered check."""
import sys, os, subprocess, shutil, json, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(V, "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def original(patch):
    """True when some removed line stems from the first commit."""
    n = 0; cur = None; f = None; ok = 0; bad = 0
    blame = {}
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame[f] = ["^" in x.split()[0] for x in sh("git -C /repo blame -s %s" % f).stdout.splitlines()]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if blame[f][n - 1]: ok += 1
            else: bad += 1
            n += 1
        elif l.startswith(" "): n += 1
    return ok, bad
def one(sid, checks, demo_only):
    d = os.path.join(SEEDS, sid); out = []
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = "/tmp/seed_" + sid
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w); shutil.rmtree(w + "/_build", ignore_errors=True)
    demo = lambda: sh("bash %s/demo.sh" % d, cwd=w, timeout=300)
    r = demo(); out.append("demo clean rc=%d" % r.returncode + ("" if r.returncode == 0 else " BAD " + r.stdout[-300:]))
    r = sh("git apply %s/patch.diff" % d, cwd=w)
    if r.returncode: out.append("PATCH FAILS " + r.stdout[-300:]); return sid, out
    out.append("original/own lines removed %d/%d" % original(d + "/patch.diff"))
    r = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DTPP_TESTS=ON && ninja -C _b && ctest --test-dir _b -j4 --timeout 60", cwd=w)
    m = re.search(r"(\d+)% tests passed, (\d+) tests failed out of (\d+)", r.stdout)
    out.append("tests " + (m.group(0) if m else "BUILD FAILS " + r.stdout[-300:]))
    r = demo(); out.append("demo patched rc=%d %s" % (r.returncode, r.stdout.strip()[-150:]) + (" BAD" if r.returncode == 0 else ""))
    shutil.rmtree(w + "/_b", ignore_errors=True)
    if not demo_only:
        for p in checks or [meta["property"]]:
            r = sh("python3 %s/tools/check.py %s" % (V, p), env=dict(os.environ, TPP_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            v = [l[:230] for l in r.stdout.splitlines() if "VIOLATION" in l or "allowed" in l or "Error" in l or "error" in l]
            out.append("check %s rc=%d %s" % (p, r.returncode, " | ".join(v[:3])) + ("" if r.returncode == 1 else "   <-- MISSED"))
    shutil.rmtree(w, ignore_errors=True)
    return sid, out
a = [x for x in sys.argv[1:] if not x.startswith("--")]
checks = next((x[8:].split(",") for x in sys.argv if x.startswith("--check=")), None)
ids = a or sorted(os.listdir(SEEDS))
with cf.ThreadPoolExecutor(8 if "--demo" in sys.argv else 2) as ex:
    for sid, out in ex.map(lambda s: one(s, checks, "--demo" in sys.argv), ids):
        print("==", sid); [print("   ", o) for o in out]
