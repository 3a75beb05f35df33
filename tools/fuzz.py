#!/usr/bin/env python3
"""Development helper: fuzz.py PROP CONTS POLS OPS n [key=value ..]: random scripts, prints rejected events per class."""
import sys, os, random, tempfile, shutil, collections, json
sys.path.insert(0, os.path.dirname(__file__))
from gen import *; from runner import *
prop, conts, pols, ops, n = sys.argv[1:6]
prof = dict(ops={}); var = "gcc17-sse2-asan"; seed = 1
for o in ops.split(","):
    o, _, w = o.partition(":"); prof["ops"][o] = float(w or 1)
for kv in sys.argv[6:]:
    k, _, v = kv.partition("=")
    if k == "var": var = v
    elif k == "seed": seed = int(v)
    else: prof[k] = eval(v)
w = tempfile.mkdtemp(prefix="fz"); B = Builder(w)
cs = list(CONTS) if conts == "all" else conts.split(",")
ts = [Target(c, int(p), var) for c in cs for p in pols.split(",")]
B.build(ts)
for t, e in B.fail.items(): print("BUILD FAIL", t.name, [x[:300] for x in e.split("\n") if "error" in x][:3])
items = []; scr = {}
jobs = []
for t in ts:
    if t in B.fail: continue
    g = Gen(K(t.cont), t.pol, prof, random.Random("%d/%s" % (seed, t.name)))
    sc = [g.script() for _ in range(int(n))]
    jobs.append((t, sc))
with cf.ThreadPoolExecutor(NCPU) as ex:
    for (t, sc), ev in zip(jobs, ex.map(lambda j: run_scripts(B.bin[j[0]], j[1]), jobs)):
        for i, e in enumerate(ev): items.append(((t.name, i), e)); scr[(t.name, i)] = sc[i]
t0 = time.time()
rej, st = validate(w, prop, items)
print("events", sum(len(e) for _, e in items), "states", st, "tlc %.1fs" % (time.time() - t0), "rejecting scripts", len(rej))
ev = dict(items)
agg = collections.Counter(); ex1 = {}
for key, rs in rej.items():
    r = rs[0]
    e = json.loads(ev[key][r[0]])
    op = e["at"] if r[1] == "crash" else r[1]
    a = (key[0].split("/")[0], op, tuple(sorted(r[2])), e.get("why", e.get("msg", ""))[:70], e.get("t", 0))
    agg[a] += 1
    if a not in ex1 or len(ev[key]) < len(ev[ex1[a][0]]): ex1[a] = (key, r[0])
os.makedirs("/tmp/rej", exist_ok=True)
for n, (a, c) in enumerate(agg.most_common(40)):
    key, i = ex1[a]
    f = "/tmp/rej/%d.txt" % n
    open(f, "w").write("\n".join(scr[key]) + "\n")
    open(f + ".ev", "w").write("\n".join(ev[key]) + "\n")
    print(n, c, a, "line", i, "of", len(ev[key]))
shutil.rmtree(w)
