#!/usr/bin/env python3
"""mkcorpus.py B N: random histories of spec/Swiss.tla, of which those with the most kinds of steps go to spec/corpus/swiss<B>.json."""
import sys, os, random, json, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from models import *
B, N, keep = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
w = tempfile.mkdtemp(prefix="mkc_"); hist = []
def job(s):
    r = random.Random("%d/%d" % (B, s)); nk = r.choice([30, 40, 40, 60] if B == 16 else [14, 20, 30, 44])
    return swiss_simulate(w, "s%d" % s, B, sim_hashes(r, nk, 6, (15, 31, 31, 63) if B == 16 else (15, 15, 31, 63)), 6, 260, s + 1)
n = 0
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", 8))) as ex:
    for r, st in ex.map(job, range(N)): hist += r; n += st
res, got = select(hist, keep)
os.makedirs(os.path.join(VERIF, "spec", "corpus"), exist_ok=True)
with open(os.path.join(VERIF, "spec", "corpus", "swiss%d.txt" % B), "w") as f:
    for b, h, ops in res: f.write(json.dumps([b, h, [[o, k] if not (t[1] or t[2]) else [o, k, t[1], t[2]] for o, k, x, t in ops]], separators=(",", ":")) + "\n")
print(n, "states", len(hist), "histories", {k: v for k, v in sorted(got.items()) if k.startswith("inplace")}, len(got))
shutil.rmtree(w)
