#!/usr/bin/env python3
"""replay.py FILE: runs the script of a replay file against /repo and prints the events the specification rejects."""
import sys, os, re, tempfile, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import *
f = sys.argv[1]
txt = open(f).read().split("\n")
name = [l for l in txt if l.startswith("# target ")][0].split()[2]
c, p, v = name.split("/")
script = [l for l in txt if l and not l.startswith("#")]
t = Target(c, int(p), v)
w = tempfile.mkdtemp(prefix="tppr_")
try:
    B = Builder(w); B.build([t])
    if t in B.fail: print(B.fail[t][:4000]); sys.exit(1)
    ev = run_scripts(B.bin[t], [script])
    rej, _ = validate(w, sys.argv[2] if len(sys.argv) > 2 else "ALL", [(0, ev[0])])
    for i, e in enumerate(ev[0]): print(("REJECTED %s " % [r[2] for r in rej.get(0, []) if r[0] == i] if any(r[0] == i for r in rej.get(0, [])) else "         ") + e[:400])
    print("rejected events:", [(r[0] + 1, r[1], r[2]) for r in rej.get(0, [])])
    sys.exit(1 if rej else 0)
finally: shutil.rmtree(w, ignore_errors=True)
