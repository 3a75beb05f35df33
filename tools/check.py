#!/usr/bin/env python3
"""check.py Cxx: decides property Cxx on the current tree of /repo (see DESIGN.md)."""
import sys, os, random, itertools, tempfile, shutil, collections, json, time, hashlib, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *
from runner import *
from profiles import *
import models as M

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = TIER != "thorough"
T0 = time.time()
MAXREP = 5
FLUSH = 50000
WORK = tempfile.mkdtemp(prefix="tppv_%s_" % PROP)
log = lambda *a: print("[%6.1f]" % (time.time() - T0), *a, flush=True)

def title():
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        if p["id"] == PROP: return p["title"]

class Findings:
    """known_findings.txt: 'finding: property=Cxx cont=.. op=.. aspect=.. <text>' lines; 'fixed:' lines suppress nothing."""
    def __init__(s):
        s.known = []; s.hit = {}
        f = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r"finding: property=(\S+) cont=(\S+) op=(\S+) aspect=(\S+) (.*)", l)
                if m and m.group(1) == PROP: s.known.append(m.groups())
    def match(s, cont, op, aspects):
        for k in s.known:
            if cont in k[1].split(",") and op in k[2].split(",") and set(aspects) <= set(k[3].split(",")):
                s.hit[k] = s.hit.get(k, 0) + 1; return True
        return False

class Check:
    def __init__(s):
        s.B = Builder(WORK); s.F = Findings()
        s.viol = []          # (signature, target, script, events, line, aspects)
        s.ntr = s.nev = s.states = 0; s.mstates = s.mtrans = 0
        s.pend = {}; s.npend = 0
        s.samples = []; s.opcount = collections.Counter(); s.models = []

    def build(s, targets):
        s.B.build(targets)
        for t in [t for t in targets if t in s.B.fail]:
            err = [x for x in s.B.fail[t].split("\n") if "error" in x] or ["build failed"]
            s.report("build/" + t.cont, t, ["# harness does not compile: public interface broken"] + s.B.fail[t].split("\n")[:200], [], 0, ["build"], err[0][:300])
        return [t for t in targets if t in s.B.bin]

    def execute(s, jobs):
        """jobs: [(target, [scripts])] -> {(target, i): events}"""
        out = {}
        # split the jobs so that all cores are used
        parts = []
        for t, sc in jobs:
            step = max(8, (len(sc) + 3) // 4)
            for a in range(0, len(sc), step): parts.append((t, a, sc[a:a + step]))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (t, a, sc), ev in zip(parts, ex.map(lambda j: run_scripts(s.B.bin[j[0]], j[2]), parts)):
                for i, e in enumerate(ev): out[(t, a + i)] = e
        return out

    def judge(s, ev, prop=None):
        t0 = time.time(); rej, st = validate(WORK, prop or PROP, [(k, e) for k, e in ev.items()])
        s.states += st
        log("%d traces, %d events checked by TLC in %.1f s" % (len(ev), sum(map(len, ev.values())), time.time() - t0))
        return rej

    def report(s, sig, t, script, events, line, aspects, what):
        if any(v[0] == sig for v in s.viol): return
        s.viol.append((sig, t, script, events, line, aspects, what))

    def rejects_of(s, t, scripts, prop=None):
        ev = {i: e for i, e in enumerate(run_scripts(s.B.bin[t], scripts))}
        rej, _ = validate(WORK, prop or PROP, list(ev.items()), tag="m")
        return rej, ev

    def genuine_c14(s, t, script, r):
        """C14 is about what happens after an exception: the same script without injected exceptions must be accepted."""
        if PROP != "C14": return True
        plain = [re.sub(r"^thr -?\d+ ", "", x) for x in script]
        rej, _ = s.rejects_of(t, [plain], "ALL")
        return not rej

    def minimise(s, t, script, op, budget=12.0):
        """Drops script lines while the same kind of rejection remains."""
        t1 = time.time()
        head = [x for x in script if x.startswith(("begin", "hash"))]; body = [x for x in script if x not in head and x != "end"]
        step = max(1, len(body) // 2)
        while step >= 1 and time.time() - t1 < budget:
            cands = []
            for a in range(0, len(body), step): cands.append(body[:a] + body[a + step:])
            rej, _ = s.rejects_of(t, [head + c + ["end"] for c in cands])
            good = [i for i in sorted(rej) if any(x[1] == op for x in rej[i])]
            if good:
                body = cands[good[0]]
                step = min(step, max(1, len(body) // 2))
            else: step //= 2
        return head + body + ["end"]

    def consider(s, scripts, ev, rej):
        """Confirms rejections and turns them into reported violations (a few per signature)."""
        seen = collections.Counter()
        for key in sorted(rej, key=lambda k: (len(ev[k]), k[0].name, k[1])):
            t, i = key; r = rej[key][0]
            e = json.loads(ev[key][r[0]])
            op = e["at"] if r[1] == "crash" else r[1]
            if s.F.match(t.cont, op, r[2]): continue
            sig = "%s/%s/%s" % (t.cont, op, "+".join(sorted(r[2])))
            if seen[sig] or len(s.viol) >= MAXREP: seen[sig] += 1; continue
            script = scripts[key]
            r2, ev2 = s.rejects_of(t, [script])
            if 0 not in r2: log("not reproducible, ignored:", sig); continue
            if not s.genuine_c14(t, script, r): continue
            seen[sig] += 1
            small = s.minimise(t, script, r[1])
            r3, ev3 = s.rejects_of(t, [small])
            if 0 not in r3: small, r3, ev3 = script, r2, ev2
            x = r3[0][0]; why = json.loads(ev3[0][x[0]])
            s.report(sig, t, small, ev3[0], x[0], x[2], "%s: event %d (%s) not allowed by the specification in %s %s" % (t.name, x[0] + 1, x[1], x[2], why.get("why", why.get("msg", ""))))

    # ------------------------------------------------------------ models
    def explore(s, specs):
        """Explores the models (in the background) and returns histories to replay: [(spec, note, [(H, ops)])]."""
        res = []; rng = random.Random("%s/%d/models" % (PROP, SEED)); W = 2 if QUICK else 4
        ex = cf.ThreadPoolExecutor(4 if QUICK else 2)
        jobs = []                                   # (future of TLC's run, what to make of it), in the order of the specifications
        todo = lambda f, *a, use, **k: jobs.append((ex.submit(f, *a, **k), use))
        def walks(m, B, name, w, x=None):
            s.model(name, x["states"] if x else 0, x["trans"] if x else 0, bool(x), sum(len(y[1]) for y in w))
            res.append((m, B, w))
        for n, m in enumerate(specs):
            if m["kind"] == "swiss":
                for j, (B, groups, cap, limit) in enumerate(m.get("tours", [])):
                    for i, g in enumerate([rng.choice(groups)] if QUICK else groups):
                        todo(M.swiss_explore, WORK, "sw%d_%d_%d" % (n, j, i), B, [g], cap, workers=W,
                             use=lambda x, m=m, B=B, cap=cap, g=g, limit=limit: walks(m, B, "Swiss.tla B=%d capacity<=%d keys=%s" % (B, cap, g), M.swiss_walks(x, rng, limit=limit if QUICK else None), x))
                for j, (B, g, cap, order) in enumerate(m.get("explore", [])):
                    todo(M.swiss_explore, WORK, "swx%d_%d" % (n, j), B, g, cap, ordered=order, graph=False, workers=W,
                         use=lambda x, B=B, g=g, cap=cap, order=order: s.model("Swiss.tla B=%d capacity<=%d %s keys=%s" % (B, cap, "ordered" if order else "unordered", g), x["states"], x["trans"], True, 0))
                for B, first, more in m.get("corpus", []):
                    h = M.load_corpus(B)
                    walks(m, B, "Swiss.tla B=%d random histories (committed)" % B, h[:first] + (rng.sample(h[first:], min(more, len(h) - first)) if QUICK else h[first:]))
                if not QUICK:
                    for B in sorted({x[0] for x in m.get("corpus", [])}):
                        for i in range(16):
                            r = random.Random("%s/%d/%d/%d" % (PROP, SEED, B, i))
                            H = M.sim_hashes(r, r.choice([30, 40, 60] if B == 16 else [14, 20, 40]), 6, (15, 31, 31, 63))
                            todo(M.swiss_simulate, WORK, "sim%d_%d_%d" % (n, B, i), B, H, 4, 260, SEED * 1000 + i,
                                 use=lambda x, m=m, B=B: walks(m, B, "Swiss.tla B=%d random histories (fresh), %d states" % (B, x[1]), [(w[1], w[2]) for w in x[0]]))
            elif m["kind"] == "dense":
                for i, h in enumerate([rng.choice(m["hashes"])] if QUICK else m["hashes"]):
                    todo(M.dense_explore, WORK, "dn%d_%d" % (n, i), m["nk"], [h], m["maxb"], m["mlfs"], m["ord"], workers=W,
                         use=lambda x, m=m, h=h: walks(m, 0, "Dense.tla NK=%d buckets<=%d %s hashes=%s" % (m["nk"], m["maxb"], "ordered" if m["ord"] else "unordered", h), M.dense_walks(x, rng, limit=m["limit"] if QUICK else None), x))
            elif m["kind"] == "abs":
                fams = collections.defaultdict(list)
                for k, p in itertools.product(m["conts"], m["pols"]):
                    kd = K(k)
                    fams[(kd.nk, int(kd.map), int(kd.ord), p if m["slots"] > 1 else min(p, 0))].append((k, p))
                for i, (fam, tg) in enumerate(sorted(fams.items())):
                    m1 = dict(m, keys=m["keys"][:2], maxlen=min(m["maxlen"], 2)) if fam[0] > 2 else m
                    forms = [f for f in Gen(K(tg[0][0]), fam[3], {}, rng).forms if f in m["forms"] or not m["forms"]]
                    todo(M.abs_explore, WORK, "ab%d_%d" % (n, i), fam, m1, forms, workers=W,
                         use=lambda x, m1=m1, tg=tg, fam=fam: walks(dict(m1, targets=tg), 0, "TppModel.tla %s family=%s keys=%s" % (m1["name"], fam, m1["keys"]), M.abs_walks(x, rng, limit=m1["limit"] if QUICK else 20 * m1["limit"]), x))
        for f, use in jobs: use(f.result())
        ex.shutdown()
        return res

    def targets(s, m):
        return [t for t in (Target(k, p, v) for k, p in m.get("targets") or itertools.product(m["conts"], m["pols"]) for v in m["vars"]) if t in s.B.bin]

    def model(s, name, states, trans, exhaustive, steps):
        s.mstates += states; s.mtrans += trans
        s.models.append({"model": name, "states": states, "transitions": trans, "exhaustive": exhaustive, "steps_replayed_per_container": steps})
        log("model", name, states, "states", trans, "transitions,", steps, "steps to replay")

    def render(s, m, k, p, walks):
        if m["kind"] == "abs": return [M.abs_script(c, ops, m, p, random.Random("%s/%d/%d" % (PROP, SEED, i))) for i, (c, ops) in enumerate(walks)]
        f = M.dense_script if m["kind"] == "dense" else M.swiss_script
        kw = {"extra": ["bkt 0"]} if PROP == "C20" and m["kind"] == "dense" else {}
        return [f(H, ops, K(k), p, random.Random("%s/%d/%s/%d" % (PROP, SEED, k, i)), chunk=m.get("chunk", 12), **kw) for i, (H, ops) in enumerate(walks)]

    def replay(s, fut):
        """Replays the histories of the models into the containers."""
        for m, B, walks in fut:
            for t in s.targets(m): s.queue(t, s.render(m, t.cont, t.pol, walks))
        s.flush()

    def queue(s, t, scripts):
        """Scripts wait until there is enough for a run of TLC over what they record to be worth starting."""
        s.pend.setdefault(t, []).extend(scripts)
        s.npend += sum(map(len, scripts))
        if s.npend >= FLUSH: s.flush()

    def flush(s):
        pend, s.pend, s.npend = s.pend, {}, 0
        if pend and len(s.viol) < MAXREP:
            s.go(list(pend.items()), {(t, i): x for t, sc in pend.items() for i, x in enumerate(sc)})

    def run(s, camps, specs, mult):
        with cf.ThreadPoolExecutor(1) as ex:
            fut = ex.submit(s.explore, specs)
            tg = [Target(k, p, v) for c in camps + specs for k in c["conts"] for p in c["pols"] for v in c["vars"]]
            ok = set(s.build(list(dict.fromkeys(tg))))
            log("built", len(ok), "harness binaries")
            s.random_campaigns(camps, ok, mult)
            s.replay(fut.result())

    # ------------------------------------------------------------ campaigns
    def random_campaigns(s, camps, ok, mult=1):
        for ci, c in enumerate(camps):
            total = c["n"] * mult; done = 0
            while done < total and len(s.viol) < MAXREP:
                n = min(total - done, max(c["n"], 40))
                for k, p, v in itertools.product(c["conts"], c["pols"], c["vars"]):
                        t = Target(k, p, v)
                        if t not in ok: continue
                        g = Gen(K(k), p, c["prof"], random.Random("%s/%d/%d/%d/%s/%d" % (PROP, SEED, ci, done, k, p)))
                        s.queue(t, [g.script() for _ in range(n)])
                done += n

    def go(s, jobs, scr):
        ev = s.execute(jobs)
        s.count(ev, scr)
        rej = s.judge(ev)
        if rej: s.consider(scr, ev, rej)
        return ev

    def count(s, ev, scr):
        s.ntr += len(ev)
        for k, e in ev.items():
            s.nev += len(e)
            for x in e: s.opcount[x[7:x.index('"', 7)]] += 1
        for k in list(ev)[:1]:
            if len(s.samples) < 6: s.samples.append({"target": k[0].name, "script": [x for x in scr[k] if not x.startswith("hash")][:40]})

    def differential(s, camps, specs, mult=1):
        """C18: the same scripts on every build configuration; the verdicts of the specification must agree."""
        ex = cf.ThreadPoolExecutor(1); fut = ex.submit(s.explore, specs)
        allt = list(dict.fromkeys(Target(k, p, v) for c in camps + specs for k in c["conts"] for p in c["pols"] for v in C18_VARIANTS))
        s.B.build(allt)
        log("built", len(s.B.bin), "harness binaries")
        for t in allt:  # a configuration that does not compile while another does
            if t in s.B.fail and any(Target(t.cont, t.pol, v) in s.B.bin for v in C18_VARIANTS):
                err = [x for x in s.B.fail[t].split("\n") if "error" in x] or ["build failed"]
                s.report("build/" + t.var, t, ["# does not compile in configuration " + t.var] + s.B.fail[t].split("\n")[:200], [], 0, ["build"], err[0][:300])
        for m, B, walks in fut.result():
            for k, p in m.get("targets") or itertools.product(m["conts"], m["pols"]): s.queue2((k, p), s.render(m, k, p, walks))
        for ci, c in enumerate(camps):
            for rnd in range(mult):
                for k in c["conts"]:
                    for p in c["pols"]:
                        g = Gen(K(k), p, c["prof"], random.Random("%s/%d/%d/%d/%s/%d" % (PROP, SEED, ci, rnd, k, p)))
                        s.queue2((k, p), [g.script() for _ in range(c["n"])])
        s.flush2()
        ex.shutdown()

    def queue2(s, kp, scripts):
        s.pend.setdefault(kp, []).extend(scripts)
        s.npend += len(C18_VARIANTS) * sum(map(len, scripts))
        if s.npend >= FLUSH: s.flush2()

    def flush2(s):
        pend, s.pend, s.npend = s.pend, {}, 0
        if pend and len(s.viol) < MAXREP: s.compare(pend)

    def compare(s, scripts):
        scr = {}; jobs = []
        for (k, p), sc in scripts.items():
            for v in C18_VARIANTS:
                t = Target(k, p, v)
                if t not in s.B.bin: continue
                jobs.append((t, sc))
                for i, x in enumerate(sc): scr[(t, i)] = x
        ev = s.execute(jobs); s.count(ev, scr)
        rej = s.judge(ev)
        by = collections.defaultdict(dict)
        for (t, i) in ev: by[(t.cont, t.pol, i)][t.var] = tuple((x[0], x[1], tuple(sorted(x[2]))) for x in rej.get((t, i), []))[:1]
        for key, d in sorted(by.items()):
            if len(set(d.values())) > 1:
                bad = sorted(v for v in d if d[v]); t = Target(key[0], key[1], bad[0]); r = rej[(t, key[2])][0]
                sig = "%s/%s/%s" % (",".join(bad), r[1], "+".join(sorted(r[2])))
                if len(s.viol) >= MAXREP: break
                s.report(sig, t, scr[(t, key[2])], ev[(t, key[2])], r[0], r[2], "configurations %s reject event %d (%s) that others accept: %s" % (bad, r[0] + 1, r[1], r[2]))

    # ------------------------------------------------------------ results
    def finish(s):
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        for k in s.F.known:
            if k in s.F.hit: print("KNOWN-FINDING: property=%s %s" % (PROP, k[4]))
        for n, (sig, t, script, events, line, aspects, what) in enumerate(s.viol):
            p = os.path.join(rd, "%s-%d.txt" % (PROP, n))
            with open(p, "w") as f:
                f.write("# %s: %s\n# target %s\n# %s\n" % (PROP, title(), t.name, what.replace("\n", " ")))
                f.write("# replay: python3 tools/replay.py %s\n" % os.path.relpath(p, VERIF))
                f.write("\n".join(script) + "\n")
                if events: f.write("# recorded events, the rejected one is number %d\n" % (line + 1) + "".join("# %s\n" % e for e in events[max(0, line - 1):line + 1]))
            print("VIOLATION property=%s replay=%s" % (PROP, p)); print("   ", what[:400])
        ev = {"property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {"states": s.mstates + s.states, "transitions": s.mtrans + s.nev, "traces_validated_against_impl": s.ntr,
                           "trace_states": s.states, "model_states": s.mstates, "model_transitions": s.mtrans, "models": s.models,
                           "events": s.nev, "events_by_operation": dict(s.opcount.most_common()), "binaries": sorted(t.name for t in s.B.bin),
                           "exhaustive": False, "samples": s.samples or [{"note": "nothing ran"}]},
              "assumptions": ["instrumented element, functor and allocator types stand for all conforming types", "sequential use of the containers"],
              "wall_s": round(time.time() - T0, 1), "violations": len(s.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)
        log("%s: %d traces, %d events, %d states, %d violations" % (PROP, s.ntr, s.nev, s.states + s.mstates, len(s.viol)))
        return 1 if s.viol else 0

def main():
    c = Check()
    try:
        camps = PROFILES[PROP]
        mult = 1 if QUICK else 12
        specs = MODELS.get(PROP, [])
        if PROP == "C18": c.differential(camps, specs, mult)
        else: c.run(camps, specs, mult)
        rc = c.finish()
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)
if __name__ == "__main__": main()
