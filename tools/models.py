"""Explores the models of /verif/spec with TLC and turns their behaviours into scripts for the harness (see DESIGN.md)."""
import collections, hashlib, json, os, random, re, subprocess
from runner import JARS, VERIF

def tlc(work, tag, module, cfg, workers=4, extra=(), timeout=800, mem="3g", path=None):
    d = os.path.join(work, "model_" + tag); os.makedirs(d, exist_ok=True)
    c = os.path.join(d, "m.cfg")
    with open(c, "w") as f: f.write(cfg)
    p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss32m", "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
                        "-noGenerateSpecTE", *extra, "-config", c, path or os.path.join(VERIF, "spec", module + ".tla")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d, timeout=timeout)
    t = p.stdout
    if "No error has been found" not in t and "-simulate" not in extra or "Error:" in t:
        raise RuntimeError("model %s: %s" % (tag, "\n".join(x for x in t.split("\n") if not x.startswith('"<<'))[-3000:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t)
    s = re.findall(r"The number of states generated: (\d+)", t)
    return t, (int(m[-1][1]), int(m[-1][0])) if m else (int(s[-1]), int(s[-1])) if s else (0, 0)

def parse(s):
    """TLA+ values as printed by ToString, without records: tuples, functions over 0.., numbers, strings."""
    s = s.replace("<<", "[").replace(">>", "]")
    s = s.replace("TRUE", "1").replace("FALSE", "0")
    return json.loads(s)

# ---------------------------------------------------------------- tours
def tour(edges, init, rng, maxlen=250, limit=None, loops=0.05, key=None):
    """edges: state -> [(label, state')]. Walks from initial states that together take every transition (all but a sample of
    the loops, on which nothing happens), or limit many of them."""
    walks = []; todo = {}; left = 0
    for s in sorted(edges):
        ix = [i for i, (_, v) in enumerate(edges[s]) if v != s or rng.random() < loops]
        rng.shuffle(ix); todo[s] = ix; left += len(ix)
    if limit and left > limit and key:                  # a sample in which all kinds of transitions are represented alike
        kinds = collections.defaultdict(list)
        for s in sorted(edges):
            for i in todo[s]: kinds[key(edges[s][i][0])].append((s, i))
        for k in sorted(kinds): rng.shuffle(kinds[k])
        todo = {s: [] for s in edges}; n = 0
        while n < limit:
            for k in sorted(kinds):
                if kinds[k]: s, i = kinds[k].pop(); todo[s].append(i); n += 1
        left = n
    left = min(left, limit) if limit and not key else left
    par = {n: None for n in init}; order = list(init)   # shortest paths from the initial states
    for u in order:
        for i, (_, v) in enumerate(edges.get(u, ())):
            if v not in par: par[v] = (u, i); order.append(v)
    pend = [s for s in reversed(order) if todo.get(s)]  # the nearest to the start last
    def nearest(s, cap=400):
        if todo.get(s): return []
        seen = {s: None}; q = collections.deque([s])
        while q and len(seen) < cap:
            u = q.popleft()
            for i, (_, v) in enumerate(edges.get(u, ())):
                if v in seen: continue
                seen[v] = (u, i)
                if todo.get(v):
                    r = []
                    while seen[v]: r.append(seen[v]); v = seen[v][0]
                    return r[::-1]
                q.append(v)
        return None
    while left > 0 and pend:
        j = rng.randrange(len(pend)); pend[j], pend[-1] = pend[-1], pend[j]
        t = pend[-1]
        if not todo[t]: pend.pop(); continue
        w = []; u = t
        while par[u]: w.append(par[u]); u = par[u][0]
        w.reverse(); s = t
        while left > 0:
            p = nearest(s)
            if p is None or len(w) + len(p) >= maxlen: break
            for u, i in p: w.append((u, i)); s = edges[u][i][1]
            i = todo[s].pop(); left -= 1
            w.append((s, i)); s = edges[s][i][1]
        walks.append(w)
    return walks

# ---------------------------------------------------------------- Swiss
SWISS_CFG = """SPECIFICATION %s
%s
CONSTANTS B = %d
 NKeys = %d
 Ordered = %s
 HashFile = "%s"
 MaxCap = %d
 Mutant = "%s"
CHECK_DEADLOCK FALSE
"""
def hashes(groups):
    """groups: per hash function [(h1, h2, count), ..]"""
    r = []
    for g in groups: r.append([[h1, h2] for h1, h2, n in g for _ in range(n)])
    assert len({len(x) for x in r}) == 1
    return r

def swiss_explore(work, tag, B, groups, maxcap, ordered=False, graph=True, mutant="", workers=4):
    hs = hashes(groups); hf = os.path.join(work, "hash_%s.json" % tag)
    json.dump(hs, open(hf, "w"))
    body = "INVARIANT Inv\nVIEW View\nACTION_CONSTRAINT %s" % ("Graph" if graph else "Bound")
    out, (st, tr) = tlc(work, tag, "Swiss", SWISS_CFG % ("Spec", body, B, len(hs[0]), "TRUE" if ordered else "FALSE", hf, maxcap, mutant), workers)
    edges = {}; node = {}; init = set()
    if graph:
        for ln in out.split("\n"):
            if not ln.startswith('"<<\\"G\\"'): continue
            ln = ln[1:-1].replace('\\"', '"')
            m = re.match(r'<<"G", (\d+), (<<.*>>), (<<[-\d, ]*>>), (<<"\w+", .*?>>>>), (<<.*>>), (<<[-\d, ]*>>)>>$', ln)
            h, v, n, o, v2, n2 = m.groups()
            n = tuple(parse(n)); n2 = tuple(parse(n2)); o = parse(o)
            a, b = hashlib.md5(v.encode()).digest()[:8], hashlib.md5(v2.encode()).digest()[:8]
            a, b = (int(h), a), (int(h), b)
            assert node.setdefault(a, n) == n
            edges.setdefault(a, []).append(((o, n2), b))
            if not n: init.add(a)
        init = {a for a in init if all(not x[0][1] or len(x[0][1]) for x in edges[a])}
    return dict(hashes=hs, edges=edges, node=node, init=init, states=st, trans=tr, tag=tag)

def swiss_walks(g, rng, maxlen=250, limit=None):
    """Concrete histories [(hash table, [(op, key or n)])]: the labels of the graph are relative to the representative of a class of states."""
    # the state without any slots is the start
    start = sorted(a for a in g["init"] if g["node"][a] == ())
    seen = {}
    for a in start: seen.setdefault(a[0], []).append(a)
    starts = [v[0] if len(v) == 1 else min(v) for v in seen.values()]
    res = []
    for w in tour(g["edges"], starts, rng, maxlen, limit):
        hf = w[0][0][0]; H = g["hashes"][hf - 1]
        cls = {}
        for k, x in enumerate(H, 1): cls.setdefault(tuple(x), []).append(k)
        cn = (); ops = []
        for s, i in w:
            rn = g["node"][s]; (o, n2), s2 = g["edges"][s][i]
            pi = {0: 0}
            for a, b in zip(rn, cn): pi[a] = b
            assert len(rn) == len(cn)
            for c in cls.values():
                pi.update(zip([k for k in c if k not in rn], [k for k in c if k not in cn]))
            k = pi[o[1]] if o[0] in "ie" else o[1]
            ops.append((o[0], k, o[3]))
            cn = tuple(pi[x] for x in n2)
        res.append((H, ops))
    return res

def swiss_script(H, ops, kind, pol, rng, chunk=12, front=0.15):
    """Renders a history for the harness; runs of insertions and erasures become one seq operation."""
    out = ["begin %d 0" % (len(H) + 1)]
    hv = [(h1 << 7) | h2 for h1, h2 in H]
    for m in range(2 if pol >= 0 else 1): out += ["hash %d %d %d" % (m, k, v) for k, v in enumerate([0] + hv)]
    out.append("new 0 0 0 %d" % (1 if pol >= 0 else 0))
    run = []
    def flush():
        if run: out.append("seq 0 %d %s" % (len(run), " ".join(map(str, run)))); run.clear()
    for o, k, *_ in ops:
        if o == "i": run.append(k + 1 + (100000 if kind.ord and rng.random() < front else 0))
        elif o == "e": run.append(-k - 1)
        elif o == "c": run.append(0)
        else:
            flush()
            if o == "r": out.append("rsv 0 %d" % k)
            elif o == "h": out.append("rh 0 %d" % k)
            elif o == "y": out += ["cc 1 0", "sw 0 1 0", "del 1"]
        if len(run) >= chunk: flush()
    flush()
    out.append("end")
    return out

def sim_hashes(rng, nk, nf, caps=(15, 31, 31, 63)):
    """Hash functions for random histories: groups of keys that overflow their blocks, near the end of the table or anywhere."""
    out = []
    for i in range(nf):
        c = rng.choice(caps); st = i % 6
        home = [rng.randrange(c + 1) for _ in range(3)]; nfr = rng.choice([1, 2, 4, 128])
        big = rng.randrange(nk // 3, nk // 2 + 3); f = []
        for k in range(nk):
            if st == 0: h = rng.randrange(1 << 20)
            elif st == 1: h = home[0] if k < big else home[1] if k < big + nk // 3 else rng.randrange(1 << 20)
            elif st == 2: h = home[0] + rng.randrange(8)
            elif st == 3: h = home[k % 3] + (rng.randrange(4) << 5)
            elif st == 4: h = (c + 1) * 2 // 3 + (k % 4 if k < big else rng.randrange(c))
            else: h = home[0] if k < big else rng.randrange(1 << 20)
            f.append([h % (1 << 20), rng.randrange(nfr)])
        idx = list(range(nk)); rng.shuffle(idx)
        out.append([f[j] for j in idx])
    return out

def swiss_simulate(work, tag, B, hs, num, depth, seed, inv=True, workers=1):
    """Random walks of the model: [(B, hash table, [(op, key, what, tags)])], in which every state satisfies the invariant."""
    hf = os.path.join(work, "hash_%s.json" % tag); json.dump(hs, open(hf, "w"))
    body = ("INVARIANT Inv\n" if inv else "") + "ACTION_CONSTRAINT Log"
    out, (st, tr) = tlc(work, tag, "Swiss", SWISS_CFG % ("SimSpec", body, B, len(hs[0]), "FALSE", hf, 1000, ""), workers,
                        ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=3000)
    res = []
    for ln in out.split("\n"):
        if not ln.startswith('"<<\\"T\\"'): continue
        _, lv, h, o = parse(ln[1:-1].replace('\\"', '"'))
        if lv == 1: res.append((B, hs[h - 1], []))
        res[-1][2].append((o[0], o[1], o[3], o[4]))
    return res, st

def features(h):
    f = set(); last = ""
    for o, k, what, tags in h[2]:
        if o == "i":
            a = what if what != "inplace" else "inplace%d%d%d" % (min(tags[0], 1), min(tags[1], 3), min(tags[2], 3))
            f.add(a); f.add(last + ">" + a); last = a
        else: f.add(last + ">" + o); last = o if o not in "e" else last
    return f

def select(hist, n):
    """Greedy choice of histories that together show the most kinds of steps."""
    got = collections.Counter(); res = []; hist = [(features(h), h) for h in hist]
    for _ in range(min(n, len(hist))):
        w = lambda f: sum((4 if x.startswith("inplace") else 1) / (1 + got[x]) ** 2 for x in f)
        b = max(range(len(hist)), key=lambda i: w(hist[i][0]))
        f, h = hist.pop(b); res.append(h); got.update(f)
    return res, got

def load_corpus(B):
    return [(h, [(x[0], x[1]) for x in ops]) for b, h, ops in map(json.loads, open(os.path.join(VERIF, "spec", "corpus", "swiss%d.txt" % B)))]

# ---------------------------------------------------------------- Dense
DENSE_CFG = """SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT %s
CONSTANTS NK = %d
 NKeys = %d
 Ordered = %s
 HashFile = "%s"
 MaxB = %d
 Mlfs = {%s}
 Mutant = "%s"
CHECK_DEADLOCK FALSE
"""
def dense_explore(work, tag, nk, hs, maxb, mlfs, ordered=False, graph=True, mutant="", workers=4):
    hf = os.path.join(work, "hash_%s.json" % tag); json.dump(hs, open(hf, "w"))
    out, (st, tr) = tlc(work, tag, "Dense", DENSE_CFG % ("Graph" if graph else "Bound", nk, len(hs[0]), "TRUE" if ordered else "FALSE", hf, maxb, ", ".join(map(str, mlfs)), mutant), workers)
    edges = {}; node = {}
    for ln in out.split("\n"):
        if not ln.startswith('"<<\\"G\\"'): continue
        _, h, v, n, o, v2, n2 = parse(ln[1:-1].replace('\\"', '"'))
        tup = lambda x: tuple(tuple(y) for y in x)
        a, b = (h, hashlib.md5(json.dumps(v).encode()).digest()[:8]), (h, hashlib.md5(json.dumps(v2).encode()).digest()[:8])
        assert node.setdefault(a, tup(n)) == tup(n)
        edges.setdefault(a, []).append(((o, tup(n2), v[3] == [] and v[1] == 875), b))
    init = sorted(a for a in edges if edges[a][0][0][2])
    return dict(hashes=hs, edges=edges, node=node, init=init, states=st, trans=tr, tag=tag, nk=nk)

def dense_walks(g, rng, maxlen=200, limit=None):
    """Concrete histories: [(hash table, [(op, keys, n)])] (see swiss_walks)."""
    res = []; nk = g["nk"]
    for w in tour(g["edges"], g["init"], rng, maxlen, limit):
        H = g["hashes"][w[0][0][0] - 1]
        cls = {}
        for k, x in enumerate(H, 1): cls.setdefault(x, []).append(k)
        cn = (); ops = []
        for s, i in w:
            rn = g["node"][s]; (o, n2, _), s2 = g["edges"][s][i]
            assert len(rn) == len(cn)
            pi = []
            for j in range(nk):
                p = {a[j]: b[j] for a, b in zip(rn, cn)}
                pres, conc = set(p), set(p.values())
                for c in cls.values(): p.update(zip([k for k in c if k not in pres], [k for k in c if k not in conc]))
                pi.append(p)
            ks = o[1]
            if o[0] == "i": ks = [pi[j][ks[j]] for j in range(nk)]
            elif o[0] == "e": ks = [pi[o[2] - 1][ks[0]]]
            elif o[0] == "d": ks = [pi[0][ks[0]]]
            ops.append((o[0], ks, -1 if o[0] == "i" and o[2] == len(rn) + 1 else o[2]))
            cn = tuple(tuple(pi[j][x[j]] for j in range(nk)) for x in n2)
        res.append((H, ops))
    return res

def dense_script(H, ops, kind, pol, rng, chunk=12, extra=()):
    out = ["begin %d 0" % (len(H) + 1)]
    for m in range(2 if pol >= 0 else 1): out += ["hash %d %d %d" % (m, k, v) for k, v in enumerate([0] + H)]
    out += ["new 0 0 0 %d" % (1 if pol >= 0 else 0), "mlf 0 875"]
    run = []
    def flush():
        if run: out.append("seq 0 %d %s" % (len(run), " ".join(map(str, run)))); run.clear(); out.extend(extra)
    for o, ks, n in ops:
        if o == "i":
            if kind.multi: run.append(sum(k * 100 ** j for j, k in enumerate(ks)) + 1)
            elif n == 0 or not kind.ord: run.append(ks[0] + 1)
            elif n < 0: run.append(ks[0] + 100001)
            else: flush(); out.append("ins 0 0 2 %d %d %d" % (n - 1, ks[0], ks[0] % 90 + 1))
        elif o == "e": run.append(-ks[0] - 1 - (100 * (n - 1) if kind.multi else 0))
        elif o == "c": run.append(0)
        else:
            flush()
            if o == "d": out.append("eri 0 %d %d" % (-ks[0] - 1, rng.randrange(2)))
            elif o == "r": out.append("rsv 0 %d" % n)
            elif o == "h": out.append("rh 0 %d" % n)
            elif o == "m": out.append("mlf 0 %d" % n)
            elif o == "y": out += ["cc 1 0", "sw 0 1 0", "del 1"]
        if len(run) >= chunk: flush()
    flush()
    out.append("end")
    return out

# ---------------------------------------------------------------- TppModel: the abstract containers
ABS_CFG = """SPECIFICATION ModelSpec
VIEW ModelView
INVARIANT ModelInv
ACTION_CONSTRAINT %s
CONSTANTS TraceFile = "%s"
 Prop = "ALL"
 Ops <- OpsC
 Family <- FamilyC
 KeySet = {%s}
 NVals = %d
 MaxLen = %d
 NSlots = %d
 Forms = {%s}
 Rforms = {%s}
 Conf <- ConfC
CHECK_DEADLOCK FALSE
"""
def abs_explore(work, tag, fam, m, forms, graph=True, workers=4):
    """fam: (nk, map, ord, pol); m: the specification of the world (profiles.py)."""
    d = os.path.join(work, "model_" + tag); os.makedirs(d, exist_ok=True)
    empty = os.path.join(d, "empty.ndjson"); open(empty, "w").close()
    tup = lambda x: "<<" + ", ".join(map(str, x)) + ">>"
    conf = m["conf"] if fam[3] >= 0 else [(0, 0, 0)]
    mc = os.path.join(d, "MC.tla")
    with open(mc, "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS TppModel\nFamilyC == %s\nConfC == %s\nOpsC == {%s}\n====\n" % (
            tup((fam[0], fam[1], fam[2], 0, 0, fam[3])), tup(tup(c) for c in conf), ", ".join('"%s"' % o for o in m["ops"])))
    j = lambda x: ", ".join(map(str, x))
    out, (st, tr) = tlc(work, tag, "MC", ABS_CFG % ("MGraph" if graph else "Small", empty, j(m["keys"]), m["nvals"], m["maxlen"], m["slots"], j(forms), j(m["rforms"])), workers, path=mc)
    edges = {}; init = None
    for ln in out.split("\n"):
        if not ln.startswith('"<<\\"G\\"'): continue
        g = re.match(r'<<"G", (TRUE|FALSE), (<<.*>>), <<"(\w+)"((?:, -?\d+)*)>>, (<<.*>>)>>$', ln[1:-1].replace('\\"', '"'))
        if g[1] == "TRUE": init = g[2]
        edges.setdefault(g[2], []).append((g[3] + g[4].replace(",", ""), g[5]))
    for e in edges.values(): e.sort()
    return dict(edges=edges, init=init, states=st, trans=tr, conf=conf)

def abs_kind(lab):
    x = lab.split()
    return " ".join(x[:1] + (x[2:4] if x[0] in ("ins", "rng", "insr", "asg", "ali") else []))

def abs_walks(g, rng, maxlen=120, limit=None):
    return [(g["conf"][0], [g["edges"][s][i][0] for s, i in w]) for w in tour(g["edges"], [g["init"]], rng, maxlen, limit, loops=1.0, key=abs_kind)]

def abs_script(conf, ops, m, pol, rng):
    from gen import hash_table
    U = 1 + max(k % 1000 for k in m["keys"])
    out = ["begin %d %d" % (U, 1 if max(m["keys"]) >= 1000 else 0)]
    for i in range(2 if pol >= 0 else 1): out += ["hash %d %d %d" % (i, k, v) for k, v in hash_table(rng, U)[1].items()]
    out += ["new %d %d %d %d" % (c, *conf) for c in range(m["slots"])]
    return out + [("thr -1 " + o if m["thr"] and o.split()[0] not in ("ndr", "nmv", "nsw", "del", "mut") else o) for o in ops] + ["end"]
