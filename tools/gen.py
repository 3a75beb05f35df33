"""Seeded generation of operation scripts for the harness (see harness/driver.cpp for the syntax)."""
import random

# name -> (template, map, ordered, stable, dense, nk, multi)
CONTS = {
    "ss": ("sparse_set", 0, 0, 0, 0, 1, 0), "sm": ("sparse_map", 1, 0, 0, 0, 1, 0),
    "oss": ("ordered_sparse_set", 0, 1, 0, 0, 1, 0), "osm": ("ordered_sparse_map", 1, 1, 0, 0, 1, 0),
    "ts": ("stable_set", 0, 0, 1, 0, 1, 0), "tm": ("stable_map", 1, 0, 1, 0, 1, 0),
    "ots": ("ordered_stable_set", 0, 1, 1, 0, 1, 0), "otm": ("ordered_stable_map", 1, 1, 1, 0, 1, 0),
    "ds": ("dense_set", 0, 0, 0, 1, 1, 0), "dm": ("dense_map", 1, 0, 0, 1, 1, 0),
    "ods": ("ordered_dense_set", 0, 1, 0, 1, 1, 0), "odm": ("ordered_dense_map", 1, 1, 0, 1, 1, 0),
    "ms2": ("dense_multiset", 0, 0, 0, 1, 2, 1), "mm2": ("dense_multimap", 1, 0, 0, 1, 2, 1),
    "ms3": ("dense_multiset", 0, 0, 0, 1, 3, 1), "mm3": ("dense_multimap", 1, 0, 0, 1, 3, 1),
}
class K:  # features of a container
    def __init__(s, name):
        s.name = name
        s.cont, s.map, s.ord, s.stable, s.dense, s.nk, s.multi = CONTS[name]

M64 = (1 << 64) - 1
def hash_table(rng, U, style=None):
    """A hash value per key: from perfect to constant, with collisions in the group index, in the 7-bit fragment, or both."""
    style = style or rng.choice(["good", "const", "ident", "frag", "group", "few", "high", "edge", "tworuns"])
    r = {}
    c = rng.getrandbits(64)
    for k in range(U):
        if style == "good": v = rng.getrandbits(64)
        elif style == "const": v = c
        elif style == "ident": v = k
        elif style == "frag": v = (rng.getrandbits(50) << 7) | (c & 0x7f)          # equal fragment, different group
        elif style == "group": v = ((c >> 7) << 7) | rng.randrange(128)             # equal group, different fragment
        elif style == "few": v = (rng.randrange(4) << 7) | rng.randrange(3)
        elif style == "high": v = k << 57
        elif style == "edge": v = rng.choice([0, M64, 0x7f, 0x80, 1 << 63, (15 << 7) | 1, (14 << 7) | 1, (13 << 7) | 1, (31 << 7) | 2])
        else: v = ((14 if k % 2 else 30) << 7) | (k % 5)
        r[k] = v & M64
    return style, r

DEF = dict(slots=1, U=(6, 8, 12), n=(10, 30), eqv=0.3, thr=0.0, grow=0.0, hint=0.25, obs_ops=(), alloc=2, fun=2, churn=0.0, order=None)

class Gen:
    def __init__(s, kind, pol, prof, rng):
        s.k, s.pol, s.rng = kind, pol, rng
        s.p = dict(DEF); s.p.update(prof)
        s.stateful = pol >= 0
        ins = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]
        if kind.map: ins += [10, 11, 12, 13]
        if kind.map and not kind.multi: ins += [20, 21, 22, 23, 24, 25, 30, 31, 32]
        if pol >= 0 and not kind.multi and kind.map: ins += [40, 41, 42, 43, 44, 45, 46, 47]
        s.forms = [f for f in ins if f in s.p["forms"]] if s.p.get("forms") else ins
        if not s.forms: s.forms = ins

    def key(s):
        k = s.rng.randrange(s.U)
        if s.eqv and s.rng.random() < 0.35: k += 1000
        return k
    def el(s, k=None):
        ks = []
        for j in range(s.k.nk):
            if k is not None and s.rng.random() < 0.8: ks.append(k)
            else: ks.append(s.key())
        s.val += 1
        return " ".join(map(str, ks + [s.val % 90 + 1]))
    def els(s, n): return "%d %s" % (n, " ".join(s.el() for _ in range(n)))
    def slot(s): return s.rng.randrange(s.p["slots"])
    def hint(s):
        if s.rng.random() >= s.p["hint"]: return "0 0"
        return "%d %d" % (1 if s.rng.random() < 0.3 else 2, s.rng.randrange(60))
    def al(s): return s.rng.randrange(1, 1 + s.p["alloc"]) if s.stateful else 0
    def fn(s): return s.rng.randrange(s.p["fun"]) if s.stateful else 0
    def eq(s): return s.rng.randrange(s.p["fun"]) if s.stateful and s.eqv else 0
    def cnt(s): return s.rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 33])
    def iln(s): return s.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20])

    def op(s, o):
        r = s.rng; c = s.slot()
        d = s.slot()
        if o not in ("ca", "ma", "sw", "eqq") or r.random() < 0.85:
            if s.p["slots"] > 1:
                while d == c: d = s.slot()
        if o == "new": return "new %d %d %d %d" % (c, s.fn(), s.eq(), s.al())
        if o == "cap": return "cap %d %d %d %d %d %d" % (c, s.cnt(), s.fn(), s.eq(), s.al(), r.randrange(3))
        if o == "rng":
            f = r.randrange(7); n = s.iln() if f in (2, 5) else s.cnt(); f += 10 * r.choice([0, 0, 1, 2])
            return "rng %d %d %d %d %d %d %s" % (c, f, r.choice([0, 0, 1, 3, 7, 8, 16, 40]), s.fn(), s.eq(), s.al(), s.els(n))
        if o in ("cc", "mc", "ca", "ma"): return "%s %d %d" % (o, c, d)
        if o in ("cca", "mca"): return "%s %d %d %d" % (o, c, d, s.al())
        if o == "asg": return "asg %d %d %s" % (c, r.randrange(2), s.els(s.iln()))
        if o == "sw": return "sw %d %d %d" % (c, d, r.randrange(2))
        if o in ("clr", "bkt"): return "%s %d" % (o, c)
        if o == "ins":
            f = r.choice(s.forms)
            h = s.hint() if f not in (30, 31, 32, 42, 47) else "0 0"
            return "ins %d %d %s %s" % (c, f, h, s.el(s.key()))
        if o == "insr":
            f = r.randrange(7); n = s.iln() if f in (2, 4) else r.choice([0, 1, 2, 3, 5, 9])
            return "insr %d %d %s" % (c, f, s.els(n))
        if o == "er": return "er %d %d %d %d" % (c, s.key(), r.randrange(s.k.nk), r.randrange(2))
        if o == "eri": return "eri %d %d %d" % (c, r.randrange(100), r.randrange(2))
        if o == "err":
            if r.random() < 0.5:
                a = r.randrange(60); return "err %d %d %d" % (c, a, a + r.randrange(4))
            return "err %d %d %d" % (c, r.randrange(60), r.randrange(60))
        if o in ("erf", "erw"):
            m = r.randrange(1, 5); return "%s %d %d %d" % (o, c, m, r.randrange(m + 1))
        if o == "at": return "at %d %d %d %d" % (c, s.key(), r.randrange(s.k.nk), r.randrange(2))
        if o == "mut": return "mut %d %d %d" % (c, r.randrange(100), r.randrange(1, 90))
        if o == "mua": return "mua %d %d %d" % (c, s.key(), r.randrange(1, 90))
        if o == "rsv": return "rsv %d %d" % (c, r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 15, 16, 17, 28, 29, 31, 32, 40, 56, 57, 60]))
        if o == "rh": return "rh %d %d" % (c, r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 50, 63]))
        if o == "fil": return "fil %d %d %d" % (c, r.choice([-1, -1, -2, -3, -4, 1, 2, 4, 6, 7, 8, 12, 14, 15, 28, 29]), r.randrange(s.U))
        if o == "mlf": return "mlf %d %d" % (c, r.choice([250, 500, 750, 875, 1000, 1500, 2000, 4000]))
        if o == "eqq": return "eqq %d %d" % (c, d)
        if o == "ext": return "ext %d %d %d %d" % (c, s.key(), r.randrange(2), r.randrange(2))
        if o == "exi": return "exi %d %d %d" % (c, r.randrange(100), r.randrange(2))
        if o in ("nin", "nia"): return "%s %d %d %s" % (o, c, r.randrange(2), s.hint())
        if o == "ndr": return "ndr %d" % r.randrange(2)
        if o == "nmv": h = r.randrange(2); return "nmv %d %d" % (h, 1 - h)
        if o == "nsw": return "nsw %d" % r.randrange(2)
        if o == "mrg": return "mrg %d %d %d" % (c, d, r.randrange(2))
        if o == "ali":
            if s.k.multi: v = r.randrange(2)
            else: v = r.randrange(7) if s.k.map else r.randrange(2)
            return "ali %d %d %d %d" % (c, v, r.randrange(60), s.key())
        if o == "bulk":
            lo = r.randrange(s.U); hi = r.randrange(lo, s.U + 1)
            return "bulk %d %d %d %d %d" % (c, lo, hi, r.choice([1, 1, 2, 3]), r.randrange(2))
        if o == "seq":
            n = r.randrange(2, 14); return "seq %d %d %s" % (c, n, " ".join(str(r.choice([1, 1, 1, -1]) * (r.randrange(s.U) + 1) + 0) if r.random() < 0.9 else str(100001 + r.randrange(s.U)) for _ in range(n)))
        raise KeyError(o)

    def allowed(s, o):
        k = s.k
        if o in ("at", "mut", "mua"): return k.map
        if o in ("ext", "exi", "nin", "ndr", "nmv", "nsw", "mrg"): return k.stable
        if o == "nia": return k.stable and k.map
        if o in ("bkt",): return k.dense and not k.multi
        if o == "mlf": return k.dense
        if o in ("mrg", "cc", "cca", "mc", "mca") and s.p["slots"] < 2: return False
        return True

    def script(s):
        r, p = s.rng, s.p
        s.val = r.randrange(90)
        s.U = r.choice(p["U"])
        s.eqv = 1 if s.stateful and r.random() < p["eqv"] else 0
        out = ["begin %d %d" % (s.U, s.eqv)]
        for m in range(2 if s.stateful and p["fun"] > 1 else 1):
            st, t = hash_table(r, s.U, r.choice(p["hash"]) if p.get("hash") else None)
            out += ["hash %d %d %d" % (m, k, v) for k, v in t.items()]
        ops = [(o, w) for o, w in p["ops"].items() if s.allowed(o)]
        names, wts = [o for o, _ in ops], [w for _, w in ops]
        for c in range(p["slots"]):
            out.append(s.init(c))
        for _ in range(r.randrange(*p["n"])):
            o = r.choices(names, wts)[0]
            line = s.op(o)
            if p["churn"] and r.random() < p["churn"]:
                out += s.churn()
            if p["thr"] and r.random() < p["thr"] and o not in ("ndr", "nmv", "nsw", "del", "mut"):
                line = "thr -1 " + line
            out.append(line)
        out.append("end")
        return out

    def init(s, c):
        r = s.rng
        x = r.random()
        if x < 0.6: return "new %d %d %d %d" % (c, s.fn(), s.eq(), s.al())
        if x < 0.8: return "cap %d %d %d %d %d 0" % (c, s.cnt(), s.fn(), s.eq(), s.al())
        n = r.randrange(min(s.U, 12)) ; return "rng %d %d 0 %d %d %d %s" % (c, r.choice([0, 1, 3, 4]), s.fn(), s.eq(), s.al(), s.els(n))

    def churn(s):
        """A phase that fills the table and then keeps replacing elements, so that erased slots pile up."""
        r = s.rng; c = s.slot(); U = s.U
        out = ["bulk %d 0 %d 1 0" % (c, r.randrange(U // 2, U + 1))]
        live = r.randrange(1, max(2, U // 2))
        for _ in range(r.randrange(1, 4)):
            a = r.randrange(U)
            out.append("bulk %d %d %d 1 1" % (c, a, min(U, a + live)))
            b = r.randrange(U)
            out.append("bulk %d %d %d 1 0" % (c, b, min(U, b + live)))
        return out
