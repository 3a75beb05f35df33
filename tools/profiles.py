"""What each check explores: containers, allocator policies, operation mixes. See DESIGN.md."""
from gen import CONTS
ALL = list(CONTS)
SWISS = [c for c in ALL if c[-1] in "sm" and not c.startswith(("d", "od", "ms", "mm"))]
STABLE = ["ts", "tm", "ots", "otm"]; SPARSE = ["ss", "sm", "oss", "osm"]
DENSE = ["ds", "dm", "ods", "odm", "ms2", "mm2", "ms3", "mm3"]
DENSE1 = ["ds", "dm", "ods", "odm"]; MULTI = ["ms2", "mm2", "ms3", "mm3"]
ORD = ["oss", "osm", "ots", "otm", "ods", "odm"]; MAPS = [c for c in ALL if "m" in c and not c.startswith("ms")]
assert sorted(SWISS) == sorted(SPARSE + STABLE)

NODE = "ext,exi,nin:2,nia,ndr,nmv,nsw,mrg"
LIFE = "cc,cca,mc,mca,ca,ma,sw"
BASIC = "ins:8,insr,er:3,eri,err,erf,clr:0.4,bulk"
CAPS = "rsv,rh,fil,mlf"
ACC = "at,mut,mua"
def W(*specs):
    r = {}
    for s in specs:
        for o in s.split(","):
            if not o: continue
            o, _, w = o.partition(":"); r[o] = float(w or 1)
    return r
def camp(conts, pols, cnt, ops, vars=("gcc17-sse2-asan",), **kw): return dict(conts=list(conts), pols=list(pols), n=cnt, vars=list(vars), prof=dict(ops=W(*ops), **kw))
NXMOVE = ("gcc17-nxmove-asan",)  # element types whose moves are not declared noexcept
TRIV = ("gcc17-triv-asan",)  # element types without destructors
BIG = dict(U=(20, 40, 60), n=(20, 60), churn=0.12)
SMALL = dict(U=(3, 5, 8), n=(10, 35))

PROFILES = {
    "C01": [camp(ALL, [0], 60, [BASIC, ACC, "rsv,rh,mlf,asg:0.3,erw"], eqv=0.3),
            camp(ALL, [0], 30, [BASIC, ACC, "rsv,rh"], **BIG),
            camp(ALL, [-1], 30, [BASIC, ACC, CAPS, LIFE, NODE], slots=2)],
    "C02": [camp(ALL, [0], 120, ["ins:14,insr:2,er:3,eri,ali,erf:0.4,clr:0.3,rsv:0.5,rh:0.5,nin,nia,ext:2"], hint=0.4, **SMALL),
            camp(ALL, [0], 20, ["ins:14,insr:2,er:4,eri,bulk"], hint=0.2, **BIG),
            camp(ALL, [-1], 50, ["ins:14,insr:2,er:3,eri"], hint=0.4)],
    "C03": [camp(ALL, [0], 70, [BASIC, "erw:2,rsv,rh,mlf,asg"]), camp(ALL, [0], 25, [BASIC, "erw:2,rsv,rh"], **BIG),
            camp(ALL, [-1], 40, [BASIC, LIFE, NODE, "erw,rsv,rh"], slots=2)],
    "C04": [camp(ORD, [0], 150, [BASIC, CAPS, LIFE, NODE, ACC, "asg,erw:2,eri:2,err:2,ali"], slots=2, hint=0.5),
            camp(ORD, [0], 50, [BASIC, CAPS, "erw:2,eri:2"], hint=0.4, **BIG), camp(ORD, [-1], 60, [BASIC, CAPS, LIFE, NODE, ACC], slots=2, hint=0.5)],
    "C05": [camp(ALL, [0], 80, ["ins:6,insr:2,er:4,eri:4,err:4,erf:3,erw:4,clr:0.5,bulk,rsv:0.5"], U=(4, 8, 16), n=(15, 40)),
            camp(ALL, [0], 25, ["ins:6,insr:2,er:4,eri:4,err:3,erf:2,erw:3,clr:0.3,bulk,rsv:0.5"], **BIG),
            camp(ALL, [-1], 30, ["ins:6,insr:2,er:4,eri:4,err:4,erf:3,erw:4,clr:0.5"])],
    "C06": [camp(ALL, [0], 60, [BASIC, "rsv:4,rh:4,fil:3,mlf:3,at"], U=(8, 20, 40), n=(15, 40)), camp(ALL, [0], 25, [BASIC, "rsv:2,rh:2,fil:2,mlf"], **BIG),
            camp(ALL, [-1], 25, [BASIC, LIFE, "rsv:3,rh:3,fil:3,mlf:2"], slots=2, U=(8, 20, 40))],
    "C07": [camp(ALL, [0, 1], 45, ["ins:6,insr,er:2,eri:2,erf,clr,bulk:2,rsv,rh,cc:4,cca:3,ca:6,mua,mut,mlf,eqq"], slots=3, U=(6, 20, 40)),
            camp(ALL, [-1], 40, ["ins:6,insr,er:2,eri:2,erf,clr,bulk:2,rsv,rh,cc:4,cca:2,ca:6,mua,mut,eqq"], slots=2, U=(6, 20, 40), churn=0.05)],
    "C08": [camp(ALL, [0, 6], 45, ["ins:6,insr,er:2,eri:2,erf,clr,bulk:2,rsv,rh,mc:3,mca:3,ma:5,sw:5,mua,mlf"], slots=3, U=(6, 20, 40)),
            camp(ALL, [-1], 40, ["ins:6,insr,er:2,eri:2,erf,clr,bulk:2,rsv,rh,mc:3,mca:2,ma:5,sw:5,mua,mlf"], slots=2, U=(6, 20, 40), churn=0.05)],
    "C09": [camp(STABLE, [0, 2, 4, -1], 70, [BASIC, CAPS, NODE, ACC, LIFE, "ins:12,asg:0.2"], slots=2, U=(6, 20, 40)),
            camp(STABLE, [0], 60, [BASIC, CAPS, NODE, "ins:12"], **BIG)],
    "C10": [camp(STABLE, [0, 7, -1], 130, ["ins:5,er,eri,bulk,ext:4,exi:4,nin:6,nia:4,ndr,nmv,nsw,mrg:5,ca:0.5,ma:0.5,sw:0.5,clr:0.3"], slots=2, hint=0.35, U=(4, 8, 20)),
            camp(STABLE, [3], 60, ["ins:5,er,eri,bulk:2,ext:4,exi:4,nin:6,nia:4,ndr,nmv,nsw,mrg:5"], slots=3, U=(8, 20, 40), churn=0.05)],
    "C11": [camp(MULTI, [0, -1], 200, [BASIC, "er:6,eri:2,err,erf,erw,rsv,rh,mlf,at,mua,mut,asg:0.3"], U=(3, 6, 12), n=(20, 60)),
            camp(MULTI, [0], 60, [BASIC, "er:6,rsv,rh", LIFE], slots=2, U=(20, 40), n=(20, 60), churn=0.08)],
    "C12": [camp(MAPS, [0], 150, ["ins:14,er:2,eri,at:4,mut:3,mua:3,ali,rsv:0.5,erf:0.4,nia,ext:0.6"], hint=0.3, U=(4, 8, 16), n=(20, 60)),
            camp(MAPS, [-1], 80, ["ins:14,er:2,at:4,mut:3,mua:3,bulk"], hint=0.3, U=(4, 8, 30), n=(20, 60))],
    "C13": [camp(ALL, [0, -1], 40, [BASIC, CAPS, LIFE, NODE, ACC, "asg,erw,ali,cap,rng,new:0.5"], slots=3, U=(6, 16, 30), thr=0.0),
            camp(ALL, [7], 30, [BASIC, CAPS, LIFE, NODE, "asg,ali"], slots=2, U=(6, 16, 30), thr=0.05),
            camp(ALL, [0], 20, [BASIC, CAPS, LIFE, NODE, "asg,erw,rng,cap"], slots=2, U=(6, 16, 40), vars=TRIV)],
    "C14": [camp(ALL, [0], 26, [BASIC, "rsv,rh,at,asg,cap,rng,insr:2", LIFE, NODE, "ali"], slots=2, thr=0.4, n=(8, 24), hint=0.2),
            camp(ALL, [-1], 14, [BASIC, "rsv,rh,at,asg,insr:2", LIFE, NODE, "ali"], slots=2, thr=0.3, n=(8, 24)),
            camp(ALL, [0], 8, ["ins:8,er:4,bulk:2,cc,ca,rsv"], thr=0.15, slots=2, U=(20, 40), n=(10, 30))],
    "C15": [camp(ALL, [0, -1], 60, ["eqq:8,ins:6,er:3,bulk:2,mut:2,mua,rsv,rh,cc,ca:2,erf,insr,asg"], slots=2, U=(2, 3, 5, 20), n=(15, 45))],
    "C16": [camp(["ss", "osm", "ts", "tm", "otm", "ds", "odm", "mm2"], [0, 1, 2, 4, 15], 40,
                 ["ins:5,er,bulk,rsv:0.5,rh:0.3,clr:0.4,cc:2,cca:3,mc:2,mca:3,ca:5,ma:5,sw:4,new,cap,rng", NODE], slots=3, U=(5, 16), n=(15, 40), alloc=3)],
    "C17": [camp(ALL, [0, 7], 50, ["ins:6,er:3,at:2,bulk,cc:3,cca:2,mc:2,mca:2,ca:4,ma:4,sw:4,new,cap,rng,ext,nin,mrg,rh,rsv,eri,err:0.5,erf:0.5"], slots=3, eqv=0.7, U=(5, 12), n=(15, 40))],
    "C18": [camp(["ss", "osm", "ts", "otm", "dm", "ods", "mm2"], [0], 40, [BASIC, CAPS, LIFE, NODE, ACC, "asg,erw,ali"], slots=2, U=(6, 12, 30), churn=0.06),
            camp(["ss", "otm", "osm"], [0], 30, [BASIC, "rsv,rh"], **BIG)],
    "C19": [camp(ALL, [0], 80, ["rng:10,asg:6,insr:6,ins:2,er:2,cap:3,clr:0.5,eri,bulk:0.5"], slots=2, U=(5, 12, 40), n=(10, 30), eqv=0.3),
            camp(ALL, [-1], 50, ["rng:10,asg:6,insr:6,ins:2,er:2,cap:3,clr:0.5"], slots=2, U=(5, 12, 40), n=(10, 30))],
    "C20": [camp(DENSE1, [0, -1], 150, [BASIC, CAPS, LIFE, "bkt:8,asg:0.4,erw"], slots=2, U=(6, 16, 40), n=(15, 50)),],
    "C21": [camp(ALL, [0], 130, ["ali:10,ins:5,er:2,eri,rsv:0.4,rh:0.3,bulk:0.5"], U=(6, 12, 30), n=(15, 45)),
            camp(ALL, [-1], 60, ["ali:10,ins:5,er:2,eri,rsv:0.4"], U=(6, 12, 30), n=(15, 45))],
}
C18_VARIANTS = ["gcc17-sse2-asan", "gcc20-O2-ndebug", "gcc17-nosimd-asan", "gcc17-ssse3-O2", "clang20-O2", "gcc17-debug"]

# ---------------------------------------------------------------- models (spec/Swiss.tla ..) and where their histories are replayed
G16 = [[(4, 0, 3), (5, 1, 2)], [(0, 0, 2), (7, 0, 3)], [(6, 3, 3), (6, 0, 2)], [(3, 1, 2), (7, 1, 2), (2, 0, 1)]]
G8 = [[(4, 0, 3), (6, 1, 2)], [(15, 0, 3), (7, 0, 2)], [(6, 3, 3), (6, 0, 2)]]
X4 = [(4, [[(4, 0, 2), (4, 1, 2), (1, 0, 1), (2, 1, 1), (3, 0, 1)], [(0, 0, 3), (0, 1, 4)], [(3, 0, 3), (6, 0, 2), (7, 1, 2)]], 7, False)]
X4O = [(4, [[(3, 0, 1), (3, 1, 1), (6, 0, 1)]], 7, True)]
def swiss(conts, pols=(0,), vars=("gcc17-sse2-asan",), tours=(), corpus=(), explore=()):
    return dict(kind="swiss", conts=list(conts), pols=list(pols), vars=list(vars), tours=list(tours), corpus=list(corpus), explore=list(explore))
T16 = [(16, G16, 7, 1500)]; T8 = [(8, G8, 7, 1500)]; NOSIMD = ("gcc17-nosimd-asan",)
def dense(conts, nk=1, hashes=(), maxb=8, mlfs=(875,), ord=False, limit=1500, pols=(0,), vars=("gcc17-sse2-asan",)):
    return dict(kind="dense", conts=list(conts), pols=list(pols), vars=list(vars), nk=nk, hashes=[list(h) for h in hashes], maxb=maxb, mlfs=list(mlfs), ord=ord, limit=limit)
H4 = [(0, 0, 0, 8), (0, 8, 1, 9), (3, 3, 11, 7), (0, 0, 8, 8)]; H3 = [(0, 0, 8), (0, 0, 1), (5, 13, 13), (0, 1, 8)]; H2 = [(0, 8), (0, 0), (0, 1)]
D1 = dense(["ds", "dm"], 1, H4, limit=2500); D1L = dense(["ds", "dm", "ods", "odm"], 1, H3, mlfs=(875, 400), limit=2000)
DO = dense(["ods", "odm"], 1, H3, ord=True, limit=2500)
M2 = dense(["ms2", "mm2"], 2, H3, limit=2500); M3 = dense(["ms3", "mm3"], 3, H2, limit=2000)
ONE = "ins er eri err erf erw clr mut mua at insr asg rsv rh"
TWO = "ins er clr cc cca mc mca ca ma sw new del eqq"
def abstract(name, conts, ops, keys=(0, 1, 2), nvals=2, maxlen=3, slots=1, forms=(), rforms=(0,), conf=((0, 0, 1),), limit=900, pols=(0,), vars=("gcc17-sse2-asan",), thr=False):
    return dict(kind="abs", name=name, conts=list(conts), ops=ops.split(), keys=list(keys), nvals=nvals, maxlen=maxlen, slots=slots, forms=list(forms),
                rforms=list(rforms), conf=[tuple(c) for c in conf], limit=limit, pols=list(pols), vars=list(vars), thr=thr)
AL2 = ((0, 0, 1), (0, 0, 2)); FN2 = ((0, 0, 1), (1, 1, 1), (1, 0, 1))
PICK = ["ss", "osm", "ts", "tm", "otm", "ds", "odm", "mm2"]
MODELS = {
    "C01": [swiss(SWISS, tours=T16, corpus=[(16, 8, 4)], explore=X4), D1, M2, abstract("one", ALL, ONE, limit=700)],
    "C02": [swiss(SWISS, tours=T16, corpus=[(16, 4, 4)]), M2, M3, abstract("insert", ALL, "ins insr ali er clr", rforms=(0, 1, 2, 3, 4, 5, 6), limit=900)],
    "C03": [swiss(SWISS, tours=T16, corpus=[(16, 4, 4)]), D1],
    "C04": [swiss(["oss", "osm", "ots", "otm"], tours=T16, corpus=[(16, 8, 8)], explore=X4O), DO, abstract("one", ORD, ONE + " ali", limit=1200), abstract("two", ORD, "ins er cc mc ca ma sw", nvals=1, slots=2, forms=(0, 4), limit=800), abstract("node", ["ots", "otm"], "ins er ext exi nin nia ndr nmv nsw mrg", nvals=1, slots=2, forms=(0,), limit=1200)],
    "C05": [swiss(SWISS, tours=T16, corpus=[(16, 6, 4)]), D1, M2, abstract("erase", ALL, "ins er eri err erf erw clr", nvals=1, keys=(0, 1, 2, 3), maxlen=4, forms=(0,), limit=700)],
    "C06": [swiss(SWISS, tours=T16, corpus=[(16, 8, 4)], explore=X4), D1L],
    "C07": [swiss(SWISS, tours=T16, corpus=[(16, 2, 4)]), D1, M2, abstract("copies", ALL, "ins er mut clr cc cca ca del eqq", keys=(0, 1), maxlen=3, slots=2, forms=(0, 20), conf=AL2, limit=900, pols=(0, 1))],
    "C09": [swiss(STABLE, tours=T16, corpus=[(16, 10, 8)])],
    "C11": [M2, M3, dense(["ms2", "mm2"], 2, H3, mlfs=(875, 400), limit=2000), abstract("multi", ["ms2", "mm2"], "ins er eri err erf clr mut at", nvals=1, forms=(0, 1, 4, 10), limit=1500), abstract("multi3", ["ms3", "mm3"], "ins er eri erf clr", nvals=1, keys=(0, 1), forms=(0,), limit=1500)],
    "C13": [swiss(SWISS, corpus=[(16, 8, 2)]), M2, abstract("lifetimes", PICK, "ins er eri clr asg cc ca mc ma sw del", keys=(0, 1), maxlen=2, nvals=1, slots=2, limit=900), abstract("nodes", ["ts", "otm"], "ins er ext exi nin nia ndr nmv nsw mrg ma", keys=(0, 1), maxlen=2, nvals=1, slots=2, forms=(0,), limit=900)],
    "C18": [swiss(["ss", "osm", "otm"], tours=T16 + T8, corpus=[(16, 4, 2), (8, 6, 2)]), dense(["dm", "ods", "mm2"][:1], 1, H4, limit=1000), dense(["mm2"], 2, H3, limit=800)],
    "C20": [D1, D1L, DO],
    "C08": [abstract("moves", ALL, "ins er clr mc mca ma sw del eqq", keys=(0, 1), maxlen=3, nvals=1, slots=2, forms=(0,), conf=AL2, limit=800, pols=(0, 6))],
    "C10": [abstract("node", STABLE, "ins er ext exi nin nia ndr nmv nsw mrg", slots=2, keys=(0, 1), forms=(0,), limit=2500), abstract("node3", STABLE, "ins er ext exi nin nia ndr nmv nsw mrg sw", nvals=1, slots=2, forms=(0,), limit=2500)],
    "C12": [abstract("values", MAPS, "ins er eri mut mua at ali clr", nvals=2, limit=1500)],
    "C14": [abstract("throwing", PICK, "ins er ali asg insr rsv rng cap", keys=(0, 1), maxlen=2, nvals=2, slots=1, limit=150, thr=True), abstract("throwing two", PICK, "ins er cc cca mc mca ca ma sw", keys=(0, 1), maxlen=2, nvals=1, slots=2, forms=(0,), conf=AL2, limit=200, thr=True), abstract("throwing node", ["ts", "tm", "otm"], "ins er ext nin nia mrg", keys=(0, 1), maxlen=2, nvals=1, slots=2, forms=(0,), limit=300, thr=True)],
    "C15": [abstract("equality", ALL, "ins er mut eqq", keys=(0, 1), maxlen=4, nvals=2, slots=2, forms=(0, 20), limit=900)],
    "C16": [abstract("allocators", PICK, TWO, keys=(0, 1), maxlen=2, nvals=1, slots=2, forms=(0,), conf=AL2, limit=700, pols=(0, 1, 2, 4, 15)), abstract("nodes", ["ts", "otm"], "ins er ext nin nia mc ma sw", keys=(0, 1), maxlen=2, nvals=1, slots=2, forms=(0,), conf=AL2, limit=700, pols=(2, 4, 15))],
    "C17": [abstract("functors", ALL, "ins er at new cc mc ca ma sw", keys=(0, 1000), maxlen=3, nvals=1, slots=2, forms=(0, 4), conf=FN2, limit=800, pols=(0, 7))],
    "C19": [abstract("ranges", ALL, "rng asg insr cap ins er clr", rforms=(0, 1, 2, 3, 4, 5, 6, 10, 12, 20, 22), nvals=1, forms=(0,), conf=FN2, keys=(0, 1000, 1), maxlen=3, limit=900)],
    "C21": [abstract("aliasing", ALL, "ali ins er eri rsv", keys=(0, 1, 2, 3), nvals=2, maxlen=4, forms=(0,), limit=900)],
}
