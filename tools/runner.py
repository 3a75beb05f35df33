"""Builds the harness against /repo, runs scripts, collects event traces and lets TLC validate them."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
from gen import CONTS, K
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TPP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)

class Variant:
    """A build configuration of the code under test."""
    def __init__(s, name, cxx="g++", std="c++17", opt="-O0", asan=True, defs=(), flags=()):
        s.name, s.cxx, s.std, s.opt, s.asan, s.defs, s.flags = name, cxx, std, opt, asan, tuple(defs), tuple(flags)
    def cmd(s, cont, pol, out):
        n, m, o, st, d, nk, mu = CONTS[cont]
        c = [s.cxx, "-std=" + s.std, s.opt, "-w", "-I" + REPO]
        if s.asan: c += ["-fsanitize=address", "-g1"]
        c += ["-D" + x for x in s.defs] + list(s.flags)
        c += ["-DCONT=" + n, "-DKIND_MAP=%d" % m, "-DKIND_ORD=%d" % o, "-DKIND_STABLE=%d" % st, "-DKIND_DENSE=%d" % d,
              "-DNK=%d" % nk, "-DMULTI=%d" % mu, "-DPOL=%d" % pol, "-o", out, os.path.join(VERIF, "harness", "driver.cpp")]
        return c
BASE = Variant("gcc17-sse2-asan")
VARIANTS = {v.name: v for v in [
    BASE,
    Variant("gcc17-triv-asan", defs=["TRIV"]),
    Variant("gcc17-nxmove-asan", defs=["NXMOVE"]),
    Variant("gcc17-O2", opt="-O2", asan=False),
    Variant("gcc20-O2-ndebug", std="c++20", opt="-O2", asan=False, defs=["NDEBUG"]),
    Variant("gcc17-nosimd-asan", defs=["TPP_NO_SIMD"]),
    Variant("gcc17-ssse3-O2", opt="-O2", asan=False, flags=["-mssse3"]),
    Variant("clang17-asan", cxx="clang++"),
    Variant("clang20-O2", cxx="clang++", std="c++20", opt="-O2", asan=False, defs=["NDEBUG"]),
    Variant("clang20-nosimd-O2", cxx="clang++", std="c++20", opt="-O2", asan=False, defs=["TPP_NO_SIMD"]),
    Variant("gcc17-debug", defs=["TPP_DEBUG", "_DEBUG", "_GLIBCXX_ASSERTIONS"]),
]}

class Target:
    def __init__(s, cont, pol=-1, var="gcc17-sse2-asan"):
        s.cont, s.pol, s.var = cont, pol, var
    @property
    def name(s): return "%s/%d/%s" % (s.cont, s.pol, s.var)
    def __hash__(s): return hash(s.name)
    def __eq__(s, o): return s.name == o.name

class Builder:
    def __init__(s, work):
        s.work = work; s.bin = {}; s.fail = {}
    def one(s, t):
        out = os.path.join(s.work, "bin_" + t.name.replace("/", "_"))
        p = subprocess.run(VARIANTS[t.var].cmd(t.cont, t.pol, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return t, out, p
    def build(s, targets):
        todo = [t for t in dict.fromkeys(targets) if t not in s.bin and t not in s.fail]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for t, out, p in ex.map(s.one, todo):
                if p.returncode == 0: s.bin[t] = out
                else: s.fail[t] = p.stdout

def run_scripts(binary, scripts, timeout=600):
    """Runs a batch of scripts; returns (per-script event lists). A crash or hang ends its script with a crash event."""
    res = []
    i = 0
    text = "\n".join("\n".join(x) for x in scripts) + "\n"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=97:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1")
    while i < len(scripts):
        try:
            p = subprocess.run([binary, str(i)], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
            rc, out, er = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, er = 98, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
        if rc == 99: raise RuntimeError("script error: " + er[-500:])
        cur = None; at = "?"
        for ln in out.split("\n"):
            if not ln: continue
            if ln.startswith('{"op":"note"'):
                at = json.loads(ln)["at"]; continue
            if ln.startswith('{"op":"begin"'):
                cur = []; res.append(cur)
            if not ln.endswith("}"): continue
            cur.append(ln)
        if rc == 0: break
        if cur is None:  # died before the first script produced anything
            cur = []; res.append(cur)
        why = "hang" if rc == 98 else "exit %d" % rc
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*|[Aa]ssertion[^\n]*)", er)
        if m: why += ": " + m.group(1)[:160]
        cur.append(json.dumps({"op": "crash", "at": at, "why": why}))
        i = len(res)
    return res

TLC_CFG = """SPECIFICATION Spec
INVARIANT Done
CONSTANTS TraceFile = "%s"
          Prop = "%s"
CHECK_DEADLOCK FALSE
"""
def tlc_env(): return dict(os.environ, JAVA_TOOL_OPTIONS="")
def validate_file(work, tag, path, prop):
    """Runs TLC over one trace file; returns (rejects [(line, op, scoped, all)], states)."""
    d = os.path.join(work, "tlc_" + tag); os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "t.cfg")
    with open(cfg, "w") as f: f.write(TLC_CFG % (path, prop))
    p = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx2g", "-Xss16m", "-XX:TieredStopAtLevel=1", "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", "1",
                        "-noGenerateSpecTE", "-config", cfg, os.path.join(VERIF, "spec", "TppTrace.tla")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d)
    rej = []; done = None
    txt = p.stdout
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*"(\w+)",\s*\{([^}]*)\},\s*\{([^}]*)\}\s*>>', txt):
        rej.append((int(m.group(1)), m.group(2), re.findall(r'"(\w+)"', m.group(3)), re.findall(r'"(\w+)"', m.group(4))))
    m = re.search(r'<<"DONE", (\d+), (\d+)>>', txt)
    st = re.findall(r"([\d,]+) states generated", txt)
    if not m or int(m.group(2)) != len(rej):
        raise RuntimeError("TLC did not finish on %s:\n%s" % (path, txt[-3000:]))
    return rej, int(st[-1].replace(",", "")) if st else 0

def validate(work, prop, items, tag="v"):
    """items: list of (key, events). Returns dict key -> list of rejects (index within the script), states."""
    if not items: return {}, 0
    shards = [[] for _ in range(NCPU)]; load = [0] * NCPU
    for it in sorted(items, key=lambda x: -sum(map(len, x[1]))):
        k = load.index(min(load)); shards[k].append(it); load[k] += sum(map(len, it[1]))
    out = {}; states = 0
    def go(n):
        sh = shards[n]
        if not sh: return [], 0
        path = os.path.join(work, "%s_%d.ndjson" % (tag, n)); spans = []
        ln = 1
        with open(path, "w") as f:
            for key, ev in sh:
                if not ev: continue
                spans.append((ln, ln + len(ev), key)); ln += len(ev)
                f.write("\n".join(ev) + "\n")
        rej, st = validate_file(work, "%s_%d" % (tag, n), path, prop)
        os.remove(path)
        r = []
        for line, op, sc, al in rej:
            for a, b, key in spans:
                if a <= line < b: r.append((key, (line - a, op, sc, al))); break
        return r, st
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r, st in ex.map(go, range(NCPU)):
            states += st
            for key, x in r: out.setdefault(key, []).append(x)
    return out, states
