"""Pack recorded events into Quint trace modules, run them through the specification, collect verdicts."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
FAM = {}
for i, n in enumerate("ceil floor trunc round roundeven rint fabs sqrt cbrt copysign fdim fmax fmin fmaximum fminimum fmaximum_num fminimum_num fmod remainder nextafter fma scalbn ilogb frexp modf remquo".split()):
    FAM[n] = i + 1
FAM["ldexp"] = FAM["scalbn"]
for i, n in enumerate("acos acosh asin asinh atan atanh cos cosh erf erfc exp exp10 exp2 expm1 log log10 log1p log2 sin sinh tan tanh tgamma lgamma lgamma_r atan2 hypot pow sincos j0 j1 y0 y1 jn yn".split()):
    FAM[n] = i + 40
def base(op):
    """libm name -> (base name, width)"""
    for suf, w in (("f128", 128), ("f16", 16)):
        if op.endswith(suf): return op[:-len(suf)], w
    if op.endswith("f_r"): return op[:-3] + "_r", 32
    if op in FAM: return op, 64
    if op.endswith("f"): return op[:-1], 32
    raise KeyError(op)
WC = {16: 0, 32: 1, 64: 2, 128: 3}
PER_CHUNK = 16
class Ev:
    __slots__ = ("op", "a", "r", "flag", "tag")
    def __init__(s, op, a, r, flag, tag=""): s.op, s.a, s.r, s.flag, s.tag = op, a, r, flag, tag
    def line(s): return "%s %x %x %x %x %x %d" % (s.op, *s.a, *s.r, s.flag)
def parse(path): return parse_lines(open(path))
def parse_lines(lines):
    out = []
    for l in lines:
        p = l.split()
        if len(p) < 7: continue
        out.append(Ev(p[0], tuple(int(x, 16) for x in p[1:4]), tuple(int(x, 16) for x in p[4:6]), int(p[6])))
    return out
def pack(ev):
    b, w = base(ev.op); fw = max(w, 32)
    x = 0
    for v in reversed((*ev.a, *ev.r)): x = x << fw | (v & ((1 << fw) - 1))
    return (x << 11) | ev.flag << 9 | WC[w] << 7 | FAM[b], 11 + 5 * fw
def module(evs, rule=0, spec=None):
    ch = []
    for i in range(0, len(evs), PER_CHUNK):
        x = 0; s = 0
        for e in evs[i:i + PER_CHUNK]:
            v, n = pack(e); x |= v << s; s += n
        ch.append(x)
    return "module t {\n  import conform(CHUNKS=[%s], EVENTS=%d, RULE=%d).* from \"%s/conform\"\n}\n" % (",\n".join("0x%x" % c for c in ch), len(evs), rule, spec or SPEC)
def brief(t): return " | ".join(l[:200] for l in t.splitlines() if "rror" in l)[:1500]
class SpecError(Exception): pass
def itf_int(v): return int(v["#bigint"]) if isinstance(v, dict) else int(v)
def run_part(evs, wd, name, rule=0, timeout=600):
    p = os.path.join(wd, name + ".qnt"); o = os.path.join(wd, name + ".itf.json")
    open(p, "w").write(module(evs, rule, os.path.relpath(SPEC, wd)))
    n = (len(evs) + PER_CHUNK - 1) // PER_CHUNK
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=t", "--max-samples=1", "--max-steps=%d" % n, "--out-itf=" + o, p], capture_output=True, text=True, timeout=timeout)
    try: st = json.load(open(o))["states"][-1]
    except Exception as e: raise SpecError("quint gave no trace for %s: %s %s" % (p, brief(r.stdout), brief(r.stderr)))
    g = lambda k: next(v for kk, v in st.items() if kk.split("::")[-1] == k)
    if itf_int(g("seen")) != len(evs): raise SpecError("trace not fully consumed: %s of %d" % (g("seen"), len(evs)))
    os.unlink(p); os.unlink(o)
    return [(itf_int(x["i"]), itf_int(x["why"])) for x in g("rejected")]
def falsify(evs, rule, n):
    """copies of ordinary observations with another result: the sign flipped, or one unit off"""
    def ok(e):
        b, w = base(e.op); inf = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff << 52, 128: 0x7fff << 112}[w]
        return e.flag == 0 and (b == "ilogb" or 0 < e.r[0] & ((1 << (w - 1)) - 1) < inf) and all(x & ((1 << (w - 1)) - 1) < inf for x in e.a)
    good = [e for e in evs[:: max(1, len(evs) // (8 * n))] if ok(e)]; out = []
    for e in good[:: max(1, len(good) // n)][:n]:
        b, w = base(e.op)
        out.append(Ev(e.op, e.a, (e.r[0] + 1 if rule == 1 or b == "ilogb" else e.r[0] ^ 1 << (w - 1), e.r[1]), 0, "fake"))
    return out
WHY = {1: "outcome outside the contract", 2: "panic", 3: "no return"}
def judge(evs, jobs=8, part=1500, rule=0, timeout=600, cost=None):
    """-> (list of (Ev, why), states visited, sessions)"""
    wd = tempfile.mkdtemp(prefix="qtrace")
    try:
        k = max(1, min(part, (len(evs) + jobs - 1) // jobs))
        # interleave, so that expensive functions spread over the parts
        np = max(1, (len(evs) + k - 1) // k)
        parts = [evs[i::np] for i in range(np)]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: run_part(t[1], wd, "p%d" % t[0], rule, timeout), enumerate(parts)))
        rej = []
        for pt, rs in zip(parts, res):
            for i, why in rs: rej.append((pt[i], WHY[why]))
        return rej, sum((len(p) + PER_CHUNK - 1) // PER_CHUNK + 1 for p in parts), len(parts)
    finally: shutil.rmtree(wd, ignore_errors=True)
if __name__ == "__main__":
    evs = parse(sys.argv[1])
    if len(sys.argv) > 2: evs = [e for e in evs if base(e.op)[0] in sys.argv[2].split(",") or e.op in sys.argv[2].split(",")]
    import time; t0 = time.time()
    rej, st, _ = judge(evs)
    for e, why in rej[:40]: print("REJECT", e.line(), why)
    print("%d events, %d rejected, %.1fs" % (len(evs), len(rej), time.time() - t0))
