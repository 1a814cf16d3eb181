"""Development check: compare the specification's enclosures with mpmath on the inputs of a trace."""
import sys, os, subprocess, json, struct, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import trace
import mpmath as mp
mp.mp.prec = 400
def val(w, b):
    eb, mb = {16: (5, 10), 32: (8, 23), 64: (11, 52), 128: (15, 112)}[w]
    s = b >> (w - 1); e = (b >> mb) & ((1 << eb) - 1); m = b & ((1 << mb) - 1)
    if e == (1 << eb) - 1: return None
    bias = (1 << (eb - 1)) - 1
    m, e = (m, 1 - bias - mb) if e == 0 else (m | 1 << mb, e - bias - mb)
    return (-1) ** s * mp.mpf(m) * mp.mpf(2) ** e
I32 = lambda u: u - (1 << 32) if u >> 31 else u
one = {"lgamma_r": "lgamma"}
def lg(x):
    return mp.log(abs(mp.gamma(x))) if x < 50 else mp.loggamma(x)
FN = {"acos": mp.acos, "acosh": mp.acosh, "asin": mp.asin, "asinh": mp.asinh, "atan": mp.atan, "atanh": mp.atanh, "cos": mp.cos, "cosh": mp.cosh,
 "erf": mp.erf, "erfc": mp.erfc, "exp": mp.exp, "exp10": lambda x: mp.mpf(10) ** x, "exp2": lambda x: mp.mpf(2) ** x, "expm1": mp.expm1, "log": mp.log,
 "log10": mp.log10, "log1p": mp.log1p, "log2": lambda x: mp.log(x, 2), "sin": mp.sin, "sinh": mp.sinh, "tan": mp.tan, "tanh": mp.tanh, "tgamma": mp.gamma,
 "lgamma": lg, "lgamma_r": lg, "j0": lambda x: mp.besselj(0, x), "j1": lambda x: mp.besselj(1, x), "y0": lambda x: mp.bessely(0, x), "y1": lambda x: mp.bessely(1, x),
 "atan2": mp.atan2, "hypot": mp.hypot, "pow": mp.power, "jn": mp.besselj, "yn": mp.bessely}
def main(path, fams, n):
    evs = [e for e in trace.parse(path) if trace.base(e.op)[0] in fams]
    random.Random(1).shuffle(evs); evs = evs[:n]
    wd = "/tmp/q"; os.makedirs(wd, exist_ok=True)
    src = "module e {\n import ieee.* from \"../../verif/spec/ieee\"\n import accuracy.* from \"../../verif/spec/accuracy\"\n var out: List[Want]\n action init = out' = [\n"
    L = []
    for e in evs:
        b, w = trace.base(e.op)
        L.append("want(%d, fmtOf(%d), %d, %d)" % (trace.FAM[b], w, e.a[0], e.a[1]))
    src += ",\n".join(L) + "]\n action step = out' = out\n}\n"
    open(wd + "/e.qnt", "w").write(src)
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=e", "--max-samples=1", "--max-steps=1", "--out-itf=e.itf.json", "--verbosity=1", "e.qnt"], cwd=wd, capture_output=True, text=True)
    try: out = json.load(open(wd + "/e.itf.json"))["states"][0]
    except Exception: print(trace.brief(r.stdout), trace.brief(r.stderr)); raise
    out = next(v for k, v in out.items() if k.endswith("out"))
    worst = {}
    for e, o in zip(evs, out):
        b, w = trace.base(e.op)
        k = trace.itf_int(o["k"])
        if k != 1: continue
        c, rr, ex = (trace.itf_int(o["x"][q]) for q in "cre")
        if b in ("jn", "yn"): args = (I32(e.a[0]), val(w, e.a[1]))
        elif b in ("atan2", "hypot", "pow"): args = (val(w, e.a[0]), val(w, e.a[1]))
        else: args = (val(w, e.a[0]),)
        if None in args: continue
        big = any(abs(x) > mp.mpf(2) ** 200 for x in args)
        mp.mp.prec = 2400 if big or b in ("acosh", "asinh", "atanh", "hypot", "erfc", "acos") else 500
        try: t = FN[b](*args)
        except Exception as x: print("mp", e.line(), x); continue
        if isinstance(t, mp.mpc): t = t.real
        C = mp.ldexp(mp.mpf(c), ex); R = mp.ldexp(mp.mpf(rr), ex)
        huge = ex > 20000 or ex < -20000 or (ex==-1500) or ex == -1300
        if not (abs(t - C) <= R) and not huge: print("OUT", e.line(), mp.nstr(t, 20), mp.nstr(C, 20), mp.nstr(abs(t - C), 5), mp.nstr(R, 5))
        rel = mp.log(R / abs(t), 2) if t != 0 and R != 0 else mp.mpf(-999)
        if not huge and rel > worst.get(b, (-9999,))[0]: worst[b] = (float(rel), e.line())
    for b in worst: print("%-8s widest enclosure 2^%.1f relative  at %s" % (b, *worst[b]))
main(sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]))
