"""Runs of the command-line tool of crates/util, judged by spec/tool.qnt."""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import trace
sys.set_int_max_str_digits(0)
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52), 128: (15, 112)}
class Run:
    """One run: command line, whether it printed a result, and what it printed."""
    __slots__ = ("op", "basis", "args", "printed", "out", "a")
    def __init__(s, op, basis, args): s.op, s.basis, s.args, s.printed, s.out, s.a = op, basis, args, False, "", ()
    def line(s): return "RUN\t%s\t%s\t%s\t%d\t%s" % (s.basis, s.op, "\t".join(s.args), s.printed, json.dumps(s.out))
def parse_line(l):
    f = l.rstrip("\n").split("\t"); x = Run(f[2], f[1], f[3:-2]); return x
def execute(binary, runs, jobs=8):
    def go(x):
        r = subprocess.run([binary, "eval", x.basis, x.op, *x.args], capture_output=True, timeout=120, env={"PATH": "/usr/bin:/bin"})
        x.printed = r.returncode == 0; x.out = r.stdout.decode("latin1") if x.printed else ""
        return x
    with ThreadPoolExecutor(jobs) as ex: return list(ex.map(go, runs))
# ---- judging -------------------------------------------------------------------------------------------
BASIS = {"libm": 0, "mpfr": 1}
def text(t): return "0x%x" % int.from_bytes(b"\x01" + t.encode("latin1"), "big")
def record(x):
    try: b, w = trace.base(x.op); fam = trace.FAM.get(b, 0)
    except KeyError: fam, w = 0, 64
    return "{fam:%d,w:%d,basis:%d,printed:%s,args:[%s],out:%s}" % (fam, w, BASIS.get(x.basis, 2), "true" if x.printed else "false", ",".join(text(t) for t in x.args), text(x.out))
WHY = {1: "refused arguments that denote a call", 2: "gave a result where it had to refuse", 3: "the line shows no result in two notations", 4: "outcome outside the contract"}
BATCH = 16
def run_part(runs, wd, name, timeout=700):
    p = os.path.join(wd, name + ".qnt"); o = os.path.join(wd, name + ".itf.json")
    open(p, "w").write("module t {\n  import tool(RUNS=[%s]).* from \"%s/tool\"\n}\n" % (",\n".join(map(record, runs)), os.path.relpath(trace.SPEC, wd)))
    n = (len(runs) + BATCH - 1) // BATCH
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=t", "--max-samples=1", "--max-steps=%d" % n, "--out-itf=" + o, p], capture_output=True, text=True, timeout=timeout)
    try: st = json.load(open(o))["states"][-1]
    except Exception: raise trace.SpecError("quint gave no trace for %s: %s %s" % (p, trace.brief(r.stdout), trace.brief(r.stderr)))
    g = lambda k: next(v for kk, v in st.items() if kk.split("::")[-1] == k)
    if trace.itf_int(g("pos")) != len(runs): raise trace.SpecError("runs not all read")
    os.unlink(p); os.unlink(o)
    return [(runs[trace.itf_int(x["i"])], WHY[trace.itf_int(x["why"])]) for x in g("rejected")], n + 1
def judge(runs, jobs=8, part=600):
    """-> rejected [(run, why)], states, parts"""
    wd = tempfile.mkdtemp(prefix="qtool")
    try:
        np = max(min(jobs, len(runs) // 60 + 1), (len(runs) + part - 1) // part)
        parts = [runs[i::np] for i in range(np)]
        with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(lambda t: run_part(t[1], wd, "u%d" % t[0]), enumerate(parts)))
        return [x for r, _ in res for x in r], sum(n for _, n in res), np
    finally: shutil.rmtree(wd, ignore_errors=True)
def falsify(runs, n):
    """copies of runs that printed another digit, printed nothing, or printed where they refused"""
    out = []
    for k, e in enumerate(runs[:: max(1, len(runs) // n)][:n]):
        x = Run(e.op, e.basis, e.args); x.printed, x.out = e.printed, e.out
        if not e.printed: x.printed, x.out = True, "1.0 0x1.0p+0\n"
        elif k % 3 == 0: x.printed, x.out = False, ""
        else:
            i = max((j for j, c in enumerate(e.out) if c in "0123456789"), default=0)
            x.out = e.out[:i] + ("1" if e.out[i] != "1" else "3") + e.out[i + 1:]
        out.append(x)
    return out
# ---- texts ---------------------------------------------------------------------------------------------
def value(w, b):
    eb, mb = FMT[w]; e, m = b >> mb & (1 << eb) - 1, b & (1 << mb) - 1
    q = 2 - (1 << eb - 1) - mb
    return Fraction(m) * Fraction(2) ** q if e == 0 else Fraction(m | 1 << mb) * Fraction(2) ** (q + e - 1)
def exact(x):
    """the decimal expansion of a dyadic fraction"""
    n, d = x.numerator, x.denominator; k = d.bit_length() - 1
    s = str(n * 5 ** k).rjust(k + 1, "0")
    return s if k == 0 else s[:-k] + "." + s[-k:]
def scientific(r, t):
    """the same number with the point elsewhere"""
    i, _, f = t.partition("."); k = r.randrange(-3, 4)
    d = i + f; p = len(i) - k                       # digits before the new point
    if p < 0: d = "0" * -p + d; p = 0
    if p > len(d): d += "0" * (p - len(d))
    return "%s%s%s%s%s%d" % (d[:p] or ("0" if p == len(d) else ""), "." if d[p:] or r.random() < 0.3 else "", d[p:], r.choice("eE"), r.choice(["", "+"]) if k >= 0 else "", k)
def bits(r, w, bessel):
    eb, mb = FMT[w]; bias = (1 << eb - 1) - 1; k = 3 if bessel else r.randrange(12)
    if k == 0: return r.choice([0, 1, 2, (1 << mb) - 1, 1 << mb, (1 << mb) + 1, ((1 << eb) - 1 << mb) - 1])
    m = r.choice([0, 1, (1 << mb) - 1, r.getrandbits(mb), r.getrandbits(mb), r.getrandbits(mb), 1 << r.randrange(mb), r.getrandbits(8) << mb - 8])
    if k == 1: return m
    if k == 2: return r.randrange((1 << eb) - 1) << mb | m
    return (bias + r.randrange(-4, 6)) << mb | m
def hexfloat(r, w, b):
    eb, mb = FMT[w]; e = b >> mb; m = b & (1 << mb) - 1; q = 2 - (1 << eb - 1) - mb
    if e: m |= 1 << mb; e -= 1
    p = q + e; k = r.randrange(0, 28) if r.random() < 0.5 else (mb + 3) // 4
    h = "%x" % m
    if k >= len(h): h = "0" * (k - len(h) + 1) + h
    i, f = h[:len(h) - k], h[len(h) - k:]
    if r.random() < 0.3: f = f.rstrip("0") if not r.random() < 0.3 else f + "000"
    if r.random() < 0.3: i, f = i.upper(), f.upper()
    x = p + 4 * k
    return "0x%s%sp%s%d" % (i, "." + f if f else r.choice(["", "."]), "+" if x >= 0 and r.random() < 0.5 else "", x)
def floating(r, w, mp, bessel):
    """-> a text that denotes a number of the format (bessel: of a size for which the oracle's memory suffices)"""
    eb, mb = FMT[w]; s = r.choice(["", "", "-"])
    b = bits(r, w, bessel); k = r.choice([0, 1, 2, 4, 5, 8, 9, 10, 12]) if bessel else r.randrange(13)
    if k == 0: return "0x%s%x" % ("0" * r.randrange(3), b if s == "" or mp and b == 0 else b | 1 << w - 1)
    if k == 1: return "0b%s" % bin(b if s == "" else b | 1 << w - 1)[2:].rjust(r.choice([1, w]), "0")
    if k in (2, 3): return s + hexfloat(r, w, b)
    if k == 4: return r.choice([s + "inf", s + "infinity", "nan", "NaN", s + "Inf", s + "0", s + "0.0", s + "1", s + "1e0", "+1", s + ".5", s + "5.", s + "0e5"])
    if k == 5: return s + "%d.%d" % (r.randrange(12), r.randrange(1000))
    if k == 6: return s + r.choice(["%de%d" % (r.randrange(1, 100), r.randrange(-12, 12)), "%.3g" % (r.random() * 4), "%.17g" % (r.random() * 3), str(r.randrange(200))])
    if k == 7 and not mp:                                     # beyond either end of the format
        t = {16: 5, 32: 39, 64: 309, 128: 4933}[w]; l = {16: 8, 32: 45, 64: 324, 128: 4966}[w]
        return s + "%d.%de%d" % (r.randrange(1, 10), r.randrange(10 ** 6), r.choice([t, t - 1, -l, -l + 1, -l - 1, t + 1, 3 * t, -3 * l]))
    if w == 128 and b >> mb < 16000: b |= 0x3ff0 << mb       # texts of moderate length
    if w == 64 and b >> mb < 900: b = (900 + b % 130) << mb | b & (1 << mb) - 1
    x = value(w, b)
    if k < 11:                                                # at, just below or just beyond a halfway point
        x += (value(w, b + 1) - x) / 2
        t = exact(x)
        if "." not in t: t += "."
        j = r.randrange(4)
        t += "0" * r.randrange(4) + ("1" if j == 1 else "0" * 25 + "7" if j == 2 else "")
        if j == 3: t = exact(x - Fraction(1, 2) ** (x.denominator.bit_length() + r.randrange(1, 40)))
    else: t = exact(x)
    return s + (scientific(r, t) if r.random() < 0.4 else t)
def integer(r, mp, narrow):
    v = r.choice([0, 1, -1, 2, r.randrange(-8, 9), r.randrange(-64, 65)] + ([] if narrow else [r.randrange(-2 ** 31, 2 ** 31), 2 ** 31 - 1, -2 ** 31, r.randrange(-20000, 20000)]))
    k = r.randrange(5)
    if k == 0 and v >= 0: return "0x%x" % v
    if k == 1 and v >= 0: return "0b%s" % bin(v)[2:]
    return "%s%s%d" % ("+" if v >= 0 and r.random() < 0.1 else "-" if v < 0 else "", "0" * r.randrange(3), abs(v))
def broken(r, w, isint):
    bad = ["", "-", "+", ".", "abc", "1.2.3", "1e", "1e+", "e5", "--1", "+-1", "0x", "0b", "0xzz", "0b2", "0b", "0xp0", "0x1p", "0x1.8", "1f", "1,5", "0x1.8p", "0x1.8pz", "infin", "nanx", "0x1.g0p0", "-0x", "0b1.1", "1e5.5", "0x%x" % (1 << w), "0b1" + "0" * w,
           "0x1.%sp0" % ("0" * (w // 4) + "8"), "0x1p%d" % (1 << FMT[w][0] - 1), "0x1p-%d" % ((1 << FMT[w][0] - 1) + FMT[w][1])]
    if isint: bad = [x for x in bad if x[:1] != "0" and x[:2] != "-0"] + ["1.0", "1.5", "1e3", "inf", "nan", "2147483648", "-2147483649", "0x80000000", "0x100000000", "0b1" + "0" * 31, "0xg", "0x", "0b2", "99999999999999999999"]
    return r.choice(bad)
ARITY3 = {"fma"}
ARITY2 = set("copysign fdim fmax fmin fmaximum fminimum fmaximum_num fminimum_num fmod remainder nextafter scalbn ldexp remquo atan2 hypot pow jn yn".split())
def plan(ops, seed, per):
    r = random.Random(seed); out = []
    for op in ops:
        b, w = trace.base(op)
        n = 3 if b in ARITY3 else 2 if b in ARITY2 else 1
        kinds = ["i" if (b in ("scalbn", "ldexp") and i == 1) or (b in ("jn", "yn") and i == 0) else "f" for i in range(n)]
        for j in range(per):
            basis = "mpfr" if j % 3 == 2 and b != "nextafter" else "libm"; mp = basis == "mpfr"
            args = [integer(r, mp, b in ("jn", "yn")) if k == "i" else floating(r, w, mp, b in ("jn", "yn")) for k in kinds]
            q = r.randrange(14)
            if q == 0: i = r.randrange(n); args[i] = broken(r, w, kinds[i] == "i")
            elif q == 1 and r.random() < 0.5: args = args[:-1] if r.random() < 0.5 else args + [args[-1]]
            elif q == 2 and r.random() < 0.2: basis = r.choice(["musl", "Libm", "mpf", ""])
            out.append(Run(op, basis, args))
    for op in r.sample(ops, min(len(ops), 12)):
        x = r.choice([op + "x", op[:-1], op.upper(), " " + op, op + "f128"])
        try: known = trace.base(x)[0] in trace.FAM
        except KeyError: known = False
        if not known: out.append(Run(x, "libm", ["1.0"]))
    return out
