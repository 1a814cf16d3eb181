"""Behaviours of spec/calc.qnt generated by quint run and executed by the real code."""
import glob, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import trace
BYFAM = {v: k for k, v in trace.FAM.items() if k != "ldexp"}
SUF = {16: "f16", 32: "f", 64: "", 128: "f128"}
def iv(v):
    if isinstance(v, dict): return int(v["#bigint"]) if "#bigint" in v else {k: iv(x) for k, x in v.items()}
    return [iv(x) for x in v] if isinstance(v, list) else v
def generate_part(w, seed, n, steps, wd, name, timeout=600):
    p = os.path.join(wd, name + ".qnt")
    open(p, "w").write("module t {\n  import calc(W=%d).* from \"%s/calc\"\n}\n" % (w, os.path.relpath(trace.SPEC, wd)))
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=t", "--verbosity=1", "--invariant=lawful", "--max-samples=%d" % n, "--n-traces=%d" % n, "--max-steps=%d" % steps, "--seed=%d" % seed, "--out-itf=" + os.path.join(wd, name + "_{seq}.itf.json"), p], capture_output=True, text=True, timeout=timeout)
    out = []
    for q in glob.glob(os.path.join(wd, name + "_*.itf.json")):
        st = [{k.split("::")[-1]: iv(v) for k, v in s.items() if k != "#meta"} for s in json.load(open(q))["states"]]
        if not all(s["lawful"] for s in st): raise trace.SpecError("the model breaks its own law: " + q)
        out.append((w, st)); os.unlink(q)
    if not out: raise trace.SpecError("quint gave no behaviour: %s %s" % (trace.brief(r.stdout), trace.brief(r.stderr)))
    return out
def generate(jobs, parts, n, steps, seed, timeout=600):
    """-> behaviours [(width, [states])]"""
    wd = tempfile.mkdtemp(prefix="qcalc")
    try:
        with ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(generate_part, w, seed * 1000 + i, n, steps, wd, "g%d" % i, timeout) for i, w in enumerate(parts)]
            return [b for f in fs for b in f.result()]
    finally: shutil.rmtree(wd, ignore_errors=True)
def opname(fam, w, k): return ("ldexp" if fam == 22 and k % 2 else BYFAM[fam]) + SUF[w]
def script(behs):
    """-> text of the programs, and for each executed instruction (behaviour, step)"""
    t = []; at = []
    for bi, (w, st) in enumerate(behs):
        t.append("P " + " ".join("%x" % x for x in st[0]["regs"] + st[0]["ints"]))
        for k, s in enumerate(st[1:], 1):
            a = s["act"]
            if a["fam"] == 0: t.append("L %x %x %x %x" % (a["d"], s["regs"][a["d"]], *s["ints"]))
            else:
                t.append("A %s %d %x %x %x %x %x %x %x" % (opname(a["fam"], w, k), a["fam"] in (7, 10), a["s0"], a["s1"], a["s2"], a["neg"], a["d"], a["d2"], a["k"])); at.append((bi, k))
    return "\n".join(t) + "\n", at
def canon(fam, w, b):
    eb, mb = {16: (5, 10), 32: (8, 23), 64: (11, 52), 128: (15, 112)}[w]
    inf = ((1 << eb) - 1) << mb
    return inf | 1 << (mb - 1) if fam not in (7, 10) and (b & ~(1 << (w - 1))) > inf else b
def compare(behs, at, lines):
    """The model's registers after each instruction against what the code returned.
    -> (rejected [(Ev, why)], instructions compared); a program is followed up to its first divergence"""
    evs = trace.parse_lines(lines)
    if len(evs) != len(at): raise trace.SpecError("%d instructions, %d executed" % (len(at), len(evs)))
    rej = []; off = set(); n = 0
    for (bi, k), e in zip(at, evs):
        if bi in off: continue
        w, st = behs[bi]; a = st[k]["act"]; s = st[k]; fam = a["fam"]; n += 1
        if e.flag: why = trace.WHY[e.flag + 1]
        else:
            want = [s["ints"][a["k"]]] if fam == 23 else [s["regs"][a["d"]]] + ([s["regs"][a["d2"]]] if fam == 25 else [s["ints"][a["k"]]] if fam in (24, 26) else [])
            got = [e.r[0] if fam == 23 else canon(fam, w, e.r[0])] + ([canon(fam, w, e.r[1])] if fam == 25 else [e.r[1]] if fam in (24, 26) else [])
            if want == got: continue
            why = "step %d of a generated program: the model has %s" % (k, " ".join("%x" % x for x in want))
        off.add(bi); rej.append((e, why))
    return rej, n
