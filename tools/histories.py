"""Histories (groups of related calls) judged by spec/history.qnt."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import trace
class HEv(trace.Ev):
    __slots__ = ("ctx", "group")
def parse_lines(lines):
    """-> list of groups (lists of events); '-' ends a group"""
    out = []; g = []
    for l in lines:
        l = l.split("#")[0].strip()
        if l == "-":
            if g: out.append(g)
            g = []
            continue
        p = l.split()
        if len(p) < 7: continue
        e = HEv(p[0], tuple(int(x, 16) for x in p[1:4]), tuple(int(x, 16) for x in p[4:6]), int(p[6])); e.ctx = p[8] if len(p) > 8 else ""; e.group = None
        g.append(e)
    if g: out.append(g)
    return out
END = (0, 11 + 5 * 32)
def module(groups, spec):
    ev = []
    for g in groups: ev += [trace.pack(e) for e in g] + [(1 << 7, END[1])]
    ch = []
    for i in range(0, len(ev), trace.PER_CHUNK):
        x = 0; s = 0
        for v, n in ev[i:i + trace.PER_CHUNK]: x |= v << s; s += n
        ch.append(x)
    return len(ev), len(ch), "module t {\n  import history(CHUNKS=[%s], EVENTS=%d).* from \"%s/history\"\n}\n" % (",\n".join("0x%x" % c for c in ch), len(ev), spec)
WHY = {2: "panic", 3: "no return", 4: "contradicts what this history already shows about the same value"}
def run_part(groups, wd, name, timeout=600):
    p = os.path.join(wd, name + ".qnt"); o = os.path.join(wd, name + ".itf.json")
    n, nch, src = module(groups, os.path.relpath(trace.SPEC, wd))
    open(p, "w").write(src)
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=t", "--max-samples=1", "--max-steps=%d" % nch, "--out-itf=" + o, p], capture_output=True, text=True, timeout=timeout)
    try: st = json.load(open(o))["states"][-1]
    except Exception: raise trace.SpecError("quint gave no trace for %s: %s %s" % (p, trace.brief(r.stdout), trace.brief(r.stderr)))
    g = lambda k: next(v for kk, v in st.items() if kk.split("::")[-1] == k)
    if trace.itf_int(g("seen")) != n: raise trace.SpecError("trace not fully consumed")
    os.unlink(p); os.unlink(o)
    idx = []
    for gi, grp in enumerate(groups): idx += [(gi, k) for k in range(len(grp))] + [None]
    return [(groups[idx[trace.itf_int(x["i"])][0]], idx[trace.itf_int(x["i"])][1], trace.itf_int(x["why"])) for x in g("rejected")], nch
def judge(groups, jobs=8, part=2500, timeout=600):
    """-> list of (group, index of the rejected call, why), states, parts"""
    if not groups: return [], 0, 0
    wd = tempfile.mkdtemp(prefix="qhist")
    try:
        tot = sum(len(g) + 1 for g in groups)
        np = max(min(jobs, tot // 200 + 1), (tot + part - 1) // part)
        parts = [groups[i::np] for i in range(np)]; parts = [p for p in parts if p]
        with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(lambda t: run_part(t[1], wd, "h%d" % t[0], timeout), enumerate(parts)))
        return [(g, k, WHY[w]) for r, _ in res for g, k, w in r], sum(n + 1 for _, n in res), len(parts)
    finally: shutil.rmtree(wd, ignore_errors=True)
def falsify(groups, n):
    """copies of histories in which one call returned something else"""
    good = [g for g in groups[:: max(1, len(groups) // (4 * n))] if len(g) > 1 and all(e.flag == 0 for e in g)]; out = []
    for i, g in enumerate(good[:: max(1, len(good) // n)][:n]):
        h = []
        for k, e in enumerate(g):
            x = HEv(e.op, e.a, (e.r[0] ^ 1, e.r[1]) if k == i % len(g) else e.r, 0); x.ctx = e.ctx; x.group = None; h.append(x)
        out.append(h)
    return out
if __name__ == "__main__":
    import sys, time
    gs = parse_lines(open(sys.argv[1])); t = time.time()
    rej, st, np = judge(gs)
    for g, k, why in rej[:10]:
        print("REJECT", g[k].line(), why)
        for e in g: print("     ", e.line(), e.ctx)
    print(len(gs), "groups", sum(map(len, gs)), "calls", len(rej), "rejected", st, np, "%.1fs" % (time.time() - t))
