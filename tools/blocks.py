"""Observations of the crate's building blocks (intern/) judged by spec/internals.qnt."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import trace
class BEv:
    __slots__ = ("op", "p", "v", "flag", "text", "a")
    def line(s): return "%d %x %x %x %x %x %x %d =%s" % (s.op, s.p, *s.v, s.flag, s.text)
def parse_lines(lines):
    out = []
    for l in lines:
        l = l.rstrip("\n")
        if l.startswith("#") or "=" not in l: continue
        h, t = l.split("=", 1); f = h.split()
        e = BEv(); e.op = int(f[0]); e.p = int(f[1], 16); e.v = tuple(int(x, 16) for x in f[2:7]); e.flag = int(f[7]); e.text = t; e.a = e.v[:3]
        out.append(e)
    return out
def pack(e):
    x = int.from_bytes(b"\x01" + e.text.encode(), "big")
    for v in reversed(e.v): x = x << 256 | v
    return x << 40 | e.flag << 32 | e.p << 16 | e.op
BATCH = 16
WHY = {1: "outcome outside the contract", 2: "panic"}
def run_part(evs, wd, name, timeout=600):
    p = os.path.join(wd, name + ".qnt"); o = os.path.join(wd, name + ".itf.json")
    open(p, "w").write("module t {\n  import internals(EVENTS=[%s]).* from \"%s/internals\"\n}\n" % (",\n".join("0x%x" % pack(e) for e in evs), os.path.relpath(trace.SPEC, wd)))
    n = (len(evs) + BATCH - 1) // BATCH
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=t", "--max-samples=1", "--max-steps=%d" % n, "--out-itf=" + o, p], capture_output=True, text=True, timeout=timeout)
    try: st = json.load(open(o))["states"][-1]
    except Exception: raise trace.SpecError("quint gave no trace for %s: %s %s" % (p, trace.brief(r.stdout), trace.brief(r.stderr)))
    g = lambda k: next(v for kk, v in st.items() if kk.split("::")[-1] == k)
    if trace.itf_int(g("pos")) != len(evs): raise trace.SpecError("trace not fully consumed")
    os.unlink(p); os.unlink(o)
    return [(evs[trace.itf_int(x["i"])], WHY[trace.itf_int(x["why"])]) for x in g("rejected")], n + 1
def judge(evs, jobs=8, part=1500, timeout=600):
    """-> rejected [(event, why)], states, parts"""
    if not evs: return [], 0, 0
    wd = tempfile.mkdtemp(prefix="qblk")
    try:
        np = max(min(jobs, len(evs) // 60 + 1), (len(evs) + part - 1) // part)
        parts = [evs[i::np] for i in range(np)]
        with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(lambda t: run_part(t[1], wd, "b%d" % t[0], timeout), enumerate(parts)))
        return [x for r, _ in res for x in r], sum(n for _, n in res), np
    finally: shutil.rmtree(wd, ignore_errors=True)
def falsify(evs, n):
    """copies of observations with one bit of the result (or of the text written) changed"""
    good = [e for e in evs[:: max(1, len(evs) // (4 * n))] if e.flag == 0]; out = []
    for e in good[:: max(1, len(good) // n)][:n]:
        x = BEv(); x.op, x.p, x.flag, x.text, x.v = e.op, e.p, 0, e.text, e.v[:3] + (e.v[3] ^ 1,) + e.v[4:]; x.a = x.v[:3]
        if e.op in (75, 84): x.v = e.v[:4] + (e.v[4] ^ 1,)
        if e.op in (104, 106): x.v = e.v[:3] + (0,) + e.v[4:]
        if 90 <= e.op <= 93: x.v = (e.v[1], e.v[0]) + e.v[2:]; x.a = x.v[:3]
        if e.op in (95, 98): x.v = (e.v[0] ^ 1,) + e.v[1:]; x.a = x.v[:3]
        if e.op in (63, 64, 65) and e.text: x.text = e.text[:-1] + ("1" if e.text[-1] != "1" else "2")
        out.append(x)
    return out
if __name__ == "__main__":
    import sys, time
    ev = parse_lines(open(sys.argv[1])); t = time.time()
    rej, st, np = judge(ev)
    for e, why in rej[:40]: print("REJECT", e.line(), why)
    print(len(ev), "events", len(rej), "rejected", st, np, "%.1fs" % (time.time() - t))
