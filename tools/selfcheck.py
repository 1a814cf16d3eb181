"""spec/mini.qnt: the specification's arithmetic against definitions by search, over every pair of operands of a small format."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import trace
def part(start, stride, steps, wd, spec, timeout):
    p = os.path.join(wd, "m%d.qnt" % start); o = p[:-4] + ".itf.json"
    open(p, "w").write("module t {\n  import mini(START=%d, STRIDE=%d).* from \"%s/mini\"\n}\n" % (start, stride, os.path.relpath(spec, wd)))
    r = subprocess.run(["quint", "run", "--backend=typescript", "--verbosity=0", "--main=t", "--invariant=sound", "--max-samples=1", "--max-steps=%d" % steps, "--out-itf=" + o, p], capture_output=True, text=True, timeout=timeout)
    try: st = json.load(open(o))["states"]
    except Exception: raise trace.SpecError("quint gave no trace: %s %s" % (trace.brief(r.stdout), trace.brief(r.stderr)))
    g = lambda s, k: next(v for kk, v in s.items() if kk.split("::")[-1] == k)
    bad = [trace.itf_int(g(a, "at")) for a, b in zip(st, st[1:]) if not g(b, "holds")]
    return len({trace.itf_int(g(s, "at")) for s in st if trace.itf_int(g(s, "at")) < 4096} - {trace.itf_int(g(st[-1], "at"))}), bad
def run(seed, full=False, spec=trace.SPEC):
    """-> (pairs of operands visited, pairs where the two definitions differ)"""
    wd = tempfile.mkdtemp(prefix="qmini")
    try:
        # every pair; or a sample that meets every first and every second operand
        jobs = [(i, 8, 513) for i in range(8)] if full else [((seed + 67 * i) % 4096, 67 * 8, 8) for i in range(8)]
        with ThreadPoolExecutor(8) as ex: r = list(ex.map(lambda j: part(*j, wd, spec, 1500), jobs))
        return sum(n for n, _ in r), [b for _, x in r for b in x]
    finally: shutil.rmtree(wd, ignore_errors=True)
if __name__ == "__main__":
    import time; t = time.time()
    print(*run(1, "full" in sys.argv), "%.0f s" % (time.time() - t))
