#!/usr/bin/env python3
"""Measured worst errors (harness explore --goal profile) -> data/profile.txt and spec/profile.qnt.
usage: gen_profile.py <directory of m32_<fn>.<seed> and m64_<fn>.<seed>>    (no argument: only rewrite spec/profile.qnt)"""
import glob, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import trace
NP = 452
FNS = [n for n, k in sorted(trace.FAM.items(), key=lambda t: t[1]) if 40 <= k <= 72 and n not in ("lgamma_r", "sincos")]
MIRROR = "sin cos tan asin atan sinh cosh tanh asinh atanh erf j0 j1".split()
def runs(fn):
    """index ranges of neighbouring parts"""
    if fn == "hypot": return [(0, 64)]
    if fn == "pow": return [(0, 64), (64, 128)]
    if fn == "atan2": return [(0, 128), (128, 256)]
    return [(0, 226), (226, 452)]
def profile(fn, w, d):
    m = [0.0] * NP
    for p in glob.glob(os.path.join(d, "m%d_%s.*" % (w, fn))):
        for l in open(p):
            _, k, i, s, *_ = l.split(); m[int(k)] = max(m[int(k)], float(s))
    if fn in MIRROR:                       # the same function on either side of zero
        for k in range(226): m[k] = m[k + 226] = max(m[k], m[k + 226])
    out = [255] * NP
    exact = w == 32 and fn not in ("hypot", "pow", "atan2")       # every argument was tried
    for lo, hi in runs(fn):
        for k in range(lo, hi):
            near = m[k] if exact else max(m[max(lo, k - 1):min(hi, k + 2)])
            slack = 1.15 if exact else 1.5 if fn in ("tgamma", "lgamma") else 1.25
            b = math.ceil(8 * max(near, 0.5) * slack) + 1
            out[k] = b if b < 255 else 255
    return out
def main():
    root = trace.VERIF; data = os.path.join(root, "data", "profile.txt")
    if len(sys.argv) > 1:
        with open(data, "w") as f:
            for w in (32, 64):
                for fn in FNS:
                    f.write("%s%d %s\n" % (fn, w, bytes(profile(fn, w, sys.argv[1])).hex()))
    prof = dict(l.split() for l in open(data))
    o = ["// -*- mode: bluespec -*-", "// Generated by tools/dev/gen_profile.py from data/profile.txt.", "// The error profile of every approximated function: byte i (the lowest first) is the error allowed in part i of",
         "// its domain, in eighths of a unit in the last place; 255 stands for no bound beyond the contract's.", "module profile {"]
    for fn in FNS:
        for w in (32, 64):
            b = bytes.fromhex(prof["%s%d" % (fn, w)]); n = runs(fn)[-1][1]
            o.append("  pure val %s_%d: int = 0x%x" % (fn.upper(), w, int.from_bytes(b[:n], "little")))
    o.append("  pure def profileOf(fam: int, w: int): int =")
    for fn in FNS: o.append("    if (fam == %d) (if (w == 32) %s_32 else %s_64) else" % (trace.FAM[fn], fn.upper(), fn.upper()))
    o += ["    -1", "  // families without a profile have no bound here", "  pure def allowed(fam: int, w: int, i: int): int =", "    if (fam > 72 or w == 16 or w == 128) 255 else (profileOf(fam, w) / 256^i) % 256", "}"]
    open(os.path.join(root, "spec", "profile.qnt"), "w").write("\n".join(o) + "\n")
if __name__ == "__main__": main()
