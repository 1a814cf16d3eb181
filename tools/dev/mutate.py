#!/usr/bin/env python3
"""mutate.py SEED COUNT [file-regex]: random one-token changes to a copy of the library; which does the property's check catch,
and of the rest, which do the repository's own tests catch?  Works in /tmp/mw, never in /repo.  Appends to /tmp/mw/log."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = "/tmp/mw"; R = W + "/repo"; C = W + "/verif"; M = R + "/libm/src/math/"
def sh(c, t=900, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
PROP = [("A01", "hypotf?"), ("A02", "exp(2|10|m1)?f?"), ("A03", "log(2|10|1p)?f?"), ("A04", "(k_)?(sin|cos|tan)f?|sincosf?|rem_pio2.*"), ("A05", "(asin|acos|atan|atan2)f?"), ("A06", "(sinh|cosh|tanh)f?|k_expo2f?|expo2"),
        ("A07", "a(sinh|cosh|tanh)f?"), ("A08", "powf?"), ("A09", "[tl]gammaf?(_r)?"), ("A10", "erff?"), ("A11", "j[01n]f?"), ("R10", "cbrtf?"), ("R09", "nextafterf?"), ("R06", "frexpf?|ilogbf?|modff?"), ("R04", "remquof?|remainderf?|generic/fmod"),
        ("R03", "fma(_wide)?"), ("R05", "generic/scalbn|ldexpf?"), ("R02", "generic/sqrt"), ("R01", "generic/(ceil|floor|trunc|rint|round)|round.*"), ("R07", "generic/(fmax|fmin).*|fmin_fmax|fminimum.*"), ("R08", "generic/(fdim|copysign|fabs)"),
        ("I01", "support/hex_float"), ("I02", "support/(big|int_traits)"), ("I03", "support/float_traits")]
KIT = "../../../crates/libm-test/src/"
PROP += [(p, re.escape(KIT) + r) for p, r in [("T01 T02 T04", "num|f8_impl"), ("T03", "precision|test_traits"), ("T04", "generate/(edge_cases|random|spaced)|domain|run_cfg"), ("T05", "op|generate/case_list")]]
MORE = {"T": [], "A": ["S01", "S08", "S09"], "R": ["S01"], "I": []}
def prop(rel):
    n = rel[:-3]
    return next((p for p, r in PROP if re.fullmatch(r, n)), None)
def files(rx):
    out = []
    for d, _, fs in [*os.walk(M), *os.walk(M + KIT)]:
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), M)
            if prop(rel) and re.search(rx, rel): out.append(rel)
    return sorted(out)
def code_spans(s):
    """offsets of code that is not a comment, attribute or test"""
    i = s.find("#[cfg(test)]\nmod"); end = i if i >= 0 else len(s)
    ok = bytearray(b"\1" * end)
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|#!?\[[^\]]*\]|force_eval!\([^;]*;|\"[^\"\n]*\"|debug_assert[^;]*;|use [^;]*;", s[:end], re.S):
        for k in range(m.start(), m.end()): ok[k] = 0
    return ok
def candidates(s, r):
    ok = code_spans(s); out = []
    def free(m): return m.end() <= len(ok) and all(ok[m.start():m.end()])
    for m in re.finditer(r"(?<![\w.])\d+\.\d+(e[-+]?\d+)?|(?<![\w.])\d+e[-+]?\d+", s):
        if not free(m): continue
        t = m.group(0); digs = [k for k, c in enumerate(t.split("e")[0]) if c.isdigit()]
        sig = [k for k in digs if t[:k].strip("0.") or t[k] != "0"]
        if len(sig) > 5: k = sig[r.randrange(4, min(len(sig), 15))]; out.append(("const", m.start(), m.end(), t[:k] + str((int(t[k]) + r.randrange(1, 9)) % 10) + t[k + 1:]))
        elif t in ("0.5", "1.0", "2.0", "0.25"): out.append(("const", m.start(), m.end(), r.choice([x for x in ("0.5", "1.0", "2.0", "0.25") if x != t])))
    for m in re.finditer(r"0x[0-9a-fA-F_]{2,}", s):
        if not free(m): continue
        t = m.group(0).replace("_", ""); n = int(t, 16); b = r.choice([1, 1, 2, 1 << r.randrange(0, max(1, n.bit_length()))])
        v = n + b if r.randrange(2) else max(0, n - b)
        out.append(("hex", m.start(), m.end(), "0x%0*x" % (len(t) - 2, v)))
    for m in re.finditer(r"(?<=[ (\[])\d{1,4}(?=[ ;,)\]])", s):
        if free(m): out.append(("int", m.start(), m.end(), str(max(0, int(m.group(0)) + r.choice([-1, 1])))))
    for m in re.finditer(r" (<=|>=|<|>|==|!=) (?=[^\n]*(\{|;|&&|\|\|))", s):
        if free(m) and "->" not in s[m.start() - 2:m.end() + 2]: out.append(("cmp", m.start(1), m.end(1), {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m.group(1)]))
    for m in re.finditer(r" ([-+*]) (?=[\w(])", s):
        if free(m): out.append(("arith", m.start(1), m.end(1), {"+": "-", "-": "+", "*": "/"}[m.group(1)]))
    for m in re.finditer(r"\bif ([^\n{]+) \{", s):
        if free(m) and "let " not in m.group(1) and "cfg" not in m.group(1): out.append(("cond", m.start(1), m.end(1), r.choice(["false", "true"])))
    for m in re.finditer(r"(&&|\|\|)", s):
        if free(m): out.append(("logic", m.start(), m.end(), "||" if m.group(0) == "&&" else "&&"))
    return out
def check(p):
    t = time.time(); r = sh("VERIF_REPO=%s VERIF_TIER=quick VERIF_SEED=1 python3 check.py %s" % (R, p), cwd=C)
    return r.returncode, time.time() - t, r.stdout + r.stderr
def tests():
    for f in ("build", "test"):
        s = open("/opt/vp/%s.sh" % f).read().replace("cd /repo", "cd " + R).replace("/repo/target", R + "/target"); open(W + "/%s.sh" % f, "w").write(s)
    b = sh("bash %s/build.sh" % W, t=1800)
    if b.returncode: return "nobuild"
    sh("bash %s/test.sh %s/out.json" % (W, W), t=1800)
    got = json.load(open(W + "/out.json")); passed = set(got.get("passed", got.get("stable", [])))
    lost = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
    return "tests:%d" % len(lost) if lost else "SURVIVES"
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R): subprocess.check_call(["cp", "-a", "/repo", R])
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD" % (R, R))
    sh("mkdir -p %s && rsync -a --delete --exclude .build --exclude .git --exclude evidence --exclude seeded %s/ %s/ || (cp -a %s/. %s/)" % (C, V, C, V, C))
    for c in ("harness", "intern", "plug", "sess", "kit"): sh("sed -i s,/repo/,%s/, %s/%s/Cargo.toml" % (R, C, c))
def main():
    setup(); r = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); rx = sys.argv[3] if len(sys.argv) > 3 else "."
    fs = files(rx)
    for k in range(n):
        rel = r.choice(fs); s = open(M + rel).read(); cs = candidates(s, r)
        if not cs: continue
        kind = r.choice(sorted({c[0] for c in cs})); c = r.choice([x for x in cs if x[0] == kind])
        new = s[:c[1]] + c[3] + s[c[2]:]
        if new == s: continue
        line = s[:c[1]].count("\n") + 1
        desc = "%s:%d %s [%s -> %s]  %s" % (rel, line, c[0], s[c[1]:c[2]], c[3], s.splitlines()[line - 1].strip()[:90])
        open(M + rel, "w").write(new)
        try:
            if sh("cargo check -q --offline -p libm@0.2.11 --features unstable-float", cwd=R, env={**os.environ, "RUSTUP_TOOLCHAIN": "nightly-2025-04-20"}).returncode: res = "nocompile"
            else:
                
                for p in prop(rel).split():
                    rc, dt, out = check(p)
                    if rc: break
                res = "caught %s %.0fs" % (p, dt)
                if rc == 2: res = "TOOLERR " + p + " " + out.strip().splitlines()[-1][:200]
                if rc == 0:
                    res = tests()
                    if res == "SURVIVES":
                        for q in MORE[p[0]]:
                            if check(q)[0] == 1: res = "caught later by " + q; break
        except subprocess.TimeoutExpired: res = "TIMEOUT"
        finally: open(M + rel, "w").write(s)
        with open(W + "/log", "a") as f: f.write("%s | %s\n" % (res, desc))
if __name__ == "__main__": main()
