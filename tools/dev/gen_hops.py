"""Writes plug/tables/hops.rs: every method of Libm<T>, labelled with the function its name and type promise."""
import re
V = "/verif/"; src = open("/repo/libm/src/libm_helper.rs").read()
ops = {}
for l in open(V + "harness/src/ops.rs"):
    m = re.search(r'name: "([^"]+)", fmt: (\d+), sig: (\w+), call: (.*) \},$', l.strip())
    if m: ops[m.group(1)] = (int(m.group(2)), m.group(3), m.group(4))
out = []
for t, body in re.findall(r"libm_helper! \{\s*(f\d+),\s*funcs: \{(.*?)\n    \}", src, re.S):
    suf = {"f64": "", "f32": "f", "f16": "f16", "f128": "f128"}[t]
    for m, args in re.findall(r"\(fn (\w+)\((.*?)\)", body):
        at = re.findall(r": (f\d+)", args)[0]
        n = m.replace("roundevem", "roundeven")
        if at != t or n.endswith(suf) and suf and n != "f" and n in ops and ops[n][0] == int(at[1:]): name = n
        elif n.endswith("f") and n[:-1] + suf in ops and t in ("f16", "f128"): name = n[:-1] + suf
        elif n.endswith("_r"): name = n[:-2] + suf + "_r"
        else: name = n + suf
        assert name in ops, (t, m, name)
        f, sig, call = ops[name]
        assert f == int(at[1:])
        c = call.replace("libm::%s(" % name, "Libm::<%s>::%s(" % (t, m))
        assert c != call
        out.append('    Op { name: "%s", fmt: %d, sig: %s, call: %s },' % (name, f, sig, c))
open(V + "plug/tables/hops.rs", "w").write("// Written by tools/dev/gen_hops.py: the methods of Libm<T>, labelled with the function they must be.\nuse crate::{Op, Sig::*};\nuse libm::Libm;\n" + "".join(l + "\n" for l in open(V + "harness/src/ops.rs").read().splitlines() if l.startswith("macro_rules")) + "pub static HOPS: &[Op] = &[\n" + "\n".join(out) + "\n];\n")
print(len(out), "methods;", len(ops), "functions; functions without method:", sorted(set(ops) - {re.search('"(.*?)"', o).group(1) for o in out}))
