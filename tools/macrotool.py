"""Invocations of for_each_function! (crates/libm-macros), compiled by the real macro and judged by spec/macros.qnt."""
import json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import trace
TYPES = ["FTy", "CFn", "CArgs", "CRet", "RustFn", "RustArgs", "RustRet", "all"]
class Obs:
    """One invocation and what became of it."""
    __slots__ = ("inv", "refused", "got", "a", "op", "macro")
    def __init__(s, inv): s.inv, s.refused, s.got, s.a, s.op, s.macro = inv, False, [], (), "for_each_function", True
    def line(s): return "MACRO\t%s\t%s" % (json.dumps(s.inv), "refused" if s.refused else json.dumps(s.got[:2]))
def parse_line(l): return json.loads(l.split("\t")[1])
# ---- invocations -------------------------------------------------------------------------------------------
def tok(k, v=""): return [k, v]
def template(r, bad):
    def atom():
        k = r.randrange(9)
        if k < 3: return [tok(1)]
        if k < 6: return [tok(2)]
        if k == 6: return [tok(0, str(r.randrange(1000)))]
        if k == 7: return [tok(0, r.choice(['"MACRO_FN_NAME"', "None", "x", "a::b", "true", '"_"']))]
        return [tok(0, "f("), tok(r.choice([1, 2])), tok(0, ")")]
    def seq(n):
        out = []
        for i in range(n): out += ([tok(0, ",")] if i else []) + atom()
        return out
    k = r.randrange(6)
    if k == 0: t = atom()
    elif k == 1: t = [tok(0, "[")] + seq(r.randrange(1, 4)) + [tok(0, "]")]
    elif k == 2: t = [tok(0, "(")] + seq(r.randrange(2, 4)) + [tok(0, ")")]
    elif k == 3: t = [tok(0, "x.")] + [tok(r.choice([1, 2]))] + [tok(0, "(")] + seq(r.randrange(0, 3)) + [tok(0, ")")]
    elif k == 4: t = [tok(0, "|x|")] + atom()
    else: t = [tok(0, "Some(")] + seq(1) + [tok(0, ")")]
    if bad and r.random() < 0.5: t = [tok(0, "(")] + t + [tok(0, ","), tok(3, r.choice(["MACRO_FN", "MACRO_FN_NAMES", "MACRO", "MACRO_FN_NAME_NORMALISED"])), tok(0, ")")]
    return t
def some(r, names): return r.sample(names, r.choice([0, 1, 1, 2, 3, 5, 9, 40]))
METAS = ["inline", "allow(dead_code)", 'doc="text"', "cold", "must_use", "cfg(all())", "a::b", "allow(x,y)"]
UNKNOWN = ["sinff", "foo", "_r", "Sin", "cosf64", "lgamma_rf", "lgammar", "roundevem", "fmaf16", "sinf16", "ldexpf64", "main"]
def invocation(r, names, small):
    bad = r.random() < 0.4; why = r.randrange(9) if bad else -1
    v = {"emit": [], "skip": [], "only": [], "attrs": [], "extra": [], "arms": [], "odd": 0}
    k = r.randrange(4)
    if k == 0: v["emit"] = [7]
    elif k < 3: v["emit"] = r.sample(range(7), r.randrange(1, 5))
    if why == 0: v["emit"] = r.choice([v["emit"] + [8], [7, r.randrange(7)], [8]])
    if small or r.random() < 0.6: v["only"] = [some(r, names)]
    elif r.random() < 0.7: v["skip"] = some(r, names)
    if why == 1: v["only"], v["skip"] = [some(r, names)], r.sample(names, 2)
    base = v["only"][0] if v["only"] and v["only"][0] else names
    for _ in range(r.choice([0, 0, 1, 2, 3])): v["attrs"].append({"metas": r.sample(METAS, r.randrange(1, 4)), "names": [r.choice(base) for _ in range(r.randrange(0, 5))]})
    if r.random() < 0.5: v["extra"] = [template(r, why == 2)]
    if r.random() < 0.6:
        pool = base[:]; r.shuffle(pool); arms = []
        for _ in range(r.randrange(0, 4)):
            n = r.randrange(1, 4); part, pool = pool[:n], pool[n:]
            if part: arms.append({"names": part, "body": template(r, why == 3)})
        if r.random() < 0.35 and v["only"] and len(pool) < 12:            # everything covered, no default
            for x in pool: arms.append({"names": [x], "body": template(r, False)})
            if why == 4 and arms: arms.pop(r.randrange(len(arms)))
        elif why != 4: arms.insert(r.randrange(len(arms) + 1), {"names": [], "body": template(r, why == 3)})
        if why == 5 and arms: arms.append(r.choice([{"names": arms[0]["names"][:1], "body": template(r, False)}, {"names": [], "body": template(r, False)}]))
        if arms: v["arms"] = [arms]
    if why == 6:
        u = r.choice(UNKNOWN); w = r.randrange(4)
        if w == 0 and not v["only"]: v["skip"] = v["skip"] + [u]
        elif w == 1 and v["arms"]: v["arms"][0].append({"names": [u], "body": template(r, False)})
        elif w == 2: v["attrs"].append({"metas": ["inline"], "names": [r.choice(names), u]})
        else: v["skip"], v["only"] = [], [(v["only"] or [[]])[0] + [u]]
    if why == 7: v["odd"] = r.choice([1, 2, 3] + ([4, 5, 6, 7] if v["arms"] else []))
    return v
def rust(ts): return "".join({0: v, 1: "MACRO_FN_NAME", 2: "MACRO_FN_NAME_NORMALIZED", 3: v}[k] for k, v in ts)
def source(i, v, r):
    """a Rust module with the invocation and a callback that writes down what it gets"""
    ty = list(range(7)) if v["emit"] == [7] else v["emit"]
    pat = "fn_name:$n:ident," + "".join("%s:$t%d:ty," % ((TYPES + ["Oops"])[t], k) for k, t in enumerate(ty)) + "attrs:[$($a:meta),*]," + ("extra:$e:expr," if v["extra"] else "") + ("fn_extra:$f:expr," if v["arms"] else "")
    body = 'let mut l=vec![format!("{}\\tn={}",%d,stringify!($n))];' % i
    for k in range(len(ty)): body += '{fn t<\'a>()->&\'static str{::core::any::type_name::<$t%d>()}l.push(format!("t={}",t()));}' % k
    body += '$(l.push(format!("a={}",stringify!($a)));)*'
    if v["extra"]: body += 'l.push(format!("e={}",stringify!($e)));'
    if v["arms"]: body += 'l.push(format!("f={}",stringify!($f)));'
    body += 'println!("{}",l.join("\\t").replace("\\n"," "));'
    f = []
    if v["odd"] != 1: f.append("callback:cb")
    e = [(TYPES + ["Oops"])[t] for t in v["emit"]]
    if e: f.append("emit_types:" + (e[0] if len(e) == 1 and (e[0] == "all" or r.random() < 0.5) else "[%s]" % ",".join(e)))
    if v["skip"] or r.random() < 0.1: f.append("skip:[%s]" % ",".join(v["skip"]))
    if v["only"]: f.append("only:[%s%s]" % (",".join(v["only"][0]), "," if v["only"][0] and r.random() < 0.3 else ""))
    if v["attrs"]: f.append("attributes:[%s]" % ",".join("%s[%s]" % ("".join("#[%s]" % m for m in a["metas"]), ",".join(a["names"])) for a in v["attrs"]))
    if v["extra"]: f.append("extra:" + rust(v["extra"][0]))
    if v["arms"]:
        arms = ["%s%s%s=>%s" % ("#[cold]" if v["odd"] == 6 and k == 0 else "", "|".join(a["names"]) or "_", " if true" if v["odd"] == 5 and k == 0 else "", rust(a["body"])) for k, a in enumerate(v["arms"][0])]
        f.append("fn_extra:None" if v["odd"] == 7 else "fn_extra:match %s{%s}" % ("MACRO_FN" if v["odd"] == 4 else "MACRO_FN_NAME", ",".join(arms)))
    if v["odd"] == 2: f.append("onyl:[sin]")
    if v["odd"] == 3: f.append(r.choice(f))
    r.shuffle(f)
    return "mod m%d{macro_rules! cb{(%s)=>{%s}}pub fn go(){libm_macros::for_each_function!{%s%s}}}" % (i, pat, body, ",".join(f), "," if r.random() < 0.5 else "")
# ---- compiling and running ----------------------------------------------------------------------------------
HEAD = "#![feature(f16,f128)]#![allow(warnings)]\n"
def compile_part(job):
    """-> what the callbacks of these invocations got; refused ones are found by their errors"""
    obs, dylib, seed, wd, k, env = job
    r = random.Random(seed * 1000 + k); src = [source(i, o.inv, r) for i, o in enumerate(obs)]; live = set(range(len(obs)))
    p = os.path.join(wd, "g%d.rs" % k); exe = os.path.join(wd, "g%d" % k)
    for attempt in range(6):
        order = sorted(live)
        open(p, "w").write(HEAD + "".join(src[i] + "\n" for i in order) + "fn main(){%s}\n" % "".join("m%d::go();" % i for i in order))
        c = subprocess.run(["rustc", "--edition", "2024", "--error-format=json", "-Copt-level=0", "-Cdebuginfo=0", "--extern", "libm_macros=" + dylib, "-o", exe, p], env=env, capture_output=True, text=True, timeout=400)
        if c.returncode == 0: break
        hit = set()
        def lines(sp):
            while sp:
                if sp["file_name"] == p and 2 <= sp["line_start"] < 2 + len(order): yield order[sp["line_start"] - 2]
                sp = (sp.get("expansion") or {}).get("span")
        for l in c.stderr.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("level") == "error":
                for sp in m["spans"]: hit.update(lines(sp))
        if not hit: raise RuntimeError("cannot compile the invocations: %s" % c.stderr[-2000:])
        for i in hit: obs[i].refused = True
        live -= hit
    else: raise RuntimeError("cannot compile the invocations")
    out = subprocess.run([exe], capture_output=True, text=True, timeout=120).stdout if live else ""
    for l in out.splitlines():
        f = l.split("\t"); i = int(f[0]); g = {"n": "", "t": [], "a": [], "e": [], "f": []}
        for x in f[1:]:
            key, v = x.split("=", 1)
            if key == "n": g["n"] = v
            else: g[key].append(v if key == "t" else re.sub(r"\s+", "", v))
        obs[i].got.append(g)
    for x in (p, exe):
        if os.path.exists(x): os.unlink(x)
def execute(dylib, invs, seed, env, jobs=8):
    obs = [Obs(v) for v in invs]; wd = tempfile.mkdtemp(prefix="macros")
    try:
        np = min(jobs, len(obs))
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(compile_part, [(obs[k::np], dylib, seed, wd, k, env) for k in range(np)]))
    finally: shutil.rmtree(wd, ignore_errors=True)
    return obs
# ---- judging ------------------------------------------------------------------------------------------------
def text(t): return "0x%x" % int.from_bytes(b"\x01" + t.encode(), "big")
def texts(l): return "[%s]" % ",".join(text(x) for x in l)
def tmpl(t): return "[%s]" % ",".join("{k:%d,v:%s}" % (k, text(re.sub(r"\s+", "", v))) for k, v in t)
def record(o):
    v = o.inv
    inv = "{emit:%s,skip:%s,only:%s,attrs:[%s],extra:[%s],arms:[%s],odd:%d}" % (json.dumps(v["emit"]), texts(v["skip"]), "[%s]" % ",".join(texts(x) for x in v["only"]),
        ",".join("{metas:%s,names:%s}" % (texts(a["metas"]), texts(a["names"])) for a in v["attrs"]), ",".join(tmpl(t) for t in v["extra"]),
        ",".join("[%s]" % ",".join("{names:%s,body:%s}" % (texts(a["names"]), tmpl(a["body"])) for a in arms) for arms in v["arms"]), v["odd"])
    got = ",".join("{name:%s,types:%s,attrs:%s,extra:%s,fnExtra:%s}" % (text(g["n"]), texts(g["t"]), texts(g["a"]), texts(g["e"]), texts(g["f"])) for g in o.got)
    return "{inv:%s,refused:%s,got:[%s]}" % (inv, "true" if o.refused else "false", got)
WHY = {1: "refused although it means something", 2: "expanded although it has to be refused", 3: "called back for the wrong functions", 4: "a callback got something else"}
def run_part(obs, wd, name):
    p = os.path.join(wd, name + ".qnt"); o = os.path.join(wd, name + ".itf.json")
    names = ["0"] + [None] * max(trace.FAM.values())
    for n, k in trace.FAM.items():
        if n != "ldexp": names[k] = text(n)
    open(p, "w").write("module t {\n  import macros(SESSION=[%s],NAMES=[%s],LDEXP=%s,LGAMMA_R=%s,LGAMMAF_R=%s).* from \"%s/macros\"\n}\n" % (",\n".join(map(record, obs)), ",".join(x or "0" for x in names), text("ldexp"), text("lgamma_r"), text("lgammaf_r"), os.path.relpath(trace.SPEC, wd)))
    r = subprocess.run(["quint", "run", "--backend=typescript", "--main=t", "--max-samples=1", "--max-steps=%d" % len(obs), "--out-itf=" + o, p], capture_output=True, text=True, timeout=700)
    try: st = json.load(open(o))["states"][-1]
    except Exception: raise trace.SpecError("quint gave no trace for %s: %s %s" % (p, trace.brief(r.stdout), trace.brief(r.stderr)))
    g = lambda k: next(v for kk, v in st.items() if kk.split("::")[-1] == k)
    if trace.itf_int(g("pos")) != len(obs): raise trace.SpecError("session not all read")
    return [(obs[trace.itf_int(x["i"])], WHY[trace.itf_int(x["why"])]) for x in g("rejected")], len(obs) + 1
def judge(obs, jobs=8):
    wd = tempfile.mkdtemp(prefix="qmac")
    try:
        np = max(1, min(jobs, len(obs) // 4)); np = max(np, (len(obs) + 59) // 60); parts = [obs[i::np] for i in range(np)]
        with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(lambda t: run_part(t[1], wd, "m%d" % t[0]), enumerate(parts)))
        return [x for r, _ in res for x in r], sum(n for _, n in res), np
    finally: shutil.rmtree(wd, ignore_errors=True)
def falsify(obs, n):
    out = []
    for k, e in enumerate(obs[:n]):
        x = Obs(e.inv); x.refused, x.got = e.refused, [dict(g) for g in e.got]
        if not e.refused and any(t[0] == 3 for b in e.inv["extra"] + [a["body"] for l in e.inv["arms"] for a in l] for t in b): continue
        if e.refused or not e.got or k % 4 == 0: x.refused = not e.refused
        elif k % 4 == 1: x.got.pop()
        elif k % 4 == 2: x.got[-1] = {**x.got[-1], "a": x.got[-1]["a"] + ["inline"]}
        else: x.got.append(x.got[0])
        out.append(x)
    return out
def plan(names, seed, n):
    r = random.Random(seed)
    out = [invocation(r, names, i % 3 != 0) for i in range(n)]
    out[0] = {"emit": [7], "skip": [], "only": [], "attrs": [], "extra": [[[0, "["], [1, ""], [0, ","], [2, ""], [0, "]"]]], "arms": [], "odd": 0}
    return out
