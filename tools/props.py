"""What each property's check records and judges."""
import os, random, re, time
import runner, trace, hard, histories, blocks, programs, marks, selfcheck, evaltool, macrotool
BASE = {}
def opsof(*bases):
    """All public functions with these base names, over every format."""
    if not BASE:
        for l in open(os.path.join(runner.VERIF, "harness", "src", "ops.rs")):
            m = re.search(r'name: "([^"]+)", fmt: (\d+)', l)
            if m: BASE.setdefault(trace.base(m.group(1))[0], []).append(m.group(1))
    return [o for b in bases for o in BASE[b]]
class Ctx:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.quick = tier != "thorough"
        s.rejected = []; s.calls = 0; s.judged = 0; s.states = 0; s.transitions = 0; s.samples = []; s.detail = {}; s.level = "model_checking"
        s.assumptions = ["the host C library is used only to choose which recorded calls the specification sees first; every verdict is the specification's",
                         "quint's simulator evaluates the specification correctly"]
        s.t0 = time.time()
    def coverage(s):
        return {"states": s.states, "transitions": s.transitions, "traces_validated_against_impl": s.traces, "samples": s.samples[:12], "calls_recorded": s.calls, "calls_judged": s.judged, **s.detail}
    traces = 0
    def sensitive(s, planted, found):
        """The judge also sees falsified copies of recorded observations; one that accepts them all decides nothing."""
        d = s.detail.setdefault("falsified_observations", {"planted": 0, "rejected": 0})
        d["planted"] += planted; d["rejected"] += found
        if planted >= 8 and not found: raise runner.ToolError("the specification accepted %d falsified observations" % planted)
    def judge(s, evs, rule=0):
        fake = trace.falsify(evs, rule, 32)
        rej, st, tr = trace.judge(evs + fake, rule=rule)
        s.sensitive(len(fake), sum(1 for e, _ in rej if e.tag == "fake"))
        s.rejected += [x for x in rej if x[0].tag != "fake"]; s.judged += len(evs); s.states += st; s.transitions += st - tr; s.traces += tr
        for e in evs[:: max(1, len(evs) // 6)][:6]: s.samples.append(e.line())
    def histories(s, groups):
        fake = histories.falsify(groups, 32)
        rej, st, np = histories.judge(groups + fake)
        ids = {id(g) for g in fake}
        s.sensitive(len(fake), len({id(g) for g, _, _ in rej} & ids))
        rej = [x for x in rej if id(x[0]) not in ids]
        n = sum(map(len, groups))
        s.judged += n; s.states += st; s.transitions += st - np; s.traces += len(groups)
        for g, k, why in rej:
            e = g[k]; e.group = g; s.rejected.append((e, why))
        for g in groups[:: max(1, len(groups) // 5)][:5]: s.samples.append([e.line() + " " + e.ctx for e in g][:8])
    def sessions(s, mode, ops, secs, keep, plugs, extra=()):
        g, st = runner.sessions(mode, ops, s.seed, secs, keep, plugs, extra)
        s.calls += st["calls"]
        d = s.detail.setdefault("histories", {})
        for k, v in st.items(): d[k] = d.get(k, 0) + v
        return g
    def explore(s, ops, secs, keep, **k):
        evs, st = runner.explore(ops, s.seed, secs, keep, **k)
        s.calls += st.calls; s.detail.setdefault("functions", {}).update(st.ops)
        return evs
def hardfile(kind):
    os.makedirs(runner.BUILD, exist_ok=True)
    h = os.path.join(runner.BUILD, kind + ".txt"); hard.write(h, kind); return h
PROFILE = os.path.join(runner.VERIF, "data", "profile.txt")
def standard(bases, qsecs=24, qjudge=3600, sweep_q=16, usehard=False, rule=0):
    """Explore every format of these functions, judge what was recorded."""
    def run(c):
        ops = opsof(*bases)
        if c.quick: secs, keep, sweep = qsecs / len(ops), qjudge * 3 // 4 // len(ops), sweep_q
        else: secs, keep, sweep = 1800 / len(ops), 60000 // len(ops), 1
        h = hardfile(usehard) if usehard else None
        # f32 functions of one argument: strided or complete sweep, then everything else by time
        evs = c.explore(ops, secs, keep, sweep=sweep, hard=h, extra=["--profile", PROFILE] if rule == 3 else [])
        c.judge(evs, rule=rule)
    return run
def rooted(c):
    """sqrt in the builds with and without the hardware instruction."""
    ops = opsof("sqrt")
    for feat in ("arch", "soft"):
        evs = c.explore(ops, 3 if c.quick else 450, 500 if c.quick else 8000, sweep=16 if c.quick else 1, binary=runner.build(features=feat), hard=hardfile("roots"))
        c.judge(evs)
    c.detail["builds"] = ["arch", "soft"]
def all_ops():
    opsof(); return [o for b in BASE.values() for o in b]
def totality(c):
    """Every function, arguments of every kind, with the language's own run-time checks compiled in."""
    ops = all_ops(); b = runner.build(profile="checked")
    secs, keep = (0.12, 12) if c.quick else (12, 200)
    evs = c.explore(ops, secs, keep, binary=b, extra=["--screen", "0"])
    c.detail["panics_or_hangs"] = sum(1 for e in evs if e.flag)
    c.judge(evs)
def one_build(): return [runner.plug("arch", "arch", "release")]
def symmetry(c):
    """Mirrored, swapped and mirrored-alias calls of every function that has a symmetry."""
    c.histories(c.sessions("orbit", all_ops(), 0.11 if c.quick else 6, 16 if c.quick else 160, one_build(), ["--kinds", "3", "--methods", "0"]))
def entries(c):
    """Methods of Libm<T>, functions that share a definition, exact functions across formats."""
    c.histories(c.sessions("orbit", all_ops(), 0.11 if c.quick else 6, 16 if c.quick else 160, one_build(), ["--kinds", "6"]))
CONFIGS = [("arch", "arch", "release"), ("portable", "plain", "release"), ("soft", "soft", "release"), ("intrinsics", "intrinsics", "release"), ("arch-checked", "arch", "checked"), ("portable-unoptimised", "plain", "dbg"), ("intrinsics-small", "intrinsics", "small"), ("default-stable", "narrow", "release")]
def configs(c):
    plugs = [runner.plug(*x) for x in CONFIGS]
    c.detail["builds"] = [x[0] for x in CONFIGS]
    c.histories(c.sessions("orbit", all_ops(), 0.14 if c.quick else 8, 16 if c.quick else 160, plugs, ["--kinds", "0"]))
def cinterface(c):
    """Every exported C symbol against the function of its name, and its results against the contracts."""
    ops = [o for o in open(os.path.join(runner.VERIF, "capi", "symbols.txt")).read().split()]
    g = c.sessions("orbit", ops, 0.14 if c.quick else 6, 24 if c.quick else 240, one_build() + [runner.capi()], ["--kinds", "0", "--methods", "0"])
    seen = {e.op for x in g for e in x}
    if set(ops) - seen: raise runner.ToolError("no calls of %s" % sorted(set(ops) - seen))
    c.histories(g)
def oracle(c):
    """The multiple-precision implementations of the test kit, in the place of the library."""
    b = runner.build("mp")
    ops = [o for o in all_ops() if not o.startswith("nextafter")]
    q = c.quick
    evs = c.explore(ops, 0.18 if q else 12, 26 if q else 700, n=10**8, binary=b, hard=hardfile("hard") if not q else None)
    evs += c.explore(ops, 0, 20 if q else 400, n=3000 if q else 40000, mode="special", extra=["--per", "1" if q else "8"], binary=b)
    c.judge(evs, rule=4)
def purity(c):
    """Threads calling functions at the same time over clustered operands; a second build and a fresh process as witnesses."""
    plugs = [runner.plug("arch", "arch", "release"), runner.plug("portable", "plain", "release")]
    g = c.sessions("threads", all_ops(), 18 if c.quick else 900, 1200 if c.quick else 12000, plugs, ["--rounds", "3000"])
    # the same calls in a fresh process, in the opposite order
    evs = [x[0] for x in g]; again = runner.replay(list(reversed(evs)))
    if len(again) != len(evs): raise runner.ToolError("fresh process lost calls")
    for x, e in zip(g, reversed(again)):
        h = histories.HEv(e.op, e.a, e.r, e.flag); h.ctx = "fresh-process"; x.append(h)
    c.histories(g)
def specials(c):
    """Every combination of classes of operands (zeros, subnormals, ones, integers, halves, infinities, NaNs ...)."""
    uni, multi = [], []
    for o in all_ops(): (multi if trace.base(o)[0] in "fma pow hypot atan2 fmod remainder remquo scalbn ldexp jn yn nextafter fdim copysign".split() or "m" in o[:2] and trace.base(o)[0].startswith(("fmax", "fmin")) else uni).append(o)
    k = 1 if c.quick else 12
    evs = c.explore(uni, 0, 80 * k, n=4000 * k, mode="special", extra=["--per", str(2 * k)])
    evs += c.explore(multi, 0, 420 * k, n=20000 * k, mode="special", extra=["--per", str(2 * k)])
    c.judge(evs)
def building(mode, secs, keep):
    """Building blocks recorded in an optimised build and in one with the language's run-time checks."""
    def run(c):
        for prof in ("release", "checked"):
            evs, calls = runner.blocks(mode, c.seed, secs if c.quick else 200, (keep if prof == "release" else keep // 3) * (1 if c.quick else 25), prof)
            c.calls += calls; observed(c, evs)
    return run
def kit(modes, keep):
    """What the repository's own verification kit does (crates/libm-test)."""
    def run(c):
        evs = []
        for m in modes.split():
            lines, calls = runner.kit(m, c.seed, keep if c.quick else keep * 25)
            c.calls += calls; evs += blocks.parse_lines(lines)
        observed(c, evs)
    return run
def plan(c):
    """How many arguments the kit's tests get, and which extensive tests run, under several environments."""
    r = random.Random(c.seed); names = sorted(all_ops()); evs = []
    for k in range(6 if c.quick else 60):
        items = r.sample(names, r.randrange(1, 5)) + r.sample(["all_f16", "all_f32", "all_f64", "all_f128", ""], r.randrange(0, 3))
        if k == 0: items = []
        if k == 1: items = r.choice([["all"], ["", "all"], ["all_f32", "all"]])
        if k > 1: r.shuffle(items)
        env = {"LIBM_EXTENSIVE_TESTS": ",".join(items)}
        if k % 2: env["LIBM_EXTENSIVE_ITERATIONS"] = str(r.choice([1, 9999, 10001, r.randrange(1, 1 << 24), r.randrange(1, 1 << 33)]))
        lines, calls = runner.kit("plan", c.seed, 700, env)
        c.calls += calls; evs += blocks.parse_lines(lines)
        c.detail.setdefault("environments", []).append(env)
    observed(c, evs)
def observed(c, evs):
    fake = blocks.falsify(evs, 32); ids = {id(e) for e in fake}
    rej, st, np = blocks.judge(evs + fake)
    c.sensitive(len(fake), sum(1 for e, _ in rej if id(e) in ids)); rej = [x for x in rej if id(x[0]) not in ids]
    c.judged += len(evs); c.rejected += rej; c.states += st; c.transitions += st - np; c.traces += np
    for e in evs[:: max(1, len(evs) // 6)][:6]: c.samples.append(e.line())
    kinds = c.detail.setdefault("observations_by_operation", {})
    for e in evs: kinds[str(e.op)] = kinds.get(str(e.op), 0) + 1
def optable(c):
    """Listed cases and calls through the kit's table of operations, judged as calls of the functions."""
    lines, calls = runner.kit("table", c.seed, 700 if c.quick else 20000)
    c.calls += calls; evs = trace.parse_lines(lines)
    for e in evs: d = c.detail.setdefault("functions", {}); d[e.op] = d.get(e.op, 0) + 1
    c.judge(evs)
    kit("names", 700)(c)
def composed(c):
    """Random behaviours of the specification's register machine, executed by the code, in two builds."""
    n, bad = selfcheck.run(c.seed, full=not c.quick)
    if bad: raise runner.ToolError("the specification contradicts its definitions by search at %s" % bad[:5])
    c.detail["operand_pairs_of_a_six_bit_format_checked_against_search"] = n; c.states += n
    parts = [32, 64, 64, 128, 16, 32, 64, 128] * (1 if c.quick else 12)
    behs = programs.generate(8, parts, 60 if c.quick else 200, 110 if c.quick else 250, c.seed)
    text, at = programs.script(behs)
    c.states += sum(len(b[1]) for b in behs); c.transitions += sum(len(b[1]) - 1 for b in behs)
    for prof in ("release", "checked"):
        lines = runner.program(text, runner.build(profile=prof))
        rej, n = programs.compare(behs, at, lines)
        bad = [l.split() for l in lines]
        for k in range(5, len(bad), 997): bad[k][4] = "%x" % (int(bad[k][4], 16) ^ 1)
        c.sensitive(len(bad) // 997, len(programs.compare(behs, at, [" ".join(l) for l in bad])[0]) - len(rej))
        c.rejected += rej; c.calls += len(at); c.judged += n; c.traces += len(behs)
    kinds = c.detail["instructions_by_function"] = {}
    for l in text.splitlines():
        if l[0] == "A": kinds[l.split()[1]] = kinds.get(l.split()[1], 0) + 1
    c.samples += text.splitlines()[:12]
REAL = "sin cos sincos tan tanh erf erfc asin acos atan asinh acosh atanh sinh cosh exp exp2 exp10 expm1 log log2 log10 log1p j0 j1 tgamma lgamma lgamma_r atan2 hypot pow".split()
def commandline(c):
    """Runs of the command-line tool: every function on both bases, well-formed and malformed command lines."""
    runs = evaltool.execute(runner.util(), evaltool.plan(all_ops(), c.seed, 18 if c.quick else 400))
    fake = evaltool.falsify(runs, 32); ids = {id(x) for x in fake}
    rej, st, np = evaltool.judge(runs + fake)
    c.sensitive(len(fake), sum(1 for e, _ in rej if id(e) in ids))
    c.rejected += [x for x in rej if id(x[0]) not in ids]
    c.calls += len(runs); c.judged += len(runs); c.states += st; c.transitions += st - np; c.traces += len(runs)
    c.detail["runs_that_had_to_be_refused"] = sum(1 for x in runs if not x.printed)
    c.samples += [x.line()[:300] for x in runs[:: max(1, len(runs) // 12)]]
def macro(c):
    """Invocations of for_each_function!, expanded by the real macro in the real compiler."""
    obs = macrotool.execute(runner.macros(), macrotool.plan(all_ops(), c.seed, 120 if c.quick else 2000), c.seed, runner.env())
    fake = macrotool.falsify(obs, 32); ids = {id(x) for x in fake}
    rej, st, np = macrotool.judge(obs + fake)
    c.sensitive(len(fake), sum(1 for e, _ in rej if id(e) in ids))
    c.rejected += [x for x in rej if id(x[0]) not in ids]
    c.calls += len(obs); c.judged += len(obs); c.states += st; c.transitions += st - np; c.traces += len(obs)
    c.detail["callbacks"] = sum(len(o.got) for o in obs); c.detail["refused_invocations"] = sum(o.refused for o in obs)
    c.samples += [o.line()[:300] for o in obs[:: max(1, len(obs) // 12)]]
def landmarks(c):
    """Calls whose true value is a number of the format."""
    todo = marks.calls(900, 500, c.seed) if c.quick else marks.calls(40000, 20000, c.seed)
    evs = runner.replay([trace.Ev(op, a, (0, 0), 0) for op, a in todo])
    if len(evs) != len(todo): raise runner.ToolError("calls lost")
    c.calls += len(evs)
    for e in evs: d = c.detail.setdefault("functions", {}); d[e.op] = d.get(e.op, 0) + 1
    c.judge(evs, rule=1)
def ranges(c):
    """Recording steered towards results at the bounds of a function."""
    ops = opsof(*REAL)
    evs = c.explore(ops, 0.3 if c.quick else 20, 100 if c.quick else 1500, sweep=257 if c.quick else 1, extra=["--goal", "range"])
    c.judge(evs, rule=2)
PROPS = {
    "T01": kit("steps", 6000),
    "T02": kit("seqs", 5000),
    "T03": kit("verdict excuses", 7000),
    "T04": kit("gens", 3000),
    "T05": optable,
    "T06": oracle,
    "T07": plan,
    "U01": commandline,
    "M01": macro,
    "S08": landmarks,
    "S09": ranges,
    "S07": composed,
    "I01": building("hex", 3, 5000),
    "I02": building("ints", 3, 6000),
    "I03": building("view", 0, 6000),
    "I04": building("flags", 0, 9000),
    "S01": specials,
    "S02": symmetry,
    "S04": purity,
    "S05": configs,
    "S06": entries,
    "S10": cinterface,
    "S03": totality,
    "R01": standard(["ceil", "floor", "trunc", "round", "roundeven", "rint"]),
    "R02": rooted,
    "R03": standard(["fma"]),
    "R04": standard(["fmod", "remainder", "remquo"]),
    "R05": standard(["scalbn", "ldexp"]),
    "R06": standard(["frexp", "ilogb", "modf"]),
    "R07": standard(["fmax", "fmin", "fmaximum", "fminimum", "fmaximum_num", "fminimum_num"]),
    "R08": standard(["fabs", "copysign", "fdim"]),
    "R09": standard(["nextafter"]),
    "R10": standard(["cbrt"], usehard="roots"),
    "A01": standard(["hypot"], rule=3),
    "A02": standard(["exp", "exp2", "exp10", "expm1"], rule=3),
    "A03": standard(["log", "log2", "log10", "log1p"], rule=3),
    "A04": standard(["sin", "cos", "tan", "sincos"], usehard="reduction", rule=3),
    "A05": standard(["asin", "acos", "atan", "atan2"], rule=3),
    "A06": standard(["sinh", "cosh", "tanh"], rule=3),
    "A07": standard(["asinh", "acosh", "atanh"], rule=3),
    "A08": standard(["pow"], rule=3),
    "A09": standard(["tgamma", "lgamma", "lgamma_r"], rule=3),
    "A10": standard(["erf", "erfc"], rule=3),
    "A11": standard(["j0", "j1", "y0", "y1", "jn", "yn"], qjudge=1600, sweep_q=64, rule=3),
}
RULE = {"T06": 4, "S08": 1, "S09": 2, **{"A%02d" % i: 3 for i in range(1, 12)}}
def environments(obs):
    """Observations grouped by the environment they were made in (two kinds of T07 depend on it)."""
    g = {}
    for l in obs:
        f = l.split("#")[0].split(); env = ()
        if f[0] == "104" and f[4] != "0": env = (("LIBM_EXTENSIVE_ITERATIONS", str(int(f[4], 16))),)
        if f[0] == "105": env = (("LIBM_EXTENSIVE_TESTS", l.split("=", 1)[1].split(" ")[0]),)
        g.setdefault(env, []).append(l)
    return [(dict(k), v) for k, v in g.items()]
def do_replay(path):
    rule = next((RULE.get(l.split()[2], 0) for l in open(path) if l.startswith("# property ")), 0)
    text = [l for l in open(path) if not l.startswith("#")]
    if any(l.startswith("RUN\t") for l in text):
        runs = evaltool.execute(runner.util(), [evaltool.parse_line(l) for l in text if l.startswith("RUN\t")])
        rej, _, _ = evaltool.judge(runs)
        for e in runs: print(e.line(), "REJECTED" if any(x is e for x, _ in rej) else "accepted")
        return 1 if rej else 0
    if any(l.startswith("MACRO\t") for l in text):
        obs = macrotool.execute(runner.macros(), [macrotool.parse_line(l) for l in text if l.startswith("MACRO\t")], 1, runner.env())
        rej, _, _ = macrotool.judge(obs)
        for e in obs: print(e.line(), "REJECTED" if any(x is e for x, _ in rej) else "accepted")
        return 1 if rej else 0
    obs = [l for l in text if "=" in l.split("#")[0]]; bad = 0
    if obs:
        kit = int(obs[0].split()[0]) >= 70
        evs = []
        for env, ls in environments(obs):
            r = runner.subprocess.run([runner.build("kit" if kit else "intern"), "replay"] + (["--fams", runner.families()] if kit else []), input="".join(ls), env={**runner.kit_env(), **env} if kit else None, capture_output=True, text=True, timeout=600)
            evs += blocks.parse_lines(r.stdout.splitlines())
        rej, _, _ = blocks.judge(evs)
        for e in evs: print(e.line(), "REJECTED" if any(x is e for x, _ in rej) else "accepted")
        bad = 1 if rej else 0
        text = [l for l in text if l not in obs]
        if not text: return bad
    if any(l.strip() == "-" for l in text):
        plugs = [runner.plug(*x) for x in CONFIGS]
        if any(l.split()[8:9] == ["c"] for l in text): plugs.append(runner.capi())
        r = runner.subprocess.run([runner.build("sess", "release", "arch"), "replay", "--plugs", ",".join(plugs)], input="".join(text), capture_output=True, text=True, timeout=600)
        rej, _, _ = histories.judge(histories.parse_lines(r.stdout.splitlines()))
        for g, k, why in rej:
            for e in g: print(e.line(), e.ctx, "REJECTED: " + why if e is g[k] else "")
            print("-")
        return 1 if rej else 0
    evs = trace.parse_lines([l.split("#")[0] for l in text])
    if any("property T05" in l for l in open(path)):
        r = runner.subprocess.run([runner.build("kit"), "calls"], input="\n".join(e.line() for e in evs) + "\n", env=runner.kit_env(), capture_output=True, text=True, timeout=600)
        new = trace.parse_lines([l for l in r.stdout.splitlines() if not l.startswith("STAT")])
    else: new = runner.replay(evs, runner.build("mp") if rule == 4 else None)
    rej, _, _ = trace.judge(new, rule=rule)
    for e in new: print(e.line(), "REJECTED" if any(r is e for r, _ in rej) else "accepted")
    return 1 if rej or bad else 0
