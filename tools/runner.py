"""Common machinery of the checks: building the recorder against /repo, recording, judging, reporting."""
import json, os, re, resource, subprocess, sys, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trace, histories, blocks as _blocks
VERIF = trace.VERIF
REPO = os.environ.get("VERIF_REPO", "/repo")
COPY = "" if REPO == "/repo" else "-" + REPO.strip("/").replace("/", "_")     # cargo takes two copies of a workspace for one
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-2025-04-20"
class ToolError(Exception): pass
def env():
    e = dict(os.environ); e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN; e["CARGO_NET_OFFLINE"] = "true"; e.pop("RUSTFLAGS", None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    return e
def log(*a): print(*a, flush=True)
_built = {}
def build(crate="harness", profile="release", features="arch"):
    """Build a recorder from /repo's working tree; returns the path of its binary."""
    key = (crate, profile, features)
    if key in _built: return _built[key]
    td = os.path.join(BUILD, "%s-%s" % (crate, features.replace(",", "-") or "none"))
    r = subprocess.run(["cargo", "build", "--offline", "--profile", profile, "--features", features, "--target-dir", td], cwd=os.path.join(VERIF, crate), env=env(), capture_output=True, text=True)
    if r.returncode: raise ToolError("cannot build %s: %s" % (key, r.stderr[-3000:]))
    name = re.search(r'^name = "(.*)"', open(os.path.join(VERIF, crate, "Cargo.toml")).read(), re.M).group(1)
    _built[key] = os.path.join(td, "release" if profile == "release" else profile, name)
    return _built[key]
def plug(label, features, profile):
    """A loadable build of libm: 'label=path'."""
    key = ("plug", profile, features)
    if key not in _built:
        td = os.path.join(BUILD, "plug-" + features.replace(",", "-"))
        e = env()
        if features == "narrow": e["RUSTUP_TOOLCHAIN"] = "stable"      # the current compiler, as a user of the crate has it
        r = subprocess.run(["cargo", "build", "--offline", "--profile", profile, "--features", features, "--target-dir", td], cwd=os.path.join(VERIF, "plug"), env=e, capture_output=True, text=True)
        if r.returncode: raise ToolError("cannot build %s: %s" % (key, r.stderr[-3000:]))
        _built[key] = os.path.join(td, profile, "libvplug.so")
    return "%s=%s" % (label, _built[key])
def util():
    """The repository's command-line tool, with the multiple-precision basis."""
    if "util" not in _built:
        td = os.path.join(BUILD, "util" + COPY)
        r = subprocess.run(["cargo", "build", "--offline", "--release", "--no-default-features", "--features", "build-mpfr,unstable-float", "--manifest-path", os.path.join(REPO, "crates/util/Cargo.toml"), "--target-dir", td], env=env(), capture_output=True, text=True)
        if r.returncode: raise ToolError("cannot build the command-line tool: %s" % r.stderr[-3000:])
        _built["util"] = os.path.join(td, "release", "util")
    return _built["util"]
def macros():
    """The repository's procedural macros, as the compiler loads them."""
    if "macros" not in _built:
        td = os.path.join(BUILD, "macros" + COPY)
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "crates/libm-macros/Cargo.toml"), "--target-dir", td], env=env(), capture_output=True, text=True)
        if r.returncode: raise ToolError("cannot build the macros: %s" % r.stderr[-3000:])
        _built["macros"] = os.path.join(td, "debug", "liblibm_macros.so")
    return _built["macros"]
def capi():
    """The C symbols of crates/compiler-builtins-smoke-test as a loadable object: 'c=path'."""
    if "capi" not in _built:
        td = os.path.join(BUILD, "capi" + COPY); src = os.path.join(VERIF, "capi"); e = env(); e["CARGO_PROFILE_RELEASE_LTO"] = "off"
        def run(cmd, **k):
            r = subprocess.run(cmd, capture_output=True, text=True, **k)
            if r.returncode: raise ToolError("cannot build the C interface: %s: %s" % (" ".join(cmd)[:200], r.stderr[-3000:]))
        # as a library, not as the archive the manifest asks for: this compiler keeps no symbols of a crate marked compiler_builtins in an archive
        run(["cargo", "rustc", "--offline", "--release", "--crate-type", "rlib", "--manifest-path", os.path.join(REPO, "crates/compiler-builtins-smoke-test/Cargo.toml"), "--target-dir", os.path.join(td, "cb")], env=e)
        run(["cargo", "build", "--offline", "--release", "--target-dir", td], cwd=src, env=env())
        wd = tempfile.mkdtemp(prefix="csyms", dir=td)
        try:
            run(["ar", "x", os.path.join(td, "cb/release/libcb.rlib")], cwd=wd)
            with open(os.path.join(wd, "symbols.h"), "w") as f: f.writelines("S(%s)\n" % n for n in open(os.path.join(src, "symbols.txt")).read().split())
            run(["gcc", "-c", "-fPIC", "-fno-builtin", "-w", "-I", wd, os.path.join(src, "table.c"), "-o", os.path.join(wd, "table.obj")])
            objs = sorted(os.path.join(wd, x) for x in os.listdir(wd) if x.endswith(".o"))
            run(["gcc", "-shared", "-nostdlib", "-Wl,-Bsymbolic", "-o", os.path.join(td, "libcsyms.so"), os.path.join(wd, "table.obj"), *objs, "-lgcc", "-lc"])
        finally: shutil.rmtree(wd, ignore_errors=True)
        os.environ["VCSYMS"] = os.path.join(td, "libcsyms.so")
        _built["capi"] = os.path.join(td, "release", "libvcapi.so")
    return "c=" + _built["capi"]
def sessions(mode, ops, seed, secs, keep, plugs, extra=()):
    """Record histories; returns (groups, stats)."""
    binary = build("sess", "release", "arch")
    out = tempfile.mktemp(prefix="hist", dir=BUILD)
    cmd = [binary, mode, ",".join(ops), "--seed", str(seed), "--secs", str(secs), "--keep", str(keep), "--plugs", ",".join(plugs), "--dict", dictionary(), "--out", out, *extra]
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=200 + (len(ops) if mode == "orbit" else 1) * (secs * 4 + 2))
    except subprocess.TimeoutExpired: raise ToolError("recording did not finish (a call that does not return? see S03)")
    if r.returncode: raise ToolError("recorder failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    st = {"groups": 0, "calls": 0, "disagreeing_groups_in_screen": 0}
    for l in r.stdout.splitlines():
        if l.startswith("STAT "):
            d = dict(x.split("=", 1) for x in l.split()[1:])
            st["groups"] += int(d["groups"]); st["calls"] += int(d["calls"]); st["disagreeing_groups_in_screen"] += int(d["bad"])
    g = histories.parse_lines(open(out)); os.unlink(out)
    return g, st
def blocks(mode, seed, secs, keep, profile="release"):
    """Observations of the crate's building blocks; returns (events, calls)."""
    out = tempfile.mktemp(prefix="blk", dir=BUILD)
    r = subprocess.run([build("intern", profile), mode, "--seed", str(seed), "--secs", str(secs), "--keep", str(keep), "--out", out], capture_output=True, text=True, timeout=300 + secs * 3)
    if r.returncode: raise ToolError("recorder failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    ev = _blocks.parse_lines(open(out)); os.unlink(out)
    return ev, int(re.search(r"calls=(\d+)", r.stdout).group(1))
def kit_env():
    e = dict(os.environ); e["LIBM_SEED"] = "verifverifverifverifverifverif12"; e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kit-log"); e.pop("RUSTFLAGS", None)
    for k in [k for k in e if k.startswith("LIBM_") and k != "LIBM_SEED"]: e.pop(k)
    return e
def families(): return ",".join("%s:%d" % x for x in sorted(trace.FAM.items()))
def kit(mode, seed, keep, env=None):
    """Observations of the repository's verification kit; returns (lines, calls)."""
    out = tempfile.mktemp(prefix="kit", dir=BUILD)
    os.makedirs(os.path.join(BUILD, "kit-log"), exist_ok=True)
    fams = families()
    binary = build("kit")
    cap = lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    for attempt in range(2):
        try:
            r = subprocess.run([binary, mode, "--seed", str(seed), "--keep", str(keep), "--fams", fams, "--out", out], env={**kit_env(), **(env or {})}, capture_output=True, text=True, timeout=200 if keep < 20000 else 1200, preexec_fn=cap)
            if r.returncode == 0: break
            why = "ended with %d" % r.returncode
        except subprocess.TimeoutExpired: why = "did not finish"
    else:
        # twice the kit did not come to an end on its own: an observation of it (the last line may be cut off)
        l = open(out).read().split("\n")[:-1] if os.path.exists(out) else []
        return (l + ["95 0 0 0 0 0 0 1 =" + why] if mode != "table" else l + ["sqrt 0 0 0 0 0 1"]), len(l)
    l = open(out).read().splitlines(); os.unlink(out)
    return l, int(re.search(r"calls=(\d+)", r.stdout).group(1))
_dict = None
def dictionary():
    global _dict
    if _dict is None:
        os.makedirs(BUILD, exist_ok=True)
        _dict = os.path.join(BUILD, "dict.txt")
        subprocess.check_call([sys.executable, os.path.join(VERIF, "tools", "extract_dict.py"), os.path.join(REPO, "libm", "src"), _dict])
    return _dict
class Stats:
    def __init__(s): s.calls = 0; s.buckets = 0; s.ops = {}; s.panics = 0
def explore(ops, seed, secs, keep, n=10**12, sweep=0, binary=None, hard=None, extra=(), st=None, mode="explore"):
    """Record observations of the real code; returns (events, Stats)."""
    binary = binary or build()
    out = tempfile.mktemp(prefix="ev", dir=BUILD)
    cmd = [binary, mode, ",".join(ops), "--seed", str(seed), "--n", str(n), "--secs", str(secs), "--keep", str(keep), "--sweep", str(sweep), "--dict", dictionary(), "--out", out, *extra]
    if hard: cmd += ["--hard", hard]
    lim = 120 + len(ops) * (secs * 5 + 60)
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=lim)
    if r.returncode: raise ToolError("recorder failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    st = st or Stats()
    for l in r.stdout.splitlines():
        if l.startswith("STAT "):
            d = dict(x.split("=", 1) for x in l.split()[1:] if "=" in x)
            st.calls += int(d["calls"]); st.buckets += int(d["buckets"]); st.panics += int(d["panics"])
            st.ops[d["op"]] = {"calls": int(d["calls"]), "input_classes": int(d["buckets"]), "worst_screen_score": d["maxscore"]}
    evs = trace.parse(out); os.unlink(out)
    return evs, st
def replay(events, binary=None):
    """Call the code again with the given (op, args); returns events."""
    binary = binary or build()
    r = subprocess.run([binary, "replay"], input="\n".join("%s %x %x %x" % (e.op, *e.a) for e in events) + "\n", capture_output=True, text=True, timeout=600)
    if r.returncode: raise ToolError("recorder failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    out = []
    for l in r.stdout.splitlines():
        p = l.split()
        out.append(trace.Ev(p[0], tuple(int(x, 16) for x in p[1:4]), tuple(int(x, 16) for x in p[4:6]), int(p[6])))
    return out
def program(text, binary):
    """Execute programs of the register machine; returns what every instruction did."""
    out = tempfile.mktemp(prefix="prog", dir=BUILD)
    try: r = subprocess.run([binary, "program", "--out", out], input=text, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired: raise ToolError("a program did not finish (a call that does not return? see S03)")
    if r.returncode: raise ToolError("recorder failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    l = open(out).read().splitlines(); os.unlink(out)
    return l
# ---- known findings -------------------------------------------------------------------------------
def known():
    """Lines of known_findings.txt:  known: property=<id> op=<op> args=<regex over the hex arguments> <text>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) op=(\S+) args=(\S+) (.*)", l)
            if m: out.append(m.groups())
    return out
def is_known(pid, ev):
    a = ",".join("%x" % x for x in ev.a)
    for p, op, rx, text in known():
        if p == pid and op == str(ev.op) and re.fullmatch(rx, a): return text
    return None
def write_evidence(pid, tier, seed, level, cov, wall, violations, assumptions):
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations},
              open(os.path.join(d, pid + ".json"), "w"), indent=1)
def report(pid, tier, rejected):
    """Print verdicts; returns the number of violations."""
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    bad = []; seen = set()
    for e, why in rejected:
        t = is_known(pid, e)
        if t is None: bad.append((e, why))
        elif t not in seen:
            seen.add(t); log("KNOWN-FINDING: property=%s %s (%s %s)" % (pid, t, e.op, ",".join("%x" % x for x in e.a)))
    if bad:
        p = os.path.join(VERIF, "evidence", "replay", pid + ".txt")
        with open(p, "w") as f:
            f.write("# property %s\n" % pid)
            f.write("# replay: python3 /verif/check.py --replay %s\n# op arg0 arg1 arg2 result0 result1 flag (hex)  # why\n" % p)
            for e, why in bad[:200]:
                if getattr(e, "group", None):
                    for x in e.group: f.write(x.line() + " 0 " + x.ctx + ("  # " + why if x is e else "") + "\n")
                    f.write("-\n")
                elif hasattr(e, "basis") or hasattr(e, "macro"): f.write("# " + why + "\n" + e.line() + "\n")
                elif hasattr(e, "text"): f.write("# " + why + "\n" + e.line() + "\n")
                else: f.write(e.line() + "  # " + why + "\n")
        for e, why in bad[:8]: log("  rejected: %s  %s" % (e.line()[:500], why))
        log("VIOLATION property=%s replay=%s" % (pid, p))
    return len(bad)
