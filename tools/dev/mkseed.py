#!/usr/bin/env python3
"""mkseed.py FILE...: FILE is a python file defining id, prop, needs, breaks, edits=[(path, old, new)], features, main (Rust body).
Writes seeded/<id>/ after confirming in a scratch copy of /repo: builds, stable tests pass, demo fails with / passes without."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the property held for the calls below
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=nightly-2025-04-20 CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH"
t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
libm = { path = "$repo/libm", default-features = false, features = [%s] }
%s[profile.release]
%s
EOF
cd "$t" && timeout 250 cargo run --offline -q --release --target-dir "$t/target"
'''
KIT = """libm-test = { path = "$repo/crates/libm-test", default-features = false, features = ["unstable-float"] }
"""
def main():
    if not os.path.exists(W): subprocess.check_call(["cp", "-a", "/repo", W])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD" % (W, W))
    for f in sys.argv[1:]:
        g = {"demo": None, "mainfile": "main.rs", "kit": False, "features": "arch,unstable-float", "profile": "opt-level = 2"}; exec(open(f).read(), g)
        d = os.path.join(V, "seeded", g["id"]); t = "/tmp/seedout"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        sh("git -C %s checkout -q -- ." % W)
        for p, a, b in g["edits"]:
            s = open(os.path.join(W, p)).read()
            if s.count(a) != 1: print(g["id"], "EDIT matches", s.count(a), "times:", a[:60]); break
            open(os.path.join(W, p), "w").write(s.replace(a, b))
        else:
            open(t + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
            open(t + "/" + g["mainfile"], "w").write(g["main"].lstrip())
            fe = ", ".join('"%s"' % x for x in g["features"].split(",") if x)
            open(t + "/demo.sh", "w").write(g["demo"] or (DEMO.replace('cd "$t" &&', 'cd "$t" && mkdir -p target && export CARGO_TARGET_DIR="$t/target" &&') if g["kit"] else DEMO) % (fe, (KIT.replace('["unst', '["build-mpfr", "unst') if g["kit"] == "mpfr" else KIT) if g["kit"] else "", g["profile"])); os.chmod(t + "/demo.sh", 0o755)
            json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(t + "/meta.json", "w"), indent=1)
            a = sh("bash %s/demo.sh" % t, cwd=W)
            b = sh("bash %s/demo.sh" % t, cwd="/repo")
            if a.returncode == 0 or b.returncode != 0:
                print(g["id"], "DEMO with patch", a.returncode, "without", b.returncode, (a.stdout + a.stderr)[-300:], (b.stdout + b.stderr)[-600:]); continue
            if os.environ.get("NOTEST"): print(g["id"], "demo ok:", (a.stdout + a.stderr)[-200:].strip()); continue
            s1 = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + W)
            s2 = open("/opt/vp/test.sh").read().replace("/repo", W)
            open("/tmp/sb.sh", "w").write(s1); open("/tmp/st.sh", "w").write(s2)
            r = sh("bash /tmp/sb.sh && bash /tmp/st.sh /tmp/seed_res.json")
            try: res = json.load(open("/tmp/seed_res.json"))
            except Exception: print(g["id"], "BUILD FAILED", r.stdout[-500:], r.stderr[-1500:]); continue
            miss = stable - set(res["passed"])
            if miss: print(g["id"], "TESTS catch it:", len(miss), sorted(miss)[:4]); continue
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(t, d)
            print(g["id"], "kept", flush=True)
        sh("git -C %s checkout -q -- ." % W)
main()
