#!/usr/bin/env python3
"""mkbug.py ID PROPERTY SPEC.py : plant one bug. SPEC.py defines FILE/OLD/NEW (or EDITS=[(file, old, new), ..]),
DEMO (text of main.rs), NEEDS, BREAKS. Confirms everything in a scratch copy; keeps it under seeded/ID."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/w/scr"
ID, PROP, SPEC = sys.argv[1:4]
d = {}
exec(open(SPEC).read(), d)
edits = d.get("EDITS") or [(d["FILE"], d["OLD"], d["NEW"])]
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(S):
    sh(f"cp -a /repo {S}")
    os.makedirs("/tmp/w/vp", exist_ok=True)
    for f in ("env.sh", "build.sh", "test.sh"):
        t = open(f"/opt/vp/{f}").read().replace("/opt/vp/env.sh", "/tmp/w/vp/env.sh").replace("cd /repo", f"cd {S}").replace("/repo/target", f"{S}/target").replace("LOGS=/opt/vp/logs", "LOGS=/tmp/w/vp/logs")
        open(f"/tmp/w/vp/{f}", "w").write(t)
sh(f"git -C {S} checkout -q . ; git -C {S} clean -fdq; cd {S} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
for f, o, n in edits:
    p = f"{S}/{f}"
    t = open(p).read()
    assert t.count(o) == 1, (f, t.count(o))
    open(p, "w").write(t.replace(o, n))
out = f"{V}/seeded/{ID}"
tmp = f"/tmp/w/seed/{ID}"
shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(tmp)
open(f"{tmp}/patch.diff", "w").write(sh(f"git -C {S} diff").stdout)
open(f"{tmp}/main.rs", "w").write(d["DEMO"])
open(f"{tmp}/demo.sh", "w").write('''#!/bin/bash
# builds a small program against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$D/target" CARGO_INCREMENTAL=0
export PATH=/root/.cargo/bin:$PATH; unset RUSTFLAGS
mkdir -p "$D/src"; cp "$here/main.rs" "$D/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$D/Cargo.lock"; else cp /opt/vp/Cargo.lock "$D/Cargo.lock"; fi
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
teleparse = { path = "$repo/packages/teleparse", default-features = false }
logos = "0.15.0"
[profile.dev]
debug = false
EOF
cd "$D" && cargo build --offline -q || exit 2
timeout 60 "$D/target/debug/demo"
''')
os.chmod(f"{tmp}/demo.sh", 0o755)
json.dump({"property": PROP, "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{tmp}/meta.json", "w"), indent=1)
r = sh(f"bash {tmp}/demo.sh", cwd="/repo")
print("demo on /repo:", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "")
ok = r.returncode == 0
r = sh(f"bash {tmp}/demo.sh", cwd=S)
print("demo on bug:", r.returncode, (r.stdout + r.stderr)[-400:])
ok = ok and r.returncode not in (0, 2)
if ok and "--notest" not in sys.argv:
    r = sh("TERM=dumb bash /tmp/w/vp/build.sh")
    if r.returncode:
        print("build fails", r.stderr[-500:]); ok = False
    else:
        sh("TERM=dumb bash /tmp/w/vp/test.sh /tmp/w/vp/out.json")
        res = json.load(open("/tmp/w/vp/out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed", []))
        bad = [t for t in stable if t not in passed]
        print("tests broken:", len(bad), bad[:8])
        ok = not bad
if ok:
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
print("KEPT" if ok else "REJECTED", ID)
