#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: turns the current uncommitted change of /repo plus /tmp/seed/ID/{main.rs,meta.json[,deps]} into
/verif/seeded/ID, after confirming: builds, stable tests pass, demo fails with it and passes without. Undoes the change."""
import json, os, shutil, subprocess, sys
ID = sys.argv[1]
src, dst = f"/tmp/seed/{ID}", f"/verif/seeded/{ID}"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
diff = sh("git -C /repo diff").stdout
if diff: open(f"{src}/patch.diff", "w").write(diff)
if not diff and os.path.exists(f"{src}/patch.diff"):
    diff = open(f"{src}/patch.diff").read(); sh(f"git -C /repo apply {src}/patch.diff")
if not diff and os.path.exists(f"{dst}/patch.diff"):
    diff = open(f"{dst}/patch.diff").read(); sh(f"git -C /repo apply {dst}/patch.diff")
assert diff, "no change in /repo"
os.makedirs(dst, exist_ok=True)
open(f"{dst}/patch.diff", "w").write(diff)
for f in ("main.rs", "meta.json"):
    if os.path.exists(f"{src}/{f}"): shutil.copy(f"{src}/{f}", dst)
deps = open(f"{src}/deps").read() if os.path.exists(f"{src}/deps") else 'mpc-core = { path = "/opt/vp/ws/mpc-core" }\n'
open(f"{dst}/Cargo.toml.in", "w").write(f'''[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
mpc-net = {{ path = "/opt/vp/ws/mpc-net", features = ["local", "tcp", "tls", "quic", "tcp-session-blocking", "tcp-session"] }}
ark-bn254 = "0.6"
ark-ff = "0.6"
ark-ec = "0.6"
ark-serialize = "0.6"
eyre = "0.6"
rand = "0.8"
rand_chacha = "0.3"
{deps}[profile.dev]
opt-level = 1
debug = false
''')
open(f"{dst}/demo.sh", "w").write('''#!/bin/bash
# exits 0 if the property holds for the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/Cargo.toml.in" "$W/Cargo.toml"
cp "$D/main.rs" "$W/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$W/"
cd "$W" || exit 2
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2>"$W/log" || { tail -30 "$W/log"; exit 3; }
timeout 120 "$W/target/debug/demo"
''')
os.chmod(f"{dst}/demo.sh", 0o755)
ok = True
def build_test():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: print("BUILD FAILS", b.stdout[-1500:], b.stderr[-1500:]); return False
    t = sh("bash /opt/vp/test.sh /tmp/seed/out.json")
    r = json.load(open("/tmp/seed/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    print(t.stdout.strip().splitlines()[-1])
    return "117 passed" in t.stdout
if not build_test(): print("** build/tests not ok"); ok = False
d = sh(f"bash {dst}/demo.sh", cwd="/repo"); print("with:", d.returncode, (d.stdout + d.stderr)[-800:])
if d.returncode in (0, 3): ok = False
sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
d = sh(f"bash {dst}/demo.sh", cwd="/repo"); print("without:", d.returncode, (d.stdout + d.stderr)[-800:])
if d.returncode: ok = False
print("KEPT" if ok else "REJECTED")
if not ok and "-k" not in sys.argv: shutil.rmtree(dst)
