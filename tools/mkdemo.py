#!/usr/bin/env python3
"""mkdemo.py <id> <payments|communities|manager|kreivo> : reads demo.rs from stdin, completes seeded/<id> with everything
demo.sh needs to run it on the sources of the repository it is started in: the stand-in libraries (kit.tar.gz) and a
runtime around the code (rt.rs). The program exits nonzero when the behaviour is broken."""
import os, re, shutil, subprocess, sys
sid, kind = sys.argv[1:3]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "seeded", sid); os.makedirs(d, exist_ok=True)
ws = os.path.join(root, "ws")
subprocess.run(["tar", "--sort=name", "--mtime=2026-01-01", "--owner=0", "--group=0", "-czf", os.path.join(d, "kit.tar.gz"),
                "-C", ws, "shim", "derived", "overlay", "Cargo.lock"], check=True)
shutil.copy(os.path.join(ws, "mc", kind, "src", "world.rs" if kind == "kreivo" else "rt.rs"), os.path.join(d, "rt.rs"))
open(os.path.join(d, "demo.rs"), "w").write(sys.stdin.read())
deps = open(os.path.join(ws, "mc", kind, "Cargo.toml")).read().split("[dependencies]\n")[1]
deps = "".join(l + "\n" for l in deps.splitlines() if not l.startswith("mc-core"))
open(os.path.join(d, "demo.sh"), "w").write(f'''#!/usr/bin/env bash
# Builds the code of the current directory (the repository) against small stand-ins of its libraries, in a scratch
# directory, and runs demo.rs on it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf -- "${{tmp:?}}"' EXIT
mkdir -p "$tmp/ws/mc/demo/src" "$tmp/build/src"
tar -xzf "$here/kit.tar.gz" -C "$tmp/ws"
for t in common pallets runtime; do cp -r "$repo/$t" "$tmp/build/src/$t"; done
cp -r "$tmp/ws/overlay/." "$tmp/build/src/"
cp "$here/rt.rs" "$here/demo.rs" "$tmp/ws/mc/demo/src/"
cat > "$tmp/ws/Cargo.toml" <<EOF
[workspace]
resolver = "2"
members = ["mc/*", "derived/*", "shim/*"]
[profile.dev]
debug = false
overflow-checks = true
incremental = false
EOF
cat > "$tmp/ws/mc/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
{deps}EOF
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings
cargo run --quiet --offline --manifest-path "$tmp/ws/Cargo.toml" -p demo
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
