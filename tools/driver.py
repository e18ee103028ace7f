#!/usr/bin/env python3
"""Builds and runs the checkers.

driver.py setup            build everything
driver.py mirror           only copy the sources
driver.py <property> ...   mirror, build the package deciding the property, run it
"""
import fcntl, os, subprocess, sys, tempfile

ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(ROOT, "ws")
MIRROR = os.path.join(ROOT, "build", "src")
TARGET = os.path.join(ROOT, "target")

# source trees of /repo that are compiled by the checkers
TREES = ["common/src", "pallets", "runtime/common/src", "runtime/runtime-constants/src", "runtime/kreivo/src", "chain-spec-generator/src"]
# files of those trees that are replaced: generated weights of instructions the stand-ins do not have
OVERLAY = os.path.join(WS, "overlay")
# files put in place where /repo lacks them
MISSING = os.path.join(WS, "missing")

# property prefix -> package
PACKAGES = {
    "C01": "mc-common", "C02": "mc-common", "C03": "mc-common", "C04": "mc-common",
    **{f"M{i:02}": "mc-communities" for i in range(1, 16)},
    **{f"K{i:02}": "mc-kreivo" for i in [*range(1, 31), 32, 33, 34, 35, 36]},
    "K31": "mc-genesis",
    "G01": "mc-manager", "G02": "mc-manager",
    "C05": "mc-common-rt", "C06": "mc-common-rt", "C07": "mc-common-rt",
    **{f"P{i:02}": "mc-payments" for i in range(1, 13)},
}
# programs of /repo that a checker runs, by the variable naming them
TOOLS = {"mc-genesis": {"VERIF_TOOL_KUSAMA": "chain-spec-kusama", "VERIF_TOOL_PASEO": "chain-spec-paseo"}}


def put(out, src):
    with open(src, "rb") as h:
        data = h.read()
    try:
        with open(out, "rb") as h:
            if h.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, "wb") as h:
        h.write(data)


def mirror():
    """Copies the sources by content, so that only changed files get a new time stamp."""
    for tree in TREES:
        src, dst = os.path.join(REPO, tree), os.path.join(MIRROR, tree)
        want = set()
        for d, _, files in os.walk(src):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), src)
                want.add(rel)
                out = os.path.join(dst, rel)
                over = os.path.join(OVERLAY, tree, rel)
                put(out, over if os.path.exists(over) else os.path.join(d, f))
        gap = os.path.join(MISSING, tree)
        for d, _, files in os.walk(gap):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), gap)
                out = os.path.join(dst, rel)
                if rel not in want:
                    want.add(rel)
                    put(out, os.path.join(d, f))
        for d, _, files in os.walk(dst):
            for f in files:
                p = os.path.join(d, f)
                if os.path.relpath(p, dst) not in want:
                    os.unlink(p)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", VERIF_ROOT=ROOT)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_INCREMENTAL", None)
    return e


def build(packages):
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(WS, "Cargo.toml")]
    for p in packages:
        cmd += ["-p", p]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-12000:])
        sys.stderr.write("\nbuild failed: no verdict\n")
    return r.returncode == 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    what = sys.argv[1]
    lock = open(os.path.join(ROOT, "build", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    if what == "mirror":
        return 0
    if what == "setup":
        ok = True
        for p in sorted(set(PACKAGES.values())):
            ok = build([p] + sorted(TOOLS.get(p, {}).values())) and ok
        return 0 if ok else 2
    pkg = PACKAGES.get(what)
    if pkg is None:
        print("unknown property", what, file=sys.stderr)
        return 2
    tools = TOOLS.get(pkg, {})
    if not build([pkg] + sorted(tools.values())):
        return 2
    # run private copies, so that a later build cannot replace a program while it runs
    copies = []
    run_env = env()
    for var, name in [(None, pkg)] + sorted(tools.items()):
        tmp = tempfile.NamedTemporaryFile(dir=os.path.join(ROOT, "build"), prefix=name + "-", delete=False)
        with open(os.path.join(TARGET, "debug", name), "rb") as h:
            tmp.write(h.read())
        tmp.close()
        os.chmod(tmp.name, 0o755)
        copies.append(tmp.name)
        if var:
            run_env[var] = tmp.name
    fcntl.flock(lock, fcntl.LOCK_UN)
    try:
        return subprocess.run([copies[0]] + sys.argv[1:], env=run_env, cwd=ROOT).returncode
    finally:
        for c in copies:
            os.unlink(c)


sys.exit(main())
