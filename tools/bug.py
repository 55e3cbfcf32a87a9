#!/usr/bin/env python3
"""bug.py [-n] ID...: build /verif/seeded/ID from tools/bugs.py and try it out in a scratch copy:
the demonstration passes unpatched and fails patched, the tests pass patched, and what the check says.
-n: only the check (no demo, no tests)"""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
V = "/verif"
DEMO = '''#!/bin/bash
# builds a small program against the working tree and runs it
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$H/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock" || cp /opt/vp/Cargo.lock "$T/Cargo.lock"
{
  printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\n'
%s} > "$T/Cargo.toml"
cd "$T" || exit 3
export CARGO_TARGET_DIR=$T/target
cargo build -q --offline %s || exit 3
exec timeout 60 "$T/target/%s/demo"
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    av = sys.argv[1:]
    only = "-n" in av
    ids = [a for a in av if a != "-n"]
    if ids == ["all"]:
        ids = list(bugs.BUGS)
    base = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    R = base + "/repo"
    sh("cp -a /repo %s" % R)
    try:
        for i in ids:
            one(i, R, base, only)
    finally:
        shutil.rmtree(base)

def one(i, R, base, only):
    b = bugs.BUGS[i]
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .", cwd=R)
    for f, old, new in b["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(i, "EDIT does not apply:", f, t.count(old)); return
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=R).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ext = "".join("  printf '%s\\n'\n" % x[1:] for x in b["deps"] if x[0] == "+")
    deps = ext + "".join("  printf '%s = { path = \"%%s\"%s }\\n' \"$R/crates/%s\"\n" % (x.split(":")[0], (", " + x.split(":", 1)[1]) if ":" in x else "", x.split(":")[0]) for x in b["deps"] if x[0] != "+")
    rel = b.get("release")
    open(d + "/demo.sh", "w").write(b.get("sh") or DEMO % (deps, "--release" if rel else "", "release" if rel else "debug"))
    if "demo" in b:
        open(d + "/demo.rs", "w").write(b["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    out = i + ":"
    if not only:
        r2 = sh("bash %s/demo.sh" % d, cwd=R)
        env = dict(os.environ, CARGO_TARGET_DIR=R + "/target", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
        t = sh("cargo build -q --workspace --offline && cargo test -q --workspace --no-fail-fast --offline -- --test-threads 8", cwd=R, env=env)
        sh("git apply -R %s/patch.diff" % d, cwd=R)
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        sh("git apply %s/patch.diff" % d, cwd=R)
        out += " demo clean %d patched %d tests %s;" % (r1.returncode, r2.returncode, "pass" if t.returncode == 0 else "FAIL")
        if r1.returncode:
            print(r1.stdout[-1500:])
        if r2.returncode in (0, 3):
            print(r2.stdout[-1500:])
        if t.returncode:
            print(t.stdout[-1500:])
    D = base + "/dump"
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    e = sh("%s/bin/extract %s" % (V, D), env=dict(os.environ, REPO=R))
    if e.returncode:
        print(i, "extract failed", e.stdout[-800:]); return
    for p in [b["property"]] + b.get("also", []):
        c = sh("%s/bin/check %s" % (V, p), env=dict(os.environ, MIRX_DUMP=D))
        out += " %s %s" % (p, {0: "MISSED", 1: "caught"}.get(c.returncode, "rc %d" % c.returncode))
        l = [x for x in c.stdout.split("\n") if x.startswith(("violated", "undecided"))]
        out += "".join("\n    " + x[:260] for x in l[:2])
    print(out, flush=True)
    sh("git checkout -q -- .", cwd=R)

main()
