#!/usr/bin/env python3
"""Planted bugs: tools/seed.py new ID PROP 'needs' 'breaks'   (takes the diff of /tmp/seedwt, a copy
of /repo, and /tmp/demo.rs or /tmp/demo.sh), tools/seed.py check ID [PROP..] (runs the checks of the property with
the bug applied to /repo), tools/seed.py demo ID (clean and patched)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# Builds the program beside this file against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ariadne-dns = { path = "$R" }
libc = "0.2"
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2> "$T/log" || { cat "$T/log"; exit 99; }
timeout 120 "$T/target/debug/demo"
'''

def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def reset(d):
    sh("git", "-C", d, "checkout", "--", ".")

def wt():
    if not os.path.exists(WT):
        sh("cp", "-a", "/repo", WT)
    head = sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
    if sh("git", "-C", WT, "rev-parse", "HEAD").stdout.strip() != head:
        sh("git", "-C", WT, "fetch", "-q", "/repo", "HEAD")
        sh("git", "-C", WT, "reset", "-q", "--hard", head)

def demo(i):
    wt(); reset(WT)
    d = os.path.join(V, i)
    a = sh("bash", d + "/demo.sh", cwd=WT)
    p = sh("git", "-C", WT, "apply", d + "/patch.diff")
    if p.returncode: print(p.stdout); return False
    b = sh("cargo", "build", "--offline", "-q", cwd=WT)
    t = sh("cargo", "test", "--offline", cwd=WT)
    ok = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", t.stdout)
    c = sh("bash", d + "/demo.sh", cwd=WT)
    reset(WT)
    print(i, "clean", a.returncode, "build", b.returncode, "tests", ok[:1], "patched", c.returncode)
    if a.returncode or not c.returncode: print(a.stdout[-600:], "\n--\n", c.stdout[-600:])
    return a.returncode == 0 and b.returncode == 0 and c.returncode not in (0, 99) and ok and ok[0][2] == "0"

SYNC = """
mkdir -p /tmp/vv /tmp/rr
rm -rf /tmp/vv/checks /tmp/vv/spec /tmp/vv/harness/src
tar -C /verif --exclude .git --exclude .build --exclude evidence --exclude seeded -cf - . | tar -C /tmp/vv -xf -
rm -rf /tmp/rr/src; git -C /repo archive HEAD | tar -C /tmp/rr -xf -
sed -i 's#path = "/repo"#path = "/tmp/rr"#' /tmp/vv/harness/Cargo.toml
"""

def check(i, props):
    """In copies of /verif and /repo, so that a vcheck can run meanwhile."""
    d = os.path.join(V, i)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    sh("bash", "-c", SYNC)
    p = sh("patch", "-p1", "-f", "-i", d + "/patch.diff", cwd="/tmp/rr")
    if p.returncode: print(p.stdout); return
    for x in props:
        r = sh("python3", "/tmp/vv/check.py", x, "quick", cwd="/tmp/vv", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO="/tmp/rr"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, x, "exit", r.returncode, v[:1], flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-1500:])

if __name__ == "__main__":
    c, i = sys.argv[1:3]
    if c == "new":
        d = os.path.join(V, i); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        if os.path.exists("/tmp/demo.sh"):
            shutil.move("/tmp/demo.sh", d + "/demo.sh")
        else:
            open(d + "/demo.sh", "w").write(DEMO)
        if os.path.exists("/tmp/demo.rs"):
            shutil.move("/tmp/demo.rs", d + "/main.rs")
        json.dump({"property": sys.argv[3], "needs": sys.argv[4], "what_it_breaks": sys.argv[5]}, open(d + "/meta.json", "w"), indent=1)
        reset(WT)
        if demo(i): check(i, [])
    elif c == "demo":
        demo(i)
    elif c == "check":
        check(i, sys.argv[3:])
