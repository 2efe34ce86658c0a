#!/usr/bin/env python3
"""Makes a planted bug: plant.py SPEC.py [--no-tests]

SPEC.py defines ID, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, BREAKS and MAIN (the text of a
program which exits non-zero where the property is broken). Everything is tried in a scratch copy of
/repo at /tmp/bw; seeded/ID is written when the demonstration passes on the unchanged copy, fails on
the changed one, and the stable tests still pass there.
"""
import os, sys, subprocess, json, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BW = "/tmp/bw"
DEMO = '''#!/bin/bash
# Run in the repository: exits 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
moka = { path = "$repo", features = ["sync", "future"] }
[workspace]
EOF
cd "$d" || exit 3
cargo build --offline --quiet 2>"$d/log" || { tail -20 "$d/log"; exit 4; }
timeout -k 5 %d target/debug/demo
'''

def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    pid = g["ID"]
    if not os.path.isdir(BW):
        sh("cp -a /repo %s" % BW)
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq" % BW)
    d = os.path.join(VERIF, "seeded", pid)
    t = "/tmp/bw.demo/" + pid
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    open(t + "/main.rs", "w").write(g["MAIN"])
    open(t + "/demo.sh", "w").write(DEMO % g.get("TIMEOUT", 120))
    shutil.copy(VERIF + "/tools/demo.lock", t + "/Cargo.lock")
    r = sh("bash %s/demo.sh" % t, cwd=BW)
    if r.returncode != 0:
        print("demo fails on the unchanged tree", r.returncode, r.stdout[-3000:]); return 1
    print("unchanged:", r.stdout.strip()[-200:])
    for f, old, new in g["EDITS"]:
        p = BW + "/" + f
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print("edit matches", n, "times in", f, repr(old[:80])); return 1
        open(p, "w").write(s.replace(old, new))
    r = sh("bash %s/demo.sh" % t, cwd=BW)
    print("changed:", r.returncode, r.stdout.strip()[-300:])
    if r.returncode in (0, 3, 4):
        print("the demo does not show it"); return 1
    diff = sh("git diff", cwd=BW).stdout
    if "--no-tests" not in sys.argv:
        for f in ("build.sh", "test.sh", "env.sh", "results.py"):
            s = open("/opt/vp/" + f).read().replace("/opt/vp/", "/tmp/bw.vp/").replace("/repo", BW)
            os.makedirs("/tmp/bw.vp", exist_ok=True)
            open("/tmp/bw.vp/" + f, "w").write(s)
        r = sh("bash /tmp/bw.vp/build.sh", cwd=BW)
        if r.returncode != 0:
            print("does not build", r.stdout[-2000:]); return 1
        r = sh("timeout 600 bash /tmp/bw.vp/test.sh /tmp/bw.vp/t.json", cwd=BW)
        print(r.stdout.strip()[-100:])
        res = json.load(open("/tmp/bw.vp/t.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        ok = set(res.get("passed", []))
        bad = sorted(base - ok)
        if bad:
            print("stable tests fail:", bad[:10]); return 1
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(t, d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    print("planted", pid)
    return 0

sys.exit(main())
