#!/usr/bin/env python3
"""Development only: turns an edit of a scratch copy of /repo into /verif/seeded/<id>/ after confirming it.
usage: seed.py <id> <property> <spec.py>; spec.py defines EDITS [(file, old, new)], DEMO (rust main), NEEDS, BREAKS."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 iff the property holds on the inputs of demo.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=/tmp/vp_demo_%(id)s
rm -rf /tmp/vp_demo_%(id)s
mkdir -p $t/src $repo/target/debug/include $repo/target/release/include
cp "$here/demo.rs" $t/src/main.rs
cp $repo/Cargo.lock $t/ 2>/dev/null
cat > $t/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
qcd-sme = { path = "$repo/qcd-sme" }
tc_long_prop = { path = "$repo/tc_long_prop" }
peroxide = { version = ">=0.38", features = ["plot", "complex"] }
[profile.dev]
opt-level = 1
debug = 0
EOF
cd $t && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target cargo build --offline --quiet 2>$t/err || { cat $t/err; rm -rf /tmp/vp_demo_%(id)s; exit 77; }
timeout 200 $t/target/debug/demo
rc=$?
rm -rf /tmp/vp_demo_%(id)s
exit $rc
'''

def sh(c, cwd=S, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def main():
    i, prop, specf = sys.argv[1:4]
    ns = {}
    exec(open(specf).read(), ns)
    if not os.path.exists(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    for f, old, new, *cnt in ns["EDITS"]:
        p = os.path.join(S, f)
        s = open(p).read()
        n = s.count(old)
        want = cnt[0] if cnt else 1
        if n != want:
            sys.exit("edit matches %d times (want %d): %s" % (n, want, old))
        open(p, "w").write(s.replace(old, new))
    if "DEMO_SH" in ns:
        open(d + "/demo.sh", "w").write(ns["DEMO_SH"])
    else:
        open(d + "/demo.rs", "w").write(ns["DEMO"])
        open(d + "/demo.sh", "w").write(DEMO_SH % dict(id=i))
    os.chmod(d + "/demo.sh", 0o755)
    for f, c in ns.get("FILES", {}).items():
        open(os.path.join(d, f), "w").write(c)
    json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    r1 = sh(d + "/demo.sh")
    t = sh("cargo test --offline --quiet 2>&1 | grep -E '^test result|FAILED|error' | head; cargo test --offline --quiet >/dev/null 2>&1; echo rc=$?")
    sh("git checkout -q -- .")
    r0 = sh(d + "/demo.sh")
    print("patched rc", r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
    print("clean rc", r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
    print(t.stdout)
    print("GOOD" if r1.returncode not in (0, 77) and r0.returncode == 0 and "rc=0" in t.stdout else "BAD")
main()
