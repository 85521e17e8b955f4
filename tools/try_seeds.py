#!/usr/bin/env python3
"""Development only: runs the check of every seeded bug (or of the given ones) against a patched copy of /repo, which is
mounted over /repo in a mount namespace of its own, so that the real /repo is never touched.
usage: [T=quick|thorough] [P=Cxx] try_seeds.py [id ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/tryrepo"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
T = os.environ.get("T", "quick")
if not os.path.exists(S):
    subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
for d in ("/tmp/trytarget", "/tmp/tryev", "/tmp/trywork"):
    os.makedirs(d, exist_ok=True)
if not os.path.exists("/tmp/trytarget/debug"):
    subprocess.run("cp -a %s/target/. /tmp/trytarget/" % V, shell=True)
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = os.environ.get("P") or json.load(open(d + "/meta.json"))["property"]
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=S, check=True)
    if i != "clean":
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=S, capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", flush=True)
            continue
    t = time.time()
    cmd = "mount --bind %s /repo && mount --bind /tmp/trytarget %s/target && mount --bind /tmp/tryev %s/evidence && mount --bind /tmp/trywork %s/work && cd %s && python3 tools/check.py %s %s" % (S, V, V, V, V, prop, T)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
    last = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "OK"))]
    p.returncode == 2 and print(p.stdout[-1500:], p.stderr[-1500:])
    print(i, prop, "rc=%d" % p.returncode, last[-1][:100] if last else p.stderr[-300:], "%.0f s" % (time.time() - t), flush=True)
subprocess.run("git checkout -q -- .", shell=True, cwd=S)
