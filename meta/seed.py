"""python3 meta/seed.py <defs.py> [ids]: build, verify and store planted bugs (development aid)."""
import subprocess, sys, os, shutil, json, tempfile, importlib.util
DEMO = """#!/bin/bash
# builds main.rs against the geokit of the current directory in a scratch folder and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/gkdemo.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir $d/src; cp $here/main.rs $d/src/main.rs; [ -f $repo/Cargo.lock ] && cp $repo/Cargo.lock $d/Cargo.lock
cat > $d/Cargo.toml <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
geokit = { path = "$repo/geokit" }
approx = "0.5"
smallvec = "1"
E
cd $d && CARGO_TARGET_DIR=$d/target timeout 280 cargo run --offline -q 2>$d/err || { tail -5 $d/err; exit 1; }
"""
spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
only = sys.argv[2:]
W = "/tmp/seedwt"
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    if not only and os.path.exists("/verif/seeded/%s/patch.diff" % s["id"]): continue
    if not s["main"] or not s["edits"]: continue
    if not os.path.exists(W): sh("cp -a /repo %s" % W)
    sh("git fetch -q /repo && git reset -q --hard FETCH_HEAD", W) ; sh("git checkout -q -- .", W)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(W, "geokit/src", f); t = open(p).read()
        if t.count(old) != 1: print(s["id"], "EDIT count", t.count(old), f, repr(old[:60])); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    d = "/verif/seeded/%s" % s["id"]; os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(s["main"]); open(d + "/demo.sh", "w").write(DEMO.replace("timeout 280", "RUSTFLAGS='--cfg geokit_verif' timeout 280") if s.get("cfg") else DEMO); os.chmod(d + "/demo.sh", 0o755)
    r = sh("bash %s/demo.sh" % d, "/repo")
    if r.returncode: print(s["id"], "DEMO fails on clean:", r.stdout[-600:]); continue
    open(d + "/patch.diff", "w").write(sh("git diff", W).stdout)
    r = sh("bash %s/demo.sh" % d, W)
    if r.returncode == 0: print(s["id"], "DEMO passes on patched"); shutil.rmtree(d); continue
    last = r.stdout.strip()[-200:]
    if "could not compile" in last and not s.get("nocompile"): print(s["id"], "patched does not compile", last); shutil.rmtree(d); continue
    r = sh("CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtest.log 2>&1; python3 /opt/vp/results.py /tmp/seedtest.json cargo:/tmp/seedtest.log", W)
    o = json.load(open("/tmp/seedtest.json")); miss = [t for t in base["stable"] if t not in o["passed"]]
    if miss: print(s["id"], "TESTS break:", miss[:5]); shutil.rmtree(d); continue
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"], "kept;", last.splitlines()[-1][:150] if last else "")
