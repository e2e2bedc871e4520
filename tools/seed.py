#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from tools/seeds.py and confirm each planted change in a scratch copy of /repo.
usage: seed.py [id ...] [-n: do not confirm] """
import os, sys, shutil, subprocess, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds
from concurrent.futures import ThreadPoolExecutor

DEMO = """#!/bin/bash
# Builds main.rs against the library in the current directory and runs it, all inside a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
cd "$repo"
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
prometrics = { path = "$repo" }
[workspace]
X
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline -q%s || { echo "demo does not build"; exit 2; }
timeout 120 "$d/target/%s/demo"
"""
LINT = ""

def run(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=t, env=env)

def tests(d):
    """run the stable tests in the copy"""
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/tgt")
    r = run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", d, e)
    failed = [l for l in r.stdout.splitlines() if l.startswith("test ") and not l.rstrip().endswith("ok") and "ignored" not in l]
    return r.returncode, failed, r.stdout[-600:]

def one(s):
    out = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = tempfile.mkdtemp(prefix="seed.")
    msg = []
    try:
        run("git clone -q /repo %s/r" % d, "/")
        r = d + "/r"
        for ig in ("Cargo.lock",):
            if os.path.exists("/repo/" + ig) and not os.path.exists(r + "/" + ig):
                shutil.copy("/repo/" + ig, r + "/" + ig)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) < 1:
                return s["id"], "EDIT DOES NOT APPLY " + old[:60]
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        diff = run("git diff", r).stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/main.rs", "w").write(s["main"])
        rel = s.get("release")
        open(out + "/demo.sh", "w").write(DEMO % (" --release" if rel else "", "release" if rel else "debug"))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if "-n" in sys.argv:
            return s["id"], "written"
        # the environment file changes to /repo: the demo goes back to the directory it was started in
        rc, failed, tail = tests(r)
        if rc and failed:
            msg.append("TESTS FAIL " + str(failed[:3]))
        elif rc:
            msg.append("DOES NOT BUILD " + tail)
        b = run("bash %s/demo.sh" % out, r)
        if b.returncode == 0 or "does not build" in b.stdout:
            msg.append("DEMO PASSES OR DOES NOT BUILD WITH THE CHANGE: " + b.stdout[-500:])
        run("git checkout -q -- .", r)
        c = run("bash %s/demo.sh" % out, r)
        if c.returncode != 0:
            msg.append("DEMO FAILS WITHOUT THE CHANGE: " + c.stdout[-500:])
        # what the checks say
        run("git apply %s/patch.diff" % out, r)
        k = run("%s %s/tools/all.py -u" % (sys.executable, V), "/", dict(os.environ, PM_REPO=r))
        v = sorted({l.split()[0] for l in k.stdout.splitlines() if " VIOLATION " in l})
        det = ("caught by " + " ".join(v)) if s["property"] in v else "NOT CAUGHT by %s (%s)" % (s["property"], " ".join(v))
        return s["id"], ("; ".join(msg) or "confirmed") + "; " + det
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    with ThreadPoolExecutor(5) as ex:
        for i, m in ex.map(one, [s for s in seeds.ALL if not ids or s["id"] in ids]):
            print(i, m, flush=True)
