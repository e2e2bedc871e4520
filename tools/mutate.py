#!/usr/bin/env python3
"""Internal regression: apply each edit of tools/mutants.py to a scratch copy and see which checks speak.
usage: mutate.py [name-substring ...] [set:values,text,buckets] [only:C01,C02] [-v]"""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mutants, mutants_text, mutants_buckets, mutants_gather, mutants_summary, mutants_helpers, mutants_process, mutants_builders, mutants_locks, mutants_safety, mutants_panics, mutants_wild, mutants_wild2, mutants_wild3, mutants_wild4
EVERY = mutants.ALL + mutants_text.ALL + mutants_buckets.ALL + mutants_gather.ALL + mutants_summary.ALL + mutants_helpers.ALL + mutants_process.ALL + mutants_builders.ALL + mutants_locks.ALL + mutants_safety.ALL + mutants_panics.ALL + mutants_wild.ALL + mutants_wild2.ALL + mutants_wild3.ALL + mutants_wild4.ALL
TABLES = {"values": mutants, "text": mutants_text, "buckets": mutants_buckets, "gather": mutants_gather, "summary": mutants_summary, "helpers": mutants_helpers, "process": mutants_process, "builders": mutants_builders, "locks": mutants_locks, "safety": mutants_safety, "panics": mutants_panics, "wild": mutants_wild, "wild2": mutants_wild2, "wild3": mutants_wild3, "wild4": mutants_wild4}
REPO = "/repo"

def one(m):
    name, want, edits = m
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        src = os.path.join(d, "r")
        shutil.copytree(REPO, src, ignore=shutil.ignore_patterns("target", ".git"))
        for f, old, new in edits:
            p = os.path.join(src, f)
            s = open(p).read()
            if old not in s:
                return name, want, "EDIT DOES NOT APPLY: " + old[:60], ""
            s = s.replace(old, new, 1) if not old.endswith("@all") else s.replace(old[:-4], new)
            open(p, "w").write(s)
        env = dict(os.environ, PM_REPO=src)
        r = subprocess.run([sys.executable, os.path.join(V, "tools", "all.py"), "-u"] + ONLY, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        return name, want, None, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

SKIP = [int(a[5:]) for a in sys.argv[1:] if a.startswith("skip:")]
args = [a for a in sys.argv[1:] if not a.startswith("-") and ":" not in a]
ONLY = [x for a in sys.argv[1:] if a.startswith("only:") for x in a[5:].split(",")]
SET = [x for a in sys.argv[1:] if a.startswith("set:") for x in a[4:].split(",")]
ms = [m for m in (EVERY if not SET else [m for x in SET for m in TABLES[x].ALL]) if not args or any(a in m[0] for a in args)]
ms = ms[SKIP[0]:] if SKIP else ms
bad = 0
with ThreadPoolExecutor(8) as ex:
    for name, want, err, out in ex.map(one, ms):
        viol = sorted(l.split()[0] for l in out.splitlines() if " VIOLATION " in l)
        crash = [l for l in out.splitlines() if "CRASH" in l or "Error" in l]
        if err:
            st = err
        elif crash or "Traceback" in out:
            st = "CRASH"
        elif want == "":
            st = "ok (quiet)" if not viol else "FALSE ALARM " + " ".join(viol)
        else:
            w = want.split()
            st = "ok " + " ".join(viol) if any(x in viol for x in w) else "MISSED (%s) %s" % (want, " ".join(viol))
        flag = not st.startswith("ok")
        bad += flag
        print("%-40s %s" % (name, st), flush=True)
        if flag or "-v" in sys.argv:
            print("\n".join("      " + l[:240] for l in out.splitlines()[:14]))
print("%d of %d as expected" % (len(ms) - bad, len(ms)))
