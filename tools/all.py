#!/usr/bin/env python3
"""All checks (or those named) in one process on $PM_REPO; prints one line per property that is not quiet."""
import os, sys, io, contextlib, tempfile
os.environ.setdefault("PM_DEBUG", "1")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)
from sa import lib
import checks
lib.EVID = tempfile.mkdtemp(prefix="ev.")
ctx = lib.Ctx("thorough" if "--thorough" in sys.argv else "quick")
have = checks.load()
names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(have)
verbose = "-v" in sys.argv
for pid in names:
    chk = lib.Check(pid)
    out = io.StringIO()
    try:
        lib.decide(have[pid], ctx, chk, catch=False)
        with contextlib.redirect_stdout(out):
            rc = lib.finish(chk, ctx, "quick", 1)
    except Exception as e:
        import traceback
        print("%s CRASH %r" % (pid, e))
        traceback.print_exc(limit=-3, file=sys.stdout)
        continue
    nu = len([o for o in chk.ob if o[1] == "unknown"])
    if rc or nu or verbose:
        print("%s %s undecided=%d" % (pid, "VIOLATION" if rc else "quiet", nu))
        if rc or "-u" in sys.argv:
            for l in out.getvalue().splitlines():
                if l.startswith("  "):
                    print("   ", l.strip()[:260])
import shutil
shutil.rmtree(lib.EVID)
