#!/usr/bin/env python3
"""Decide one property on /repo's current tree:  check.py C01 [--thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
from sa import lib
import checks


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    fn = checks.load()[pid]
    chk = lib.Check(pid)
    ctx = lib.Ctx(tier)
    lib.decide(fn, ctx, chk)
    return lib.finish(chk, ctx, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
