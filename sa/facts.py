"""Extracts the compiler's facts (MIR of every function, types, impls) from /repo's working tree."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PM_REPO", "/repo")


class FactsError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode:
        raise FactsError("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def driver():
    exe = os.path.join(HERE, "driver", "target", "debug", "pmfacts")
    srcs = glob.glob(os.path.join(HERE, "driver", "src", "*.rs"))
    if os.path.exists(exe) and all(os.path.getmtime(s) <= os.path.getmtime(exe) for s in srcs):
        return exe
    r = _run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(HERE, "driver"))
    if r.returncode:
        raise FactsError("building the fact extractor failed:\n" + r.stdout)
    os.utime(exe)
    return exe


def extract(repo=None, full=False):
    """returns the facts of the crate in `repo`, extracted from its current source.
    Facts.release has those of the crate built without debug assertions (full: and without overflow checks) if they differ"""
    repo = repo or REPO
    exe = driver()
    # the dependencies are compiled once into a cache; the crate itself is analysed on every run
    tmp = tempfile.mkdtemp(prefix="pmfacts.")
    try:
        out = os.path.join(tmp, "facts.json")
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
        env["PMFACTS_OUT"] = out
        env.pop("PMFACTS_RELEASE", None)
        env.pop("PMFACTS_FULL", None)
        if full:
            env["PMFACTS_FULL"] = "1"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
        env.pop("RUSTFLAGS", None)
        src = os.path.join(tmp, "src")
        # a copy, so that nothing is written below /repo
        shutil.copytree(repo, src, ignore=shutil.ignore_patterns("target", ".git"))
        if not os.path.exists(os.path.join(src, "Cargo.lock")):
            for c in ("/opt/vp/Cargo.lock",):
                if os.path.exists(c):
                    shutil.copy(c, os.path.join(src, "Cargo.lock"))
        r = _run(["cargo", "+nightly", "check", "--lib", "--offline", "-q"], cwd=src, env=env)
        if not os.path.exists(out):
            raise FactsError("extracting the facts failed:\n" + r.stdout[-4000:])
        with open(out) as f:
            d = json.load(f)
        if not os.path.exists(out + ".release"):
            raise FactsError("extracting the facts of the release build failed:\n" + r.stdout[-4000:])
        with open(out + ".release") as f:
            d2 = json.load(f)
        same = d == d2
        F = Facts(d, repo)
        F.release = None if same else Facts(d2, repo)
        return F
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Body(object):
    __slots__ = ("key", "path", "nice", "local", "span", "ikind", "closure", "argc", "spread", "locals", "names",
                 "blocks", "succ", "pred", "rpo", "heads", "loops", "live")

    def __init__(self, d):
        for k in ("key", "path", "nice", "local", "span", "ikind", "closure", "argc", "spread", "locals", "names", "blocks"):
            setattr(self, k, d.get(k))
        self._cfg()

    def targets(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]] + ([t[3]] if isinstance(t[3], int) else [])
        if k == "call":
            return ([t[4]] if t[4] is not None else []) + ([t[5]] if isinstance(t[5], int) else [])
        if k == "assert":
            return [t[5]] + ([t[6]] if isinstance(t[6], int) else [])
        return []

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [self.targets(b["t"]) for b in self.blocks]
        self.pred = [[] for _ in range(n)]
        order, seen, onst = [], set(), set()
        backs = []
        # iterative dfs
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        onst.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    backs.append((b, s))
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                st.pop()
                onst.discard(b)
                order.append(b)
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.loops = {}
        for b, h in backs:
            body = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(self.pred[x])
        self._liveness()

    def _liveness(self):
        """locals that may be read from a block's start on; borrowed locals stay live until StorageDead"""
        n = len(self.blocks)
        use, kill = [set() for _ in range(n)], [set() for _ in range(n)]
        borrowed = set()

        def pl_use(p, acc, dead):
            if p[0] not in dead:
                acc.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in dead:
                    acc.add(e[1])

        def op_use(o, acc, dead):
            if not isinstance(o, dict):
                return
            for k in ("c", "m"):
                if k in o:
                    pl_use(o[k], acc, dead)

        for i, b in enumerate(self.blocks):
            u, d = use[i], kill[i]
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use",):
                        op_use(r[1], u, d)
                    elif k in ("ref", "rawptr"):
                        p = r[-1]
                        pl_use(p, u, d)
                        if "*" not in p[1]:
                            borrowed.add(p[0])
                    elif k == "discr":
                        pl_use(r[1], u, d)
                    elif k == "cast":
                        op_use(r[2], u, d)
                    elif k == "bin":
                        op_use(r[2], u, d)
                        op_use(r[3], u, d)
                    elif k == "un":
                        op_use(r[2], u, d)
                    elif k == "repeat":
                        op_use(r[1], u, d)
                    elif k == "agg":
                        for o in r[4]:
                            op_use(o, u, d)
                    p = s[1]
                    if p[1]:
                        pl_use(p, u, d)
                    else:
                        d.add(p[0])
                elif s[0] == "setdiscr":
                    pl_use(s[1], u, d)
                elif s[0] in ("dead", "live"):
                    d.add(s[1])
            t = b["t"]
            if t[0] == "switch":
                op_use(t[1], u, d)
            elif t[0] == "drop":
                pl_use(t[1], u, d)
            elif t[0] == "call":
                for o in t[2]:
                    op_use(o, u, d)
                op_use(t[6], u, d)
                if t[3][1]:
                    pl_use(t[3], u, d)
            elif t[0] == "assert":
                op_use(t[1], u, d)
                for o in t[4]:
                    op_use(o, u, d)
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                x = use[i] | (o - kill[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        self.live = [x | borrowed for x in live]


class Facts(object):
    def __init__(self, d, repo):
        self.repo = repo
        self.raw = d
        self.types = d["types"]
        for t in self.types:
            if t["k"] == "prim" and t["s"] == "str":
                t["k"] = "str"
            if t.get("path") == "core::cmp::Ordering":
                # the extractor writes discriminants without a sign
                for v in t.get("variants") or ():
                    if v.get("discr") is not None and int(v["discr"]) > 1:
                        v["discr"] = "-1"
        self.roots = d["roots"]
        self.insts = {}
        self._raw_insts = {i["key"]: i for i in d["insts"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.unsafe = d["unsafe"]
        self.callees = {}
        self.release = None

    def body(self, key):
        b = self.insts.get(key)
        if b is None:
            r = self._raw_insts.get(key)
            if r is None:
                return None
            b = self.insts[key] = Body(r)
        return b

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def find(self, name, selfname=None, trait=None, pub=None):
        """roots with the given item name, self type's last segment and trait's last segment"""
        out = []
        for r in self.roots:
            if name is not None and r["name"] != name:
                continue
            if selfname is not None:
                sp = r.get("selfpath") or ""
                if sp.split("::")[-1] != selfname:
                    continue
            if trait is not None:
                tp = r.get("trait") or ""
                if trait == "":
                    if tp:
                        continue
                elif tp.split("::")[-1] != trait:
                    continue
            if pub is not None and bool(r["pub"]) != pub:
                continue
            out.append(r)
        return out


def digest(repo=None):
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(repo or REPO, "src", "**", "*.rs"), recursive=True)):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()
