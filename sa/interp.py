"""Interprocedural, path-partitioned value-flow analysis over MIR.

Every function of the crate (and the small combinators of core::option etc.) is analysed in its calling context;
other library functions are modelled in models.py.  Loops are closed by widening (fixpoint over the set of
locations that change); recognised accumulations are summarised at the loop's exit.  The result is a graph whose
edges are observable events, each carrying the path facts that hold there.
"""
import json

from .term import *
from .state import *


class Unmodelled(Exception):
    pass


class Config(object):
    def __init__(self, peel=False, sink_err=False, unwind=False, poison=True, inv=None, stop=None, max_steps=60000,
                 callee_hook=None, inline_display=None, join=True, watch=(), trace=(), keepall=False, unroll=4):
        self.peel, self.sink_err, self.unwind, self.poison = peel, sink_err, unwind, poison
        self.stop = stop or {}
        self.max_steps = max_steps
        self.callee_hook = callee_hook
        self.inline_display = inline_display
        self.join = join
        self.keepall = keepall
        self.unroll = unroll
        self.watch = watch
        self.trace = trace


class LoopInfo(object):
    __slots__ = ("exitsig", "exitst", "exitdom", "backnodes", "id", "head", "W", "init", "backs", "backst", "headst", "exits", "kind", "dom", "span", "fn")


ORDERING = "core::cmp::Ordering"


class Interp(object):
    def __init__(self, F, cfg=None):
        from . import models
        self.F = F
        self.M = models
        self.cfg = cfg or Config()
        self.G = Graph()
        self.loops = {}
        self.mutplaces = {} # field of a local type -> where it is assigned or mutably borrowed (None: in a local value)
        self.made = []      # values of the crate's own types that were put together: (path, variant, fields, float ranges, span, function, state)
        self.loopstack = []
        self.tags = ()
        self.stack = []
        self.steps = 0
        self.unknowns = []
        self.panics = []
        self.analysed = set()
        self.fnitems = {}
        self.span = ""
        self.nsite = 0
        self.scratch = 0
        self.display_cache = {}

    # ------------------------------------------------------------------ events
    def ev(self, st, kind, **d):
        fn = self.stack[-1][1].path if self.stack else ""
        n = self.G.node()
        e = Event(kind, d, st.snap(), self.span, fn, tuple(self.loopstack), self.stack[-1][0] if self.stack else None)
        self.G.edge(st.node, e, n)
        st.node = n
        return e

    def unknown(self, st, why, **d):
        self.ev(st, "unknown", why=why, **d)
        if not self.scratch:
            self.unknowns.append((why, self.stack[-1][1].path if self.stack else "", self.span))

    def unk(self, why="?"):
        if not self.scratch:
            self.unknowns.append((why, self.stack[-1][1].path if self.stack else "", self.span))
        return mk("unk", why, self.site())

    def site(self, extra=0):
        fr, body, bb = self.stack[-1]
        return mk("site", fr, bb, self.nsite, extra)

    # ------------------------------------------------------------------ memory
    def addr(self, p):
        """(root, path) a pointer value denotes"""
        if p.op == "ref":
            return p.a[0], p.a[1]
        return mk("D", p), ()

    def mkref(self, root, path):
        if root.op == "D" and path == ():
            return root.a[0]
        return mk("ref", root, tuple(path))

    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            if root.op == "D":
                v = mk("deref", root.a[0])
            elif root.op == "S":
                v = mk("sym", "static:" + root.a[0])
            else:
                v = mk("unk", "uninit", root)
        return get(v, path)

    def store(self, st, root, path, val):
        if path:
            cur = st.mem.get(root)
            if cur is None:
                cur = self.load(st, root)
            st.mem[root] = put(cur, path, val)
        else:
            st.mem[root] = val
        if root.op in ("D", "S"):
            self.ev(st, "write", root=root, path=tuple(path), val=val)

    def deref(self, st, p):
        r, pa = self.addr(p)
        return self.load(st, r, pa)

    def place(self, st, fr, p):
        root, path = mk("L", fr, p[0]), ()
        var = None
        for e in p[1]:
            if e == "*":
                v = self.load(st, root, path)
                root, path = self.addr(v)
            elif e[0] == "f":
                c = ("vf", var, e[1]) if var is not None else ("f", e[1])
                var = None
                cur = self.load(st, root, path)
                if cur.op in TRANSPARENT and c[0] == "f":
                    continue
                if cur.op == "box" and c[0] == "f":
                    continue
                path = path + (c,)
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "i":
                path = path + (("i", self.load(st, mk("L", fr, e[1]))),)
            elif e[0] == "ci":
                if e[2]:
                    cur = self.load(st, root, path)
                    ix = isub(seqlen(cur), integer(e[1], "usize"), "usize")
                else:
                    ix = integer(e[1], "usize")
                path = path + (("i", ix),)
            else:
                path = path + (("other",),)
        return root, path

    # ------------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            r, pa = self.place(st, fr, p)
            v = self.load(st, r, pa)
            if v.op not in ("int", "f64", "adt", "tup"):
                if v not in TYOF:
                    ty = self.place_prim(p)
                    if ty:
                        TYOF[v] = ty
                if v not in FIELDOF and p[1]:
                    self.note_field(p, v)
            return v
        if "rt" in o:
            return FALSE
        return self.const(st, o["k"])

    def owner(self, p):
        """(path, variant, index) of the field of a local type that a place ends with"""
        e = p[1][-1]
        if not isinstance(e, list) or e[0] != "f":
            return None
        body = self.stack[-1][1]
        ty, var = self.F.types[body.locals[p[0]]], 0
        for e in p[1][:-1]:
            if e == "*":
                if "to" not in ty:
                    return None
                ty, var = self.F.types[ty["to"]], 0
            elif e[0] == "f":
                ty, var = self.F.types[e[2]], 0
            elif e[0] == "v":
                var = e[1]
            elif e[0] in ("i", "ci"):
                if "to" not in ty:
                    return None
                ty, var = self.F.types[ty["to"]], 0
            else:
                return None
        if ty["k"] != "adt" or not ty.get("local"):
            return None
        return ty["path"], var, p[1][-1][1]

    def note_field(self, p, v):
        o = self.owner(p)
        if o is not None:
            FIELDOF[v] = o
            r = INVTAB.get(o)
            if r is not None:
                set_inv(v, r)

    def invariant(self, st, v, ty):
        """what is known of a value that becomes a field: the range of a float, the length of a list"""
        if ty["s"] == "f64":
            return st.range_f(v)
        if ty.get("path") == "alloc::vec::Vec":
            return ("len", st.range(seqlen(v)))
        return None

    def note_mut(self, p, root, path, body):
        """fields of local types that are changed, and where"""
        o = self.owner(p) if p[1] else None
        if o is not None:
            known = "*" in p[1] and not (root.op == "L" and "{closure" in body.path)
            self.mutplaces.setdefault(o, set()).add((root, path) if known else None)

    def place_prim(self, p):
        if p[1]:
            e = p[1][-1]
            if isinstance(e, list) and e[0] == "f":
                n = self.F.types[e[2]]
                return n["s"] if n["k"] == "prim" and n["s"] in INTS else None
            return None
        body = self.stack[-1][1]
        n = self.F.types[body.locals[p[0]]]
        return n["s"] if n["k"] == "prim" and n["s"] in INTS else None

    def const(self, st, k):
        ty = self.F.types[k["ty"]]
        if "fn" in k:
            key = json.dumps(k["fn"], sort_keys=True)
            self.fnitems[key] = k["fn"]
            return mk("fn", key)
        if "promoted" in k:
            return self.promoted(st, k["promoted"])
        if "str" in k:
            return string(k["str"])
        if "bits" in k:
            b = int(k["bits"])
            n = ty["s"]
            if n == "f64":
                return mk("f64", b)
            if n in INTS:
                lo, hi = INTS[n]
                if b > hi:
                    b -= 1 << (8 * k["size"])
                return integer(b, n)
            if ty["k"] == "adt":
                if ty.get("akind") == "enum" and ty.get("variants"):
                    for i, v in enumerate(ty["variants"]):
                        if v["discr"] is not None and int(v["discr"]) & ((1 << (8 * k["size"])) - 1) == b and not v["f"]:
                            return adt(ty["path"], i)
                if n.startswith("core::option::Option<") and k["size"] == 1:
                    # an option of something that leaves unused bit patterns for None
                    x = self.F.types[ty["variants"][1]["f"][0]["ty"]]
                    if x["k"] == "prim" and x["s"] == "bool":
                        return some(boolean(b)) if b < 2 else NONE
                    vs = x.get("variants") or ()
                    if x["k"] == "adt" and x.get("akind") == "enum" and vs and all(v["discr"] is not None and not v["f"] for v in vs):
                        for i, v in enumerate(vs):
                            if int(v["discr"]) & 255 == b:
                                return some(adt(x["path"], i))
                        return NONE
            return mk("constbits", b, n)
        if "static" in k:
            return mk("ref", mk("S", k["static"]), ())
        if "bytes" in k:
            return mk("bytesc", tuple(k["bytes"]))
        if k.get("zst"):
            if ty["k"] == "adt":
                return adt(ty["path"], 0)
            if ty["k"] == "closure":
                for key, i in self.F._raw_insts.items():
                    if i.get("closure") and i["path"] == ty["path"] and i.get("ikind") == "item":
                        return mk("clo", key)
            if ty["k"] == "tuple":
                return UNIT
            return mk("zst", ty["s"])
        if "named" in k:
            return mk("sym", "const:" + ("std::time::UNIX_EPOCH" if k["named"].endswith("::UNIX_EPOCH") else k["named"]))
        return mk("sym", "const:" + k.get("r", "?"))

    def promoted(self, st, key):
        body = self.F.body(key)
        if body is None:
            return self.unk("promoted")
        fr = mk("prom", key)
        # promoted bodies are straight-line constant code
        self.stack.append((fr, body, 0))
        bb = 0
        n = 0
        while True:
            n += 1
            b = body.blocks[bb]
            for s in b["s"]:
                self.stmt(st, fr, body, s)
            t = b["t"]
            if t[0] == "return" or n > 20:
                break
            if t[0] == "goto":
                bb = t[1]
                continue
            if t[0] == "assert":
                bb = t[5]
                continue
            if t[0] == "call":
                outs = self.call(st, fr, body, bb, t)
                if len(outs) == 1 and outs[0][0] == "goto" and outs[0][2] is st:
                    bb = outs[0][1]
                    continue
                self.stack.pop()
                return self.unk("promoted call")
            break
        self.stack.pop()
        return self.load(st, mk("L", fr, 0))

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, body, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            root, path = self.place(st, fr, r[2])
            if r[1] == "mut":
                self.note_mut(r[2], root, path, body)
            if r[2][1] and self.owner(r[2]):
                v = self.load(st, root, path)
                if v.op not in ("int", "f64", "adt", "tup") and v not in FIELDOF:
                    self.note_field(r[2], v)
            return self.mkref(root, path)
        if k == "rawptr":
            root, path = self.place(st, fr, r[1])
            return self.mkref(root, path)
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r[1]), r[2])
        if k == "discr":
            root, path = self.place(st, fr, r[1])
            return self.discr(st, self.load(st, root, path), self.F.types[r[2]])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), self.F.types[r[3]], self.F.types[r[4]])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.F.types[r[4]])
        if k == "un":
            v = self.operand(st, fr, r[2])
            ty = self.F.types[r[3]]["s"]
            if r[1] == "Not":
                if ty == "bool":
                    return lnot(v)
                return mk("bitnot", v)
            if r[1] == "Neg":
                if ty in ("f64", "f32"):
                    return fneg(v)
                return isub(integer(0, ty), v, ty)
            if r[1] == "PtrMetadata":
                return seqlen(self.deref(st, v))
            return mk("un", r[1], v)
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[4]]
            if r[1] == "tuple":
                return tup(*vs)
            if r[1] == "array":
                return mk("arr", *vs)
            if r[1] == "adt":
                ty = self.F.types[r[2]]
                if ty.get("local") and vs and not self.scratch:
                    fl = tuple(self.invariant(st, v, self.F.types[f["ty"]]) for v, f in zip(vs, ty["variants"][r[3]]["f"]))
                    self.made.append((ty["path"], r[3], tuple(vs), fl, self.span, body.path, st.copy()))
                return adt(ty["path"], r[3], *vs)
            if r[1] == "closure":
                return mk("clo", r[3], *vs)
            if len(vs) == 2:
                return vs[0]  # raw pointer (data, metadata)
        if k == "tls":
            return mk("sym", "tls:" + r[1])
        return self.unk("rvalue " + k)

    def discr(self, st, v, ty):
        vs = ty.get("variants")
        if v.op == "adt":
            if vs and vs[v.a[1]]["discr"] is not None:
                return integer(int(vs[v.a[1]]["discr"]), "isize")
            return integer(v.a[1], "isize")
        if v.op == "cmp":
            return mk("discr", v)
        d = mk("discr", v)
        if d not in st.rng and vs:
            TYD[d] = iset_norm([(int(x["discr"]), int(x["discr"])) for x in vs if x["discr"] is not None])
        return d

    def cast(self, st, kind, v, fty, tty):
        f, t = fty["s"], tty["s"]
        if kind in ("IntToInt",):
            if v.op == "int":
                lo, hi = INTS.get(t, (None, None))
                x = v.a[0]
                if lo is not None:
                    x = (x - lo) % (hi - lo + 1) + lo if t != "char" else x
                return integer(x, t)
            if f in INTS and t in INTS:
                if v.op == "discr":
                    return v
                r = st.range(v)
                lo, hi = INTS[t]
                if INTS[f][0] >= lo and INTS[f][1] <= hi or (r and r[0][0] >= lo and r[-1][1] <= hi):
                    if v.op != "lin":
                        TYOF.setdefault(v, f)
                    return v
                if t == "char":
                    return v
            return mk("cast", v, f, t)
        if kind == "FloatToInt":
            if v.op == "f64":
                x = ffrom(v.a[0])
                lo, hi = INTS[t]
                return integer(0 if x != x else lo if x <= lo else hi if x >= hi else int(x), t)
            # truncation ignores a preceding floor of a value known to be non-negative
            if v.op == "floor":
                r = st.range_f(v.a[0])
                if r and r[0][0] >= 0 and t[0] == "u":
                    v = v.a[0]
            return mk("f2i", v, t)
        if kind == "IntToFloat":
            if v.op == "int":
                return flt(v.a[0])
            TYOF.setdefault(v, f)
            return mk("i2f", v)
        if kind == "FloatToFloat":
            return v
        if kind == "Transmute":
            if fty["k"] == "prim" and tty["k"] == "prim":
                if t == "f64":
                    return frombits(v)
                if f == "f64":
                    return tobits(v)
            if f != t and not (fty["k"] in ("ptr", "ref", "adt") and tty["k"] in ("ptr", "ref", "adt")):
                return mk("transmute", v)
            return v
        return v

    def binop(self, st, op, a, b, ty):
        t = ty["s"]
        isf = t in ("f64", "f32")
        kind = "f" if isf else "i"
        over = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if ty["k"] in ("ptr", "ref"):
            kind = "g"
        if base in ("Add", "Sub", "Mul", "Div", "Rem"):
            if isf:
                r = fbin(base.lower(), a, b) if base != "Rem" else mk("frem", a, b)
            else:
                r = {"Add": iadd, "Sub": isub, "Mul": imul, "Div": idiv, "Rem": irem}[base](a, b, t)
                if not is_const(r):
                    TYOF.setdefault(r, t)
            if over:
                return tup(r, mk("overflow", r))
            return r
        if base == "Lt":
            return cmp_lt(kind, a, b)
        if base == "Le":
            return cmp_le(kind, a, b)
        if base == "Gt":
            return cmp_lt(kind, b, a)
        if base == "Ge":
            return cmp_le(kind, b, a)
        if base == "Eq":
            return cmp_eq(kind, a, b)
        if base == "Ne":
            return lnot(cmp_eq(kind, a, b))
        if t == "bool" and base in ("BitAnd", "BitOr", "BitXor"):
            if base == "BitAnd":
                return land(a, b)
            if base == "BitOr":
                return lor(a, b)
            return mk("xor", a, b)
        if a.op == "int" and b.op == "int" and t in INTS:
            x, y = a.a[0], b.a[0]
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(base)
            if base == "Shl" and y < 64:
                r = x << y
            if base == "Shr" and y < 64:
                r = x >> y
            if r is not None:
                lo, hi = INTS[t]
                return integer((r - lo) % (hi - lo + 1) + lo, t)
        if base == "Cmp":
            return mk("cmp", kind, a, b)
        return mk("bin" + base, a, b)

    # ------------------------------------------------------------------ statements
    def stmt(self, st, fr, body, s):
        k = s[0]
        if k == "=":
            self.span = s[3]
            v = self.rvalue(st, fr, body, s[2], s[1])
            p = s[1]
            if not p[1]:
                st.mem[mk("L", fr, p[0])] = v
            else:
                r, pa = self.place(st, fr, p)
                self.note_mut(p, r, pa, body)
                self.store(st, r, pa, v)
        elif k == "dead":
            st.mem.pop(mk("L", fr, s[1]), None)
        elif k == "setdiscr":
            r, pa = self.place(st, fr, s[1])
            v = self.load(st, r, pa)
            self.store(st, r, pa, self.unk("setdiscr"))

    # ------------------------------------------------------------------ forking helpers
    def fork(self, st, cond):
        """[(bool, state)]"""
        d = st.decide(cond)
        if d is not None:
            return [(d, st)]
        out = []
        a = st.copy()
        if a.assume(cond, True):
            out.append((True, a))
        if st.assume(cond, False):
            out.append((False, st))
        return out

    def variants(self, st, v, n=2):
        """[(variant, state)] of an Option/Result-like value"""
        if v.op == "adt":
            return [(v.a[1], st)]
        d = mk("discr", v)
        out = []
        for i in range(n):
            s2 = st.copy()
            if s2.assume(cmp_eq("i", d, integer(i, "isize")), True):
                out.append((i, s2))
        return out

    def payload(self, v, variant, i=0):
        return proj(v, ("vf", variant, i))

    # ------------------------------------------------------------------ function bodies
    def merge(self, sts):
        if len(sts) < 2:
            return sts
        m = {}
        out = []
        for s in sts:
            k = s.key()
            o = m.get(k)
            if o is None:
                m[k] = s
                out.append(s)
            else:
                if not isinstance(o.node, int):
                    raise AssertionError
                if getattr(self, "_joined", None) is None:
                    self._joined = {}
                # a fresh join node so that no earlier edge is shared
                if o not in self._joined:
                    n = self.G.node()
                    self.G.edge(o.node, None, n)
                    o.node = n
                    self._joined[o] = True
                self.G.edge(s.node, None, o.node)
        if getattr(self, "_joined", None):
            self._joined = {}
        if len(out) > 1 and self.cfg.join:
            out = self.union(out)
        return out

    def union(self, sts):
        """join states that differ in the range of a single value (the union of the ranges is exact)"""
        groups = {}
        for s in sts:
            k = (frozenset(s.mem.items()), frozenset(s.facts.items()), frozenset(s.lin.items()), frozenset(s.rel.items()), frozenset(s.rng))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            ch = len(g) > 1
            while ch:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = g[i], g[j]
                        d = [k for k in a.rng if a.rng[k] != b.rng[k]]
                        if len(d) <= 1:
                            n = self.G.node()
                            if d:
                                for x in (a, b):
                                    n1 = self.G.node()
                                    self.G.edge(x.node, None, n1)
                                    x.node = n1
                                    self.G.at[n1] = x.copy()
                            self.G.edge(a.node, None, n)
                            self.G.edge(b.node, None, n)
                            a.node = n
                            if d:
                                a.rng[d[0]] = iset_norm(list(a.rng[d[0]]) + list(b.rng[d[0]]))
                            del g[j]
                            ch = True
                            break
                    if ch:
                        break
            out += g
        return out

    def call_body(self, key, args, st):
        """-> [('ret', value, state) | ('unwind', None, state)]"""
        body = self.F.body(key)
        if body is None:
            self.unknown(st, "no body " + key)
            return [("ret", self.unk("nobody"), st)]
        if any(b.key == key for _, b, _ in self.stack) and sum(1 for _, b, _ in self.stack if b.key == key) > 1:
            self.unknown(st, "recursion " + body.path)
            return [("ret", self.unk("recursion"), st)]
        if self.stack and self.cfg.inline_display is not None:
            ap = self.M.display_of(self, key)
            if ap is not None and not self.cfg.inline_display(ap, args[0]):
                # rendered on its own elsewhere
                return self.M.show_whole(self, st, args, ap)
        par = self.stack[-1] if self.stack else (None, None, 0)
        fr = mk("fr", par[0] if par[0] is not None else 0, par[2], self.nsite, key, self.tags)
        self.analysed.add(body.path)
        for i, a in enumerate(args):
            st.mem[mk("L", fr, i + 1)] = a
        self.stack.append((fr, body, 0))
        savetags = self.tags
        self.tags = ()
        kept = set(r for r in st.mem if r.op in ("H", "tmp"))
        s0 = self.lvs0(st)
        skip = self.M.SKIPLOOP[0]
        self.M.SKIPLOOP[0] = False
        backs, exits, rets = self.region(fr, body, [(0, st)], None)
        self.M.SKIPLOOP[0] = skip
        self.tags = savetags
        self.stack.pop()
        out = []
        byval = {}
        for kind, v, s in rets:
            for r in [r for r in s.mem if r.op == "L" and r.a[0] is fr]:
                if not self.escapes(s, r, v):
                    del s.mem[r]
            gc(s, kept, v)
            if self.stack or not self.cfg.keepall:
                forget(s, v, s0)
            byval.setdefault((kind, v), []).append(s)
        for (kind, v), ss in byval.items():
            for s in self.merge(ss):
                out.append((kind, v, s))
        if self.cfg.trace and body.path.split("::")[-1] in self.cfg.trace:
            for kind, v, s in out:
                self.ev(s, "callret", path=body.path, args=tuple(args), ret=kind, val=v)
        return out

    def lvs0(self, st):
        """loop variables that were already known"""
        out = set()
        for v in st.mem.values():
            out |= lvs_in(v)
        for d in (st.facts, st.rng):
            for k in d:
                out |= lvs_in(k)
        for d in (st.rel, st.lin):
            for k in d:
                out |= lvs_in(k)
        return out

    def escapes(self, st, root, v):
        if not isinstance(v, T):
            return False
        # a returned pointer into the callee's frame can only come from promoted constants or by-value temporaries
        return contains(v, lambda x: x is root)

    def prune(self, st, fr, body, bb):
        live = body.live[bb]
        for r in [r for r in st.mem if r.op == "L" and r.a[0] is fr and r.a[1] not in live]:
            del st.mem[r]

    def region(self, fr, body, entries, loop):
        """run from the entry (block, state) pairs; loop = (head, blocks) restricts to a loop body.
        -> (back-edge states, [(block, state)] leaving the loop, returns)"""
        pending = {}
        for bb, s in entries:
            pending.setdefault(bb, []).append(s)
        backs, exits, rets = [], [], []
        first = loop is not None
        while pending:
            bb = min(pending, key=lambda b: body.rpo.get(b, 1 << 30))
            sts = pending.pop(bb)
            for s in sts:
                self.prune(s, fr, body, bb)
            sts = self.merge(sts)
            for st in sts:
                if bb in body.loops and not (first and bb == loop[0]):
                    outs = self.mir_loop(fr, body, bb, st)
                else:
                    outs = self.block(fr, body, bb, st)
                for o in outs:
                    if o[0] == "goto":
                        _, t, s = o
                        if loop is not None and t == loop[0]:
                            self.prune(s, fr, body, t)
                            backs.append(s)
                        elif loop is not None and t not in loop[1]:
                            exits.append((t, s))
                        else:
                            pending.setdefault(t, []).append(s)
                    else:
                        rets.append(o)
            first = False
        return backs, exits, rets

    def mir_loop(self, fr, body, head, st):
        loop = (head, body.loops[head])

        def step(s):
            backs, exits, rets = self.region(fr, body, [(head, s)], loop)
            return backs, [("goto", t, x) for t, x in exits] + rets

        sp = body.blocks[head]["sp"]
        ns = [self.M.itlen(v) for r, v in st.mem.items() if r.op == "L" and r.a[0] is fr and v.op == "it"]
        ns = [n for n in ns if n is not None and n <= self.cfg.unroll]
        if ns:
            outs = self.unroll(st, step, max(ns) + 1)
            if outs is not None:
                return outs
        return self.fix_loop(mk("loop", fr, head, self.tags), st, step, sp, body.path)

    def unroll(self, st, step, n):
        """repetitions one by one when there are few; None if there may be more"""
        for real in (False, True):
            s0 = st if real else st.copy()
            if not real:
                s0.node = self.G.node()
                self.scratch += 1
            tags = self.tags
            try:
                sts, outs = [s0], []
                for i in range(n):
                    new = []
                    self.tags = tags + ("u%d" % i,)
                    for s in sts:
                        b, e = step(s)
                        new += [x for x in b if x.feasible()]
                        outs += [x for x in e if x[2].feasible()]
                    sts = self.merge(new)
                    if not sts:
                        break
            finally:
                self.tags = tags
                if not real:
                    self.scratch -= 1
            if sts:
                return None
        return outs

    # ------------------------------------------------------------------ loops
    STRUCT = ("adt", "tup", "arr", "clo", "it", "some")

    def diff(self, a, b, path, out):
        if a is b:
            return
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in self.STRUCT and len(a.a) == len(b.a):
            if all(x == y for x, y in zip(a.a, b.a) if not (isinstance(x, T) and isinstance(y, T))):
                for i, (x, y) in enumerate(zip(a.a, b.a)):
                    if isinstance(x, T) and isinstance(y, T):
                        self.diff(x, y, path + (i,), out)
                return
        if isinstance(a, T) and isinstance(b, T) and "upd" in (a.op, b.op):
            # fields of something that is otherwise opaque
            (a0, ca), (b0, cb) = self.fields(a), self.fields(b)
            if a0 is b0 and a0 is not None:
                for c in sorted(ca | cb):
                    self.diff(proj(a, c), proj(b, c), path + (c,), out)
                return
        out.add(path)

    def fields(self, v):
        cs = set()
        while v.op == "upd":
            if v.a[1][0] not in ("f", "vf"):
                return None, cs
            cs.add(v.a[1])
            v = v.a[0]
        return v, cs

    def at(self, v, path):
        for i in path:
            v = proj(v, i) if isinstance(i, tuple) else v.a[i]
        return v

    def putat(self, v, path, x):
        if not path:
            return x
        if isinstance(path[0], tuple):
            return put(v, (path[0],), self.putat(proj(v, path[0]), path[1:], x))
        a = list(v.a)
        a[path[0]] = self.putat(a[path[0]], path[1:], x)
        return mk(v.op, *a)

    def fix_loop(self, lid, st, step, span="", fn=""):
        outs = []
        heads = [st]
        if self.cfg.peel:
            self.tags = self.tags + ("p",)
            backs, exits = step(st)
            self.tags = self.tags[:-1]
            outs += exits
            if not backs:
                return outs
            heads = self.merge(backs)
        for h in heads:
            outs += self.fix_head(lid, h, step, span, fn)
        return outs

    def madein(self, mem0):
        """is a value something that a repetition itself obtained?"""
        return lambda x: x.op in ("H", "tmp") and x not in mem0

    def widen(self, h, W, lid, eqs):
        s = h.copy()
        for root, path in sorted(W, key=lambda w: (w[0].id, str(w[1]))):
            lv = eqs.get((root, path)) or mk("lv", lid, root, path)
            s.mem[root] = self.putat(s.mem[root], path, lv)
            if lv.op == "lv":
                old = self.at(h.mem[root], path)
                if old in TYOF:
                    TYOF.setdefault(lv, TYOF[old])
                elif old.op == "int":
                    TYOF.setdefault(lv, old.a[1])
        return s

    def fix_head(self, lid, h, step, span, fn):
        W = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unmodelled("no fixpoint")
            s = self.widen(h, W, lid, {})
            s.node = self.G.node()
            mem0 = dict(s.mem)
            self.scratch += 1
            self.loopstack.append(lid)
            backs, _ = step(s)
            self.loopstack.pop()
            self.scratch -= 1
            new = set()
            for b in backs:
                gc(b, mem0)
                for root, v in mem0.items():
                    bv = b.mem.get(root)
                    if bv is None or bv is v:
                        continue
                    d = set()
                    self.diff(v, bv, (), d)
                    for p in d:
                        if (root, p) not in W:
                            new.add((root, p))
                # memory behind pointers that is first written inside the loop
                for root, bv in b.mem.items():
                    if root in mem0 or root.op not in ("D", "S") or contains(root, lambda x: x.op == "lv" and x.a[0] == lid):
                        continue
                    v = self.load(State(), root)
                    if bv is v or contains(root, self.madein(mem0)):
                        continue
                    h.mem[root] = v
                    d = set()
                    self.diff(v, bv, (), d)
                    for p in d:
                        new.add((root, p))
            if not new:
                break
            W |= new
            # drop locations below a coarser one
            W = {(r, p) for r, p in W if not any(r is r2 and len(p2) < len(p) and p[:len(p2)] == p2 for r2, p2 in W)}
        # counters that advance in lockstep are expressed through one index
        lvof = lambda w: mk("lv", lid, w[0], w[1])
        idx = None
        eqs = {}
        inv = []
        cand = []
        falling = []
        for w in sorted(W, key=lambda w: (w[0].id, str(w[1]))):
            lv = lvof(w)
            init = self.at(h.mem[w[0]], w[1])
            bvs = [self.at(b.mem[w[0]], w[1]) for b in backs if w[0] in b.mem]
            if not bvs:
                continue
            deltas = []
            for v in bvs:
                d = isub(v, lv, "i128") if v.op in ("lin", "lv", "int") or v is lv else None
                deltas.append(d.a[0] if d is not None and d.op == "int" else None)
            if all(d == 1 for d in deltas) and (init.op in ("int", "lin", "lv") or init in TYOF):
                cand.append((w, lv, init))
            if all(d is not None and d >= 0 for d in deltas):
                r = h.range(init)
                if r:
                    inv.append((lv, ((r[0][0], BIG),)))
            elif all(d is not None and d <= 0 for d in deltas):
                r = h.range(init)
                if r:
                    inv.append((lv, ((-BIG, r[-1][1]),)))
                if init.op != "int" and (init.op in ("lin", "lv") or init in TYOF):
                    falling.append((lv, init))
            elif init.op == "int" and all(v.op == "int" or v is lv for v in bvs):
                inv.append((lv, iset_norm([(x.a[0], x.a[0]) for x in [init] + [v for v in bvs if v.op == "int"]])))
            elif all(v is lv or v.op == "f64" for v in bvs) and init.op == "f64":
                inv.append((lv, iset_norm([h.range(x)[0] for x in [init] + [v for v in bvs if v.op == "f64"]])))
        cand.sort(key=lambda c: (c[2].op != "int", c[2].a[0] if c[2].op == "int" else 0))
        if cand:
            w0, idx, i0 = cand[0]
            for w, lv, init in cand[1:]:
                ty = init.a[1] if init.op == "int" else "usize"
                eqs[w] = iadd(idx, isub(init, i0, ty), ty)
        s = self.widen(h, W, lid, eqs)
        for lv, r in inv:
            if lv is idx or not any(lv is lvof(w) for w in eqs):
                r2 = iset_and(s.range(lv), r)
                if r2:
                    s.rng[lv] = r2
        for lv, init in falling:
            s.assume(cmp_le("i", lv, init), True)
        n = self.G.node()
        self.G.edge(h.node, None, n)
        s.node = n
        head0 = s.copy()
        self.loopstack.append(lid)
        backs, exits = step(s)
        self.loopstack.pop()
        backs = [b for b in backs if b.feasible()]
        exits = [e for e in exits if e[2].feasible()]
        for b in backs:
            gc(b, head0.mem)
            self.G.edge(b.node, None, n)
        li = LoopInfo()
        li.id, li.head, li.W, li.kind, li.span, li.fn = lid, n, W, idx, span, fn
        li.init = {w: self.at(h.mem[w[0]], w[1]) for w in W}
        li.backs = [{w: self.at(b.mem[w[0]], w[1]) for w in W if w[0] in b.mem} for b in backs]
        li.backst = backs
        li.headst = head0
        li.exits = exits
        li.exitst = [e[2].copy() for e in exits]    # what held when leaving, in terms of the loop's own values
        li.dom = None
        li.exitsig = []     # per exit after which values are known: {value carried through the loop: its last value}
        li.exitdom = []     # per exit: (node, (first, end) of the index) or (node, None) when left early
        li.backnodes = [b.node for b in backs]
        out = []
        from .reduce import finish
        for e in exits:
            out.append(finish(self, li, e, idx, eqs, lvof))
        if not self.scratch:
            self.loops.setdefault(lid, []).append(li)
        return out

    # ------------------------------------------------------------------ blocks
    def block(self, fr, body, bb, st):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Unmodelled("analysis budget exceeded")
        b = body.blocks[bb]
        self.stack[-1] = (fr, body, bb)
        self.nsite = 0
        if st.node == 0:
            st.node = self.G.node()
        for s in b["s"]:
            self.stmt(st, fr, body, s)
        t = b["t"]
        self.span = b["sp"]
        k = t[0]
        if k == "goto":
            return [("goto", t[1], st)]
        if k == "return":
            return [("ret", self.load(st, mk("L", fr, 0)), st)]
        if k in ("unreachable", "otherterm"):
            return []
        if k == "resume":
            return [("unwind", UNIT, st)]
        if k == "switch":
            return self.switch(st, fr, body, t)
        if k == "assert":
            return self.assert_(st, fr, body, t)
        if k == "drop":
            root, path = self.place(st, fr, t[1])
            outs = []
            for s in self.drop(st, self.load(st, root, path), self.F.types[t[4]], (root, path)):
                outs.append(("goto", t[2], s))
            return outs
        if k == "call":
            return self.call(st, fr, body, bb, t)
        return []

    def switch(self, st, fr, body, t):
        v = self.operand(st, fr, t[1])
        ty = self.F.types[t[4]]["s"]
        if v.op == "int":
            for val, b in t[2]:
                x = int(val)
                if x == v.a[0] or (ty in INTS and v.a[0] < 0 and x - (1 << bits(ty)) == v.a[0]):
                    return [("goto", b, st)]
            return [("goto", t[3], st)]
        outs = []
        if v.op == "discr" and v.a[0].op == "cmp":
            kind, a, b = v.a[0].a
            cur = st
            for val, bb2 in t[2]:
                x = int(val)
                c = {0: cmp_eq(kind, a, b), 1: cmp_lt(kind, b, a)}.get(x, cmp_lt(kind, a, b))
                if kind == "f" and not cur.setrel("f", a, b, LT | EQ | GT):
                    return outs
                s2 = cur.copy()
                if s2.assume(c, True):
                    outs.append(("goto", bb2, s2))
                if not cur.assume(c, False):
                    return outs
            # Ordering has three values: an otherwise target after all three is unreachable
            if len(t[2]) < 3:
                outs.append(("goto", t[3], cur))
            return outs
        isbool = ty == "bool"
        cur = st
        for val, b in t[2]:
            x = int(val)
            if isbool:
                c = v if x else lnot(v)
            else:
                if ty in INTS and INTS[ty][0] < 0 and x > INTS[ty][1]:
                    x -= 1 << bits(ty)
                c = cmp_eq("i", v, integer(x, ty if ty in INTS else "isize"))
            if v.op == "discr" and v not in cur.rng and v in TYD:
                cur.rng[v] = TYD[v]
            s2 = cur.copy()
            if s2.assume(c, True):
                outs.append(("goto", b, s2))
            if not cur.assume(c, False):
                return outs
        outs.append(("goto", t[3], cur))
        return outs

    def assert_(self, st, fr, body, t):
        kind = t[3]
        ops = [self.operand(st, fr, o) for o in t[4]]
        cond = self.operand(st, fr, t[1])
        if kind.startswith("overflow") or kind == "other":
            # integer overflow of counters and indices is out of scope (it needs 2^64 operations)
            return [("goto", t[5], st)]
        if kind == "bounds":
            cond = cmp_lt("i", ops[1], ops[0])
            exp = True
        else:
            exp = t[2]
        outs = []
        for b, s in self.fork(st, cond):
            if b == exp:
                outs.append(("goto", t[5], s))
            else:
                if kind == "bounds" and self.prove_lt(s, ops[1], ops[0]):
                    continue
                outs += self.panic(s, kind, t[6], ops=tuple(ops))
        return outs

    def prove_lt(self, st, a, b):
        from .reduce import prove_lt
        return prove_lt(st, a, b)

    def panic(self, st, why, unwind=None, **d):
        e = self.ev(st, "panic", why=why, **d)
        if not self.scratch:
            self.panics.append(e)
        if self.cfg.unwind:
            if isinstance(unwind, int):
                return [("goto", unwind, st)]
            return [("unwind", UNIT, st)]
        return []

    # ------------------------------------------------------------------ drops
    def drop(self, st, v, ty, place=None, depth=0):
        """-> [state]"""
        if depth > 6:
            return [st]
        if v.op == "guard":
            self.ev(st, "unlock", cell=v.a[0])
            return [st]
        if v.op in ("int", "f64", "str", "ref", "proj", "deref", "sym", "fn"):
            return [st]
        sts = [st]
        if v.op == "adt" and v.a[0] == "ManuallyDrop":
            return sts
        if v.op == "adt":
            a = self.F.adts.get(v.a[0])
            if a and a.get("drop_inst"):
                p = self.mkref(*place) if place else v
                if place is None:
                    return [st]
                out = []
                for s in sts:
                    self.nsite += 1
                    for k, _, s2 in self.call_body(a["drop_inst"], [p], s):
                        out.append(s2)
                sts = out
            variant = v.a[1]
            en = v.a[0] in (OPT, RES) or (a and self.F.types[a["ty"]].get("akind") == "enum")
            for i, x in enumerate(v.a[2:]):
                if isinstance(x, T) and x.op in ("adt", "tup", "guard", "clo"):
                    c = ("vf", variant, i) if en else ("f", i)
                    out = []
                    for s in sts:
                        out += self.drop(s, x, None, (place[0], place[1] + (c,)) if place else None, depth + 1)
                    sts = out
        elif v.op in ("tup", "clo"):
            for i, x in enumerate(v.a):
                if isinstance(x, T) and x.op in ("adt", "tup", "guard", "clo"):
                    out = []
                    j = i - 1 if v.op == "clo" else i
                    for s in sts:
                        out += self.drop(s, x, None, (place[0], place[1] + (("f", j),)) if place else None, depth + 1)
                    sts = out
        return sts

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, body, bb, t):
        callee, args, dest, target, unwind = t[1], t[2], t[3], t[4], t[5]
        vals = [self.operand(st, fr, a) for a in args]
        if callee.get("ptr"):
            f = self.operand(st, fr, t[6])
            outs = self.call_value(st, f, vals)
        else:
            outs = self.call_fn(st, callee, vals, [self.argty(a) for a in args])
        res = []
        for kind, v, s in outs:
            self.stack[-1] = (fr, body, bb)
            if kind == "unwind":
                if isinstance(unwind, int):
                    res.append(("goto", unwind, s))
                else:
                    if not body.local:
                        self.release(s, fr)
                    res.append(("unwind", UNIT, s))
                continue
            if target is None:
                continue
            if not dest[1]:
                s.mem[mk("L", fr, dest[0])] = v
            else:
                r, pa = self.place(s, fr, dest)
                self.store(s, r, pa, v)
            res.append(("goto", target, s))
        return res

    def release(self, st, fr):
        """a library function is left by unwinding (its MIR has no landing pads): the guards it owns are dropped"""
        gs = []

        def go(v, d):
            if v.op == "guard" and v not in gs:
                gs.append(v)
            elif v.op in ("adt", "tup") and d < 4:
                for x in v.a:
                    if isinstance(x, T):
                        go(x, d + 1)
        for k, v in list(st.mem.items()):
            if k.op == "L" and k.a[0] is fr:
                go(v, 0)
        for g in gs:
            self.ev(st, "unlock", cell=g.a[0])

    def argty(self, a):
        if "k" in a:
            return a["k"]["ty"]
        p = a.get("c") or a.get("m")
        if p is None:
            return None
        if p[1]:
            e = p[1][-1]
            return e[2] if isinstance(e, list) and e[0] == "f" else None
        return self.stack[-1][1].locals[p[0]]

    def call_fn(self, st, callee, vals, tys=None):
        hook = self.cfg.callee_hook
        if hook:
            r = hook(self, st, callee, vals)
            if r is not None:
                return r
        r = self.M.dispatch(self, st, callee, vals, tys)
        if r is not None:
            return r
        if callee.get("inst") and not callee.get("once_shim"):
            return self.call_body(callee["inst"], vals, st)
        if callee.get("ctor"):
            return [("ret", self.unk("ctor"), st)]
        name = callee.get("rnice") or callee.get("nice")
        if str(callee.get("path", "")).startswith("prometrics::"):
            # a trait method of a type parameter or trait object: the user implements it
            return self.user_call(st, mk("method", str(name)), vals)
        self.unknown(st, "unmodelled " + str(name), args=tuple(vals), callee=name)
        self.havoc(st, vals)
        return [("ret", mk("unk", "call:" + str(name), self.site()), st)]

    def havoc(self, st, vals):
        """an unmodelled callee may write through the pointers it was given"""
        for v in vals:
            for x in subterms(v):
                if x.op == "ref" and x.a[0].op in ("L", "H", "tmp"):
                    root, path = x.a
                    if root in st.mem:
                        st.mem[root] = put(st.mem[root], path, mk("unk", "havoc", self.site(1), root))

    def call_value(self, st, f, args):
        """call a closure / function value with the given (already unpacked) arguments"""
        self.nsite += 1
        holder = None
        n = 0
        while f.op == "ref" and n < 4:
            holder = f
            f = self.deref(st, f)
            n += 1
        if f.op == "clo":
            body = self.F.body(f.a[0])
            if body is None:
                self.unknown(st, "closure body")
                return [("ret", self.unk("closure"), st)]
            selfty = self.F.types[body.locals[1]] if body.argc >= 1 else None
            if selfty and selfty["k"] == "ref":
                if holder is None:
                    root = mk("tmp", self.site(), "clo")
                    st.mem[root] = f
                    holder = mk("ref", root, ())
                a0 = holder
            else:
                a0 = f
            return self.call_body(f.a[0], [a0] + list(args), st)
        if f.op == "fn":
            c = self.fnitems[f.a[0]]
            if c.get("ctor"):
                return [("ret", self.ctor(c, args), st)]
            return self.call_fn(st, c, list(args))
        return self.user_call(st, f, args)

    def user_call(self, st, f, args):
        """a function supplied by the user of the crate"""
        self.ev(st, "ucall", f=f, args=tuple(args))
        for v in args:
            if v.op == "ref" and v.a[0].op in ("L", "H", "tmp") and v.a[0] in st.mem:
                # it may have changed what it was given a pointer to
                st.mem[v.a[0]] = put(st.mem[v.a[0]], v.a[1], mk("uout", self.site(2), get(st.mem[v.a[0]], v.a[1])))
        outs = []
        if self.cfg.unwind:
            s2 = st.copy()
            self.ev(s2, "upanic", f=f)
            outs.append(("unwind", UNIT, s2))
        outs.append(("ret", mk("ures", f, self.site()), st))
        return outs

    def ctor(self, c, args):
        p = c["path"]
        for op, name, var in ((OPT, "Some", 1), (RES, "Ok", 0), (RES, "Err", 1)):
            if p in (op + "::" + name, op + "::" + name + "::{ctor}", op + "::" + name + "::{constructor}") or c["nice"].endswith("::" + name) and p.startswith(op):
                return adt(op, var, *args)
        # local tuple struct / enum variant
        base = p.replace("::{{constructor}}", "").replace("::{constructor}", "").replace("::{ctor}", "")
        if base in self.F.adts:
            return adt(base, 0, *args)
        parent, _, vname = base.rpartition("::")
        if parent in self.F.adts:
            ty = self.F.types[self.F.adts[parent]["ty"]]
            for i, v in enumerate(ty.get("variants") or []):
                if v["n"] == vname:
                    return adt(parent, i, *args)
        return mk("ctor", base, *args)


TYD = {}


def forget(s, v, old):
    """drop path facts about loop variables that no live value mentions"""
    if not any(lvs_in(k) - old for d in (s.facts, s.rng, s.rel, s.lin) for k in d):
        return
    live = set(old)
    for r, x in s.mem.items():
        live |= lvs_in(x) | lvs_in(r)
    if isinstance(v, T):
        live |= lvs_in(v)
    s.facts = {k: x for k, x in s.facts.items() if lvs_in(k) <= live}
    s.rng = {k: x for k, x in s.rng.items() if lvs_in(k) <= live}
    s.rel = {k: x for k, x in s.rel.items() if lvs_in(k) <= live}
    s.lin = {k: x for k, x in s.lin.items() if lvs_in(k) <= live}


def gc(s, keep=(), extra=None):
    """forget temporaries nothing points to"""
    seen = set()
    todo = []
    heap = [r for r in s.mem if r.op in ("H", "tmp") and r not in keep]
    if not heap:
        return
    hs = set(heap)
    for r, v in s.mem.items():
        if r not in hs:
            todo.append(v)
    if isinstance(extra, T):
        todo.append(extra)
    while todo:
        v = todo.pop()
        for x in roots_in(v):
            if x in hs and x not in seen:
                seen.add(x)
                todo.append(s.mem[x])
    for r in heap:
        if r not in seen:
            del s.mem[r]


def bits(ty):
    lo, hi = INTS[ty]
    return (hi - lo + 1).bit_length() - 1


def land(a, b):
    if a.op == "int":
        return b if a.a[0] else FALSE
    if b.op == "int":
        return a if b.a[0] else FALSE
    return mk("and", a, b)


def lor(a, b):
    if a.op == "int":
        return TRUE if a.a[0] else b
    if b.op == "int":
        return TRUE if b.a[0] else a
    return mk("or", a, b)


def tobits(v):
    if v.op == "f64":
        return integer(v.a[0], "u64")
    if v.op == "frombits":
        return v.a[0]
    return mk("tobits", v)


def frombits(v):
    if v.op == "int":
        return mk("f64", v.a[0] & (2 ** 64 - 1))
    if v.op == "tobits":
        return v.a[0]
    return mk("frombits", v)
