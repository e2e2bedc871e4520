"""What the checks share: obligations, evidence, path queries over the event graph, symbolic client sessions."""
import json
import os
import sys
import time
import traceback
from fractions import Fraction

from .term import *
from .state import *
from .interp import Interp, Config, Unmodelled
from . import facts, run as runner
from .run import argsym

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class Missing(Exception):
    pass


class Ctx(object):
    """the facts of the current tree, and every analysis made so far"""

    def __init__(self, tier="quick", F=None):
        self.tier = tier
        self.F = F or facts.extract(full=tier == "thorough")
        # the same crate as built for release, if that is not the same program
        self.release = Ctx(tier, self.F.release) if self.F.release else None
        self.cache = {}
        self.analysed = set()
        self.unknown = []

    def root(self, name, selfname=None, trait="", pub=None):
        rs = [r for r in self.F.find(name, selfname, trait, pub) if r.get("inst") and self.F.body(r["inst"])]
        if len(rs) != 1:
            raise Missing("%s::%s" % (selfname or "", name) if not trait else "<%s as %s>::%s" % (selfname, trait, name))
        return rs[0]

    def run(self, r, key=None, **cfg):
        """analyse a root from an arbitrary calling context (cached)"""
        k = (r["inst"], key, tuple(sorted(cfg.items(), key=str)))
        if k not in self.cache:
            c = dict(poison=False)
            c.update(cfg)
            R = self.go(r, Config(**c))
            self.analysed |= R.I.analysed
            self.cache[k] = R
        TOUCHED.append(self.cache[k].I)
        return self.cache[k]

    def go(self, r, cfg, **kw):
        try:
            return runner.run(self.F, r, cfg, **kw)
        except Unmodelled as e:
            # too large or not understood: nothing is known about this function
            I = Interp(self.F, cfg)
            I.unknowns.append((str(e), r["nice"], r["span"]))
            return runner.Result(I, r, [mk("unk", "arg%d" % i) for i in range(8)], [], I.G.node())


    def run_pre(self, r, atoms, **cfg):
        """analyse a root under assumptions"""
        c = dict(poison=False)
        c.update(cfg)

        def pre(I, st, args):
            s = with_pre(st, atoms)
            if s is None:
                raise Missing("assumptions contradict each other")
            st.rng, st.facts, st.lin, st.rel = s.rng, s.facts, s.lin, s.rel
        R = self.go(r, Config(**c), pre=pre)
        self.analysed |= R.I.analysed
        TOUCHED.append(R.I)
        return R


# the analyses the obligations since the last scope() rest on
TOUCHED = []


class Check(object):
    def __init__(self, pid, title=""):
        self.pid, self.title = pid, title
        del TOUCHED[:]
        self.ob = []
        self.t0 = time.time()
        self.notes = []
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def add(self, key, status, detail="", where=""):
        self.ob.append((key, status, detail, where))

    def ok(self, key, detail="", where=""):
        self.add(key, "ok", detail, where)

    def scope(self):
        """what follows does not rest on what was analysed before"""
        del TOUCHED[:]

    def bad(self, key, detail="", where=""):
        for I in TOUCHED:
            if I.unknowns:
                # part of the code the verdict rests on was not understood
                self.add(key, "unknown", "%s (not understood: %s in %s)" % (detail, I.unknowns[0][0], I.unknowns[0][1]), where)
                return
        self.add(key, "violation", detail, where)

    def unk(self, key, detail="", where=""):
        self.add(key, "unknown", detail, where)

    def expect(self, key, cond, detail="", where="", closed=True):
        """cond True: holds; False: violated when everything involved was modelled; None: undecided"""
        if cond is True:
            self.ok(key, detail, where)
        elif cond is False and closed:
            self.bad(key, detail, where)
        else:
            self.unk(key, detail, where)


def closed(*ts):
    """no unmodelled value is involved"""
    for t in ts:
        if isinstance(t, T):
            if contains(t, lambda x: x.op in ("unk", "bad") or x.op == "lv"):
                return False
        elif isinstance(t, tuple):
            if not closed(*t):
                return False
    return True


def known(*ts):
    """like closed, but values carried through loops are allowed"""
    for t in ts:
        if isinstance(t, T) and contains(t, lambda x: x.op in ("unk", "bad")):
            return False
    return True


def mutable_fields(F):
    """fields of local types that are assigned or mutably borrowed somewhere in the crate"""
    out = set()
    for key in list(F._raw_insts):
        b = F.body(key)
        if b is None:
            continue
        for bl in b.blocks:
            ps = []
            for s in bl["s"]:
                if s[0] == "=":
                    ps.append(s[1])
                    if s[2][0] == "ref" and s[2][1] == "mut":
                        ps.append(s[2][2])
                    if s[2][0] == "rawptr":
                        ps.append(s[2][1])
                elif s[0] == "setdiscr":
                    ps.append(s[1])
            if bl["t"][0] == "call":
                ps.append(bl["t"][3])
            for p in ps:
                out |= owners(F, b, p)
    return out


def owners(F, b, p):
    """every field of a local type that a place passes through by value (up to the last dereference)"""
    ty, var = F.types[b.locals[p[0]]], 0
    out = set()
    for e in p[1]:
        if e == "*":
            out = set()
            ty, var = (F.types[ty["to"]] if "to" in ty else {"k": "?"}), 0
        elif e[0] == "f":
            if ty["k"] == "adt" and ty.get("local"):
                out.add((ty["path"], var, e[1]))
            ty, var = F.types[e[2]], 0
        elif e[0] == "v":
            var = e[1]
        elif e[0] in ("i", "ci"):
            ty, var = (F.types[ty["to"]] if "to" in ty else {"k": "?"}), 0
    return out


def field_invariants(ctx):
    """what every constructor of a local type establishes and nothing changes later: the ranges of float fields that are never
    assigned, and the least length of lists that only grow: {(type, variant, field): range or ("len", range)}"""
    if getattr(ctx, "_finv", None) is not None:
        return ctx._finv
    mut = mutable_fields(ctx.F)
    rg, ln, full = {}, {}, set()
    touched, runs = {}, []
    for r in ctx.F.roots:
        if not (r.get("inst") and ctx.F.body(r["inst"])):
            continue
        R = ctx.run(r)
        runs.append((r, R))
        for o, ps in R.I.mutplaces.items():
            touched.setdefault(o, []).append((r, R, ps))
        for path, var, vs, fl, span, fn, st in R.I.made:
            for i, (v, x) in enumerate(zip(vs, fl)):
                k = (path, var, i)
                if x is None or FIELDOF.get(v) == k:
                    continue
                if x[0:1] == ("len",):
                    ln[k] = iset_or(ln.get(k, ()), x[1])
                elif k not in mut:
                    rg[k] = iset_or(rg.get(k, ()), x)
    out = {k: v for k, v in rg.items() if v and iset_sub(FRANGE, v)}
    cand = {k: v[0][0] for k, v in ln.items() if v and v[0][0] > 0 and not public_field(ctx.F, k)}
    for k in sorted(cand, key=str):
        least = cand[k]
        good = True
        for r, R, ps in touched.get(k, []):
            good = good and None not in ps and not R.I.unknowns
            if not good:
                break
            for e in R.live_events("write"):
                if (e.root, e.path) in ps:
                    good = good and at_least(ctx, e, k, least)
            for _, v, s in R.outs:
                good = good and not any(contains(v, lambda t: t.op == "ref" and (t.a[0], tuple(t.a[1])) == q) for q in ps)
            for e in R.live_events("ucall"):
                good = good and not any(isinstance(v, T) and contains(v, lambda t: t.op == "ref" and (t.a[0], tuple(t.a[1])) in ps) for v in flat(tuple(e.d.values())))
        if good:
            out[k] = ("len", ((least, BIG),))
    ctx._finv = out
    return out


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


def public_field(F, k):
    a = F.adts.get(k[0])
    return a is None or bool(F.types[a["ty"]]["variants"][k[1]]["f"][k[2]].get("pub")) and F.types[a["ty"]].get("akind") == "struct"


def at_least(ctx, e, k, least):
    """a value written to a list that only grows still has the least length; other values of this field have it"""
    INVTAB[k] = ("len", ((least, BIG),))
    try:
        for v, o in FIELDOF.items():
            if o == k and v is not e.val:
                set_inv(v, INVTAB[k])
        r = e.st.range(seqlen(e.val))
        return bool(r) and r[0][0] >= least
    finally:
        INVTAB.clear()
        FINV.clear()


class invariants(object):
    """while active, fields are known to be in the ranges all constructors establish"""

    def __init__(self, ctx):
        self.tab = field_invariants(ctx)

    def __enter__(self):
        INVTAB.update(self.tab)
        for v, o in FIELDOF.items():
            if o in self.tab:
                set_inv(v, self.tab[o])

    def __exit__(self, *a):
        INVTAB.clear()
        FINV.clear()


# ------------------------------------------------------------------------------------------------ event graph
def paths(R, end=None, skip=None, limit=4000, start=None, at=False):
    """[(events, exit index)] for every way through the graph; loops are passed at most once; at: also what was known before courses of events were joined"""
    ends = {}
    if end is None:
        for i, (k, v, s) in enumerate(R.outs):
            ends.setdefault(s.node, []).append(i)
    else:
        for n in end:
            ends.setdefault(n, []).append(n)
    # only nodes that can reach an end
    rev = {}
    for n, es in R.G.out.items():
        for e, m in es:
            rev.setdefault(m, []).append(n)
    good = set(ends)
    st = list(ends)
    while st:
        n = st.pop()
        for m in rev.get(n, []):
            if m not in good:
                good.add(m)
                st.append(m)
    out = []
    marks = {}
    stack = [(start if start is not None else R.entry, (), frozenset())]
    steps = 0
    while stack:
        n, evs, seen = stack.pop()
        steps += 1
        if steps > limit * 50 or len(out) > limit:
            return None
        for i in ends.get(n, []):
            out.append((evs, i))
        if n in seen:
            continue
        seen = seen | {n}
        if at and n in R.G.at:
            if n not in marks:
                marks[n] = Event("at", {}, R.G.at[n], None, "", (), None)
            evs = evs + (marks[n],)
        for e, m in R.G.out.get(n, []):
            if m not in good:
                continue
            if e is not None and skip and skip(e):
                continue
            stack.append((m, evs + ((e,) if e is not None else ()), seen))
    # the same events with the same exit need to be looked at once
    u = {}
    for evs, i in out:
        u[(tuple(id(e) for e in evs), i)] = (evs, i)
    return list(u.values())


def reaches(R, starts, goals, avoid=lambda e: False, nodes=()):
    """is a goal node reachable from the start nodes without passing an event (or node) to avoid?"""
    seen = set(starts)
    st = list(starts)
    while st:
        n = st.pop()
        if n in nodes:
            continue
        if n in goals:
            return True
        for e, m in R.G.out.get(n, []):
            if e is not None and avoid(e):
                continue
            if m not in seen:
                seen.add(m)
                st.append(m)
    return False


def edges(R, pred):
    """[(node, event, node)] of live events"""
    out = []
    seen = {R.entry}
    st = [R.entry]
    while st:
        n = st.pop()
        for e, m in R.G.out.get(n, []):
            if e is not None and pred(e):
                out.append((n, e, m))
            if m not in seen:
                seen.add(m)
                st.append(m)
    return out


def where(e):
    return "%s in %s" % (e.span, e.fn.replace("prometrics::", ""))


def reachable(R, start):
    seen = {start}
    st = [start]
    while st:
        n = st.pop()
        for e, m in R.G.out.get(n, []):
            if m not in seen:
                seen.add(m)
                st.append(m)
    return seen


def live_loops(R):
    """the loops of the final analysis that can be entered"""
    live = reachable(R, R.entry)
    out = []
    for ls in R.I.loops.values():
        for li in ls:
            if li.head in live and li not in out:
                out.append(li)
    return out


def body_nodes(R, li):
    """nodes from which the loop goes round again"""
    rev = {}
    for n, es in R.G.out.items():
        for e, m in es:
            rev.setdefault(m, []).append(n)
    ends = set(li.backnodes)
    seen = set(ends)
    st = list(ends)
    while st:
        n = st.pop()
        if n == li.head:
            continue
        for m in rev.get(n, []):
            if m not in seen:
                seen.add(m)
                st.append(m)
    return (seen & reachable(R, li.head)) | {li.head}


def inner_loop(R, node):
    """the innermost live loop around a node"""
    best = None
    for li in live_loops(R):
        b = body_nodes(R, li)
        if node in b and (best is None or len(b) < len(best[1])):
            best = (li, b)
    return best[0] if best else None


def round_paths(R, li, pred):
    """the sequences of interesting events in one repetition of a loop"""
    ps = paths(R, end=li.backnodes, start=li.head)
    if ps is None:
        return None
    return {tuple(e for e in evs if pred(e)) for evs, i in ps}


def whole_range(li, V, node=None):
    """do the exits of the loop (or the one at a node) mean that the index has run through all of V?"""
    for n, d in li.exitdom:
        if node is not None and n != node:
            continue
        if d is None or not (d[0].op == "int" and d[0].a[0] == 0) or d[1] is not seqlen(V):
            return False
    return True


def find_in(st, v, pred, seen=None, depth=0):
    """all subvalues of v, following the pointers into the memory of st, that satisfy pred"""
    seen = set() if seen is None else seen
    out = []
    for x in subterms(v):
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        if x.op == "ref" and x.a[0] in st.mem and depth < 30:
            w = st.mem[x.a[0]]
            if w not in seen:
                out += find_in(st, w, pred, seen, depth + 1)
    return out


# ------------------------------------------------------------------------------------------------ continuing from an outcome
class Client(object):
    """a caller that goes on from one outcome of an analysis"""

    def __init__(self, ctx, I, st, n=[0]):
        self.ctx, self.I = ctx, I
        self.st = st.copy()
        self.st.node = I.G.node()
        self.entry = self.st.node
        n[0] += 1
        self.k = n[0]
        self.fresh()

    def fresh(self):
        # every call of a client is its own: what it makes is new
        self.I.calls = getattr(self.I, "calls", 0) + 1
        self.I.nsite = 200000 + 1000 * self.I.calls

    def hold(self, v, tag):
        root = mk("H", "client", tag, self.k)
        self.st.mem[root] = v
        return ref(root)

    def call(self, name, ty, args, trait="", st=None, pub=None):
        """[(kind, value, state)]"""
        r = self.ctx.root(name, ty, trait, pub)
        self.fresh()
        st = (st or self.st).copy()
        self.I.steps = 0
        I = self.I
        keep = list(I.stack), list(I.loopstack), I.tags
        try:
            outs = [o for o in self.I.call_body(r["inst"], list(args), st.copy()) if o[2].feasible()]
        except Unmodelled as e:
            # nothing is known about the outcome
            I.stack[:], I.loopstack[:], I.tags = keep
            self.I.unknowns.append((str(e), r["nice"], r["span"]))
            outs = [("ret", mk("unk", "%s of %s" % (name, ty)), st)]
        self.ctx.analysed |= self.I.analysed
        return outs

    def one(self, name, ty, args, trait="", st=None, pub=None):
        outs = self.call(name, ty, args, trait, st, pub)
        if len(outs) != 1 or outs[0][0] != "ret":
            return None
        self.st = outs[0][2]
        return outs[0][1]

    def at(self, p):
        """what a pointer points to"""
        return self.I.deref(self.st, p)

    def view(self):
        c = self

        class X(object):
            G, I, entry = c.I.G, c.I, c.entry
        return X


def label_seq(cl, ty, h):
    """the sequence of labels behind a handle"""
    L = cl.one("labels", ty, [h], pub=True)
    if L is None:
        return None
    it = cl.one("iter", "Labels", [L], pub=True)
    if it is None:
        return None
    cells = {x.a[0] for x in subterms(it) if x.op == "immld"}
    if len(cells) != 1:
        return None
    v = cl.at(cells.pop())
    return v.a[2] if v is not None and v.op == "adt" and v.a[0] == "AtomicImmut" else v


def with_pre(st, pre):
    """the state in which the assumptions hold as well (None: they cannot)"""
    s = st.copy()
    for a in pre:
        if a[0] == "rng":
            r = iset_and(s.range(a[1]), a[2])
            if not r:
                return None
            s.rng[a[1]] = r
        elif a[0] == "fact":
            s.facts[a[1]] = a[2]
        elif a[0] == "between":
            s.facts[mk("within", *a[1:])] = True
            if not (s.assume(cmp_le("i", a[2], a[1]), True) and s.assume(cmp_lt("i", a[1], a[3]), True)):
                return None
        elif a[0] == "lin":
            t = integer(0, "i128")
            for x, k in a[1]:
                t = iadd(t, imul(x, integer(k, "i128"), "i128"), "i128")
            lo, hi = a[2]
            if not s.assume(cmp_le("i", integer(lo, "i128"), t), True) or not s.assume(cmp_le("i", t, integer(hi, "i128")), True):
                return None
        elif a[0] == "rel":
            if not s.setrel(a[1], a[2], a[3], a[4]):
                return None
    return s


def subst_atoms(atoms, m):
    return tuple(substa(a, m) for a in atoms)


# ------------------------------------------------------------------------------------------------ languages of strings
UPPER, LOWER, DIGIT = (65, 90), (97, 122), (48, 57)
METRIC_FIRST = iset_norm([UPPER, LOWER, (95, 95), (58, 58)])
METRIC_REST = iset_norm([UPPER, LOWER, DIGIT, (95, 95), (58, 58)])
LABEL_FIRST = iset_norm([UPPER, LOWER, (95, 95)])
LABEL_REST = iset_norm([UPPER, LOWER, DIGIT, (95, 95)])
ASCII = ((0, 127),)


def char_sets(st, S):
    """(smallest length, characters possible at first place, characters possible later) of a string"""
    if S.op == "str":
        cs = [ord(c) for c in S.a[0]]
        return len(cs), iset_norm([(c, c) for c in cs[:1]]), iset_norm([(c, c) for c in cs[1:]])
    C, B = mk("chars", S), mk("bytes", S)
    zero = integer(0, "usize")
    n = max(st.range(mk("len", C))[0][0], min(1, st.range(mk("len", B))[0][0]))
    sets = []
    for X in (C, B):
        f = st.range(proj(X, ("i", zero)))
        i = mk("anyix", X)
        s = with_pre(st, [("between", i, integer(1, "usize"), mk("len", X))])
        r = s.range(proj(X, ("i", i))) if s is not None else ()
        if s is not None and iset_sub(r, ASCII):
            # loops that are left early say something of the places before the one they were left at
            for x in {x for f_ in s.facts if f_.op == "forall" for x in f_.a[:2] if x.op == "lv"}:
                r2 = ()
                for c in (cmp_lt("i", i, x), cmp_eq("i", i, x), cmp_lt("i", x, i)):
                    s2 = s.copy()
                    if s2.assume(c, True) and s2.feasible():
                        y = x if c.op == "eq" else i
                        r2 = iset_norm(list(r2) + list(s2.range(proj(X, ("i", y)))))
                r = iset_and(r, r2)
        sets.append((f, r))
    (f, r), (fb, rb) = sets
    if not iset_sub(fb, ASCII):
        f = iset_and(f, fb)
    if not iset_sub(rb, ASCII):
        r = iset_and(r, rb)
    return n, f, r


def other_knowledge(st, S):
    """is something else known about S that the character sets do not reflect?"""
    if st.facts.get(mk("lossy", "str")):
        return True

    def odd(x):
        return x.op in ("strfn", "substr", "ures", "unk", "replace", "split", "find", "parse") and contains(x, lambda y: y is S)
    for d in (st.facts, st.rng):
        for k in d:
            if contains(k, odd):
                return True
    for a, b in st.rel:
        if contains(a, odd) or contains(b, odd):
            return True
    return False


def iset_show(r, n=6):
    def ch(c):
        return repr(chr(c)) if 32 <= c < 127 else "U+%04X" % c if 0 <= c < 0x110000 else str(c)
    return "{%s%s}" % (", ".join(ch(a) if a == b else "%s..%s" % (ch(a), ch(b)) for a, b in r[:n]), ", ..." if len(r) > n else "")


def in_language(st, S, first, rest):
    """(True/False/None, detail)"""
    n, f, r = char_sets(st, S)
    bad = []
    if n < 1:
        bad.append("may be empty")
    x = iset_sub(f, first)
    if x:
        bad.append("may begin with %s" % iset_show(x))
    x = iset_sub(r, rest)
    if x:
        bad.append("may contain %s" % iset_show(x))
    if not bad:
        return True, ""
    if other_knowledge(st, S) or not closed(S):
        t = trimmed(st, S, first, rest)
        if t:
            return False, t
        return None, "; ".join(bad)
    return False, "; ".join(bad)


def trimmed(st, S, first, rest):
    """what was checked is the string without some characters at its ends: those characters can be there"""
    ts = set()
    for d in (st.facts, st.rng):
        for k in d:
            for x in subterms(k):
                if x.op in ("strfn", "substr", "ures", "unk", "replace", "split", "find", "parse", "lossy") and (x.op == "lossy" or contains(x, lambda y: y is S)):
                    ts.add(x)
    if len(ts) != 1:
        return None
    x = ts.pop()
    if x.op != "strfn" or not x.a[0].startswith("str::trim") or x.a[1] is not S:
        return None
    if in_language(st, x, first, rest)[0] is not True:
        return None
    cs = ((9, 13), (32, 32))
    if len(x.a) > 2:
        if x.a[2].op != "str" and x.a[2].op != "int":
            return None
        c = ord(x.a[2].a[0][0]) if x.a[2].op == "str" and x.a[2].a[0] else x.a[2].a[0]
        if not isinstance(c, int):
            return None
        cs = ((c, c),)
    end = x.a[0] in ("str::trim_end", "str::trim_end_matches", "str::trim_right")
    y = iset_sub(cs, rest if end else first)
    return "may %s with %s" % ("end" if end else "begin", iset_show(y)) if y else None


def valid_atoms(S, first, rest, bv, dunder=False):
    """facts that say that S is in the language"""
    C, B = mk("chars", S), mk("bytes", S)
    zero, one = integer(0, "usize"), integer(1, "usize")
    out = [("rng", mk("len", C), ((1, BIG),)), ("rng", mk("len", B), ((1, BIG),)),
           ("rng", proj(C, ("i", zero)), first), ("rng", proj(B, ("i", zero)), first)]
    for X in (C, B):
        out.append(("fact", mk("forall", one, mk("len", X), ((("rng", proj(X, ("i", bv)), rest),),), bv), True))
        out.append(("fact", mk("forall", zero, mk("len", X), ((("rng", proj(X, ("i", bv)), rest),),), bv), True))
    if dunder:
        out.append(("fact", mk("starts_with", S, string("__")), False))
    return tuple(out)


# ------------------------------------------------------------------------------------------------ ideal arithmetic
def lincomb(t, env=None, st=None):
    """t as an exact linear combination over the reals: ({atom: coefficient}, constant)"""
    env = env or {}
    o = t.op

    def add(a, b, k=1):
        d = dict(a[0])
        for x, c in b[0].items():
            d[x] = d.get(x, 0) + k * c
            if d[x] == 0:
                del d[x]
        return d, a[1] + k * b[1]
    if t in env:
        return env[t]
    if o == "int":
        return {}, Fraction(t.a[0])
    if o == "f64":
        v = ffrom(t.a[0])
        if v == v and abs(v) != float("inf"):
            return {}, Fraction(v)
        return {t: Fraction(1)}, Fraction(0)
    if o == "fadd":
        return add(lincomb(t.a[0], env, st), lincomb(t.a[1], env, st))
    if o == "fneg":
        return add(({}, Fraction(0)), lincomb(t.a[0], env, st), -1)
    if o == "lin":
        r = ({}, Fraction(t.a[1]))
        for x, k in t.a[2]:
            r = add(r, lincomb(x, env, st), k)
        return r
    if o == "i2f":
        return lincomb(t.a[0], env, st)
    if o in ("frombits", "tobits") and t.a[0].op in ("frombits", "tobits") and t.a[0].op != o:
        return lincomb(t.a[0].a[0], env, st)
    if o in ("frombits", "tobits"):
        r = lincomb(t.a[0], env, st)
        if t.a[0] in env or t.a[0].op not in ("aload", "casfail", "lv"):
            return r
    if o == "fmul" or o == "imul":
        a, b = lincomb(t.a[-2], env, st), lincomb(t.a[-1], env, st)
        for x, y in ((a, b), (b, a)):
            if not x[0]:
                return {k: c * x[1] for k, c in y[0].items() if c * x[1]}, y[1] * x[1]
    if o == "fdiv":
        b = lincomb(t.a[1], env, st)
        if not b[0] and b[1]:
            a = lincomb(t.a[0], env, st)
            return {k: c / b[1] for k, c in a[0].items()}, a[1] / b[1]
    if o == "f2i" and st is not None and integral(t.a[0], st, t.a[1]):
        return lincomb(t.a[0], env, st)
    if o in ("floor", "ceil", "trunc", "round") and st is not None and integral(t.a[0], st):
        return lincomb(t.a[0], env, st)
    if o == "sum" or o == "fsum":
        pass
    if o == "cast" and t.a[1] in INTS:
        # a narrowing that provably keeps the value was dropped already
        pass
    return {t: Fraction(1)}, Fraction(0)


ROUND = ("floor", "ceil", "trunc", "round")


def integral(x, st, ty="u64"):
    """is the float x known to be an integer that fits into ty on this path?"""
    r = st.range_f(x)
    lo, hi = INTS[ty]
    for a, b in r:
        if a == NAN_ORD:
            return False
        fa, fb = unford(a), unford(b)
        if (fa < lo or fb > hi) and not saturates(x, st, ty):
            return False
    if x.op == "i2f":
        return True
    for f, v in st.facts.items():
        if f.op == "eq" and v:
            k, a, b = f.a
            if is_int_test(a, b, x) or is_int_test(b, a, x):
                return True
        if f.op == "eq" and v and f.a[0] == "f" and f.a[2].op == "f64" and ffrom(f.a[2].a[0]) == 0 and f.a[1].op in ("frem", "fract") and f.a[1].a[0] is x:
            return True
    for (a, b), m in st.rel.items():
        if m == EQ and (is_int_test(a, b, x) or is_int_test(b, a, x)):
            return True
    for f, r in st.rng.items():
        if f.op in ("fract", "frem") and f.a[0] is x and r == ((0, 0),):
            return True
    return False


def saturates(x, st, ty):
    return False


def is_int_test(a, b, x):
    """a == b implies that x is an integer (given that it is in range)"""
    if a is x and (b.op in ROUND and b.a[0] is x or b.op == "i2f" and b.a[0].op == "f2i" and b.a[0].a[0] is x):
        return True
    if a.op == "f2i" and b.op == "f2i":
        p, q = a.a[0], b.a[0]
        if p is x and q.op == "ceil" and q.a[0] is x:
            return True
        if p.op == "floor" and p.a[0] is x and q.op == "ceil" and q.a[0] is x:
            return True
    if a.op == "floor" and b.op == "ceil" and a.a[0] is x and b.a[0] is x:
        return True
    return False


def lc_show(l):
    d, c = l
    s = " + ".join("%s*%s" % (k, show(x)) if k != 1 else show(x) for x, k in d.items())
    return (s + " + " if s else "") + str(c)


# ------------------------------------------------------------------------------------------------ sequential effects
class Effect(object):
    def __init__(self):
        self.cells = {}     # cell -> (term over the cell's own old value `old`, Event) applied in order


OLD = lambda cell: mk("cellval", cell)


def seq_effect(evs):
    """what a path does to the atomic cells it touches when nobody interferes: {cell: value over cellval(cell)}; None if not understood"""
    cur = {}
    seen = {}
    for e in evs:
        if e.kind != "atomic":
            continue
        cell = e.cell
        c = cur.get(cell, OLD(cell))
        op = e.op
        if op == "load":
            seen[e.val] = c
        elif op == "store":
            cur[cell] = subst(e.new, seen)
        elif op in ("rmw", "swap"):
            old = e.d.get("old")
            m = dict(seen)
            if old is not None:
                m[old] = c
                seen[old] = c
            cur[cell] = subst(e.new, m)
        elif op == "cas":
            m = dict(seen)
            m[e.exp] = c
            cur[cell] = subst(e.new, m)
            if e.exp.op == "lv":
                seen[e.exp] = c
        elif op == "casfail":
            seen[e.val] = c
    return cur


def apply_cells(t, eff, ty="i128"):
    """replace loads in a getter's value by the cells' contents"""
    def f(x):
        if x.op == "aload":
            return eff.get(x.a[0], OLD(x.a[0]))
        if x.op in ("sum", "fsum"):
            lo, hi, init, cases, bv = x.a
            base = subst(x, lambda y: OLD(y.a[0]) if y.op == "aload" else None)
            if len(cases) == 1 and not cases[0][0] and cases[0][1].op == "aload":
                pat = cases[0][1].a[0]
                for cell, new in eff.items():
                    m = match_index(pat, cell, bv)
                    if m is not None:
                        d = isub(new, OLD(cell), ty) if x.op == "sum" else fbin("sub", new, OLD(cell))
                        base = iadd(base, d, ty) if x.op == "sum" else fbin("add", base, d)
            return base
        return None
    return subst(t, f)


def match_index(pat, cell, bv):
    """t such that pat with bv := t is cell"""
    if pat.op != "ref" or cell.op != "ref" or pat.a[0] is not cell.a[0] or len(pat.a[1]) != len(cell.a[1]):
        return None
    t = None
    for c, d in zip(pat.a[1], cell.a[1]):
        if c == d:
            continue
        if c[0] == "i" and d[0] == "i" and c[1] is bv and t is None:
            t = d[1]
        else:
            return None
    return t


def histogram_buckets(ctx):
    """the sequence behind Histogram::buckets"""
    R = ctx.run(ctx.root("buckets", "Histogram", pub=True))
    if len(R.outs) == 1 and R.outs[0][1].op == "ref":
        r, pa = R.outs[0][1].a
        return get(R.I.load(R.outs[0][2], r, ()), pa)
    if len(R.outs) == 1:
        return mk("deref", R.outs[0][1])
    return None


def bound_of(ctx, V, ix):
    """the upper bound of the bucket at an index"""
    k = getattr(ctx, "_ubk", None)
    if k is None:
        cl = Client(ctx, ctx.run(ctx.root("buckets", "Histogram", pub=True)).I, State())
        k = ctx._ubk = cl.one("upper_bound", "Bucket", [cl.hold(mk("elt"), "b")], pub=True) or mk("unk", "bound")
    e = proj(V, ("i", ix))
    return subst(k, lambda t: e if t.op == "elt" and not t.a else None)


def fails_at_inf(st, atoms, u):
    """can the conditions not all hold when the bound u is +Inf?"""
    for a in atoms:
        if a[0] == "rel" and (a[2] is u or a[3] is u):
            x = a[2] if a[3] is u else a[3]
            if a[1] not in ("f", "?"):
                continue
            can = LT | EQ
            if any(lo <= NAN_ORD <= hi for lo, hi in st.range_f(x)):
                can |= UN
            if a[2] is u:
                can = (can & (EQ | UN)) | (GT if can & LT else 0)
            if not can & a[4]:
                return True
        elif a[0] == "rng" and a[1] is u:
            if not any(lo <= ford(float("inf")) <= hi for lo, hi in a[2]):
                return True
        elif a[0] == "fact" and contains(a[1], lambda x: x is u):
            p = subst(a[1], {u: flt(float("inf"))})
            if st.decide(p) is (not a[2]):
                return True
    return False


def passed(R, st):
    """st with what loops that count up have established about the indices they passed"""
    out = None
    for ls in R.I.loops.values():
        for li in ls:
            X = li.kind
            if not isinstance(X, T) or X.op != "lv" or not li.backst:
                continue
            w = (X.a[1], X.a[2])
            z = li.init.get(w)
            if z is None or z.op != "int" or z.a[0] != 0:
                continue
            if not any(contains(t, lambda x: x is X) for t in list(st.facts) + list(st.rng) + [y for k in st.rel for y in k]):
                continue
            cases = []
            h = 0
            for b, s in zip(li.backs, li.backst):
                if b.get(w) is not iadd(X, integer(1, "usize"), "usize"):
                    cases = None
                    break
                ats = [("fact", f, v) for f, v in s.facts.items() if f.op != "forall"] + [("rng", t, r) for t, r in s.rng.items()] + [("rel", "?", a, c, m) for (a, c), m in s.rel.items()]
                ats = [a for a in ats if any(contains(t, lambda x: x is X) for t in a if isinstance(t, T)) and not any(contains(t, lambda x: x.op == "lv" and x is not X) for t in a if isinstance(t, T))]
                h = max([h] + [x.a[0] for a in ats for t in a if isinstance(t, T) for x in subterms(t) if x.op == "bv"])
                cases.append(ats)
            if cases and all(cases):
                bv = mk("bv", h + 1)
                out = out or st.copy()
                cs = tuple(tuple(tuple(subst(x, {X: bv}) if isinstance(x, T) else x for x in a) for a in c) for c in cases)
                out.facts[mk("forall", z, X, cs, bv)] = True
    return out or st


def infeasible(ctx, st):
    """paths on which a value that is not NaN lies above every bucket bound do not exist: +Inf is a bound of every histogram (C17)"""
    if not st.feasible():
        return True
    V = None
    for f, b in list(st.facts.items()):
        if f.op == "bsfound" and not b or f.op in ("bsexact", "bspart"):
            V = V or histogram_buckets(ctx)
            fi = f.a[0]
            if V is not None and fi.a[1] is V:
                p = subst(fi.a[0], lambda x: flt(float("inf")) if x.op == "proj" and x.a[0].op == "elt" else None)
                if st.decide(p) is True and (f.op == "bsfound" or st.decide(cmp_lt("i", fi, seqlen(V))) is False):
                    return True
        elif f.op == "forall" and b and f.a[0].op == "int" and f.a[0].a[0] == 0:
            V = V or histogram_buckets(ctx)
            lo, hi, cases, bv = f.a
            if V is None or not any(x is V for x in subterms(f)):
                continue
            n = seqlen(V)
            if hi is n or st.decide(cmp_le("i", n, hi)) is True:
                u = bound_of(ctx, V, bv)
                if known(u) and all(fails_at_inf(st, c, u) for c in cases):
                    return True
    return counted_all(ctx, st)


def counted_all(ctx, st):
    """the number of buckets whose bound has a property is the number of all buckets, though +Inf does not have it"""
    V = None
    for t in {x for k in list(st.rng) + [y for p in st.rel for y in p] for x in subterms(k) if x.op == "sum"}:
        lo, hi, init, cases, bv = t.a
        V = V or histogram_buckets(ctx)
        if V is None or lo is not integer(0, "usize") or hi is not seqlen(V) or init.op != "int" or init.a[0] != 0:
            continue
        u = bound_of(ctx, V, bv)
        if not known(u) or any(v.op != "int" or v.a[0] not in (0, 1) for c, v in cases):
            continue
        if st.decide(cmp_lt("i", t, hi)) is False and all(v.a[0] == 0 or fails_at_inf(st, c, u) for c, v in cases):
            return True
    return False


def lossless(S):
    """(what a sequence is a reordering of, True; or what it is made from, False if elements are dropped on the way and None if that is not known)"""
    ok = True
    while True:
        if S.op in ("sort", "rev"):
            S = S.a[-1]
        elif S.op in ("dedup", "truncate", "swaprm", "remove", "popfront", "popback"):
            ok = False
            S = S.a[1] if S.op == "dedup" else S.a[0]
        elif S.op == "comp" and S.a[2].op == "list" and not S.a[2].a and S.a[1].op == "len":
            lo, hi, init, cases, bv = S.a
            Y = hi.a[0]
            e = proj(Y, ("i", bv))
            if any(xs not in ((), (e,)) for c, xs in cases):
                return S, ok
            if lo.op == "int" and lo.a[0] or any(not xs for c, xs in cases):
                ok = False if ok is False or known(S) else None
            S = Y
        else:
            return S, ok


def cells_of(t):
    return {x.a[0] for x in subterms(t) if x.op == "aload"}


# ------------------------------------------------------------------------------------------------ outcomes
def is_ok(v):
    return v.op == "adt" and v.a[0] == RES and v.a[1] == 0


def is_err(v):
    return v.op == "adt" and v.a[0] == RES and v.a[1] == 1


def is_some(v):
    return v.op == "adt" and v.a[0] == OPT and v.a[1] == 1


def is_none(v):
    return v.op == "adt" and v.a[0] == OPT and v.a[1] == 0


def err_kind(ctx, v):
    """name of the ErrorKind in an Err value"""
    if not is_err(v):
        return None
    for x in subterms(v):
        if x.op == "adt" and x.a[0].split("::")[-1] == "ErrorKind" and len(x.a) == 2:
            ty = ctx.F.types[ctx.F.adts[x.a[0]]["ty"]]
            return ty["variants"][x.a[1]]["n"]
    return None


# ------------------------------------------------------------------------------------------------ client sessions
class Session(object):
    """a client program: calls of public functions one after another on symbolic values"""

    def __init__(self, ctx, **cfg):
        c = dict(poison=False)
        c.update(cfg)
        self.ctx = ctx
        self.I = Interp(ctx.F, Config(**c))
        TOUCHED.append(self.I)
        st = State()
        st.node = self.I.G.node()
        self.entry = st.node
        self.G = self.I.G
        self.st = st
        self.n = 0
        self.outs = []

    def call(self, st, r, args):
        self.n += 1
        self.I.nsite = 100000 + self.n
        outs = self.I.call_body(r["inst"], list(args), st.copy() if False else st)
        self.ctx.analysed |= self.I.analysed
        return outs

    def new(self, st, val, tag):
        root = mk("H", "client", tag)
        st.mem[root] = val
        return mk("ref", root, ())

    def hold(self, st, val, tag):
        """keep val reachable"""
        st.mem[mk("L", mk("fr", "client"), tag)] = val


def decide(fn, ctx, chk, catch=True):
    """run the check on the tree as built for development and, where that is another program, as built for release"""
    attempt(fn, ctx, chk, catch)
    if ctx.release is None:
        chk.notes.append("without debug assertions the crate's MIR is the same")
        return
    chk.notes.append("analysed twice: with debug assertions, and as built for release")
    c2 = Check(chk.pid)
    attempt(fn, ctx.release, c2, catch)
    ctx.analysed |= ctx.release.analysed
    have = {(o[0], o[1]) for o in chk.ob}
    for o in c2.ob:
        if o[1] != "ok" and (o[0], o[1]) not in have:
            chk.add(o[0] + " (built for release)", *o[1:])
    chk.extra = len(c2.ob)


def attempt(fn, ctx, chk, catch):
    try:
        fn(ctx, chk)
    except Missing as e:
        chk.add("missing: %s" % e, "violation", "the public item the property is anchored to is not there")
    except Exception as e:
        if not catch:
            raise
        # the analysis does not understand the tree: the rest of the property is undecided
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        chk.add("the analysis as a whole", "unknown", "%r at %s:%s" % (e, os.path.basename(tb[0]), tb[1]))


def finish(chk, ctx, tier, seed):
    """print the verdict, write the evidence; -> exit code"""
    kf = known_findings(chk.pid)
    os.makedirs(EVID, exist_ok=True)
    viol = [o for o in chk.ob if o[1] == "violation"]
    unk = [o for o in chk.ob if o[1] == "unknown"]
    new, old = [], []
    seen = set()
    for o in viol:
        if o[0] in seen:
            continue
        seen.add(o[0])
        (old if o[0] in kf else new).append(o)
    for o in old:
        print("KNOWN-FINDING: property=%s %s" % (chk.pid, kf[o[0]]))
    path = os.path.join(EVID, "%s.json" % chk.pid)
    rep = os.path.join(EVID, "%s.violations.txt" % chk.pid)
    if os.path.exists(rep):
        os.unlink(rep)
    for o in new:
        print("  %s: %s%s" % (o[0], o[2], " [%s]" % o[3] if o[3] else ""))
    if new:
        with open(rep, "w") as f:
            for o in new:
                f.write("%s\n  %s\n  %s\n" % (o[0], o[2], o[3]))
        print("VIOLATION property=%s replay=%s" % (chk.pid, rep))
    okn = len([o for o in chk.ob if o[1] == "ok"])
    ev = {
        "property": chk.pid, "tier": tier, "seed": seed, "level": LEVEL[0],
        "coverage": {
            "explanation": "Static analysis of the MIR of the current tree; no code of the crate is executed. "
                           "Rules: " + " ".join(chk.rules),
            "build_profiles": "; ".join(chk.notes), "obligations_of_the_release_build": getattr(chk, "extra", 0),
            "obligations": len(chk.ob), "discharged": okn, "undecided": len(unk), "known_findings": len(old),
            "functions_analysed": len(ctx.analysed),
            "functions": sorted(x.replace("prometrics::", "") for x in ctx.analysed)[:400],
            "roots_in_crate": len(ctx.F.roots),
            "obligation_list": [{"obligation": o[0], "status": o[1], "where": o[3]} for o in chk.ob][:600],
            "unknown_constructs": sorted(set("%s %s" % (o[0], o[2]) for o in unk))[:60],
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - chk.t0, 3),
        "violations": [{"key": o[0], "detail": o[2][:600], "where": o[3]} for o in new],
    }
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations, %d hold, %d undecided, %d violated, %d known (%.1f s)" % (chk.pid, len(chk.ob), okn, len(unk), len(new), len(old), time.time() - chk.t0))
    for o in unk[:20]:
        print("  undecided: %s %s" % (o[0], o[2][:200]))
    return 1 if new else 0


LEVEL = ["other"]
ASSUME = [
    "The models of std, atomic_immut, trackable, lazy_static, procinfo and libc functions in sa/models.py state what those functions do.",
    "Integer totals stay below 2^64; floating point sums are compared as exact real sums (rounding is not judged).",
]


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s " % pid):]
                key, _, what = rest.partition(" :: ")
                out[key] = what
    return out


def exits_of(R, li):
    out = []
    for x in li.exits:
        if isinstance(x, tuple) and len(x) >= 3 and isinstance(x[2], State):
            out.append((x[2].node, x[2]))
    if isinstance(getattr(li, "exitst", None), (list, tuple)):
        for s in li.exitst:
            if isinstance(s, State):
                out.append((s.node, s))
    return out
