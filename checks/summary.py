"""C20, C21: the window of summaries and their quantiles."""
from sa.lib import *
from .values import floor
from .config import finished, oks
from .gathering import members

ELT = mk("elt")
ZERO = mk("int", 0, "usize")
READERS = (("quantiles", "Summary"), ("quantiles", "AggregatedSummary"))
DUR = ("dur_as_nanos", "dur_as_secs_f64")


def relpairs(st):
    for (x, y), m in st.rel.items():
        while x.op in DUR and y.op == x.op:
            x, y = x.a[0], y.a[0]
        yield x, y, m
        yield y, x, flip(m)
    for f, v in st.facts.items():
        if f.op in ("lt", "le") and len(f.a) >= 2 and all(isinstance(x, T) and x.op in DUR for x in f.a[-2:]):
            x, y = f.a[-2].a[0], f.a[-1].a[0]
            m = LT if f.op == "lt" else LT | EQ
            m = m if v else 7 & ~m
            yield x, y, m
            yield y, x, flip(m)


class Age(object):
    """how the age of an observation made at time x compares with the window on a path"""

    def __init__(self, st, x):
        self.mask = LT | EQ | GT        # age ? window
        self.windows, self.clocks = set(), set()
        self.future = None              # made after now, so that it has no age
        self.clockmask = LT | EQ | GT   # x ? now
        for a, b, m in relpairs(st):
            m &= 7
            if a.op == "tdiff" and a.a[1] is x:
                self.windows.add(b)
                self.clocks.add(a.a[0])
                self.mask &= m
            if a is x and b.op == "now":
                self.clocks.add(b)
                self.clockmask &= m
            if a is x and b.op == "tsub" and b.a[0].op == "now":
                self.clocks.add(b.a[0])
                self.windows.add(b.a[1])
                self.mask &= flip(m) & 7
            if a.op == "tadd" and a.a[0] is x and b.op == "now":
                self.clocks.add(b)
                self.windows.add(a.a[1])
                self.mask &= flip(m) & 7
            if a.op == "mkdur" and all(y.op in ("int", "f64") and y.a[0] == 0 for y in a.a[1:]) and not m & (LT | EQ):
                # nothing is shorter than no time at all: not a path
                self.mask = 0
        for f, v in st.facts.items():
            # the beginning of the window cannot be represented: nothing is that old
            if f.op == "representable" and not v and f.a[0].op == "tsub" and f.a[0].a[0].op == "now":
                self.windows.add(f.a[0].a[1])
                self.clocks.add(f.a[0].a[0])
                self.mask &= LT
            if f.op == "representable" and not v and f.a[0].op == "tadd" and f.a[0].a[0] is x:
                self.windows.add(f.a[0].a[1])
                self.mask &= LT
        if self.clockmask == GT:
            self.mask &= LT


def settled(t):
    """known, and not by what a loop carries"""
    return known(t) and not contains(t, lambda x: x.op == "lv")


def conds_state(conds):
    return with_pre(State(), conds)


def sample_time(x):
    return proj(x, ("f", 0))


def locks(R):
    """[(cell, site)] of the locks taken"""
    out = []
    for n, e, m in edges(R, lambda e: e.kind == "lock"):
        if e.cell not in out:
            out.append(e.cell)
    return out


def content(I, cell):
    """(root, path) of what a lock protects"""
    root, path = I.addr(cell)
    return root, tuple(path) + (("f", 0),)


def at_content(I, e, cells):
    for c in cells:
        root, path = content(I, c)
        if e.root is root and tuple(e.path)[:len(path)] == path:
            return True
    return False


class Window(object):
    """how one function handles the samples behind a lock"""

    def __init__(self, ctx, chk, name, ty, member=False):
        self.ctx, self.chk = ctx, chk
        self.what = "%s::%s" % (ty, name)
        r = self.r = ctx.root(name, ty, pub=True)
        del TOUCHED[:]
        self.R = R = ctx.run(r, keepall=True)
        if member:
            # an aggregation has at least one member
            f = members(ctx, ty)
            if f is not None:
                self.R = R = ctx.run_pre(r, [("rng", seqlen(proj(mk("deref", R.args[0]), f)), ((1, (1 << 63) - 1),))], keepall=True)
        self.I = R.I
        self.cells = locks(R)
        self.loops = []
        self.cuts = []
        self._fresh = None
        self.windows, self.clocks = set(), set()
        for li in live_loops(R):
            for w in li.W:
                i = li.init.get(w)
                if i is None:
                    continue
                if any(w == content(R.I, c) for c in self.cells):
                    self.loops.append((li, w))

    def fresh(self):
        """sequences known to hold no expired sample"""
        if self._fresh is None:
            out = {mk("lv", li.id, w[0], w[1]) for li, w in self.loops}
            for k, v, s in self.R.outs:
                for t in [v] + list(s.rng) + list(s.facts):
                    for x in subterms(t):
                        # the same loop for a member named by a bound variable
                        if x.op == "lv" and any(x.a[0] is li.id and x.a[2] == w[1] for li, w in self.loops):
                            out.add(x)
            for n, e, m in edges(self.R, lambda e: e.kind == "write"):
                if at_content(self.R.I, e, self.cells) and e.val.op == "subseq":
                    self.cuts.append(e)
                    out.add(e.val)
            self._fresh = out
        return self._fresh

    def judge(self):
        chk, R = self.chk, self.R
        floor(chk, self.what + " takes the lock of the samples", len(self.cells), 1)
        for li, w in self.loops:
            self.expiry(li, w)

    def expiry(self, li, w):
        """one loop that discards samples: only expired ones, and all of them"""
        chk, span = self.chk, li.span
        L = mk("lv", li.id, w[0], w[1])
        a = "%s discards only what is older than the window" % self.what
        b = "%s keeps nothing that is older than the window" % self.what
        c = "%s starts from all samples" % self.what
        i = li.init[w]
        chk.expect(c, i.op == "locked" or i.op == "lv", show(i)[:100], span, closed=closed(i))
        first = proj(L, ("i", ZERO))
        n = 0
        for v, st in zip(li.backs, li.backst):
            if not st.feasible():
                continue
            x = v.get(w, L)
            if x is L:
                continue
            n += 1
            if x.op != "popfront" or x.a[0] is not L:
                chk.expect(a, False, "what remains: %s" % show(x)[:100], span, closed=known(x))
                continue
            g = self.age(st, first)
            chk.expect(a, not g.mask & (LT | EQ), "the oldest sample is discarded although its age may be %s the window" % words(g.mask), span)
        floor(chk, self.what + ": ways to discard a sample", n, 1)
        n = 0
        for st in li.exitst:
            if not st.feasible():
                continue
            n += 1
            if st.range(seqlen(L)) == ((0, 0),):
                chk.ok(b, "empty", span)
                continue
            g = self.age(st, first)
            chk.expect(b, not g.mask & GT, "the oldest sample may be %s the window" % words(g.mask), span)
        floor(chk, self.what + ": ends of discarding", n, 1)

    def odd(self):
        """samples taken off are put back: what remains is not followed"""
        return any(contains(e.val, lambda x: x.op == "pushfront") for n, e, m in edges(self.R, lambda e: e.kind == "write") if at_content(self.R.I, e, self.cells))

    def cut(self, e):
        """the samples before a position are discarded: all before it, and none from it on, are expired"""
        chk, R, S = self.chk, self.R, e.val
        a = "%s discards only what is older than the window" % self.what
        b = "%s keeps nothing that is older than the window" % self.what
        V, n, end = S.a
        if n is end and any(o.val.a[0] is V and o.val.a[1] is not end for o in self.cuts):
            # nothing was kept: judged where the position is counted
            return
        if n is ZERO:
            q = e.st.copy()
            if q.assume(cmp_lt("i", ZERO, seqlen(V)), True) and q.feasible():
                g = self.age(q, proj(V, ("i", ZERO)))
                if g.mask == GT:
                    chk.bad(b, "nothing is discarded although the first sample is more than the window old", where(e))
                    return
        li = loop_named(R, n) if n.op == "lv" else None
        if V.op != "locked" or end is not seqlen(V) or li is None:
            chk.unk(a, "up to %s" % show(n)[:80], where(e))
            return
        w = (n.a[1], n.a[2])
        X = n
        if li.kind is not n:
            X = li.kind
        at = [x for x in (li.backst + li.exitst) if x.feasible()]
        one = integer(1, "usize")
        sync = X is not None and X.op == "lv" and all(li.init.get((y.a[1], y.a[2])) is ZERO and all(not st.feasible() or bk.get((y.a[1], y.a[2])) is iadd(y, one, "usize") for bk, st in zip(li.backs, li.backst)) for y in (n, X))
        if not sync:
            chk.unk(a, "a position not counted one by one", where(e))
            return
        x = proj(V, ("i", X))
        for st in li.backst:
            if st.feasible():
                g = self.age(st, x)
                chk.expect(a, not g.mask & (LT | EQ), "a sample is passed although its age may be %s the window" % words(g.mask), li.span)
        for st in li.exitst:
            if not st.feasible():
                continue
            q = st.copy()
            if not (q.assume(cmp_lt("i", X, seqlen(V)), True) and q.feasible()):
                chk.ok(b, "no more samples", li.span)
                continue
            g = self.age(q, x)
            chk.expect(b, not g.mask & GT, "the first sample kept may be %s the window" % words(g.mask), li.span)

    def age(self, st, x):
        g = Age(st, sample_time(x))
        self.windows |= g.windows
        self.clocks |= g.clocks
        return g

    def kept(self, S):
        """is a sequence made from the samples after the expired ones were discarded? True, False, None"""
        if S in self.fresh():
            return True
        if S.op == "comp":
            # a filter
            lo, hi, init, cases, bv = S.a
            if hi.op == "len" and hi.a[0].op in ("locked", "lv", "deref"):
                V = hi.a[0]
                x = proj(V, ("i", bv))
                res = True
                for conds, xs in cases:
                    st = conds_state(conds)
                    if st is None:
                        continue
                    g = self.age(st, x)
                    if xs and g.mask & GT and V not in self.fresh():
                        res = False
                return res
        if S.op == "locked":
            return False
        return None


def loop_named(R, t):
    for ls in R.I.loops.values():
        for li in ls:
            if li.id is t.a[0]:
                return li
    return None


def words(m):
    return "/".join(w for b, w in ((LT, "less than"), (EQ, "equal to"), (GT, "more than")) if m & b)


def sources(t, W):
    """the sequences of samples a term is made from: loop variables and contents of locks that stand for what the lock protects"""
    fresh = W.fresh()
    out, seen = set(), set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], tuple) and any(isinstance(a, tuple) and a and a[0] == "fact" and not a[2] and beginning(a[1]) for a in x[0]):
                # nothing can be that old here
                return
            for y in x:
                walk(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x in fresh or x.op == "locked":
            out.add(x)
            return
        walk(x.a)
    walk(t)
    return out


def c20(ctx, chk):
    chk.rule("in every function that takes the lock of the samples, a loop over the locked list removes the oldest sample exactly while its age at the time of the call exceeds the window of the builder, until none such is left; what is read is the list after that loop, what observe adds is one sample with the time of the call, and nothing else changes the list")
    ws, cs = set(), set()
    fns = {}
    for name, ty in (("observe", "Summary"),) + READERS:
        W = fns[(name, ty)] = Window(ctx, chk, name, ty)
        R = W.R
        W.judge()
        key = "%s discards expired samples first" % W.what
        if not W.loops:
            filt = [x for k, v, s in R.outs for x in subterms(v) if x.op == "comp" and W.kept(x) is True] if name != "observe" else []
            opaque = any(e.kind == "unknown" for n, e, m in edges(R, lambda e: e.kind == "unknown"))
            evs = [e for n, e, m in edges(R, lambda e: e.kind == "write") if at_content(R.I, e, W.cells)]
            filt += [e.val for e in evs if isinstance(e.val, T) and e.val.op == "comp" and judge_filter(chk, W, e.val)]
            W.fresh()
            for e in W.cuts:
                W.cut(e)
            if filt:
                chk.ok(key, "filtered", W.r["span"])
            elif W.cuts:
                chk.ok(key, "cut off", W.r["span"])
            elif any(x.op in ("drain", "splitoff", "unk") for e in evs for x in subterms(e.val)) or opaque or R.I.unknowns:
                chk.unk(key, "how was not understood", W.r["span"])
            else:
                chk.bad(key, "no loop over the locked samples", W.r["span"])
        else:
            chk.ok(key, "", W.r["span"])
        if name == "quantiles":
            reads(chk, W)
            nowrites(chk, W)
        else:
            adds(chk, W)
        chk.expect("%s: ages are taken at the time of the call" % W.what, all(x.op == "now" for x in W.clocks), "; ".join(show(x)[:60] for x in W.clocks), W.r["span"], closed=known(*W.clocks))
        ws |= {(W, x) for x in W.windows}
        chk.scope()
    window(ctx, chk, ws)
    noeffect(chk, fns)
    totals(ctx, chk)


def judge_filter(chk, W, S):
    """a list filtered by age"""
    lo, hi, init, cases, bv = S.a
    if hi.op != "len" or hi.a[0].op not in ("locked", "lv") or init.a or lo is not ZERO:
        return False
    V = hi.a[0]
    x = proj(V, ("i", bv))
    a = "%s discards only what is older than the window" % W.what
    b = "%s keeps nothing that is older than the window" % W.what
    for conds, xs in cases:
        st = conds_state(conds)
        if st is None:
            continue
        g = W.age(st, x)
        if xs:
            chk.expect(b, not g.mask & GT and xs == (x,), "a sample whose age is %s the window" % words(g.mask), W.r["span"])
        else:
            chk.expect(a, not g.mask & (LT | EQ), "a sample whose age may be %s the window" % words(g.mask), W.r["span"])
    return True


def reads(chk, W):
    """what quantiles are taken from"""
    key = "%s reads the samples after expired ones were discarded" % W.what
    n = 0
    for k, v, s in W.R.outs:
        if k != "ret":
            continue
        for x in sources(v, W):
            n += 1
            if x.op == "locked":
                # read without, or before, discarding; a later look under a lock taken again is fine
                again = any(y.op == "locked" and y is not x and y.a[0] is x.a[0] for li, w in W.loops for y in subterms(li.init[w]))
                stale = any(contains(li.init[w], lambda t: t is x) for li, w in W.loops)
                if W.cuts:
                    chk.unk(key, "read from a position on", W.r["span"])
                elif noexpiry(s):
                    chk.ok(key, "nothing can be that old", W.r["span"])
                elif again:
                    chk.unk(key, "the lock is taken again", W.r["span"])
                elif any(y.op == "comp" and W.kept(y) and contains(y, lambda t: t is x) for y in subterms(v)):
                    chk.ok(key, "filtered", W.r["span"])
                else:
                    chk.expect(key, False, "expired samples may be read: %s" % show(x)[:80], W.r["span"], closed=known(v) or stale)
            else:
                chk.ok(key, "", W.r["span"])
    floor(chk, W.what + ": samples read", n, 1)


def noexpiry(s):
    """the beginning of the window lies before the beginning of time"""
    return any(not v and beginning(f) for f, v in s.facts.items())


def beginning(f):
    return f.op == "representable" and f.a[0].op == "tsub" and f.a[0].a[0].op == "now"


def nowrites(chk, W):
    key = "%s takes no other sample away" % W.what
    allowed = W.fresh()
    for n, e, m in edges(W.R, lambda e: e.kind == "write"):
        if at_content(W.R.I, e, W.cells):
            v = e.val
            good = v.op == "popfront" and v.a[0] in allowed or v.op == "comp" or v in allowed
            chk.expect(key, good, show(v)[:100], where(e), closed=known(v) and not W.odd())
    chk.ok(key, "", W.r["span"])


def adds(chk, W):
    """observe adds the observation, with the time of the call"""
    R = W.R
    v = R.args[1]
    key = "%s adds the observation to the samples, once" % W.what
    evs = [(n, e, m) for n, e, m in edges(R, lambda e: e.kind == "write") if at_content(R.I, e, W.cells)]
    push = []
    for n, e, m in evs:
        x = e.val
        if x.op in ("push", "pushfront"):
            push.append(e)
            base = x.a[0]
            good = x.op == "push" and x.a[1].op == "tup" and len(x.a[1].a) == 2 and x.a[1].a[1] is v and x.a[1].a[0].op == "now"
            chk.expect(key, good, show(x)[:120], where(e), closed=known(x) and x.a[1].op in ("tup", "adt"))
            if x.a[1].op == "tup" and x.a[1].a[0].op == "now":
                W.clocks.add(x.a[1].a[0])
            chk.expect("%s keeps the other samples" % W.what, base in W.fresh() or base.op in ("comp", "locked"), show(base)[:100], where(e), closed=known(base) and not W.odd())
        elif x.op == "popfront" and x.a[0] in W.fresh() or x.op == "comp" or x in W.fresh() or W.odd():
            pass
        else:
            chk.expect("%s keeps the other samples" % W.what, False, show(x)[:120], where(e), closed=known(x) and not W.odd())
    ps = paths(R)
    if ps is None or not push:
        if not push:
            chk.expect(key, False, "nothing is added", W.r["span"], closed=not R.I.unknowns)
        return
    ids = {id(e) for e in push}
    for evs, i in ps:
        if R.outs[i][0] != "ret":
            continue
        n = len([e for e in evs if id(e) in ids])
        chk.expect(key, n == 1, "%d times on a path" % n, W.r["span"], closed=not W.odd())


def ev(cl, t, env):
    """the value of a term over the arguments in a client's state"""
    if t in env:
        return env[t]
    if t.op == "deref":
        p = ev(cl, t.a[0], env)
        return cl.at(p) if p is not None else None
    if t.op == "proj":
        v = ev(cl, t.a[0], env)
        return proj(v, t.a[1]) if v is not None else None
    if t.op.startswith("dur") or t.op in ("mkdur", "int", "f64"):
        a = [ev(cl, x, env) if isinstance(x, T) else x for x in t.a]
        return None if None in a else rebuild(t.op, tuple(a))
    return None


def window(ctx, chk, ws):
    """the window the ages are compared with is the one given to the builder"""
    key = "the window is the one given to the builder"
    F = ctx.root("new", "SummaryBuilder", pub=True)
    D = mk("sym", "window")
    n = 0
    for W, x in sorted(ws, key=lambda p: p[1].id):
        if W.what != "Summary::quantiles" and W.what != "Summary::observe":
            continue
        S = Session(ctx)
        done = False
        for k, b, s in S.call(S.st, F, [mk("sym", "name"), D]):
            if k != "ret":
                continue
            cl = Client(ctx, S.I, s)
            p = cl.hold(b, "builder")
            for k2, v, s2 in cl.call("finish", "SummaryBuilder", [p], pub=True):
                if k2 != "ret" or not is_ok(v):
                    continue
                c2 = Client(ctx, S.I, s2)
                h = c2.hold(v.a[2], "handle")
                got = ev(c2, x, {W.R.args[0]: h})
                n += 1
                if got is None:
                    chk.unk(key, show(x)[:100], W.r["span"])
                else:
                    chk.expect(key, got is D, show(got)[:100], W.r["span"], closed=known(got))
    floor(chk, "windows compared", n, 2)


def noeffect(chk, fns):
    """reading quantiles leaves count and sum alone"""
    for (name, ty), W in fns.items():
        if name != "quantiles":
            continue
        bad = [e for n, e, m in edges(W.R, lambda e: e.kind == "atomic" and e.op in ("store", "rmw", "cas"))]
        chk.expect("%s leaves count and sum alone" % W.what, not bad, "; ".join(show(e.cell)[:60] for e in bad), W.r["span"])


# ---------------------------------------------------------------------------------------------- C21
def origin(R, t):
    """the terms a value is made from, what loops carry included"""
    loops = {li.id: li for ls in R.I.loops.values() for li in ls}
    seen, work = set(), [t]
    while work:
        for x in subterms(work.pop()):
            if x in seen:
                continue
            seen.add(x)
            li = loops.get(x.a[0]) if x.op == "lv" else None
            if li is not None:
                w = (x.a[1], x.a[2])
                work += [y for y in [li.init.get(w)] + [b.get(w) for b in li.backs] if y is not None]
    return seen


def totals(ctx, chk):
    """the total count and sum are not taken from the samples that are kept"""
    n = 0
    for g in ("count", "sum"):
        r = ctx.root(g, "Summary", pub=True)
        R = ctx.run(r)
        n += 1
        for k, v, s in R.outs:
            if k == "ret" and s.feasible():
                chk.expect("Summary::%s is not affected by the window" % g, not any(x.op == "locked" for x in origin(R, v)), "it is computed from the samples that are kept: %s" % show(v)[:120], r["span"])
    floor(chk, "totals of a summary", n, 2)


def c21(ctx, chk):
    chk.rule("the pairs returned are (q, s[min(n-1, floor(q*n))]) for every quantile q of the sorted, duplicate-free list of requested ones, over the ascending list s of all non-NaN values of the current samples, n of them; nothing is returned exactly if n is 0; no panic is reachable")
    for name, ty in READERS:
        with invariants(ctx):
            ctx_panics(ctx, chk, name, ty)
        chk.scope()
        Quant(ctx, chk, name, ty).judge()
        chk.scope()
    requested(ctx, chk)


def ctx_panics(ctx, chk, name, ty):
    r = ctx.root(name, ty, pub=True)
    del TOUCHED[:]
    R = ctx.run(r, key="inv")
    n = 0
    for a, e, b in edges(R, lambda e: e.kind in ("panic", "abort")):
        n += 1
        chk.expect("%s::%s cannot panic: %s" % (ty, name, e.d.get("what", "")), False, " ".join(show(x)[:80] if isinstance(x, T) else str(x)[:80] for x in e.d.values())[:240], where(e), closed=not R.I.unknowns)
    if not n:
        chk.ok("%s::%s cannot panic" % (ty, name), "", r["span"])


class Quant(object):
    def __init__(self, ctx, chk, name, ty):
        self.ctx, self.chk, self.ty = ctx, chk, ty
        self.W = Window(ctx, chk, name, ty, member=ty != "Summary")
        self.R, self.I = self.W.R, self.W.I
        self.what = "%s::%s" % (ty, name)
        self.span = self.W.r["span"]

    def judge(self):
        chk = self.chk
        full, empty = [], []
        for k, v, s in self.R.outs:
            if k != "ret":
                continue
            if v.op == "list" and not v.a:
                empty.append((v, s))
            elif v.op == "comp":
                full.append((v, s))
            else:
                chk.expect("%s returns one pair per quantile" % self.what, False, show(v)[:160], self.span, closed=known(v) and v.op in ("dedup", "rev", "truncate", "push", "popback", "popfront"))
        floor(chk, self.what + ": ways to return quantiles", len(full), 1)
        self.bases = set()
        for v, s in full:
            self.pairs(v, s)
        key = "%s returns nothing only without samples" % self.what
        for v, s in empty:
            good = any(s.range(seqlen(C)) == ((0, 0),) for C in self.bases) or any(s.range(seqlen(L)) == ((0, 0),) for L in self.W.fresh())
            good = good or any(x.op == "len" and r == ((0, 0),) for x, r in s.rng.items() if x.a and any(C is x.a[0] or derived(x.a[0], C) for C in self.bases))
            good = good or any(s.range(seqlen(Q)) == ((0, 0),) for Q in self.lists)
            chk.expect(key, good, "; ".join(show(x)[:60] for x in list(s.facts) + list(s.rng))[:200], self.span, closed=bool(self.bases) and not self.R.I.unknowns)

    lists = ()

    def pairs(self, v, s):
        chk, span = self.chk, self.span
        lo, hi, init, cases, bv = v.a
        key = "%s returns one pair per quantile" % self.what
        if hi.op != "len":
            chk.expect(key, False, "only up to %s" % show(hi)[:100], span, closed=known(hi) and hi.op in ("min", "lin", "int"))
            return
        Q = hi.a[0]
        self.lists = tuple(self.lists) + (Q,)
        chk.expect(key, lo is ZERO and init.op == "list" and not init.a, "from %s, after %s" % (show(lo), show(init)[:60]), span, closed=known(lo, init))
        self.requested(Q)
        q = proj(Q, ("i", bv))
        self.used = set()
        for conds, xs in cases:
            st = conds_state(conds)
            if st is None:
                continue
            if len(xs) != 1 or xs[0].op != "tup" or len(xs[0].a) != 2:
                chk.expect(key, False, show(mk("list", *xs))[:120] + " if " + str([a[0] for a in conds]), span, closed=known(*xs) and all(known(x) for a in conds for x in a if isinstance(x, T)) and not any(x.op == "unk" for x in xs) and len(xs) != 1)
                continue
            a, b = xs[0].a
            chk.expect("%s pairs each value with its quantile" % self.what, a is q, show(a)[:100], span, closed=settled(a))
            self.value(b, q, conds)
        # without samples there must be no pairs
        for C in self.used:
            e = s.range(seqlen(C))
            chk.expect("%s returns nothing without samples" % self.what, e is not None and not iset_and(e, ((0, 0),)), "", span)

    def value(self, x, q, conds):
        chk, span = self.chk, self.span
        key = "%s takes the sample at the requested rank" % self.what
        if x.op != "proj" or not isinstance(x.a[1], tuple) or x.a[1][0] != "i":
            # computed from several, or not a sample at all
            fl = any(t.op in ("fadd", "fsub", "fmul", "fdiv", "f64", "fmm") for t in [x])
            chk.expect("%s returns a sample" % self.what, False, show(x)[:160], span, closed=known(x) and fl)
            return
        S, ix = x.a[0], x.a[1][1]
        C = self.sorted(S)
        if C is None:
            return
        self.bases.add(C)
        self.used.add(C)
        n = seqlen(C)
        same = lambda t: n if t.op == "len" and t.a[0] is S else None
        got = subst(ix, same)
        st = conds_state([substa(a, same) for a in conds])
        if st is None:
            return
        num = proj(q, ("f", 0))
        qf = self.asf64(q)
        r = rank(got, n, qf, st)
        if r is None:
            chk.unk(key, show(subst(ix, {C: mk("sym", "samples"), q: mk("sym", "quantile")}))[:160], span)
        else:
            chk.expect(key, r, "position " + show(subst(subst(got, {n: mk("sym", "n")}), {qf: mk("sym", "q")}))[:160], span)
        self.samples(C)

    def asf64(self, q):
        cl = Client(self.ctx, self.I, State())
        return cl.one("as_f64", "Quantile", [cl.hold(q, "q")], pub=True)

    def sorted(self, S):
        chk, span = self.chk, self.span
        key = "%s sorts the samples" % self.what
        if S.op != "sort":
            if S.op == "dedup" and S.a[1].op == "sort":
                chk.expect("%s uses every current sample that is a number, once" % self.what, False, "equal samples are merged", span, closed=known(S))
                return None
            if S.op == "rev" and S.a[-1].op == "sort":
                chk.bad(key, "in descending order", span)
                return S.a[-1].a[1]
            chk.expect(key, False, show(S)[:120], span, closed=known(S) and S.op in ("comp", "lv", "locked"))
            return S if S.op in ("comp", "lv") else None
        k = S.a[0]
        good = k.op == "key" and k.a[0] == "asc" and k.a[2] is ELT
        chk.expect(key, good, show(k)[:100], span, closed=known(k) and k.op == "key" and k.a[0] in ("asc", "desc") and k.a[-1].op != "cmp")
        return S.a[1]

    def samples(self, C):
        """the values are all non-NaN values of the current samples, each once"""
        chk, span = self.chk, self.span
        key = "%s uses every current sample that is a number, once" % self.what
        if C.op != "comp":
            chk.expect(key, False, show(C)[:120], span, closed=known(C) and C.op in ("dedup", "truncate"))
            return
        lo, hi, init, cases, bv = C.a
        if self.ty == "Summary":
            self.numbers(C, key, self.fresh_any())
            return
        # every member's samples
        V = hi.a[0] if hi.op == "len" else None
        mem = V is not None and V.op == "proj" and V.a[0] is mk("deref", self.R.args[0])
        chk.expect(key, lo is ZERO and init.op == "list" and not init.a and mem, "from %s to %s" % (show(lo), show(hi)[:80]), span, closed=known(lo, hi, init))
        fresh = self.fresh_any()
        for conds, xs in cases:
            st = conds_state(conds)
            if st is None:
                continue
            if not xs:
                good = any(st.range(seqlen(L)) == ((0, 0),) for L in fresh if mentions_len(conds, L))
                good = good or any(r == ((0, 0),) and x.op == "len" for x, r in st.rng.items())
                chk.expect(key, good, "a member contributes nothing", span, closed=all(known(x) for a in conds for x in a if isinstance(x, T)) and not self.R.I.unknowns)
                continue
            if len(xs) != 1 or xs[0].op != "seq" or xs[0].a[0].op != "comp":
                chk.unk(key, show(mk("list", *xs))[:120], span)
                continue
            self.numbers(xs[0].a[0], key, fresh)

    def fresh_any(self):
        return self.W.fresh() | {x for k, v, s in self.R.outs for x in subterms(v) if x.op == "locked"}

    def numbers(self, C, key, fresh):
        chk, span = self.chk, self.span
        lo, hi, init, cases, bv = C.a
        L = hi.a[0] if hi.op == "len" else None
        if L is not None and L.op == "comp" and not any(L is f for f in fresh):
            # the window as a filter: one more step
            if self.W.kept(L) is not None:
                fresh = fresh | {L}
        if L is None or L not in fresh or lo is not ZERO or init.op != "list" or init.a:
            chk.expect(key, False, "from %s to %s" % (show(lo), show(hi)[:80]), span, closed=known(lo, hi, init) and L is not None and L in fresh)
            return
        x = proj(proj(L, ("i", bv)), ("f", 1))
        seen = ()
        for conds, xs in cases:
            st = conds_state([a for a in conds])
            if st is None:
                continue
            r = st.range(x)
            r = r if r is not None else FRANGE
            nums = iset_sub(r, NANS)
            if xs:
                chk.expect(key, xs == (x,), "value %s" % show(mk("list", *xs))[:80], span, closed=known(*xs))
                chk.expect("%s leaves NaN out" % self.what, not iset_and(r, NANS), "", span)
            else:
                others = [a for a in conds if a[0] != "rng" or a[1] is not x]
                chk.expect(key, not nums, "some numbers are left out", span, closed=not others or all(known(t) for a in others for t in a if isinstance(t, T)))

    def requested(self, Q):
        """the quantiles are the requested ones, in order, each once"""
        chk, span = self.chk, self.span
        if self.ty == "Summary":
            self.ctx.quantile_list = (self.W, Q)
            chk.expect("%s goes through the requested quantiles" % self.what, Q.op in ("deref", "proj"), show(Q)[:100], span, closed=False)
            return
        key = "%s goes through the quantiles of all members, in order, each once" % self.what
        x, ordered, distinct = Q, False, False
        while x.op in ("sort", "dedup", "rev"):
            if x.op == "dedup":
                if x.a[0] is ELT and x.a[1].op == "sort":
                    distinct = True
                elif x.a[0] is not ELT:
                    chk.unk(key, show(x.a[0])[:80], span)
                    return
            elif x.op == "sort" and not ordered:
                k = x.a[0]
                if k.op != "key":
                    chk.unk(key, show(k)[:80], span)
                    return
                ordered = k.a[0] == "asc" and (k.a[2] is ELT or k.a[2] is proj(ELT, ("f", 0)))
                if not ordered:
                    chk.expect(key, False, "sorted by %s" % show(k)[:80], span, closed=known(k))
                    return
            elif x.op == "rev":
                chk.unk(key, "reversed", span)
                return
            x = x.a[1] if x.op != "rev" else x.a[0]
        chk.expect(key, ordered, "not sorted: %s" % show(Q)[:120], span, closed=settled(Q))
        chk.expect(key, distinct, "not without duplicates: %s" % show(Q)[:120], span, closed=settled(Q))
        if x.op != "comp" or x.a[1].op != "len":
            chk.expect(key, False, show(x)[:120], span, closed=known(x) and (x.op in ("deref", "proj") or x.op == "comp" and x.a[1].op in ("min", "lin", "int")))
            return
        lo, hi, init, cases, bv = x.a
        V = hi.a[0]
        mem = V.op == "proj" and V.a[0] is mk("deref", self.R.args[0])
        chk.expect(key, lo is ZERO and not init.a and init.op == "list" and mem, "members from %s to %s" % (show(lo), show(hi)[:80]), span, closed=known(lo, hi, init))
        cl = getattr(self.ctx, "quantile_list", None)
        for conds, xs in cases:
            if not all(c[0] == "rng" and c[2] == ((0, (1 << 64) - 1),) or c[0] == "rng" and not xs and c[1].op == "len" and c[2] == ((0, 0),) or c[0] == "rng" and c[1].op == "len" and xs for c in conds):
                y = xs[0].a[0] if len(xs) == 1 and xs[0].op == "seq" else None
                want = subst(cl[1], {mk("deref", cl[0].R.args[0]): proj(V, ("i", bv))}) if cl else None
                dropped = y is not None and y.op == "comp" and y.a[1] is seqlen(want) and any(not zs and conds_state(cs) is not None for cs, zs in y.a[3])
                bad = (dropped or not xs) and all(c[0] in ("rng", "fact", "rel") and all(known(y) for y in c[1:3] if isinstance(y, T)) for c in conds)
                if bad:
                    chk.bad(key, "some are left out under conditions", span)
                else:
                    chk.unk(key, "under conditions %s %s" % (str(conds)[:100], show(mk("list", *xs))[:100]), span)
                continue
            if not xs:
                chk.expect(key, any(c[0] == "rng" and c[2] == ((0, 0),) for c in conds), "the quantiles of a member are left out", span)
                continue
            if len(xs) != 1 or xs[0].op != "seq" or cl is None:
                chk.unk(key, show(mk("list", *xs))[:100], span)
                continue
            want = subst(cl[1], {mk("deref", cl[0].R.args[0]): proj(V, ("i", bv))})
            chk.expect(key, xs[0].a[0] is want, show(xs[0].a[0])[:100], span, closed=known(xs[0].a[0]))


def mentions_len(conds, L):
    return any(a[0] == "rng" and a[1].op == "len" for a in conds)


def derived(x, C):
    return contains(x, lambda t: t is C)


NANS = ((NAN_ORD, NAN_ORD),)


def rank(t, n, q, st):
    """is t = min(n-1, floor(q*n)) on this path? (True, False, None: not decided)"""
    def least(x):
        if x.op == "f2i":
            y = x.a[0]
            fl = y.op in ("floor", "trunc")
            z = y.a[0] if fl else y
            if z.op == "fmin" and any(w.op == "i2f" for w in z.a):
                a = [w.a[0] if w.op == "i2f" else f2i(frnd(y.op, w) if fl else w, x.a[1]) for w in z.a]
                return imm("min", *a)
        return None
    # quantiles are numbers between 0 and 1 (C08), so that products with them are numbers
    t = subst(t, least)
    one = integer(1, "usize")
    last = isub(n, one, "usize")
    prod = fbin("mul", q, i2f(n))
    floors = [f2i(y, "usize") for y in (frnd("floor", prod), prod)]
    if t.op == "min" and last in t.a and any(f in t.a for f in floors) and len(t.a) == 2:
        return True
    for f in floors:
        if t is last and not assumable(st, cmp_lt("i", f, last)):
            return True
        if t is f and not assumable(st, cmp_lt("i", last, f)):
            return True
    # a formula that gives other positions for some number of samples and some quantile?
    bad = agree = 0
    N, X = mk("sym", "n"), mk("sym", "q")
    t = subst(subst(t, {n: N}), {q: X})
    for k in range(1, 14):
        for z in (0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.51, 0.75, 0.9, 0.99, 1.0):
            s = st_at(st, {n: integer(k, "usize"), q: flt(z)})
            if s is False:
                continue
            v = subst(t, {N: integer(k, "usize"), X: flt(z)})
            if v.op != "int":
                return None
            w = min(k - 1, int(z * k))
            if v.a[0] != w:
                bad += 1
            else:
                agree += 1
    if bad:
        return False
    return None


def st_at(st, m):
    """could the path be taken with these values? (False: no)"""
    for a, r in st.rng.items():
        v = subst(a, m)
        if v.op == "int" and r and not any(lo <= v.a[0] <= hi for lo, hi in r):
            return False
        if v.op == "f64" and a.op != "f64" and r:
            x = ford(ffrom(v.a[0]))
            if not any(lo <= x <= hi for lo, hi in r):
                return False
    for f, b in st.facts.items():
        v = subst(f, m)
        if v is TRUE and not b or v is FALSE and b:
            return False
    for ps, (lo, hi) in st.lin.items():
        vs = [(subst(x, m), k) for x, k in ps]
        if all(v.op == "int" for v, k in vs) and not lo <= sum(v.a[0] * k for v, k in vs) <= hi:
            return False
    for (x, y), k in st.rel.items():
        u, v = subst(x, m), subst(y, m)
        if u.op == v.op == "int":
            c = LT if u.a[0] < v.a[0] else EQ if u.a[0] == v.a[0] else GT
            if not k & c:
                return False
        if u.op == v.op == "f64":
            p, z = ffrom(u.a[0]), ffrom(v.a[0])
            c = LT if p < z else EQ if p == z else GT
            if not k & c:
                return False
    return True


def assumable(st, t):
    e = st.copy()
    return e.assume(t, True) and e.feasible()


def requested(ctx, chk):
    """the builder keeps the requested quantiles sorted and without duplicates"""
    key = "a summary keeps the requested quantiles in order, each once"
    if not hasattr(ctx, "quantile_list"):
        chk.unk(key, "which list is used is not known", "")
        return
    W, Q = ctx.quantile_list
    R = ctx.run(ctx.root("finish", "SummaryBuilder", pub=True))
    TOUCHED[:] = [R.I]
    n = 0
    for k, v, s in R.outs:
        if k != "ret" or not is_ok(v):
            continue
        cl = Client(ctx, R.I, s)
        h = cl.hold(v.a[2], "handle")
        x = ev(cl, Q, {W.R.args[0]: h})
        n += 1
        if x is None:
            chk.unk(key, show(Q)[:80], W.r["span"])
            continue
        ordered = distinct = False
        y = x
        while y.op in ("sort", "dedup"):
            if y.op == "dedup":
                if y.a[0] is ELT or y.a[0] is proj(ELT, ("f", 0)):
                    distinct = distinct or y.a[1].op == "sort"
                else:
                    distinct = None if distinct is False else distinct
            elif not ordered:
                kk = y.a[0]
                ordered = kk.op == "key" and kk.a[0] == "asc" and (kk.a[2] is ELT or kk.a[2] is proj(ELT, ("f", 0)))
                if not ordered and kk.op != "key":
                    ordered = None
            y = y.a[1]
        if y.op == "list" and not y.a:
            continue
        for b, w in ((ordered, "not sorted"), (distinct, "not without duplicates")):
            if b is None:
                chk.unk(key, w, R.root["span"])
            else:
                chk.expect(key, b, "%s: %s" % (w, show(x)[:120]), R.root["span"], closed=known(x))
        # all of them
        if y.op == "comp" and y.a[1].op == "len":
            lo, hi, init, cases, bv = y.a
            B = hi.a[0]
            while B.op in ("sort", "dedup"):
                B = B.a[1]
            good = lo is ZERO and not init.a
            for conds, xs in cases:
                q = proj(hi.a[0], ("i", bv))
                good = good and len(xs) == 1 and (xs[0] is q or xs[0].op == "adt" and q in xs[0].a)
            chk.expect("a summary keeps every requested quantile", good, show(y)[:160], R.root["span"], closed=known(y))
        else:
            chk.unk("a summary keeps every requested quantile", show(y)[:120], R.root["span"])
    floor(chk, "ways to build a summary", n, 1)


CHECKS = {"C20": c20, "C21": c21}
