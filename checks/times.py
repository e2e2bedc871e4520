"""C24: timestamps."""
import itertools

from sa.lib import *
from sa.reduce import pathdiff
from .values import floor, getter_value
from .config import finished
from .summary import st_at
from .helpers import span_at, near
from . import text

TYPES = ("Counter", "Gauge", "Histogram", "Summary")
EPOCH = "std::time::UNIX_EPOCH"
TIMES = [(0, 0), (0, 1), (0, 999999), (0, 1000000), (0, 1999999), (0, 999999999), (1, 0), (1, 500000000), (1700000000, 123456789), (9007199254, 1000000)]
MIN = -(1 << 63)


def epoch(x):
    return x.op == "sym" and str(x.a[0]).startswith("const:") and str(x.a[0]).endswith("UNIX_EPOCH") or x.op == "const" and "UNIX_EPOCH" in show(x)


def read(ctx, I, ty, h, st):
    """what the timestamp of a handle reads as: ([(value, condition, state)], understood)"""
    cl = Client(ctx, I, st)
    p = cl.one("timestamp", ty, [h], pub=True)
    if p is None:
        return None
    base = cl.st
    return [(v, pathdiff(base, s), s) for k, v, s in cl.call("get", "Timestamp", [p], pub=True) if k == "ret"]


def readback(outs, eff, st):
    """the possible values after cells got the given contents; None: not followed"""
    f = lambda x: eff.get(x.a[0], OLD(x.a[0])) if x.op == "aload" else None
    res = []
    for v, pd, s in outs:
        s2 = with_pre(st, [substa(a, f) for a in pd])
        if s2 is None or not s2.feasible():
            continue
        res.append((subst(v, f), s2))
    return res


class Setter(object):
    """a call of a method of TimestampMut on the timestamp of a handle"""

    def __init__(self, ctx, ty, name, args):
        self.ctx, self.ty, self.name = ctx, ty, name
        S = Session(ctx)
        del TOUCHED[:]
        TOUCHED.append(S.I)
        self.I = S.I
        self.h = mk("sym", "handle")
        self.cl = Client(ctx, S.I, S.st)
        m = self.cl.one("timestamp_mut", ty, [self.h], pub=True)
        self.ok = m is not None
        if not self.ok:
            return
        self.m = self.cl.hold(m, "m")
        # only what happens from here on counts
        self.cl = Client(ctx, S.I, self.cl.st)
        self.outs = self.cl.call(name, "TimestampMut", [self.m] + list(args), pub=True)

    def ways(self):
        """[(events, final state, how the timestamp reads then)]"""
        R = self.cl.view()
        out = []
        for k, v, s in self.outs:
            if k != "ret":
                continue
            for evs, n in paths(R, end=[s.node], skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True) or []:
                eff = seq_effect(evs)
                g = read(self.ctx, self.I, self.ty, self.h, s)
                if g is None:
                    out.append((evs, s, None))
                else:
                    out.append((evs, s, readback(g, eff, s)))
        return out

    def panics(self):
        R = self.cl.view()
        live = reachable(R, R.entry)
        return [e for a, es in R.G.out.items() if a in live for e, b in es if e is not None and e.kind in ("panic", "abort")]


def fresh(ctx, chk, ty):
    """a new metric has no timestamp"""
    key = "a new %s has no timestamp" % ty
    R, fs = finished(ctx, ty)
    n = 0
    for cl, h, s in fs:
        g = read(ctx, R.I, ty, h, cl.st)
        if g is None:
            chk.unk(key, "", R.root["span"])
            continue
        eff = {}
        for v, pd, s2 in g:
            for a in [v] + [x for c in pd for x in c if isinstance(x, T)]:
                for x in subterms(a):
                    if x.op == "aload":
                        c2 = Client(ctx, R.I, s2)
                        y = c2.at(x.a[0])
                        if y is not None and y.op == "adt" and y.a[0].startswith("Atomic"):
                            y = y.a[2]
                        if y is not None:
                            eff[x.a[0]] = y
        for v, s2 in readback(g, eff, cl.st):
            n += 1
            chk.expect(key, is_none(v), show(v)[:100], R.root["span"], closed=known(v) and not contains(v, lambda x: x.op == "cellval"))
    floor(chk, key, n, 1)


def setting(ctx, chk, ty):
    x = mk("sym", "t:i64")
    TYOF[x] = "i64"
    what = "%s: setting the timestamp" % ty
    S = Setter(ctx, ty, "set", [x])
    span = ctx.root("set", "TimestampMut", pub=True)["span"]
    if not S.ok:
        chk.unk(what, "timestamp_mut", span)
        return
    n = 0
    cov = ()
    for evs, s, rb in S.ways():
        if rb is None:
            chk.unk(what, "reading", span)
            continue
        for v, s2 in rb:
            r = iset_and(s2.range(x), ((MIN + 1, (1 << 63) - 1),))
            cov = iset_or(cov, s2.range(x))
            if not r:
                continue
            n += 1
            chk.expect(what + " is read back exactly", is_some(v) and v.a[2] is x, "%s for %s" % (show(v)[:100], iset_show(r) if r[-1][1] < 1 << 20 and False else "%d..%d" % (r[0][0], r[-1][1])), span, closed=known(v))
    floor(chk, what + ": ways", n, 1)
    miss = iset_sub(((MIN + 1, (1 << 63) - 1),), cov)
    if S.outs and n:
        chk.expect(what + " accepts every value but the reserved one", not miss, "not %s" % str(miss)[:80], span, closed=not S.I.unknowns)


def clearing(ctx, chk, ty):
    what = "%s: clearing the timestamp" % ty
    S = Setter(ctx, ty, "clear", [])
    span = ctx.root("clear", "TimestampMut", pub=True)["span"]
    n = 0
    for evs, s, rb in S.ways() if S.ok else ():
        for v, s2 in rb or ():
            n += 1
            chk.expect(what + " leaves none", is_none(v), show(v)[:100], span, closed=known(v))
    floor(chk, what + ": ways", n, 1)


def one_step(chk, key, evs, span):
    """setting does not pass through another value"""
    end = seq_effect(evs)
    for i, e in enumerate(evs):
        if e.kind == "atomic" and e.op in ("store", "swap"):
            mid = seq_effect(evs[:i + 1]).get(e.cell)
            if mid is not None and mid is not end.get(e.cell):
                chk.expect(key, False, "holds %s for a moment on the way to %s" % (show(mid)[:60], show(end.get(e.cell))[:60]), where(e), closed=known(mid, end.get(e.cell)))


def racing(ctx, chk, ty):
    """a timestamp read while it is being set or cleared reads as what it was before or after"""
    key = "%s: a timestamp read while another thread sets or clears it" % ty
    x = mk("sym", "t:i64")
    TYOF[x] = "i64"
    A, B = Setter(ctx, ty, "set", [x]), Setter(ctx, ty, "clear", [])
    span = ctx.root("get", "Timestamp", pub=True)["span"]
    if not (A.ok and B.ok):
        chk.unk(key, "timestamp_mut", span)
        return
    contents = {}
    for S in (A, B):
        for k, v, s in S.outs:
            for evs, n in paths(S.cl.view(), end=[s.node], skip=lambda e: e.kind == "atomic" and e.op == "casfail") or [] if k == "ret" else []:
                one_step(chk, key, evs, span)
                for c, y in seq_effect(evs).items():
                    if y not in contents.setdefault(c, []):
                        contents[c].append(y)
    g = read(ctx, A.I, ty, A.h, A.cl.st)
    if g is None or len(contents) != 1:
        chk.unk(key, "held in %d cells" % len(contents), span)
        return
    n = 0
    for v, pd, s in g:
        loads = sorted({y for a in [v] + [z for c in pd for z in c if isinstance(z, T)] for y in subterms(a) if y.op == "aload"}, key=lambda y: y.id)
        if len(loads) > 3 or any(y.a[0] not in contents for y in loads):
            chk.unk(key, "%d loads" % len(loads), span)
            continue
        for mix in itertools.product(*[contents[y.a[0]] for y in loads]):
            m = dict(zip(loads, mix))
            s2 = with_pre(A.cl.st, [substa(a, m) for a in pd] + [("rng", x, ((MIN + 1, (1 << 63) - 1),))])
            if s2 is None or not s2.feasible():
                continue
            w = subst(v, m)
            n += 1
            chk.expect(key, is_none(w) or is_some(w) and w.a[2] is x, "reads as %s when its loads see %s" % (show(w)[:80], ", ".join(show(y)[:40] for y in mix)), span, closed=known(w, *mix))
    floor(chk, key, n, 2)


def sign_of(st, t, E):
    """(may be at or after the epoch, may be before it)"""
    m = st.getrel("t", E, t)
    return bool(m & (LT | EQ)), bool(m & GT)


def both(secs, nanos, t, E, neg):
    def f(x):
        if x.op.startswith("dur_") and x.a and isinstance(x.a[0], T) and x.a[0].op == "tdiff":
            a, b = x.a[0].a
            if (a is t and b is E and not neg) or (a is E and b is t and neg):
                return span_at(secs, nanos, x.a[0])(x)
        return None
    return f


def epochs(*ts):
    return {y for t in ts if isinstance(t, T) for y in subterms(t) if epoch(y)}


def times(ctx, chk, ty, name):
    """set_time and set_now"""
    what = "%s: timestamp from %s" % (ty, "a time" if name == "set_time" else "the clock")
    t = mk("sym", "time")
    S = Setter(ctx, ty, name, [t] if name == "set_time" else [])
    span = ctx.root(name, "TimestampMut", pub=True)["span"]
    if not S.ok:
        chk.unk(what, "timestamp_mut", span)
        return
    seen = {False: 0, True: 0}
    key = what + " is its distance from the epoch in whole milliseconds"
    for evs, s, rb in S.ways():
        if rb is None:
            chk.unk(what, "reading", span)
            continue
        tt = t
        if name == "set_now":
            now = [e.d["val"] for e in evs if e.kind == "now"]
            good = len(now) >= 1 and all(x.a[0] == "SystemTime" for x in now)
            chk.expect(what + " looks at the clock during the call", good, "; ".join(show(x) for x in now), span, closed=not S.I.unknowns)
            if not good:
                continue
            if len(now) > 1:
                chk.unk(key, "the clock is read %d times" % len(now), span)
                continue
            tt = now[0]
        for v, s2 in rb:
            E = epochs(v, *[x for p in s2.rel for x in p])
            if len(E) > 1:
                chk.unk(key, show(v)[:100], span)
                continue
            E = min(E, key=lambda x: x.id) if E else None
            for neg in (False, True):
                if E is not None and not sign_of(s2, tt, E)[neg]:
                    continue
                for a, b in TIMES:
                    if neg and (a, b) == (0, 0):
                        continue
                    f = both(a, b, tt, E, neg)
                    if st_at(s2, f) is False:
                        continue
                    x = subst(v, f)
                    want = (a * 1000 + b // 1000000) * (-1 if neg else 1)
                    if is_some(x) and x.a[2].op == "int":
                        seen[neg] += 1
                        chk.expect(key, x.a[2].a[0] == want, "%d for %s%d.%09d s %s the epoch" % (x.a[2].a[0], "", a, b, "before" if neg else "after"), span)
                    elif is_none(x):
                        chk.expect(key, False, "none for %d.%09d s %s the epoch" % (a, b, "before" if neg else "after"), span)
                    elif is_some(x) and not contains(x, lambda y: y is tt):
                        chk.expect(key, False, show(x)[:100], span, closed=known(x))
                    else:
                        chk.unk(key, show(x)[:100], span)
    chk.expect(what + " works after the epoch", seen[False] > 0, "", span, closed=not S.I.unknowns)
    chk.expect(what + " works before the epoch", seen[True] > 0, "", span, closed=not S.I.unknowns)
    for e in S.panics():
        tt = t
        if name == "set_now":
            now = {y for p in e.st.rel for x in p for y in subterms(x) if y.op == "now"}
            if len(now) != 1:
                continue
            tt = now.pop()
        E = epochs(*[x for p in e.st.rel for x in p])
        if len(E) != 1:
            continue
        E = E.pop()
        for neg in (False, True):
            if not sign_of(e.st, tt, E)[neg]:
                continue
            for a, b in TIMES:
                if neg and (a, b) == (0, 0):
                    continue
                f = both(a, b, tt, E, neg)
                if st_at(e.st, f) is False:
                    continue
                if any(contains(subst(x, f), lambda y: y.op == "tdiff") for x in e.st.rng):
                    continue
                chk.expect(what + " never panics", False, "for %d.%09d s %s the epoch" % (a, b, "before" if neg else "after"), where(e), closed=not S.I.unknowns)
    chk.ok(what + " never panics", "", span)


def current(ctx, chk):
    """the gauge that shows the time"""
    try:
        r = ctx.root("set_to_current_time", "Gauge", pub=True)
    except Missing:
        return
    R = ctx.run(r)
    what = "Gauge::set_to_current_time sets it to the seconds since the epoch"
    val = getter_value(ctx, chk, "Gauge", "value")
    ps = paths(R, skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
    n = 0
    for evs, i in ps or ():
        k, v, st = R.outs[i]
        if k != "ret" or val is None:
            continue
        now = {e.d["val"] for e in evs if e.kind == "now"}
        after = apply_cells(val, seq_effect(evs))
        E = epochs(after, *[x for p in st.rel for x in p])
        if len(now) != 1 or len(E) > 1 or not known(after):
            chk.expect(what, False, show(after)[:100], r["span"], closed=known(after) and not now)
            continue
        t = now.pop()
        E = E.pop() if E else None
        for neg in (False, True):
            if E is not None and not sign_of(st, t, E)[neg]:
                continue
            for a, b in TIMES:
                if neg and (a, b) == (0, 0):
                    continue
                f = both(a, b, t, E, neg)
                if st_at(st, f) is False:
                    continue
                x = lincomb(subst(after, f), None, st)
                n += 1
                if x[0]:
                    own = all(y.op in ("cellval", "frombits", "f64") for y in x[0])
                    chk.expect(what, False, lc_show(x)[:100], r["span"], closed=own)
                else:
                    w = (a + b / 1e9) * (-1 if neg else 1)
                    chk.expect(what, near(float(x[1]), w), "%r for %d.%09d s %s the epoch" % (float(x[1]), a, b, "before" if neg else "after"), r["span"])
    floor(chk, "ways to set a gauge to the time", n, 2)


def c24(ctx, chk):
    chk.rule("for every handle type: the content written by the constructor, by clear and by set, put in place of the load in Timestamp::get, reads as none, none and the value set; the value set_time and set_now write is sign * (secs*1000 + nanos/10^6) of the distance from the epoch on each side of it; the timestamp piece of each rendered line is the one of the getter")
    for ty in TYPES:
        fresh(ctx, chk, ty)
        chk.scope()
        setting(ctx, chk, ty)
        clearing(ctx, chk, ty)
        racing(ctx, chk, ty)
        chk.scope()
        times(ctx, chk, ty, "set_time")
        times(ctx, chk, ty, "set_now")
        chk.scope()
    current(ctx, chk)
    chk.scope()
    text.emit(ctx, chk, ("stamp",))


CHECKS = {"C24": c24}
