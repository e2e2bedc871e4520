"""C25: process metrics."""
from sa.lib import *
from .values import floor
from .summary import st_at
from .helpers import near, span_at
from .config import finished

# procinfo's fields, in the order of its declarations
UTIME, STIME, THREADS, VSIZE, RSS = ("stat_self", 13), ("stat_self", 14), ("stat_self", 19), ("stat_self", 21), ("stat_self", 22)
FDS = ("status_self", 16)
MAXFDS = ("limits_self", 7, 0, 0)
TCK, PAGE = 2, 30

# name, kind, source, the figure
TABLE = [
    ("process_cpu_seconds_total", "Counter", "stat_self", lambda m: (m[UTIME] + m[STIME]) / float(m["tck"])),
    ("process_threads_total", "Gauge", "stat_self", lambda m: m[THREADS]),
    ("process_virtual_memory_bytes", "Gauge", "stat_self", lambda m: m[VSIZE]),
    ("process_resident_memory_bytes", "Gauge", "stat_self", lambda m: m[RSS] * m["page"]),
    ("process_open_fds", "Gauge", "status_self", lambda m: m[FDS]),
    ("process_max_fds", "Gauge", "limits_self", lambda m: m[MAXFDS]),
    ("process_start_time_seconds", "Gauge", "stat_self", None),
]


def sample(u, s, th, vs, rss, fds, mx, tck, page, start):
    return {UTIME: u, STIME: s, THREADS: th, VSIZE: vs, RSS: rss, FDS: fds, MAXFDS: mx, "tck": tck, "page": page, "start": start}


SAMPLESETS = [
    sample(0, 0, 1, 0, 0, 0, 0, 100, 4096, (0, 0)),
    sample(150, 50, 3, 70000001, 1234, 64, 1024, 100, 4096, (1700000000, 123456789)),
    sample(151, 52, 11, 123456789, 99, 256, 1048576, 100, 4096, (1, 0)),
    sample(7, 0, 2, 5, 1, 128, 7, 1000, 65536, (1600000000, 999999999)),
    sample(0, 9, 2, 4096, 65537, 32, 11, 250, 16384, (1, 500000000)),
    sample(3000000001, 5000000003, 40000, 1 << 47, 1 << 34, 1 << 20, 1 << 31, 100, 4096, (4000000000, 1)),
    sample(0, 0, 7, 11, 3, 5, (1 << 63) + 4096, 100, 4096, (5, 5)),
]


def source(x):
    """(source, field, ..) a term projects out of"""
    p = []
    while x.op == "proj":
        p.insert(0, x.a[1])
        x = x.a[0]
    if x.op != "procinfo":
        return None
    return (x.a[0],) + tuple(f[1] if f[0] == "f" else f[-1] if f[0] == "vf" else "?" for f in p)


class Figures(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.lz = {}

    def lazy(self, name):
        if name not in self.lz:
            self.lz[name] = None
            for r in self.ctx.F.roots:
                if r["name"] == "__static_ref_initialize" and r["nice"] in name:
                    R = self.ctx.run(r)
                    vs = [o[1] for o in R.outs]
                    if len(vs) == 1 and R.outs[0][0] == "ret":
                        self.lz[name] = vs[0]
        return self.lz[name]

    def at(self, m, start=None):
        sp = span_at(m["start"][0], m["start"][1], start) if start is not None else None

        def f(x):
            if x.op == "proj":
                s = source(x)
                if s in m:
                    return integer(m[s], "u64")
                return None
            if x.op == "sysconf" and x.a[0].op == "int":
                return {TCK: integer(m["tck"], "i64"), PAGE: integer(m["page"], "i64")}.get(x.a[0].a[0])
            v = self.static(x)
            if v is not None:
                return subst(v, f)
            return sp(x) if sp else None
        return f

    def plain(self, t):
        """t with the contents of statics"""
        return subst(t, lambda x: self.static(x))

    def static(self, x):
        """the contents of a lazily initialised static"""
        if x.op == "deref" and x.a[0].op == "sym" and str(x.a[0].a[0]).startswith("lazy:"):
            return self.lazy(str(x.a[0].a[0]))
        return None


def parts(cl, ty, h):
    """the full name a metric is exposed under"""
    mn = cl.one("metric_name", ty, [h], pub=True)
    if mn is None:
        return None
    out = []
    for g in ("namespace", "subsystem"):
        v = cl.one(g, "MetricName", [mn], pub=True)
        if v is None or v.op != "adt":
            return None
        if v.a[1] == 1:
            out.append(v.a[2])
    n = cl.one("name", "MetricName", [mn], pub=True)
    if n is None:
        return None
    out.append(n)
    res = []
    for x in out:
        if x.op == "ref":
            x = cl.at(x)
        if x is None or x.op != "str":
            return None
        res.append(x.a[0])
    return "_".join(res)


def elements(v):
    """the items of the iterator a collector returns"""
    if v.op == "adt" and v.a[0].endswith("Option") and v.a[1] == 1:
        v = v.a[2]
        if v.op == "it" and v.a[1].op == "list" and v.a[2].op == v.a[3].op == "int":
            return list(v.a[1].a)[v.a[2].a[0]:v.a[3].a[0]]
        if v.op == "list":
            return list(v.a)
    return None


def c25(ctx, chk):
    chk.rule("on every path of ProcessMetricsCollector::collect that the outcomes of reading the process information files allow, the metrics returned are exactly those of the table whose source was read, under the right full name and kind, and the symbolic value read back from each is the right function of the fields of that source")
    S = Session(ctx)
    del TOUCHED[:]
    TOUCHED.append(S.I)
    cl = Client(ctx, S.I, S.st)
    new = ctx.root("new", "ProcessMetricsCollector", pub=True)
    span = new["span"]
    c = cl.one("new", "ProcessMetricsCollector", [], pub=True)
    if c is None:
        chk.unk("ProcessMetricsCollector::new", "several outcomes", span)
        return
    born = [x for x in subterms(c) if x.op == "now"]
    h = cl.hold(c, "collector")
    fg = Figures(ctx)
    n = {t[0]: 0 for t in TABLE}
    full = once(ctx, chk, cl, h, fg, n, "", born)
    # collecting again gives the figures of that time
    if full is not None:
        cl2 = Client(ctx, cl.I, full)
        once(ctx, chk, cl2, h, fg, n, " again", born)
    for t in TABLE:
        floor(chk, t[0] + ": values decided", n[t[0]], 1)


def once(ctx, chk, cl, h, fg, n, again, born):
    root = ctx.root("collect", "ProcessMetricsCollector", "Collect")
    span = root["span"]
    what = "ProcessMetricsCollector::collect" + again
    cl = Client(ctx, cl.I, cl.st)
    outs = cl.call("collect", "ProcessMetricsCollector", [h], "Collect")
    V = cl.view()
    full, best = None, -1
    seen = 0
    for k, v, st in outs:
        if k != "ret":
            chk.expect(what + " returns", False, k, span, closed=False)
            continue
        ok = {}
        for f, b in st.facts.items():
            if f.op == "isok" and f.a[0].op == "procinfo":
                # (reads of one file: the last one counts)
                s = f.a[0].a[0]
                ok[s] = b if s not in ok or not again else b
        m0 = [m for m in SAMPLESETS if feasible_at(fg, st, m, born)]
        if not m0 and not possible(fg, st):
            continue
        els = elements(v)
        if els is None:
            if v.op == "adt" and v.a[0].endswith("Option") and v.a[1] == 0:
                chk.bad(what + " always returns metrics", "it returns None, which ends the collector", span)
            else:
                chk.unk(what, show(v)[:120], span)
            continue
        seen += 1
        got = {}
        good = True
        for x in els:
            p = None
            if x.op == "adt" and x.a[0].split("::")[-1] == "Metric" and len(x.a) > 2:
                kind = ctx.F.types[ctx.F.adts[metric_adt(ctx)]["ty"]]["variants"][x.a[1]]
                kind = kind["n"] if "n" in kind else str(kind)
                c2 = Client(ctx, cl.I, st)
                hh = c2.hold(x.a[2], "m")
                p = parts(c2, kind, hh)
            if p is None:
                chk.unk(what + " returns a metric under a known name", show(x)[:120], span)
                good = False
                continue
            if p in got:
                chk.bad("%s: %s is returned once" % (what, p), "it is in the result twice", span)
                continue
            got[p] = (kind, c2, hh)
        if not good:
            continue
        evs = None
        for name, kind, src, fig in TABLE:
            key = "%s: %s" % (what, name)
            read = ok.get(src)
            if name not in got:
                if read is False or name == "process_start_time_seconds" and early(st, born):
                    chk.ok(key + " is left out only when it cannot be read", "", span)
                    continue
                if src == "limits_self" and nolimit(st):
                    continue
                chk.bad(key + " is left out only when it cannot be read", "left out on a path where %s" % ("; ".join("%s was %sread" % (s, "" if b else "not ") for s, b in sorted(ok.items())) or "nothing failed"), span)
                continue
            if read is False and fig is not None:
                chk.bad(key + " is exposed only when it was read", "it is there although %s failed" % src, span)
                continue
            chk.expect(key + " is a " + kind.lower(), got[name][0] == kind, "it is a " + got[name][0], span)
            if got[name][0] != kind:
                continue
            if evs is None:
                ps = paths(V, end=[st.node], skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
                if ps is None:
                    chk.unk(key, "too many paths", span)
                    break
                evs = [e for e, i in ps]
            _, c2, hh = got[name]
            val = c2.one("value", kind, [hh], pub=True)
            if val is None:
                chk.unk(key, "the value read has several cases", span)
                continue
            for e in evs:
                eff = seq_effect(e)
                after = apply_cells(val, eff)
                init = initial(c2, after)
                after = subst(after, init)
                if fig is not None and is_figure(name, src, after, st, fg):
                    n[name] += 1
                    chk.ok(key + " has the right value", "", span)
                    continue
                if fig is None and is_start(after, born, st):
                    n[name] += 1
                    chk.ok(key + " has the right value", "", span)
                    continue
                if not m0:
                    chk.unk(key + " has the right value", show(after)[:160], span)
                differs = False
                for m in m0:
                    if any(not feasible_at(fg, y.st, m, born) for y in e if y.st is not None):
                        continue
                    x = subst(after, fg.at(m, start_span(after, born)))
                    if fig is None:
                        want = m["start"][0]
                    else:
                        want = fig(m)
                    n[name] += 1
                    lc = lincomb(x)
                    if not lc[0]:
                        g = float(lc[1])
                        good = near(g, float(want)) or fig is None and near(g, want + m["start"][1] / 1e9)
                        differs = differs or not good
                        n[name] -= good
                        if good:
                            continue
                        chk.expect(key + " has the right value", good, "for %s it is %r, expected %r" % (sorted((str(a), b) for a, b in m.items() if a != "start"), g, want), span)
                    elif fig is None and any(y.op == "tdiff" and (y.a[0] not in born or y.a[1].op == "now") for y in subterms(x)):
                        chk.bad(key + " has the right value", "it is computed from %s, not from the time of creation" % show(x)[:160], span)
                    elif known(x) and fig is not None and not any(y.op in ("lv", "aload", "unk") for y in subterms(x)) and figures_only(x):
                        chk.bad(key + " has the right value", "it is computed from %s" % show(x)[:160], span)
                    else:
                        n[name] -= 1
                        chk.unk(key + " has the right value", show(x)[:160], span)
                if not differs and m0:
                    # equal where it was looked at, but not shown to be so everywhere
                    chk.unk(key + " has the right value", show(after)[:160], span)
        if len(got) > best:
            best, full = len(got), st
    floor(chk, what + ": outcomes decided", seen, 8)
    bad = [(a, e, b) for a, e, b in edges(V, lambda e: e.kind in ("panic", "abort"))]
    live = reachable(V, V.entry)
    for a, e, b in bad:
        if a in live and (e.st is None or any(feasible_at(fg, e.st, m, born) for m in SAMPLESETS)):
            chk.expect(what + " never panics", False, "it may panic: %s" % e.d.get("what", ""), where(e), closed=not cl.I.unknowns)
    chk.ok(what + " never panics", "%d outcomes" % len(outs), span)
    return full


def figures_only(x):
    """the value is a definite figure of some source, although another one than expected"""
    return any(y.op == "procinfo" for y in subterms(x))


def metric_adt(ctx):
    for p in ctx.F.adts:
        if p.split("::")[-1] == "Metric":
            return p
    raise Missing("Metric")


def start_span(t, born):
    for y in subterms(t):
        if y.op == "tdiff" and y.a[0] in born and y.a[1].op != "now":
            return y
    return None


def feasible_at(fg, st, m, born):
    sp = None
    for t in list(st.rng) + list(st.facts):
        sp = sp or start_span(t, born)
    return st_at(st, fg.at(m, sp)) and m["start"] is not None


def is_start(x, born, st):
    """x is the time of creation in seconds since the epoch, with or without fractions"""
    y = start_span(x, born)
    if y is None or not contains(y.a[1], lambda t: "UNIX_EPOCH" in str(t.a[0]) if t.op in ("sym", "const") and t.a else False):
        return False
    s, n = mk("dur_as_secs", y), mk("dur_subsec_nanos", y)
    frac = mk("fadd", s, mk("fdiv", n, flt(1e9)))
    return same(x, s, st) or same(x, frac, st) or same(x, mk("dur_as_secs_f64", y), st)


def possible(fg, st):
    """can the path be taken when the kernel's figures are not negative and the system's constants are positive?"""
    k = State()
    for t, r in st.rng.items():
        x = fg.plain(t)
        for y in subterms(x):
            if y.op == "sysconf":
                k.rng[y] = ((1, 1 << 40),)
            elif source(y) is not None and y.op == "proj":
                k.rng.setdefault(y, ((0, 1 << 62),))
        if x is t or source(x) is not None:
            continue
        w = k.range_f(x) if x.op.startswith("f") and x.op != "f2i" or x.op == "i2f" else k.range(x)
        if w and not iset_and(w, r):
            return False
    return True


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
        if d[m] == 0:
            del d[m]
    return d


def pmul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            d[k] = d.get(k, 0) + c * e
            if d[k] == 0:
                del d[k]
    return d


WIDE = ("i64", "u64", "usize", "isize", "i128", "u128")


def ratio(t, st):
    """t over the reals as a quotient of polynomials over the figures it is made of"""
    one = {(): Fraction(1)}
    o = t.op
    if o == "int":
        return ({(): Fraction(t.a[0])} if t.a[0] else {}), one
    if o == "f64":
        v = ffrom(t.a[0])
        if v == v and abs(v) != float("inf"):
            return ({(): Fraction(v)} if v else {}), one
    if o in ("i2f", "frombits", "tobits"):
        return ratio(t.a[0], st)
    if o == "cast" and t.a[1] in WIDE + ("u32", "u16", "u8") and t.a[2] in WIDE:
        return ratio(t.a[0], st)
    if o == "lin":
        n, d = ({(): Fraction(t.a[1])} if t.a[1] else {}), one
        for x, k in t.a[2]:
            a, b = ratio(x, st)
            n, d = padd(pmul(n, b), pmul({q: c * k for q, c in a.items()}, d)), pmul(d, b)
        return n, d
    if o in ("fadd", "fsub", "imul", "fmul", "fdiv"):
        (a, b), (c, d) = ratio(t.a[-2], st), ratio(t.a[-1], st)
        if o in ("fadd", "fsub"):
            return padd(pmul(a, d), pmul(c, b), 1 if o == "fadd" else -1), pmul(b, d)
        if o in ("imul", "fmul"):
            return pmul(a, c), pmul(b, d)
        return pmul(a, d), pmul(b, c)
    if o == "f2i" and t.a[1] == "u64":
        # the whole number found equal to its rounding up is the number itself
        for f, b in st.facts.items():
            if b and f.op == "eq" and t in f.a:
                y = f.a[1] if f.a[2] is t else f.a[2]
                if y.op == "f2i" and y.a[0].op == "ceil" and y.a[0].a[0] is t.a[0]:
                    return ratio(t.a[0], st)
    return {(t,): Fraction(1)}, one


def same(x, y, st):
    (a, b), (c, d) = ratio(x, st), ratio(y, st)
    return pmul(a, d) == pmul(c, b)


def figure(name, src):
    """what the value must be, over the contents of the source that was read"""
    P = lambda *p: lambda v: fold(v, p)

    def fold(v, p):
        for i, k in enumerate(p):
            v = mk("proj", v, ("f", k) if not (src == "limits_self" and i == 2) else ("vf", 1, k))
        return v
    tck, page = mk("sysconf", integer(TCK, "i32")), mk("sysconf", integer(PAGE, "i32"))
    return {
        "process_cpu_seconds_total": lambda v: mk("fdiv", mk("fadd", fold(v, UTIME[1:]), fold(v, STIME[1:])), tck),
        "process_threads_total": P(*THREADS[1:]),
        "process_virtual_memory_bytes": P(*VSIZE[1:]),
        "process_resident_memory_bytes": lambda v: mk("fmul", fold(v, RSS[1:]), page),
        "process_open_fds": P(*FDS[1:]),
        "process_max_fds": P(*MAXFDS[1:]),
    }[name]


def is_figure(name, src, x, st, fg):
    """x is the figure for every content of the source"""
    x = fg.plain(x)
    vs = {y for y in subterms(x) if y.op == "procinfo" and y.a[0] == src}
    if len(vs) != 1:
        return False
    want = figure(name, src)(vs.pop())
    # (constants of one system call are one value whatever type the argument has)
    f = lambda y: mk("sysconf", integer(y.a[0].a[0], "i32")) if y.op == "sysconf" and y.a[0].op == "int" else None
    st2 = st.copy()
    st2.facts = {subst(fg.plain(k), f): b for k, b in st.facts.items()}
    return same(subst(x, f), want, st2)


def early(st, born):
    """the clock was before the epoch"""
    for f, b in st.facts.items():
        if any(y in born for y in subterms(f)) and not b:
            return True
    for (a, b), k in st.rel.items():
        if any(y in born for t in (a, b) for y in subterms(t)):
            return True
    return False


def nolimit(st):
    """no soft limit on open files is set"""
    for t, r in st.rng.items():
        if t.op == "discr" and source(t.a[0]) == MAXFDS[:-1] and r == ((0, 0),):
            return True
    return False


def initial(cl, t):
    """the contents of cells that are as they were made"""
    m = {}
    for y in subterms(t):
        if y.op == "cellval":
            c = y.a[0]
            try:
                v = cl.at(c)
            except Exception:
                v = None
            if v is not None and v.op == "adt" and v.a[0].split("::")[-1] == "Atomic":
                v = v.a[2]
            if v is not None and v.op in ("int", "f64", "tobits"):
                m[y] = v
    return m


CHECKS = {"C25": c25}
