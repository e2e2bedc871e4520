"""C11, C12, C13 (and the rendering part of C18): what is written to the exposition."""
from sa.lib import *
from sa.render import *
from sa.reduce import pathdiff

SPECIAL2 = {"\\": "\\\\", "\n": "\\n"}
SPECIAL3 = {"\\": "\\\\", "\n": "\\n", '"': '\\"'}
PUBLIC = ("MetricName", "MetricKind", "Label", "Labels", "MetricFamily", "Metrics", "Counter", "Gauge", "Histogram", "Summary",
          "AggregatedCounter", "AggregatedGauge", "AggregatedHistogram", "AggregatedSummary")


def inline(path, p):
    return path.split("::")[-1] not in PUBLIC


def render_root(ctx, name, ty, trait="Display"):
    r = ctx.root(name, ty, trait) if trait else ctx.root(name, ty, pub=True)
    return ctx.run(r, key="inv", inline_display=inline, trace=("next",), peel=PEEL[0])


PEEL = [False]      # is the first repetition of each loop looked at on its own?


def last(t):
    return t.split("::")[-1]


def name_spec(env, name, own=False):
    """a metric's name: its own form, or the parts one after the other"""
    cl = env.cl if isinstance(env, Env) else env
    base = cl.st.copy()
    parts = []
    whole = Nt("MetricName", name)
    for g in ("namespace", "subsystem", "name"):
        some, none = [], []
        for k, v, s in cl.call(g, "MetricName", [name], pub=True):
            if k != "ret":
                continue
            if g == "name":
                some.append(cl.I.deref(s, v))
            elif is_some(v):
                some.append(cl.I.deref(s, v.a[2]))
            elif is_none(v):
                none.append(pathdiff(base, s))
            else:
                raise Undecided("MetricName::" + g)
        whole.parts |= {norm(x) for x in some}
        t = Val("the " + g, is_text(some))
        parts.append(t if g == "name" else Opt("the " + g, Cat(t, Lit("_")), none))
    return Cat(*parts) if own else Either(whole, Cat(*parts))


def is_text(xs):
    ns = [norm(x) for x in xs]

    def test(t, k):
        if any(norm(t) is n for n in ns):
            return True
        if t.op == "disp" and t.a[0] in ("String", "str", "alloc::string::String") and any(norm(t.a[2]) is n for n in ns):
            return t.a[3] is None
        return False if closed(t) else None
    return test


def label_spec(cl, p):
    """name="value" of the label behind a pointer"""
    n, v = cl.one("name", "Label", [p], pub=True), cl.one("value", "Label", [p], pub=True)
    if n is None or v is None:
        raise Undecided("the getters of Label")
    N, V = cl.at(n), cl.at(v)
    return Cat(Val("the label's name", is_text([N])), Lit('="'), Esc("the label's value", V, SPECIAL3), Lit('"'))


class Nt(Val):
    """the Display form of a value of the crate that sits behind a pointer"""

    def __init__(self, ty, ptr, val=None, cat=None):
        self.ty, self.ptr, self.val0 = ty, ptr, val
        self.parts = set()      # what is only a part of it
        Val.__init__(self, "the %s" % ty, self.test, cat)

    def test(self, t, k):
        if t.op != "disp":
            return False if t.op == "str" or norm(t) in self.parts else None
        if last(t.a[0]) != self.ty:
            return False if last(t.a[0]) in PUBLIC or t.a[0] in INTS or t.a[0] == "f64" else None
        if t.a[3] is not None:
            return False
        x = t.a[2]
        if t.a[1] == "ptr":
            return norm(x) is norm(self.ptr) or (False if closed(x) else None)
        if norm(x) is norm(mk("deref", self.ptr)) or (self.val0 is not None and norm(x) is norm(self.val0)):
            return True
        return False if closed(x) else None


class Env(object):
    """what the getters of a metric return for the metric that is rendered"""

    def __init__(self, ctx, R, ty, p):
        self.ctx, self.R, self.ty, self.p = ctx, R, ty, p
        self.cl = Client(ctx, R.I, State())
        self.name = self.get("metric_name")
        self.labels = self.get("labels")

    def get(self, what, ty=None, args=None):
        v = self.cl.one(what, ty or self.ty, args or [self.p], pub=True)
        if v is None:
            raise Undecided("%s::%s is not a plain getter" % (ty or self.ty, what))
        return v

    def outs(self, what):
        base = self.cl.st
        return [(v, s, pathdiff(base, s)) for k, v, s in self.cl.call(what, self.ty, [self.p], pub=True) if k == "ret"]

    def labelseq(self):
        it = self.get("iter", "Labels", [self.labels])
        cells = {x.a[0] for x in subterms(it) if x.op == "immld"}
        if len(cells) != 1:
            raise Undecided("the labels of %s" % self.ty)
        return mk("immld", cells.pop(), STAR)

    def stamps(self):
        """([conditions under which there is no timestamp], [timestamps])"""
        base = self.cl.st.copy()
        none, somes = [], []
        for k, t, s in self.cl.call("timestamp", self.ty, [self.p], pub=True):
            cl = Client(self.ctx, self.R.I, s)
            if t.op != "ref":
                t = cl.hold(t, "ts")
            for k2, v, s2 in cl.call("get", "Timestamp", [t], pub=True):
                if k2 != "ret":
                    continue
                if is_none(v):
                    none.append(pathdiff(base, s2))
                elif is_some(v):
                    somes.append(v.a[2])
                else:
                    raise Undecided("Timestamp::get returns %s" % show(v)[:80])
        return none, somes


class Undecided(Exception):
    pass


def integer_of(what, xs, cat="text"):
    ns = [norm(x) for x in xs]

    def test(t, k):
        if t.op != "disp" or t.a[3] is not None or t.a[0] not in INTS:
            return False if t.op in ("disp", "str") and known(t) and "::" not in t.a[0] else None
        return any(norm(t.a[2]) is n for n in ns) or (False if closed(t.a[2]) else None)
    return Val(what, test, cat)


def label_elem(cl, V):
    def elem(i):
        p = mk("ref", mk("D", V), (("i", i),))
        return Either(Nt("Label", p, cat="label"), label_spec(cl, p))
    return elem


class Shape(object):
    """the grammar of one metric's lines"""

    def __init__(self, env):
        self.env = env
        V = env.labelseq()
        self.seq = mk("deref", V)
        self.elem = label_elem(env.cl, V)
        n = seqlen(self.seq)
        self.name = name_spec(env, env.name)
        none = [(("rng", n, ((0, 0),)),)]
        explicit = Cat(Lit("{"), Each("the labels", n, self.elem, ","), Lit("}"))
        self.labels = Opt("the labels", Either(Nt("Labels", env.labels, cat="label"), explicit), none)
        self.more = Each("the labels", n, lambda i: Cat(Lit(","), self.elem(i)))
        none, somes = env.stamps()
        self.ts = Opt("the timestamp", Cat(Lit(" ", "stamp"), integer_of("the timestamp", somes, "stamp")), none)
        self.ts.cat = "stamp"

    def values(self, what):
        vs = self.env.outs(what)
        if not vs:
            raise Undecided("%s::%s" % (self.env.ty, what))
        return [v for v, s, d in vs]

    def simple(self):
        return Cat(self.name, self.labels, Lit(" "), Num("the value", self.values("value")), self.ts)

    def tail(self, count):
        return Cat(self.name, Lit("_sum"), self.labels, Lit(" "), Num("the sum", self.values("sum")), self.ts, Lit("\n"),
                   self.name, Lit("_count"), self.labels, Lit(" "), count, self.ts)

    def histogram(self):
        ctx, R = self.env.ctx, self.env.R

        def parts(e):
            cl = Client(ctx, R.I, e.st)
            b = cl.hold(e.val.a[2], "b")
            u, c = cl.one("upper_bound", "CumulativeBucket", [b], pub=True), cl.one("cumulative_count", "CumulativeBucket", [b], pub=True)
            return None if u is None or c is None else (u, c)

        def line(ps):
            return Cat(self.name, Lit('_bucket{le="'), Num("the bound", [ps[0]]), Lit('"'), self.more, Lit("} "), integer_of("the cumulative count", [ps[1]], "bucket"), self.ts, Lit("\n"))

        def match(e):
            return e.kind == "callret" and is_some(e.val) and e.val.a[2].op == "adt" and last(e.val.a[2].a[0]) == "CumulativeBucket"
        rounds = Rounds("the buckets", match, parts, line)
        rounds.cat = "bucket"

        def count(t, k):
            if t.op != "disp" or t.a[0] != "u64" or t.a[3] is not None or rounds.seen is None:
                return None
            lp, alts = rounds.seen
            li = lp.li
            x = t.a[2]
            for w in li.W:
                lv = mk("lv", li.id, w[0], w[1])
                finals = {lv} | {g.get(lv, lv) for g in li.exitsig}
                if x not in finals:
                    continue
                good = True
                for a, (u, c) in alts:
                    for n, b in zip(li.backnodes, li.backs):
                        if n == a.end and b.get(w) is not c:
                            good = False
                if good:
                    return True
            return False if known(x) else None
        return Cat(rounds, self.tail(Val("the count of the last bucket", count, "count")))

    def summary(self):
        env = self.env
        none, some = [], []
        hi, vs = None, []
        for v, s, d in env.outs("quantiles"):
            n = seqlen(v)
            if n.op == "int" and n.a[0] == 0:
                none.append(d)
                continue
            if hi is not None and norm(hi) is not norm(n):
                raise Undecided("Summary::quantiles: %s or %s" % (show(hi)[:60], show(n)[:60]))
            hi = n
            vs.append((v, s))
            some.append(d)
        if hi is None:
            raise Undecided("%s::quantiles" % env.ty)

        def elem(i):
            qs, xs = [], []
            for v, s in vs:
                pair = proj(v, ("i", i))
                c = Client(env.ctx, env.R.I, s)
                q = c.one("as_f64", "Quantile", [c.hold(proj(pair, ("f", 0)), "q")], pub=True)
                if q is not None:
                    qs.append(q)
                xs.append(proj(pair, ("f", 1)))
            return Cat(self.name, Lit('{quantile="'), Num("the quantile", qs), Lit('"'), self.more, Lit("} "), Num("the value of the quantile", xs), self.ts, Lit("\n"))
        each = Opt("the quantiles", Each("the quantiles", hi, elem), none, some)
        return Cat(each, self.tail(integer_of("the count", self.values("count"))))


class Either(Spec):
    def __init__(self, *xs):
        self.xs = xs

    def m(self, its, i, k, F, pre):
        for x in self.xs:
            for j in x.m(its, i, k, F, pre):
                yield j


CATS = {"text": "C11", "label": "C11", "esc": "C12", "num": "C13", "bucket": "C11, C18", "count": "C18"}


def results(ctx):
    """[(category, key, status, detail, where)] for everything that is rendered"""
    if getattr(ctx, "_text", None) is None:
        ctx._text = []
        with invariants(ctx):
            all_targets(ctx)
    return ctx._text


def all_targets(ctx):
    out = []
    for key, go in TARGETS:
        one = target(ctx, key, go)
        if any(r[2] != "ok" for r in one):
            PEEL[0] = True
            two = target(ctx, key, go)
            PEEL[0] = False
            if two and all(r[2] == "ok" for r in two) or any(r[2] == "violation" for r in two) and not any(r[2] == "violation" for r in one):
                one = two
        out += one
    ctx._text = out


def target(ctx, key, go):
    ctx._text = []
    del TOUCHED[:]
    try:
        go(ctx, key)
    except Missing as e:
        return [("text", key, "violation", "not there: %s" % e, "")]
    except (Undecided, TooMany) as e:
        return [(c, key, "unknown", str(e) or "too many ways", "") for c in ("text", "esc", "num", "count", "bucket", "stamp")]
    return ctx._text


def match_all(ctx, key, R, spec, cats=("text",), sink=None):
    """every way through the function must match"""
    sink = sink or R.args[1]
    if sink.op != "ref":
        sink = mk("ref", mk("D", sink), ())
    rd = Renderer(R, sink)
    ps = rd.paths()
    taint = [I for I in TOUCHED if I.unknowns]
    bad = {}
    n = 0
    for p in ps:
        st = R.outs[p.end]
        n += 1
        F = Fail()
        if full(spec, p.items, p.know, F, ()):
            continue
        pos, cat, msg, w, und = F.best
        if cat == "text" and any(x.k == "v" and x.x.op == "disp" and x.x.a[0].startswith("debug") and "String" in x.x.a[0] + "str" for x in p.items):
            # Rust's debug notation escapes in its own way
            bad[("esc", msg)] = (w, und)
        if cat == "text" and "is rounded or padded" in msg:
            bad[("num", msg)] = (w, und)
        bad[(cat, msg)] = (w, und)
    for (cat, msg), (w, und) in bad.items():
        if und or taint:
            ctx._text.append((cat, key, "unknown", msg + (" (not understood: %s in %s)" % taint[0].unknowns[0][:2] if taint else ""), w))
        else:
            ctx._text.append((cat, key, "violation", msg, w))
    if not ps:
        ctx._text.append(("text", key, "violation" if not taint else "unknown", "nothing is ever written", R.root["span"]))
    for c in cats:
        if ps and not any(b[0] == c for b in bad):
            ctx._text.append((c, key, "ok", "%d ways through the function match" % n, R.root["span"]))


def handle(ty, kind):
    def go(ctx, key):
        R = render_root(ctx, "fmt", ty)
        sh = Shape(Env(ctx, R, ty, R.args[0]))
        spec = getattr(sh, kind)()
        match_all(ctx, key, R, spec, ("text", "num", "stamp") + (("count", "bucket") if kind == "histogram" else ()))
    return ("the rendering of a %s" % ty, go)


def label(ctx, key):
    R = render_root(ctx, "fmt", "Label")
    cl = Client(ctx, R.I, State())
    p = R.args[0]
    match_all(ctx, key, R, label_spec(cl, p), ("text", "esc"))


def metric_name(ctx, key):
    R = render_root(ctx, "fmt", "MetricName")
    match_all(ctx, key, R, name_spec(Client(ctx, R.I, State()), R.args[0], True), ("text",))


def labels(ctx, key):
    R = render_root(ctx, "fmt", "Labels")
    cl = Client(ctx, R.I, State())
    it = cl.one("iter", "Labels", [R.args[0]], pub=True)
    cells = {x.a[0] for x in subterms(it) if x.op == "immld"} if it is not None else ()
    if len(cells) != 1:
        raise Undecided("Labels::iter")
    V = mk("immld", cells.pop(), STAR)
    elem = label_elem(cl, V)
    match_all(ctx, key, R, Cat(Lit("{"), Each("the labels", seqlen(mk("deref", V)), elem, ","), Lit("}")), ("text",))


def kind(ctx, key):
    R = render_root(ctx, "fmt", "MetricKind")
    path = [p for p in ctx.F.adts if last(p) == "MetricKind"][0]
    t = ctx.F.types[ctx.F.adts[path]["ty"]]
    whole = mk("deref", R.args[0])
    rd = Renderer(R, R.args[1] if R.args[1].op == "ref" else mk("ref", mk("D", R.args[1]), ()))
    seen = set()
    for p in rd.paths():
        s = "".join(x.x for x in p.items if x.k == "c")
        r = p.know.range(mk("discr", whole))
        vs = [i for i in range(len(t["variants"])) if iset_and(r, ((i, i),))]
        pure = all(x.k in ("c", "call") for x in p.items)
        for i in vs:
            seen.add(i)
            want = t["variants"][i]["n"].lower()
            st = "ok" if pure and s == want else ("violation" if pure and len(vs) == 1 or pure and len(r) <= 1 else "unknown")
            ctx._text.append(("text", key, st, "%s is written as %r" % (t["variants"][i]["n"], s), R.root["span"]))
    if len(seen) != len(t["variants"]):
        ctx._text.append(("text", key, "unknown", "some kinds are not covered", R.root["span"]))


def metrics(ctx, key):
    R = render_root(ctx, "fmt", "Metrics")
    path = [p for p in ctx.F.adts if last(p) == "Metrics"][0]
    t = ctx.F.types[ctx.F.adts[path]["ty"]]
    whole = mk("deref", R.args[0])
    specs = []
    for i, v in enumerate(t["variants"]):
        V = proj(whole, ("vf", i, 0))
        root, pa = R.I.addr(R.args[0])

        def elem(var, i=i, v=v):
            return Cat(Nt("Aggregated" + v["n"], mk("ref", root, pa + (("vf", i, 0), ("i", var)))), Lit("\n"))
        specs.append(Guard(("rng", mk("discr", whole), ((i, i),)), Each("the %ss" % v["n"].lower(), seqlen(V), elem)))
    match_all(ctx, key, R, Either(*specs), ("text",))


class Guard(Spec):
    def __init__(self, atom, spec):
        self.atom, self.spec = atom, spec

    def m(self, its, i, k, F, pre):
        if k.atom(self.atom) is False:
            return
        for j in self.spec.m(its, i, k, F, pre):
            yield j


def family(ctx, key):
    R = render_root(ctx, "fmt", "MetricFamily")
    p = R.args[0]
    cl = Client(ctx, R.I, State())
    base = cl.st.copy()
    name = cl.one("name", "MetricFamily", [p], pub=True)
    ms = cl.one("metrics", "MetricFamily", [p], pub=True)
    if name is None or ms is None:
        raise Undecided("the getters of MetricFamily")
    N = name_spec(cl, name)
    helps, none = [], []
    for k, v, s in cl.call("help", "MetricFamily", [p], pub=True):
        if k != "ret":
            continue
        if is_none(v):
            none.append(pathdiff(base, s))
        elif is_some(v):
            helps.append(R.I.deref(s, v.a[2]))
        else:
            raise Undecided("MetricFamily::help")
    kinds = [(v, pathdiff(base, s)) for k, v, s in cl.call("kind", "MetricFamily", [p], pub=True) if k == "ret"]

    def iskind(t, k):
        if t.op != "disp" or last(t.a[0]) != "MetricKind":
            return False if t.op == "str" else None
        x = t.a[2]
        if t.a[1] == "ptr":
            return None
        for v, d in kinds:
            if v is x:
                h = k.holds(d)
                return True if h is True else (False if h is False else None)
        return False if closed(x) else None
    hl = Cat(Lit("# HELP "), N, Lit(" "), Either(*[Esc("the help", h, SPECIAL2) for h in helps]), Lit("\n"))
    spec = Cat(Opt("the HELP line", hl, none), Lit("# TYPE "), N, Lit(" "), Val("the family's kind", iskind), Lit("\n"), Nt("Metrics", ms))
    match_all(ctx, key, R, spec, ("text", "esc"))


def to_text(ctx, key):
    r = ctx.root("to_text", "MetricFamilies", pub=True)
    R = ctx.run(r, key="inv", inline_display=inline, trace=("next",), peel=PEEL[0])
    p = R.args[0]
    cl = Client(ctx, R.I, State())
    a = cl.one("as_ref", "MetricFamilies", [p], "AsRef")
    if a is None:
        raise Undecided("MetricFamilies::as_ref")
    V = cl.at(a)
    root, pa = R.I.addr(a)
    elem = lambda i: Nt("MetricFamily", mk("ref", root, pa + (("i", i),)))
    spec = Each("the families", seqlen(V), elem)
    taint = [I for I in TOUCHED if I.unknowns]
    for k, v, s in R.outs:
        if k != "ret":
            continue
        its = []
        flatten(v, s, r["span"], its)
        F = Fail()
        if full(spec, its, Know([s]), F, ()):
            ctx._text.append(("text", key, "ok", "", r["span"]))
        else:
            pos, cat, msg, w, und = F.best
            ctx._text.append((cat, key, "unknown" if und or taint else "violation", msg, w))
    if not R.outs:
        ctx._text.append(("text", key, "violation" if not taint else "unknown", "never returns", r["span"]))


TARGETS = [handle("Counter", "simple"), handle("Gauge", "simple"), handle("AggregatedCounter", "simple"), handle("AggregatedGauge", "simple"),
           handle("Histogram", "histogram"), handle("AggregatedHistogram", "histogram"), handle("Summary", "summary"), handle("AggregatedSummary", "summary"),
           ("a metric name", metric_name), ("a label", label), ("a set of labels", labels), ("a metric kind", kind), ("the metrics of a family", metrics), ("a family", family), ("the exposition", to_text)]


def emit(ctx, chk, cats):
    for c, key, st, d, w in results(ctx):
        if c in cats:
            chk.add(key, st, d, w)


def C11(ctx, chk):
    chk.rule("every way through each Display function writes a word of the grammar of its lines; the values are those the getters return")
    emit(ctx, chk, ("text", "label", "bucket", "stamp"))


def C12(ctx, chk):
    chk.rule("each character of a label value or help text is written with exactly the escapes of the format; label values and help texts are written nowhere else")
    emit(ctx, chk, ("esc", "label"))


def C13(ctx, chk):
    chk.rule("a float is written by Rust's decimal formatting only where its value is known to be finite, and as NaN, +Inf or -Inf only where it is that")
    emit(ctx, chk, ("num",))


CHECKS = {"C11": C11, "C12": C12, "C13": C13}
