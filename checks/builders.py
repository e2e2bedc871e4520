"""C26: builders."""
from sa.lib import *
from .values import floor, getter_value
from .config import name_parts, label_parts
from .registry import norm
from .process import initial

KINDS = ("Counter", "Gauge", "Histogram", "Summary")
WINDOW = mk("sym", "window")
CREATE = ("new", "with_registry", "without_registry")


class Way(object):
    """one course of a client program that uses builders"""

    def __init__(self, cl, M=None, K=None, done=()):
        self.cl, self.M, self.K, self.done = cl, M, K, list(done)

    def to(self, st):
        c = Client(self.cl.ctx, self.cl.I, st)
        c.entry = self.cl.entry
        c.st = st
        return Way(c, self.M, self.K, self.done)


def holding(w, v, tag):
    return w.cl.hold(v, tag)


def play(ctx, kind, steps):
    """[Way] for all outcomes in which every finish succeeds"""
    S = Session(ctx, unroll=16)
    TOUCHED.append(S.I)
    ways = [Way(Client(ctx, S.I, S.st))]
    n = 0
    for who, name, args in steps:
        n += 1
        nxt = []
        for w in ways:
            if who == "M" and name in CREATE:
                outs = w.cl.call(name, "MetricBuilder", args, pub=True)
            elif who == "M":
                outs = w.cl.call(name, "MetricBuilder", [w.M] + args, pub=True)
            elif name == "from":
                outs = w.cl.call(kind.lower(), "MetricBuilder", [w.M] + args + ([WINDOW] if kind == "Summary" else []), pub=True)
            elif name in ("new", "with_linear_buckets", "with_exponential_buckets"):
                outs = w.cl.call(name, kind + "Builder", args + ([WINDOW] if kind == "Summary" else []), pub=True)
            else:
                outs = w.cl.call(name, kind + "Builder", [w.K] + args, pub=True)
            for k, v, st in outs:
                if k != "ret":
                    continue
                w2 = w.to(st)
                if who == "M" and name in CREATE:
                    w2.M = w2.cl.hold(v, "M%d" % n)
                elif who == "K" and name in ("from", "new", "with_linear_buckets", "with_exponential_buckets"):
                    w2.K = w2.cl.hold(v, "K%d" % n)
                elif name == "finish":
                    if v.op != "adt":
                        w2.done.append(None)
                    elif is_ok(v):
                        w2.done.append(w2.cl.hold(v.a[2], "h%d" % n))
                    else:
                        continue
                nxt.append(w2)
        ways = nxt
        if len(ways) > 200:
            return None, S
    return ways, S


def s(x):
    return string(x)


def sym(x):
    return mk("sym", x)


def content(x):
    """the string behind a symbolic argument"""
    return x if x.op == "str" else mk("deref", x)


def want(ns=None, ss=None, name=None, help=None, labels=(), regs=(), initial=None, bounds=None, quantiles=None):
    return dict(ns=ns, ss=ss, name=name, help=help, labels=dict(labels), regs=list(regs), initial=initial, bounds=bounds, quantiles=quantiles)


def text_is(x, w):
    if w is None:
        return x is None
    return x is content(w)


def compare(ctx, chk, key, kind, w, h, spec, span):
    """what a finished metric shows against what was set"""
    cl = Client(ctx, w.cl.I, w.cl.st)
    if h is None:
        chk.unk(key, "not followed", span)
        return
    ps = name_parts(cl, kind, h)
    if ps is None or any(x == "unk" for g, x in ps):
        chk.unk(key + ": name", "not followed", span)
    else:
        for g, x in ps:
            wanted = spec[{"namespace": "ns", "subsystem": "ss", "name": "name"}[g]]
            chk.expect("%s: the %s" % (key, g), text_is(x, wanted), "it is %s, not %s" % (show(x)[:60] if x is not None else "absent", show(wanted) if wanted is not None else "absent"), span, closed=x is None or known(x))
    v = cl.one("help", kind, [h], pub=True)
    if v is None or v.op != "adt":
        chk.unk(key + ": help", "not followed", span)
    else:
        x = cl.at(v.a[2]) if v.a[1] == 1 else None
        chk.expect(key + ": the help text", text_is(x, spec["help"]), "it is %s" % (show(x)[:60] if x is not None else "absent"), span, closed=x is None or known(x))
    V = label_seq(cl, kind, h)
    if V is None or V.op != "list":
        chk.unk(key + ": labels", show(V)[:100] if V is not None else "not followed", span)
    else:
        got = []
        for el in V.a:
            n, x = label_parts(ctx, cl.I, cl.st, el)
            got.append((n, x))
        if any(n is None or n.op != "str" for n, x in got):
            chk.unk(key + ": labels", show(V)[:100], span)
        else:
            names = [n.a[0] for n, x in got]
            for n in sorted(set(spec["labels"]) - set(names)):
                chk.bad(key + ": every label set is there", "label %s is missing" % n, span)
            for n in sorted(set(names) - set(spec["labels"])):
                chk.bad(key + ": no other labels are there", "label %s" % n, span)
            chk.expect(key + ": a label is there once", len(names) == len(set(names)), ", ".join(names), span)
            for n, x in got:
                if n.a[0] in spec["labels"]:
                    wv = content(spec["labels"][n.a[0]])
                    chk.expect(key + ": labels have the values set", x is wv, "%s is %s, not %s" % (n.a[0], show(x)[:60], show(wv)), span, closed=known(x))
    if kind == "Gauge":
        x = getter_value(ctx, chk, "Gauge", "value")
        if x is not None:
            v = cl.one("value", "Gauge", [h], pub=True)
            ps = paths(w.cl.view(), end=[w.cl.st.node], skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True) if v is not None else None
            if ps is None:
                chk.unk(key + ": initial value", "not followed", span)
            for evs, i in ps or []:
                start = apply_cells(v, seq_effect(evs))
                start = subst(start, initial(cl, start))
                iv = spec["initial"] if spec["initial"] is not None else flt(0.0)
                chk.expect(key + ": the initial value", lincomb(start) == lincomb(iv), "it is %s" % show(start)[:80], span, closed=known(start) and not contains(start, lambda x: x.op == "cellval"))
    if kind == "Histogram":
        b = cl.one("buckets", "Histogram", [h], pub=True)
        L = cl.at(b) if b is not None and b.op in ("ref", "slice") else b
        L = undress(cl, L)
        if L is None or L.op != "list":
            chk.unk(key + ": buckets", show(L)[:100] if L is not None else "not followed", span)
        else:
            got = []
            for el in L.a:
                u = Client(ctx, cl.I, cl.st)
                x = u.one("upper_bound", "Bucket", [u.hold(el, "b")], pub=True)
                got.append(ffrom(x.a[0]) if x is not None and x.op == "f64" else None)
            if None in got:
                chk.unk(key + ": buckets", show(L)[:100], span)
            else:
                alts = [sorted(set(b or []) | {float("inf")}) for b in (spec["bounds"] if isinstance(spec["bounds"], tuple) else (spec["bounds"],))]
                chk.expect(key + ": the buckets set", sorted(set(got)) in alts, "they are %s, not %s" % (got, " or ".join(map(str, alts))), span)
    if kind == "Summary":
        obj = memory(cl, h)
        qs = []
        for el in {x for t in obj for x in subterms(t) if x.op == "adt" and x.a[0].split("::")[-1] == "Quantile"}:
            u = Client(ctx, cl.I, cl.st)
            x = u.one("as_f64", "Quantile", [u.hold(el, "q")], pub=True)
            qs.append(ffrom(x.a[0]) if x is not None and x.op == "f64" else None)
        if None in qs:
            chk.unk(key + ": quantiles", str(qs), span)
        else:
            wq = sorted(spec["quantiles"] or [])
            chk.expect(key + ": the quantiles set", sorted(qs) == wq, "they are %s, not %s" % (sorted(qs), wq), span)
        chk.expect(key + ": the window", any(windows(t) for t in obj), "the window given is not kept", span, closed=all(known(t) for t in obj))
        other = [x for t in obj for x in subterms(t) if x.op in ("mkdur", "durmul", "durdiv", "duradd", "dursub")]
        chk.expect(key + ": the window is kept as it is", not other, show(other[0])[:80] if other else "", span)


def windows(t):
    return contains(t, lambda x: x is WINDOW)


def undress(cl, v):
    n = 0
    while v is not None and n < 8 and v.op in ("ref", "slice", "adt"):
        v = cl.at(v) if v.op == "ref" else v.a[0] if v.op == "slice" else v.a[2]
        n += 1
    return v


def memory(cl, h):
    """everything reachable through a pointer"""
    seen, out, todo = set(), [], [h]
    while todo:
        p = todo.pop()
        try:
            v = cl.at(p)
        except Exception:
            v = None
        if v is None or v in seen:
            continue
        seen.add(v)
        out.append(v)
        for x in subterms(v):
            if x.op == "ref" and x not in seen:
                seen.add(x)
                todo.append(x)
    return out


def registered(chk, key, w, want_, span):
    """the registries that got the metric, on every course of events"""
    ps = paths(w.cl.view(), end=[w.cl.st.node], skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
    if ps is None:
        chk.unk(key + ": registries", "too many paths", span)
        return
    for evs, i in ps:
        got = {}
        strange = None
        for e in evs:
            if e.kind not in ("send", "sendfail"):
                continue
            hit = [n for n, f in want_.items() if f(e.chan)]
            if len(hit) != 1:
                strange = e
                continue
            got[hit[0]] = got.get(hit[0], 0) + 1
        if strange is not None:
            chk.expect(key + ": it is registered nowhere else", False, "also with %s" % show(strange.chan)[:80], span, closed=known(strange.chan) and not contains(strange.chan, lambda x: x.op in ("lv", "sort", "comp")))
            continue
        for n in want_:
            c = got.get(n, 0)
            chk.expect(key + ": it is registered with every registry set, once", c == 1, "%d times with %s" % (c, n), span, closed=not w.cl.I.unknowns or c > 1)


def in_reg(r):
    return lambda ch: contains(ch, lambda x: x is r)


def in_default(ctx):
    """is a channel that of the default registry?"""
    R = ctx.run(ctx.root("default_registry", "", pub=True))
    vs = {norm(x) for k, v, st in R.outs if k == "ret" for x in subterms(v)}
    return lambda ch: norm(ch) in vs and contains(ch, lambda x: str(x.a[0]).startswith("lazy:") if x.op == "sym" else False)


DEFAULT = sym("the default registry")


def scripts(kind):
    """[(what, steps, [spec of every metric finished], registries)]"""
    r0, r1, r2, r3 = sym("registry0"), sym("registry1"), sym("registry2"), sym("registry3")
    many = [("l%02d" % ((i * 7) % 11), sym("labelvalue%d" % i)) for i in range(11)]
    rs = [sym("registryx%d" % i) for i in range(6)]
    M, K = "M", "K"
    out = []

    def lab(who, ls):
        return [(who, "label", [s(n), v]) for n, v in ls]

    def extra(pre=""):
        """settings of one kind only, and what they should give"""
        if kind == "Gauge":
            return [(K, "initial_value", [sym("iv" + pre)])], dict(initial=sym("iv" + pre))
        if kind == "Histogram":
            return [(K, "bucket", [flt(b)]) for b in (5.0, 1.0, -2.5)], dict(bounds=[5.0, 1.0, -2.5])
        if kind == "Summary":
            return [(K, "quantile", [flt(q)]) for q in (0.9, 0.5, 0.99, 0.0, 1.0)], dict(quantiles=[0.9, 0.5, 0.99, 0.0, 1.0])
        return [], {}
    ex, exw = extra()
    fin = (K, "finish", [])
    out.append(("nothing set", [(M, "without_registry", []), (K, "from", [s("name")]), fin],
                [want(name=s("name"))], {}))
    out.append(("everything set on the common builder",
                [(M, "with_registry", [r0]), (M, "namespace", [s("ns")]), (M, "subsystem", [s("ss")])] + lab(M, many) + [(M, "registry", [r1]), (M, "registry", [r2]), (K, "from", [s("name")])] + ex + [(K, "help", [sym("help")]), fin],
                [want(ns=s("ns"), ss=s("ss"), name=s("name"), help=sym("help"), labels=many, **exw)], {"the first": r0, "the second": r1, "the third": r2}))
    out.append(("only a namespace set on the common builder", [(M, "without_registry", []), (M, "namespace", [s("ns")]), (K, "from", [s("name")]), fin],
                [want(ns=s("ns"), name=s("name"))], {}))
    out.append(("only a subsystem set on the common builder", [(M, "without_registry", []), (M, "subsystem", [s("ss")]), (K, "from", [s("name")]), fin],
                [want(ss=s("ss"), name=s("name"))], {}))
    out.append(("only labels set on the common builder", [(M, "without_registry", [])] + lab(M, many[:2]) + [(K, "from", [s("name")]), fin],
                [want(name=s("name"), labels=many[:2])], {}))
    out.append(("only a registry set on the common builder", [(M, "without_registry", []), (M, "registry", [r1]), (K, "from", [s("name")]), fin],
                [want(name=s("name"))], {"the registry": r1}))
    out.append(("registry replaced on the common builder", [(M, "with_registry", [r0]), (M, "registry", [r1]), (M, "set_registry", [r2]), (M, "registry", [r3]), (K, "from", [s("name")]), fin],
                [want(name=s("name"))], {"the new": r2, "the added": r3}))
    out.append(("more set on the metric's own builder",
                [(M, "with_registry", [r0]), (M, "namespace", [s("ns")]), (M, "subsystem", [s("ss")])] + lab(M, [("a", sym("va")), ("b", sym("vb"))]) + [(K, "from", [s("name")]), (K, "namespace", [s("ns2")])] + lab(K, [("c", sym("vc")), ("a", sym("va2"))]) + [(K, "registry", [r1])] + ex + [fin],
                [want(ns=s("ns2"), ss=s("ss"), name=s("name"), labels={"a": sym("va2"), "b": sym("vb"), "c": sym("vc")}, **exw)], {"the common": r0, "the own": r1}))
    out.append(("settings given twice on the common builder",
                [(M, "without_registry", []), (M, "namespace", [s("x")]), (M, "namespace", [s("ns")]), (M, "subsystem", [s("y")]), (M, "subsystem", [s("ss")])] + lab(M, [("a", sym("va")), ("b", sym("vb")), ("a", sym("va2"))]) + [(K, "from", [s("name")]), (K, "help", [sym("h1")]), (K, "help", [sym("h2")]), fin],
                [want(ns=s("ns"), ss=s("ss"), name=s("name"), help=sym("h2"), labels={"a": sym("va2"), "b": sym("vb")})], {}))
    out.append(("everything set on the metric's own builder",
                [(K, "new", [s("name")])] + ex + lab(K, many) + [(K, "help", [sym("help")]), (K, "registry", [r1]), (K, "subsystem", [s("ss")]), (K, "registry", [r2]), (K, "namespace", [s("ns")])] + [(K, "registry", [x]) for x in rs] + [fin],
                [want(ns=s("ns"), ss=s("ss"), name=s("name"), help=sym("help"), labels=many, **exw)], dict([("the first", r1), ("the second", r2)] + [("registry %d" % (i + 3), x) for i, x in enumerate(rs)])))
    out.append(("a builder used again after changes",
                [(K, "new", [s("name")]), (K, "namespace", [s("ns")])] + lab(K, [("a", sym("va"))]) + [fin, (K, "namespace", [s("ns2")]), (K, "help", [sym("help")])] + lab(K, [("a", sym("va2")), ("b", sym("vb"))]) + ex + [fin],
                [want(ns=s("ns"), name=s("name"), labels={"a": sym("va")}), want(ns=s("ns2"), name=s("name"), help=sym("help"), labels={"a": sym("va2"), "b": sym("vb")}, **exw)], {}))
    out.append(("two metrics from one common builder changed in between",
                [(M, "without_registry", []), (M, "namespace", [s("ns")])] + lab(M, [("a", sym("va"))]) + [(K, "from", [s("one")])] + ex + [(K, "help", [sym("help")]), fin, (M, "subsystem", [s("ss")])] + lab(M, [("b", sym("vb"))]) + [(K, "from", [s("two")]), fin],
                [want(ns=s("ns"), name=s("one"), help=sym("help"), labels={"a": sym("va")}, **exw), want(ns=s("ns"), ss=s("ss"), name=s("two"), labels={"a": sym("va"), "b": sym("vb")})], {}))
    out.append(("a common builder of the default registry", [(M, "new", []), (M, "registry", [r1]), (K, "from", [s("name")]), fin],
                [want(name=s("name"))], {"the default": DEFAULT, "the added": r1}))
    out.append(("default registry added", [(K, "new", [s("name")]), (K, "registry", [r1]), (K, "default_registry", []), fin],
                [want(name=s("name"))], {"the default": DEFAULT, "the added": r1}))
    # arbitrary texts
    for part in ("namespace", "subsystem", "name"):
        p = [sym(part) if part == x else s(x[:2]) for x in ("namespace", "subsystem", "name")]
        out.append(("an arbitrary %s on the common builder" % part,
                    [(M, "without_registry", []), (M, "namespace", [p[0]]), (M, "subsystem", [p[1]]), (K, "from", [p[2]]), fin],
                    [want(ns=p[0], ss=p[1], name=p[2])], {}))
        out.append(("an arbitrary %s on the metric's own builder" % part,
                    [(K, "new", [p[2]]), (K, "subsystem", [p[1]]), (K, "namespace", [p[0]]), fin],
                    [want(ns=p[0], ss=p[1], name=p[2])], {}))
    if kind == "Histogram":
        out.append(("linear buckets", [(K, "with_linear_buckets", [s("name"), flt(1.5), flt(2.0), integer(3, "usize")]), (K, "bucket", [flt(0.25)]), fin],
                    [want(name=s("name"), bounds=[1.5, 3.5, 5.5, 0.25])], {}))
        # the documentation does not say whether the powers are added to the start or multiply it
        out.append(("exponential buckets", [(K, "with_exponential_buckets", [s("name"), flt(4.0), flt(3.0), integer(3, "usize")]), (K, "bucket", [flt(0.25)]), fin],
                    [want(name=s("name"), bounds=([5.0, 7.0, 13.0, 0.25], [4.0, 12.0, 36.0, 0.25]))], {}))
    return out


def c26(ctx, chk):
    chk.rule("client programs over the builders, with symbolic values: for all outcomes in which building succeeds, name parts, help text, label set, initial value, buckets and quantiles read back through the getters, and the registries the collector is sent to, are those that were set")
    n = 0
    dflt = in_default(ctx)
    for kind in KINDS:
        span = ctx.root("finish", kind + "Builder", pub=True)["span"]
        for what, steps, specs, regs in scripts(kind):
            del TOUCHED[:]
            key = "%s, %s" % (kind, what)
            try:
                ways, S = play(ctx, kind, steps)
            except Missing as e:
                chk.bad("%s: can be built" % key, str(e), span)
                continue
            if ways is None:
                chk.unk(key, "too many outcomes", span)
                continue
            if not ways:
                chk.expect(key + " can be built", False, "no outcome succeeds", span, closed=not S.I.unknowns)
            for w in ways:
                if infeasible(ctx, w.cl.st):
                    continue
                if len(w.done) != len(specs):
                    chk.unk(key, "not followed", span)
                    continue
                n += 1
                for i, (h, spec) in enumerate(zip(w.done, specs)):
                    compare(ctx, chk, key + (" (metric %d)" % (i + 1) if len(specs) > 1 else ""), kind, w, h, spec, span)
                registered(chk, key, w, {a: dflt if b is DEFAULT else in_reg(b) for a, b in regs.items()}, span)
            chk.scope()
    floor(chk, "outcomes of client programs", n, 4 * 20)


CHECKS = {"C26": c26}
