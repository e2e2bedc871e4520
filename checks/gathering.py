"""C14, C15, C16: families, series, merging."""
from sa.lib import *
from sa.render import norm
from .values import floor
from . import text

ELT = mk("elt")
ZERO = mk("int", 0, "usize")


class Grouping(object):
    """the loop of gather that sorts the collected metrics into families"""

    def __init__(self, ctx, chk):
        self.ctx, self.chk = ctx, chk
        r = self.root = ctx.root("gather", "Gatherer", pub=True)
        del TOUCHED[:]
        self.R = ctx.run(r)
        self.I = self.R.I
        self.ok = False
        rets = [(v, s) for k, v, s in self.R.outs if k == "ret"]
        cands = {}
        for li in live_loops(self.R):
            if not isinstance(li.kind, T):
                continue
            for w in li.W:
                for b in li.backs:
                    for x in subterms(b[w]) if w in b else ():
                        if x.op == "proj" and x.a[1] == ("i", li.kind) and self.metrics_of(x.a[0]):
                            S = cands[(li.id, w)][2] if (li.id, w) in cands else None
                            # the list itself, not one that it was made from
                            if S is None or not contains(S, lambda t: t is x.a[0]):
                                cands[(li.id, w)] = (li, w, x.a[0])
        # the families: the sequence carried by that loop which starts empty and which gather returns
        self.found = []
        for li, w, S in cands.values():
            L = mk("lv", li.id, w[0], w[1])
            if li.init.get(w) is not None and li.init[w].op in ("adt", "tup", "ref", "int"):
                continue
            for v, s in rets:
                cl = Client(ctx, self.I, s)
                try:
                    F = cl.one("into_vec", "MetricFamilies", [v], pub=True)
                except Missing:
                    F = None
                if F is not None and contains(F, lambda t: t is L) and (li, w, S, L) not in [f[:4] for f in self.found]:
                    self.found.append((li, w, S, L, F))
        if len({(f[0].id, f[1]) for f in self.found}) != 1:
            chk.unk("how gather forms families", "%d loops over the collected metrics" % len(self.found), r["span"])
            return
        self.li, self.w, self.S, self.L, F = self.found[0]
        self.finals = [f[4] for f in self.found]
        self.m = proj(self.S, ("i", self.li.kind))
        self.ok = True

    def metrics_of(self, S):
        return lossless(S)[0].op in ("lv", "uout")


def last_index(s):
    return isub(seqlen(s), integer(1, "usize"), "usize")


class Step(object):
    """one way through a round of the grouping loop"""

    def __init__(self, G, b, st):
        self.G, self.st = G, st
        ctx, I = G.ctx, G.I
        self.new = b.get(G.w)
        self.cl = Client(ctx, I, st)
        self.what = self.place = self.cls = None
        L = G.L
        F = self.new
        if F is None:
            return
        mp = self.cl.hold(G.m, "m")
        self.mname = self.value(self.cl.one("name", "Metric", [mp], pub=True))
        self.mlabels = self.cl.one("labels", "Metric", [mp], pub=True)
        if F.op == "push" and F.a[0] is L:
            self.what, self.fam = "new", F.a[1]
        elif F.op == "upd" and F.a[0] is L and F.a[1][0] == "i":
            self.what, self.ix, self.fam = "same", F.a[1][1], F.a[2]
            self.old = proj(L, F.a[1])
        elif F is L:
            self.what = "nothing"

    def value(self, p):
        return self.cl.at(p) if p is not None else None


def variants(ctx, enum):
    """the names of the variants of an enum of the metric module"""
    a = [x for p, x in ctx.F.adts.items() if p.split("::")[-1] == enum]
    if not a:
        raise Missing(enum)
    return [v.get("n") or v.get("name") for v in ctx.F.types[a[0]["ty"]]["variants"]]


def discr_names(ctx, st, v, enum):
    """the variants a value may be of"""
    ns = variants(ctx, enum)
    if v.op == "adt":
        return frozenset([ns[v.a[1]]])
    r = st.range(mk("discr", v))
    if r is None:
        return frozenset(ns)
    return frozenset(n for i, n in enumerate(ns) if any(lo <= i <= hi for lo, hi in r))


def payload(v):
    """the list of series in a Metrics value"""
    return v.a[2] if v is not None and v.op == "adt" and len(v.a) == 3 else None


def fam_parts(ctx, I, st, fam):
    """(name, kind, variant of Metrics, list of series) of a family"""
    cl = Client(ctx, I, st)
    p = cl.hold(fam, "fam")
    n = cl.one("name", "MetricFamily", [p], pub=True)
    n = cl.at(n) if n is not None else None
    k = cl.one("kind", "MetricFamily", [p], pub=True)
    q = cl.one("metrics", "MetricFamily", [p], pub=True)
    ms = cl.at(q) if q is not None else None
    return n, k, ms


def name_mask(st, a, b):
    """how the texts of two names may compare on a path, and whether anything is known of it"""
    m, told = 15, False
    for (x, y), k in st.rel.items():
        nx, ny = named(x), named(y)
        if nx is None or ny is None:
            continue
        if nx is a and ny is b or nx is b and ny is a:
            told = True
            m &= k | UN
    return m, told


def named(t):
    """the name whose text a term is"""
    if t.op == "disp" and t.a[0].split("::")[-1] == "MetricName" and t.a[3] is None:
        return t.a[2] if t.a[1] == "val" else mk("deref", t.a[2]) if t.a[2].op != "ref" else place(t.a[2])
    return None


def place(r):
    """the value at a place nothing has been written to"""
    root, path = r.a
    v = root.a[0] if root.op == "D" else None
    if v is None:
        return r
    v = mk("deref", v)
    for c in path:
        v = proj(v, c if isinstance(c, tuple) else ("f", c - 2))
    return v


def same_name_known(st, a, b):
    if a is None or b is None:
        return None
    if a is b:
        return True
    m, told = name_mask(st, a, b)
    if m & (LT | GT) == 0:
        return True
    if m & EQ == 0:
        return False
    return None


def touches(t, v):
    return any(x is v for x in subterms(t))


def parts_compared(st, a, b):
    """does the path compare parts of the names with each other?"""
    for f in list(st.facts) + [mk("tup", x, y) for x, y in st.rel]:
        if touches(f, a) and touches(f, b):
            return True
    return False


def label_cells(ctx, I, st, p):
    """the sequence of labels behind a pointer to Labels, sites forgotten"""
    cl = Client(ctx, I, st)
    it = cl.one("iter", "Labels", [p], pub=True)
    if it is None:
        return None
    cells = {x.a[0] for x in subterms(it) if x.op == "immld"}
    if len(cells) > 1:
        root, path = I.addr(p)
        cells = {c for c in cells if c.op == "ref" and c.a[0] is root and c.a[1][:len(path)] == tuple(path)}
    return cells.pop() if len(cells) == 1 else None


def whole_labels(t, cell):
    """is the sequence the whole label sequence read from the cell?"""
    if t.op == "comp":
        lo, hi, init, cases, bv = t.a
        if not (lo is ZERO and hi.op == "len" and not init.a and init.op == "list" and len(cases) == 1 and len(cases[0][1]) == 1):
            return None if not any(x.op == "immld" and x.a[0] is cell for x in subterms(t)) else False
        conds, xs = cases[0]
        V = hi.a[0]
        if conds or not (V.op == "deref" and V.a[0].op == "immld" and V.a[0].a[0] is cell):
            return None
        x = xs[0]
        if x is proj(V, ("i", bv)):
            return True
        return x.op == "ref" and x.a[0] is mk("D", V.a[0]) and x.a[1] == (("i", bv),) or None
    if t.op == "deref" and t.a[0].op == "immld" and t.a[0].a[0] is cell:
        return True
    return None


def labels_equal(ctx, I, st, p, q):
    """True / False: the path knows the labels behind two pointers to be equal / different; None: it does not; 'part': it compares something else of them"""
    a, b = label_cells(ctx, I, st, p), label_cells(ctx, I, st, q)
    if a is None or b is None:
        return "part"
    seen = False
    for f, v in st.facts.items():
        has = [any(x.op == "immld" and x.a[0] is c for x in subterms(f)) for c in (a, b)]
        if not all(has):
            continue
        seen = True
        if f.op in ("seqeq", "eq"):
            x, y = f.a[-2:]
            for s, t in ((a, b), (b, a)):
                if whole_labels(x, s) is True and whole_labels(y, t) is True:
                    return v
    for (x, y), m in st.rel.items():
        for s, t in ((p, q), (q, p)):
            if is_labels(x, s) and is_labels(y, t):
                if m & (LT | GT) == 0:
                    return True
                if m & EQ == 0:
                    return False
        if any(z.op == "immld" and z.a[0] in (a, b) for z in list(subterms(x)) + list(subterms(y))):
            seen = True
    return "part" if seen else None


def label_fields(ctx):
    """where a label keeps its name and its value"""
    out = []
    for g in ("name", "value"):
        R = ctx.run(ctx.root(g, "Label", pub=True))
        fs = set()
        for k, v, s in R.outs:
            for x in subterms(v):
                if x.op == "proj" and x.a[0] is mk("deref", R.args[0]):
                    fs.add(x.a[1])
                if x.op == "ref" and x.a[0] is mk("D", R.args[0]) and x.a[1]:
                    c = x.a[1][0]
                    fs.add(c if isinstance(c, tuple) else ("f", c - 2))
        if len(fs) != 1:
            return []
        out.append(fs.pop())
    return out


def short_compare(ctx, I, st, p, q):
    """are labels compared pairwise only as far as both sets have some?"""
    a, b = label_cells(ctx, I, st, p), label_cells(ctx, I, st, q)
    if a is None or b is None:
        return False
    pair = []
    for f, v in st.facts.items():
        has = {x.a[0] for x in subterms(f) if x.op == "immld" and x.a[0] in (a, b)}
        if len(has) == 2 and f.op == "forall":
            if not v or not known(f):
                return False
            pair.append(f)
        elif has and not only_lengths(f, (a, b)):
            return False
    if any(x.op == "immld" and x.a[0] in (a, b) for k in st.rel for t in k for x in subterms(t)) or not pair:
        return False
    for ps, bound in st.lin.items():
        # the numbers of labels were compared, perhaps when the sets were read before
        cs = [t.a[0].a[0].a[0] for t, c in ps if t.op == "len" and t.a[0].op == "deref" and t.a[0].a[0].op == "immld"]
        if bound == (0, 0) and len(ps) == 2 and a in cs and b in cs:
            return False
    for f in pair:
        vs = {x for x in subterms(f) if x.op == "deref" and x.a[0].op == "immld"}
        x, y = [[seqlen(v) for v in vs if v.a[0].a[0] is c] for c in (a, b)]
        hi = set(f.a[1].a) if f.a[1].op == "min" else {f.a[1]}
        if f.a[0] is not ZERO or len(x) != 1 or len(y) != 1 or not hi <= {x[0], y[0]}:
            return False
        es = []
        for l, m in ((x[0], y[0]), (y[0], x[0])):
            e = st.copy()
            es.append(e.assume(cmp_lt("i", l, m), True) and e.feasible())
        if not any(es):
            return False
    return True


def only_lengths(f, cells):
    """does a fact say nothing of the labels in some cells but how many there are?"""
    lens = {x: mk("sym", "len%d" % x.id) for x in subterms(f) if x.op == "len" and x.a[0].op == "deref" and x.a[0].a[0].op == "immld"}
    return not any(x.op == "immld" and x.a[0] in cells for x in subterms(subst(f, lens)))


def label_uses(ctx, I, st, p, q):
    """what the facts of a path depend on of the labels behind two pointers: fields of labels, 'len', 'whole', '?'"""
    cells = {label_cells(ctx, I, st, x) for x in (p, q)} - {None}
    out = set()
    if len(cells) != 2:
        return {"?"}
    seen = set()

    def seq(t):
        return t.op == "deref" and t.a[0].op == "immld" and t.a[0].a[0] in cells

    def walk(t):
        if isinstance(t, tuple):
            for x in t:
                walk(x)
            return
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "unk" or not known(t) and t.op in ("call", "callret"):
            out.add("?")
        if t.op == "len" and seq(t.a[0]):
            out.add("len")
            return
        if seq(t) or t.op == "proj" and seq(t.a[0]):
            out.add("whole")
            return
        if t.op == "proj" and t.a[0].op == "proj" and seq(t.a[0].a[0]):
            out.add(t.a[1])
            return
        if t.op == "ref" and t.a[0].op == "D" and t.a[0].a[0].op == "immld" and t.a[0].a[0].a[0] in cells:
            path = t.a[1]
            if len(path) < 2:
                out.add("whole")
            else:
                out.add(path[1] if isinstance(path[1], tuple) else ("f", path[1] - 2))
            return
        for x in t.a:
            walk(x)
    for t in list(st.facts) + list(st.rng) + [z for k in st.rel for z in k]:
        if any(x.op == "immld" and x.a[0] in cells for x in subterms(t)):
            if not known(t):
                out.add("?")
            walk(t)
    return out


def is_labels(t, p):
    return t.op == "disp" and t.a[0].split("::")[-1] == "Labels" and t.a[3] is None and t.a[2] is p


def sort_key(G):
    """the components of the key by which the metrics are sorted: [set of 'name'/'kind'/'labels'/'?'/'other'], or None"""
    S = G.S
    while S.op == "rev" or S.op not in ("sort", "lv", "uout") and lossless(S)[0] is not S:
        S = S.a[1].a[0] if S.op == "comp" else S.a[0] if S.op not in ("rev", "dedup") else S.a[-1]
    if S.op != "sort":
        return "none"
    k = S.a[0]
    if k.op != "key" or k.a[0] not in ("asc", "desc"):
        return None
    K = k.a[-1]
    alts = K.a if K.op == "oneof" else (K,)
    out = set()
    for alt in alts:
        out.add(tuple(components(G, alt)))
    return out


def flat(t):
    if t.op == "tup":
        return [y for x in t.a for y in flat(x)]
    return [t]


def components(G, alt):
    ctx, I = G.ctx, G.I
    out = []
    for x in flat(alt):
        r = "?" if not known(x) else "other"
        for i, k in enumerate(variants(ctx, "Metric")):
            cl = Client(ctx, I, State())
            h = cl.hold(proj(ELT, ("vf", i, 0)), "h")
            n = cl.one("metric_name", k, [h], pub=True)
            l = cl.one("labels", k, [h], pub=True)
            if n is None or l is None:
                return ["?"]
            if x is cl.at(n) or named(x) is not None and named(x) is cl.at(n) or named(x) is not None and x.a[2] is n:
                r = "name"
            c = label_cells(ctx, I, cl.st, l)
            if c is not None and (whole_labels(x, c) is True or cloned_labels(x, c)):
                r = "labels"
            if is_labels(x, l):
                r = "labels"
        if x.op == "adt" and x.a[0].split("::")[-1] == "MetricKind" and len(x.a) == 2:
            r = "kind"
        if x.op == "discr" and x.a[0] is ELT:
            r = "kind"
        out.append(r)
    return out


def cloned_labels(t, cell):
    if t.op != "comp":
        return False
    lo, hi, init, cases, bv = t.a
    V = hi.a[0] if hi.op == "len" else None
    if V is None or not (lo is ZERO and not init.a and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1):
        return False
    if not (V.op == "deref" and V.a[0].op == "immld" and V.a[0].a[0] is cell):
        return False
    x, el = cases[0][1][0], proj(V, ("i", bv))
    # the text of a label tells it apart from all others
    return x is el or x.op == "disp" and x.a[0].split("::")[-1] == "Label" and len(x.a) > 2 and (x.a[2] is el or x.a[2].op == "ref" and contains(x.a[2], lambda t: t is bv) and x.a[3] is None)


def c15(ctx, chk):
    chk.rule("gather sorts the metrics by (full name, kind, labels) read once each, and goes through them once; each is put into a new family exactly when its full name or kind differs from the last family's, else into that family, and there merged exactly when its labels equal those of the last series")
    G = Grouping(ctx, chk)
    if not G.ok:
        return
    li = G.li
    span = li.span
    init = li.init.get(G.w)
    chk.expect("gather starts without families", init is mk("list"), show(init)[:80], span, closed(init))
    for F in G.finals:
        x = F
        while x.op in ("sort", "rev"):
            x = x.a[-1]
        chk.expect("all families are returned", x is G.L, show(F)[:120], span, closed=known(F) and x.op in ("dedup", "truncate", "popback", "popfront", "comp", "remove", "swaprm", "lv"))
    ks = sort_key(G)
    steps = []
    by_last = True
    n = {"new": 0, "add": 0, "merge": 0}
    for b, st in zip(li.backs, li.backst):
        if not st.feasible():
            continue
        s = Step(G, b, st)
        steps.append(s)
        r = s.cls = classify(ctx, chk, G, s, span)
        if r in n:
            n[r] += 1
        if s.what == "same" and s.ix is not last_index(G.L):
            by_last = False
    floor(chk, "ways to put a metric into a family", sum(n.values()), 3)
    key = "a new series takes the place with which the next metric is compared"
    places = {c: {s.place for s in steps if s.cls == c} for c in ("add", "merge")}
    if None in places["add"] | places["merge"]:
        chk.unk(key, "", span)
    else:
        chk.expect(key, places["add"] == places["merge"], "added %s, compared with the %s" % (places["add"], places["merge"]), span)
    # contiguity
    if by_last:
        if ks == "none":
            chk.bad("metrics of one family are adjacent", "the metrics are not sorted but compared with the last family only", span)
        elif ks is None or any("?" in k for k in ks):
            chk.unk("metrics of one family are adjacent", "sorted by %s" % show(G.S)[:120], span)
        else:
            for k in ks:
                k = list(k)
                fam = [i for i in range(len(k)) if k[i] in ("name", "kind")]
                good = "name" in k and "kind" in k
                first = max(k.index("name"), k.index("kind")) if good else 0
                chk.expect("metrics of one family are adjacent", good and all(x in ("name", "kind") for x in k[:first]), "sorted by %s" % ", ".join(k), span)
                chk.expect("series with equal labels are adjacent", "labels" in k and all(x in ("name", "kind", "labels") for x in k[:k.index("labels")]), "sorted by %s" % ", ".join(k), span)
    names(ctx, chk)


def classify(ctx, chk, G, s, span):
    """judge one way through a round"""
    if s.what is None or s.mname is None or s.mlabels is None:
        chk.unk("how a metric is put into a family", show(s.new)[:120] if s.new is not None else "", span)
        return None
    st, L = s.st, G.L
    if s.what == "nothing":
        chk.bad("every metric is put into a family", "a metric may be left out", span)
        return None
    name, kind, ms = fam_parts(ctx, G.I, st, s.fam)
    if name is None or ms is None:
        chk.unk("how a metric is put into a family", "family not understood", span)
        return None
    mk_ = discr_names(ctx, st, G.m, "Metric")
    if s.what == "new":
        chk.expect("a family has the name of its metrics", name is s.mname, "%s / %s" % (show(name)[:60], show(s.mname)[:60]), span, closed=known(name))
        series_kind(ctx, chk, s, ms, mk_, kind, span)
        sv = payload(ms)
        chk.expect("a new family has one series, that of its metric", sv is not None and sv.op == "list" and len(sv.a) == 1, show(sv)[:100] if sv is not None else "", span, closed=sv is not None and known(sv))
        # is the new family needed?
        e = st.copy()
        ok = not e.assume(cmp_lt("i", ZERO, seqlen(L)), True) or not e.feasible()
        if not ok:
            last = proj(L, ("i", last_index(L)))
            ln, lk, lms = fam_parts(ctx, G.I, e, last)
            sn = None
            if ln is not None:
                sn = same_name_known(st, ln, s.mname)
            a = fam_discr(ctx, G, st, last)
            if sn is False or a is not None and not a & mk_:
                ok = True
            elif any(f.op in ("forall", "first") for f in st.facts) or ln is None:
                chk.unk("a new family is formed only for a new name or kind", "", span)
                return "new"
        chk.expect("a new family is formed only for a new name or kind", ok, "the last family may have the same name and kind", span, closed=True)
        return "new"
    # into an existing family
    oname, okind, oms = fam_parts(ctx, G.I, st, s.old)
    if oname is None or oms is None:
        chk.unk("how a metric is put into a family", "family not understood", span)
        return None
    sn = same_name_known(st, oname, s.mname)
    if sn is None and parts_compared(st, oname, s.mname):
        chk.unk("only metrics of one name are put into a family", "parts of the names are compared", span)
    else:
        chk.expect("only metrics of one name are put into a family", sn is True, "the names may differ", span)
    a = fam_discr(ctx, G, st, s.old)
    chk.expect("only metrics of one kind are put into a family", a is not None and len(a) == 1 and a == mk_, "%s / %s" % (sorted(a or ()), sorted(mk_)), span)
    chk.expect("a family keeps its name", name is oname, show(name)[:80], span, closed=known(name))
    sv, so = payload_of(ctx, ms, a), payload_of(ctx, oms, a)
    if sv is None or so is None:
        chk.unk("how a metric is put into a family", "series not understood", span)
        return None
    ty = "Aggregated" + sorted(mk_)[0]
    if sv.op == "push" and sv.a[0] is so:
        s.place = "last"
        return judge_add(ctx, chk, G, s, so, ty, span)
    if sv.op == "insert" and so in sv.a[:2] and ZERO in sv.a[:2]:
        s.place = "first"
        return "add"
    if sv.op == "upd" and sv.a[0] is so and sv.a[1][0] == "i":
        ix = sv.a[1][1]
        s.place = "last" if ix is last_index(so) else "first" if ix is ZERO else None
        return judge_merge(ctx, chk, G, s, so, sv.a[1][1], sv.a[2], ty, span)
    if sv is so:
        chk.bad("every metric is put into a series", "a metric may be left out", span)
        return None
    chk.unk("how a metric is put into a series", show(sv)[:120], span)
    return None


def payload_of(ctx, ms, a):
    if ms.op == "adt":
        return ms.a[2] if len(ms.a) == 3 else None
    if a is None or len(a) != 1:
        return None
    return proj(ms, ("vf", variants(ctx, "Metrics").index(list(a)[0]), 0))


def fam_discr(ctx, G, st, fam):
    cl = Client(ctx, G.I, st)
    q = cl.one("metrics", "MetricFamily", [cl.hold(fam, "fam")], pub=True)
    return discr_names(ctx, st, cl.at(q), "Metrics") if q is not None else None


def series_kind(ctx, chk, s, ms, mk_, kind, span):
    chk.expect("a family has the kind of its metrics", ms.op == "adt" and discr_names(ctx, s.st, ms, "Metrics") == mk_, show(ms)[:60], span, closed=known(ms))
    if kind is not None:
        chk.expect("a family reports the kind of its metrics", kind.op == "adt" and discr_names(ctx, s.st, kind, "MetricKind") == mk_, show(kind)[:60], span, closed=known(kind))


def judge_add(ctx, chk, G, s, so, ty, span):
    st = s.st
    e = st.copy()
    key = "a new series is formed only for new labels"
    if not e.assume(cmp_lt("i", ZERO, seqlen(so)), True) or not e.feasible():
        chk.ok(key, "first series", span)
        return "add"
    cl = Client(ctx, G.I, e)
    last = cl.hold(proj(so, ("i", last_index(so))), "series")
    n = cl.one("metric_name", ty, [last], pub=True)
    if n is not None and same_name_known(st, cl.at(n), s.mname) is False:
        # cannot happen: all series of a family have its name
        chk.ok(key, "", span)
        return "add"
    p = cl.one("labels", ty, [last], pub=True)
    if p is None:
        chk.unk(key, "labels of the series not understood", span)
        return "add"
    r = labels_equal(ctx, G.I, st, p, s.mlabels)
    if r == "part" or any(f.op in ("forall", "first") for f in st.facts):
        if r is False:
            chk.ok(key, "", span)
        else:
            chk.unk(key, "something else of the labels is compared", span)
    else:
        chk.expect(key, r is False, "the labels may equal those of the last series", span)
    return "add"


def judge_merge(ctx, chk, G, s, so, ix, agg, ty, span):
    st = s.st
    cl = Client(ctx, G.I, st)
    old = proj(so, ("i", ix))
    p = cl.one("labels", ty, [cl.hold(old, "series")], pub=True)
    key = "only metrics with equal labels are merged"
    if p is None:
        chk.unk(key, "labels of the series not understood", span)
        return "merge"
    r = labels_equal(ctx, G.I, st, p, s.mlabels)
    if r == "part":
        u = label_uses(ctx, G.I, st, p, s.mlabels)
        have = [f in u for f in label_fields(ctx)]
        if short_compare(ctx, G.I, st, p, s.mlabels):
            chk.bad(key, "of label sets of different sizes only the common part is compared", span)
        elif "?" in u or "whole" in u or all(have) or not have:
            chk.unk(key, "something else of the labels is compared", span)
        else:
            chk.bad(key, "only %s compared" % (" and ".join(sorted(n for n, h in zip(("names", "values"), have) if h)) or "their number is"), span)
    else:
        chk.expect(key, r is True, "the labels may differ", span)
    return "merge"


def names(ctx, chk):
    """equality, order and hash of names go by the whole text"""
    for q in ctx.F.roots:
        ty = (q.get("selfpath") or "").split("::")[-1]
        if ty == "MetricName" and q["name"] in ("eq", "cmp", "partial_cmp", "hash") and (q.get("trait") or "").startswith("core::"):
            R = ctx.run(q)
            n = "MetricName::%s goes by the full name" % q["name"]
            a = [place_text(x) for x in R.args[:2]]
            if q["name"] == "hash":
                ev = [e for e in events(R, "hash")]
                if ev:
                    xs = [x for e in ev for x in list(e.d.values()) if isinstance(x, T)]
                    good = any(contains(x, lambda t: t is a[0]) for x in xs) and len(ev) == 1
                    chk.expect(n, good, "; ".join(show(x)[:60] for x in xs)[:200], q["span"], closed=known(*xs))
                else:
                    chk.unk(n, "no hash event", q["span"])
                continue
            for k, v, s in R.outs:
                if k != "ret":
                    continue
                x = v.a[2] if is_some(v) else v
                want = {"eq": ("eq",), "cmp": ("cmp",), "partial_cmp": ("cmp",)}[q["name"]]
                good = x.op in want and set(x.a[-2:]) == set(a) and (q["name"] == "eq" or x.a[-2:] == tuple(a))
                chk.expect(n, good, show(v)[:160], q["span"], closed=known(v))
    for t in ("Label", "MetricKind"):
        for q in ctx.F.roots:
            if (q.get("selfpath") or "").split("::")[-1] == t and q["name"] in ("eq", "cmp") and (q.get("trait") or "").startswith("core::"):
                if q.get("derived"):
                    chk.ok("%s::%s distinguishes whatever differs" % (t, q["name"]), "derived", q["span"])
                else:
                    chk.unk("%s::%s distinguishes whatever differs" % (t, q["name"]), "written by hand", q["span"])


def place_text(p):
    return mk("disp", "prometrics::metric::MetricName", "ptr", p, None)


def events(R, kind):
    out = []
    seen = set()
    live = reachable(R, R.entry)
    for n, es in R.G.out.items():
        if n not in live:
            continue
        for e, m in es:
            if e is not None and getattr(e, "kind", None) == kind and id(e) not in seen:
                seen.add(id(e))
                out.append(e)
    return out


# ---------------------------------------------------------------------------------------------- C16
def rounds_of(ctx, chk, G):
    """[(step, class, type, series before or None, series after)] of every way through the grouping loop"""
    out = []
    for b, st in zip(G.li.backs, G.li.backst):
        if not st.feasible():
            continue
        s = Step(G, b, st)
        if s.what not in ("new", "same"):
            continue
        name, kind, ms = fam_parts(ctx, G.I, st, s.fam)
        k = discr_names(ctx, st, G.m, "Metric")
        if ms is None or len(k) != 1:
            chk.unk("how a metric becomes a series", "", G.li.span)
            continue
        ty = list(k)[0]
        if s.what == "new":
            sv = payload(ms)
            if sv is not None and sv.op == "list" and len(sv.a) == 1:
                out.append((s, "new", ty, None, sv.a[0]))
            continue
        oname, okind, oms = fam_parts(ctx, G.I, st, s.old)
        a = fam_discr(ctx, G, st, s.old)
        sv, so = payload_of(ctx, ms, a), payload_of(ctx, oms, a)
        if sv is None or so is None:
            continue
        if sv.op == "push" and sv.a[0] is so:
            out.append((s, "add", ty, None, sv.a[1]))
        elif sv.op == "upd" and sv.a[0] is so and sv.a[1][0] == "i":
            out.append((s, "merge", ty, proj(so, sv.a[1]), sv.a[2]))
        elif sv is not so:
            chk.unk("how a metric becomes a series", show(sv)[:120], G.li.span)
    return out


def stamps(ctx, I, st, ty, p):
    """what the timestamp of a metric or series may be: [(Some/None value, state)]"""
    out = []
    base = Client(ctx, I, st)
    for k, t, s in base.call("timestamp", ty, [p], pub=True):
        if k != "ret":
            continue
        cl = Client(ctx, I, s)
        if t.op != "ref":
            t = cl.hold(t, "ts")
        for k2, v, s2 in cl.call("get", "Timestamp", [t], pub=True):
            if k2 == "ret":
                out.append((v, s2))
    return out


def stamp_cell(ctx, I, st, ty, p):
    """the cell that holds the timestamp of a handle"""
    cs = set()
    for v, s in stamps(ctx, I, st, ty, p):
        cs |= {x.a[0] for x in list(subterms(v)) + list(s.rng) if x.op == "aload"}
    root, path = I.addr(p)
    cs = {c for c in cs if c.op == "ref"}
    return cs


def handle_of(ctx, G, s, ty):
    i = variants(ctx, "Metric").index(ty)
    hv = proj(G.m, ("vf", i, 0))
    cl = Client(ctx, G.I, s.st)
    return hv, cl, cl.hold(hv, "handle")


def fresh_series(ctx, chk, G, s, ty, agg, seen):
    """a new series has everything its metric has"""
    span = G.li.span
    hv, cl, h = handle_of(ctx, G, s, ty)
    p = cl.hold(agg, "series")
    at = "Aggregated" + ty
    for g in ("metric_name", "labels"):
        x, y = cl.one(g, at, [p], pub=True), cl.one(g, ty, [h], pub=True)
        if x is None or y is None:
            chk.unk("a new series has the %s of its metric" % g, "", span)
            continue
        good = x is y or norm(cl.at(x)) is norm(cl.at(y))
        chk.expect("a new %s has the %s of its metric" % (at, g), good, show(x)[:100], span, closed=known(x))
    for g in ("value",) if ty in ("Counter", "Gauge") else ("count", "sum"):
        x, y = cl.one(g, at, [p], pub=True), cl.one(g, ty, [h], pub=True)
        if x is None or y is None:
            chk.unk("a new series has the %s of its metric" % g, "", span)
            continue
        good = norm(x) is norm(y) or x.op == "fadd" and any(t.op == "f64" and ffrom(t.a[0]) == 0.0 and norm(o) is norm(y) for t, o in (x.a, x.a[::-1]))
        chk.expect("a new %s has the %s of its metric" % (at, g), good, "%s / %s" % (show(x)[:120], show(y)[:120]), span, closed=known(x))
    if ty in ("Histogram", "Summary"):
        f = members(ctx, at)
        if f is None:
            chk.unk("the members of a series", at, span)
        else:
            v = proj(agg, f)
            chk.expect("a new %s consists of its metric" % at, v.op == "list" and v.a == (hv,), show(v)[:100], span, closed=known(v))
    got = {norm(v) for v, e in stamps(ctx, G.I, cl.st, at, p)}
    want = {norm(v) for v, e in stamps(ctx, G.I, cl.st, ty, h)}
    if ty in ("Histogram", "Summary"):
        # the same reads, made when asked
        return
    acc = seen.setdefault((s.what, ty), (set(), set()))
    acc[0].update(got)
    acc[1].update(want)


MEMBERS = {}


def members(ctx, at):
    """the field of an aggregation that holds the metrics it is made of"""
    if at not in MEMBERS:
        r = ctx.root("count", at, pub=True)
        R = ctx.run(r)
        fs = set()
        for k, v, s in R.outs:
            for x in subterms(v) if k == "ret" else ():
                if x.op == "len" and x.a[0].op == "proj" and x.a[0].a[0] is mk("deref", R.args[0]):
                    fs.add(x.a[0].a[1])
        if not fs:
            # the only field that is a list of metrics
            a = [x for p, x in ctx.F.adts.items() if p.split("::")[-1] == at]
            for i, f in enumerate(ctx.F.types[a[0]["ty"]]["variants"][0]["f"] if a else ()):
                if ctx.F.types[f["ty"]]["s"].startswith("alloc::vec::Vec<") and at[10:] in ctx.F.types[f["ty"]]["s"]:
                    fs.add(("f", i))
        MEMBERS[at] = fs.pop() if len(fs) == 1 else None
    return MEMBERS[at]


def merged_series(ctx, chk, G, s, ty, old, agg):
    span = G.li.span
    hv, cl, h = handle_of(ctx, G, s, ty)
    at = "Aggregated" + ty
    if agg is old:
        chk.bad("a merged metric is counted", "the series stays as it was", span)
        return
    p, q = cl.hold(agg, "series"), cl.hold(old, "before")
    if ty in ("Histogram", "Summary"):
        f = members(ctx, at)
        if f is None:
            chk.unk("the members of a series", at, span)
            return
        v, o = proj(agg, f), proj(old, f)
        good = v.op == "push" and v.a[0] is o and v.a[1] is hv or v.op == "append" and v.a[0] is o and v.a[1].op == "list" and v.a[1].a == (hv,)
        chk.expect("each metric contributes once to a merged %s" % at, good, show(subst(v, {o: mk("sym", "before"), hv: mk("sym", "metric")}))[:160], span, closed=known(v))
        rest = setc(agg, f, o)
        chk.expect("merging changes nothing else of an %s" % at, rest is old or rest is setc(old, f, o), show(rest)[:100], span, closed=known(rest) and agg.op == "upd" and agg.a[0] is old)
        return
    x, y, z = cl.one("value", at, [p], pub=True), cl.one("value", at, [q], pub=True), cl.one("value", ty, [h], pub=True)
    if x is None or y is None or z is None:
        chk.unk("the value of a merged %s" % at, "", span)
        return
    good = norm(x) is norm(fbin("add", norm(y), norm(z))) or flat_sum(norm(x)) == flat_sum(fbin("add", norm(y), norm(z))) and x.op == "fadd" and any(norm(t) is norm(y) for t in x.a)
    chk.expect("each metric contributes once to a merged %s" % at, good, show(subst(x, {y: mk("sym", "before")}))[:160], span, closed=known(x))
    for g in ("metric_name", "labels"):
        a, b = cl.one(g, at, [p], pub=True), cl.one(g, at, [q], pub=True)
        if a is None or b is None:
            continue
        c = cl.one(g, ty, [h], pub=True)
        chk.expect("a merged %s keeps its %s" % (at, g), a is b or norm(cl.at(a)) in (norm(cl.at(b)), norm(cl.at(c)) if c is not None else None), show(a)[:100], span, closed=known(a))
    latest(ctx, chk, G, s, ty, at, cl, h, old, agg, span)


def flat_sum(t):
    if t.op == "fadd":
        return sorted(flat_sum(t.a[0]) + flat_sum(t.a[1]))
    return [t.id]


def latest(ctx, chk, G, s, ty, at, cl, h, old, agg, span):
    """the timestamp of the series becomes the later of its own and the metric's"""
    key = "a merged %s carries the latest timestamp" % at
    q = cl.hold(old, "before")
    fs = set()
    for v, e in stamps(ctx, G.I, cl.st, at, q):
        for x in list(subterms(v)) + [y for f in e.rng for y in subterms(f)]:
            if x.op == "proj" and x.a[0] is old:
                fs.add(x.a[1])
    fs = {f for f in fs if optional(ctx, at, f)}
    if len(fs) != 1:
        chk.unk(key, "where it is kept was not understood", span)
        return
    f = fs.pop()
    t0, t1 = proj(old, f), proj(agg, f)
    cells = stamp_cell(ctx, G.I, cl.st, ty, h)
    loads = {x for d in (s.st.rng, s.st.facts) for y in d for x in subterms(y) if x.op == "aload" and x.a[0] in cells}
    loads |= {x for x in subterms(t1) if x.op == "aload" and x.a[0] in cells}
    if len(loads) != 1:
        if not loads:
            chk.bad(key, "the metric's timestamp is not looked at", span)
        else:
            chk.unk(key, "the metric's timestamp is read %d times" % len(loads), span)
        return
    y = loads.pop()
    # is there one?
    r = s.st.range(y)
    lo = -(1 << 63)
    if r == ((lo, lo),):
        new = None
    elif r is not None and not iset_and(r, ((lo, lo),)):
        new = y
    else:
        chk.expect(key, False, "the metric's timestamp is used without a look at whether there is one", span, closed=known(t1) and not contains(t1, lambda t: t.op == "max"))
        return
    o = s.st.range(mk("discr", t0))
    have = None if o is None else True if o == ((1, 1),) else False if o == ((0, 0),) else None
    x = proj(t0, ("vf", 1, 0))
    res = set(t1.a) if t1.op == "max" else {t1}
    val = some(new) if new is not None else None
    if new is None:
        good = all(z is t0 or is_none(z) for z in res) and (any(z is t0 for z in res) or have is False)
        if t1.op == "adt" and is_some(t1) and t1.a[2] is x and have:
            good = True
    elif t1.op == "max":
        good = res == {t0, val}
    elif t1 is val:
        good = have is False or have is True and not smaller(s.st, y, x)
    elif t1 is t0 or is_some(t1) and t1.a[2] is x:
        good = have is True and not smaller(s.st, x, y)
    elif is_some(t1) and t1.a[2].op == "max":
        good = have is True and set(t1.a[2].a) == {x, y}
    else:
        good = False
    chk.expect(key, good, show(subst(t1, {t0: mk("sym", "before"), y: mk("sym", "metric")}))[:160], span, closed=known(t1))


def smaller(st, a, b):
    """may a be less than b?"""
    e = st.copy()
    return e.assume(cmp_lt("i", a, b), True) and e.feasible()


def optional(ctx, at, f):
    a = [x for p, x in ctx.F.adts.items() if p.split("::")[-1] == at]
    t = ctx.F.types[a[0]["ty"]] if a else None
    try:
        fl = t["variants"][0]["f"][f[1]]
        return "Option" in ctx.F.types[fl["ty"]]["s"]
    except (KeyError, IndexError, TypeError):
        return True


def accessors(ctx, chk):
    """what a merged histogram or summary reports is taken over all its members, once each"""
    for ty in ("Histogram", "Summary"):
        at = "Aggregated" + ty
        f = members(ctx, at)
        if f is None:
            chk.unk("the members of a series", at, "")
            continue
        for g in ("count", "sum"):
            r = ctx.root(g, at, pub=True)
            del TOUCHED[:]
            R = ctx.run(r)
            V = proj(mk("deref", R.args[0]), f)
            key = "%s::%s adds up all members" % (at, g)
            n = 0
            for k, v, s in R.outs:
                if k != "ret":
                    continue
                n += 1
                if v.op in ("int", "f64"):
                    # nothing to add
                    chk.expect(key, zero(v) and nothing(s, V), show(v), r["span"])
                    continue
                if v.op != ("sum" if g == "count" else "fsum"):
                    chk.expect(key, False, show(v)[:160], r["span"], closed=closed(v) and not contains(v, lambda t: t.op in ("fold", "call", "callret")))
                    continue
                lo, hi, init, cases, bv = v.a
                cl = Client(ctx, R.I, s)
                want = cl.one(g, ty, [cl.hold(proj(V, ("i", bv)), "h")], pub=True)
                if want is None:
                    chk.unk(key, "%s::%s" % (ty, g), r["span"])
                    continue
                full = lo is ZERO and hi is seqlen(V) and zero(init)
                chk.expect(key, full and all(norm(x) is norm(want) for c, x in cases) and (len(cases) == 1 or g == "count"), show(v)[:200], r["span"], closed=known(v))
                if len(cases) == 1:
                    chk.expect(key, trivial(cases[0][0]), "only under a condition: %s" % (cases[0][0],), r["span"], closed=False)
            floor(chk, "outcomes of %s::%s" % (at, g), n, 1)
        last_stamp(ctx, chk, ty, at, f)


def trivial(conds):
    return all(c[0] == "rng" and c[2] == ((0, (1 << 64) - 1),) for c in conds)


def zero(t):
    return t.op == "int" and t.a[0] == 0 or t.op == "f64" and ffrom(t.a[0]) == 0.0


def nothing(s, V):
    e = s.copy()
    return not e.assume(cmp_lt("i", ZERO, seqlen(V)), True) or not e.feasible()


def last_stamp(ctx, chk, ty, at, f):
    """the timestamp of an aggregation is the latest of its members'"""
    key = "%s::timestamp is the latest of all members" % at
    r = ctx.root("timestamp", at, pub=True)
    R = ctx.run(r)
    V = proj(mk("deref", R.args[0]), f)
    n = 0
    for v, s in stamps(ctx, R.I, State(), at, R.args[0]):
        if is_none(v):
            # only if there is no member with one: the path looked at the maximum, or at the members
            n += 1
            continue
        if not is_some(v):
            chk.unk(key, show(v)[:100], r["span"])
            continue
        n += 1
        m = [x for x in subterms(v) if x.op in ("maxof", "max", "minof", "last", "lv")]
        m = m[:1]
        if not m or m[0].op != "maxof":
            chk.expect(key, False, show(v)[:160], r["span"], closed=closed(v))
            continue
        S = m[0].a[-1] if m[0].a[-1].op == "comp" else m[0].a[0]
        if S.op != "comp":
            chk.unk(key, show(S)[:120], r["span"])
            continue
        lo, hi, init, cases, bv = S.a
        full = lo is ZERO and hi is seqlen(V) and not init.a
        cl = Client(ctx, R.I, State())
        h = cl.hold(proj(V, ("i", bv)), "h")
        want = {norm(x.a[2]) for x, e in stamps(ctx, R.I, cl.st, ty, h) if is_some(x)}
        good = full
        have = False
        for c, xs in cases:
            for x in xs:
                y = x.a[2] if is_some(x) else x
                if is_none(x):
                    continue
                if norm(y) in want:
                    have = True
                else:
                    good = False
        chk.expect(key, good and have, show(S)[:200], r["span"], closed=known(S))
    floor(chk, "outcomes of " + at + "::timestamp", n, 2)


SHARED = ("store", "rmw", "cas")


def effects(ctx, chk):
    """gathering and reading what was gathered change no metric"""
    n = 0
    types = set(p.split("::")[-1] for p in ctx.F.adts)
    for q in ctx.F.roots:
        sp = (q.get("selfpath") or "").split("::")[-1]
        if q["name"] in ("gather", "collect") and sp or sp.startswith("Aggregated") or sp in ("Metric", "MetricFamily", "MetricFamilies", "Metrics") and not q.get("derived"):
            if not q.get("inst") or not ctx.F.body(q["inst"]) or sp == "ProcessMetricsCollector":
                continue
            if q.get("derived"):
                continue
            n += 1
            R = ctx.run(q)
            bad = None
            for a, e, b in edges(R, lambda e: e.kind in ("atomic", "imm")):
                if e.kind == "atomic" and e.op in SHARED or e.kind == "imm" and e.op == "update":
                    c = e.cell
                    if c is not None and reaches_shared(c):
                        bad = e
                        break
            key = "%s::%s changes no metric" % (sp, q["name"])
            if bad is not None:
                chk.bad(key, "%s of %s" % (bad.op, show(bad.cell)[:100]), where(bad))
            else:
                chk.ok(key, "", q["span"])
    floor(chk, "functions that gather or read what was gathered", n, 10)


def reaches_shared(c):
    """is the cell behind a pointer from outside?"""
    return any(x.op == "D" for x in subterms(c))


def c16(ctx, chk):
    chk.rule("every way through the grouping loop: a new series has the values of its metric, a merged one the sum, the later timestamp, or one more member")
    chk.rule("the accessors of merged histograms and summaries are sums and maxima over all members; no function that gathers or reads writes a cell of a metric")
    G = Grouping(ctx, chk)
    if G.ok:
        chk.expect("every metric that was collected contributes", lossless(G.S)[1], "only some are grouped: %s" % show(G.S)[:120], G.li.span)
        series(ctx, chk, G, ("new", "add", "merge"))
    chk.scope()
    accessors(ctx, chk)
    chk.scope()
    effects(ctx, chk)


def series(ctx, chk, G, which):
    seen = {}
    n = {}
    for s, cls, ty, old, agg in rounds_of(ctx, chk, G):
        if cls not in which:
            continue
        n[(cls, ty)] = n.get((cls, ty), 0) + 1
        if cls == "merge":
            merged_series(ctx, chk, G, s, ty, old, agg)
        else:
            fresh_series(ctx, chk, G, s, ty, agg, seen)
    for (w, ty), (got, want) in sorted(seen.items()):
        chk.expect("a new Aggregated%s has the timestamp of its metric" % ty, got == want, "%s / %s" % ("; ".join(show(x)[:60] for x in got), "; ".join(show(x)[:60] for x in want)), G.li.span, closed=known(*got))
    for c in which:
        floor(chk, "kinds of metrics seen: " + c, len([k for k in n if k[0] == c]), 4)


def c14(ctx, chk):
    chk.rule("the rendering of a handle and that of a series match one grammar with the values of their getters; a new series' getters return what those of its metric return; a family writes each series once, each ended by a line feed")
    for c, key, st, d, w in text.results(ctx):
        if c in ("text", "bucket", "num", "count", "label", "stamp") and ("rendering of a" in key or key in ("the metrics of a family", "a family", "the exposition", "a metric name", "a label", "a set of labels")):
            chk.add(key + {"text": "", "bucket": ": buckets", "num": ": numbers", "count": ": count", "label": ": labels", "stamp": ": timestamps"}[c], st, d, w)
    chk.scope()
    G = Grouping(ctx, chk)
    if G.ok:
        series(ctx, chk, G, ("new",))


CHECKS = {"C14": c14, "C15": c15, "C16": c16}
