"""C17, C18, C19: buckets."""
from sa.lib import *
from sa.render import norm
from .values import floor
from .config import finished, oks
from . import text

ELT = mk("elt")


def inf():
    return flt(float("inf"))


def ub_key(ctx, I):
    """the upper bound of a bucket, as a term over the bucket"""
    cl = Client(ctx, I, State())
    return cl.one("upper_bound", "Bucket", [cl.hold(ELT, "b")], pub=True)


class Attr(object):
    """what is known of a sequence with respect to a key: ordered, distinct, complete ('yes', 'no' or None), and the sequence it is made from"""

    def __init__(self, ordered, distinct, complete, base, elems=()):
        self.ordered, self.distinct, self.complete, self.base, self.elems = ordered, distinct, complete, base, elems


def attrs(S, key):
    o = S.op
    if o == "sort":
        k, x = S.a[0], attrs(S.a[1], key)
        if k.op == "key" and len(k.a) >= 3 and same_key(k.a[2], key):
            d = k.a[0] if isinstance(k.a[0], str) else str(k.a[0])
            x.ordered = "yes" if d == "asc" else "no"
        elif k.op == "key" and known(k) and k.a[0] in ("asc", "desc"):
            x.ordered = "no"
        else:
            x.ordered = None
        return x
    if o == "dedup":
        x = attrs(S.a[1], key)
        if same_key(S.a[0], key):
            x.distinct = "yes" if x.ordered == "yes" or x.distinct == "yes" else x.ordered
        elif S.a[0].op == "same":
            # some relation between two elements: wrong if it tells equal bounds apart or takes different ones for the same
            w = wrong_same(S.a[0].a[0], key)
            if w == "equal apart":
                x.distinct = "no"
            elif w == "different same":
                x.complete = "no"
            else:
                x.distinct = x.complete = None
        elif S.a[0].op == "other" or not known(S.a[0]):
            x.distinct = x.complete = None
        else:
            # what counts as equal is something else
            x.distinct = x.distinct if x.distinct == "yes" else "no"
            if x.complete == "yes":
                x.complete = None
        return x
    if o == "rev":
        x = attrs(S.a[-1], key)
        x.ordered = "no" if x.ordered == "yes" else None
        return x
    if o == "comp":
        lo, hi, init, cases, bv = S.a
        if init.op != "list" or init.a or not (hi.op == "len"):
            return Attr(None, None, None, None)
        Y = hi.a[0]
        it = proj(Y, ("i", bv))
        ks = set()
        whole = lo.op == "int" and lo.a[0] == 0
        full = "yes" if whole else "no"
        for conds, xs in cases:
            if len(xs) > 1:
                return Attr(None, None, None, None)
            if not xs:
                full = "no"
            for x in xs:
                k = subst(key, lambda t: x if t is ELT else None)
                ks.add(subst(k, lambda t: ELT if t is it else None))
        if len(ks) != 1:
            return Attr(None, None, None, None)
        k = ks.pop()
        if contains(k, lambda t: t is bv) or not contains(k, lambda t: t is ELT):
            return Attr(None, None, None, None)
        x = attrs(Y, k)
        if full == "no" and x.complete == "yes":
            x.complete = "no"
        x.key = k
        return x
    if o == "push":
        x = attrs(S.a[0], key)
        return Attr("no", "no", x.complete, x.base, x.elems + (S.a[1],))
    if o == "list":
        return Attr("yes" if len(S.a) < 2 else "no", "yes" if len(S.a) < 2 else "no", "yes", None, tuple(S.a))
    if o in ("proj", "deref"):
        return Attr("no", "no", "yes", S)
    return Attr(None, None, None, None)


SAMPLES = [0.0, 5e-324, 1e-300, 1e-17, 3e-16, 0.1, 0.5, 0.75, 1.0, 1.0 + 2 ** -52, 1.5, 7.0, 1e15, 1e15 + 0.25, 1e300, float("inf")]


def wrong_same(r, key):
    """does a relation over two elements differ from the equality of their keys? decided by folding the term for pairs of constants"""
    es = [mk("gelt", i) for i in range(2)]
    ks = [subst(key, lambda t: e if t is ELT else None) for e in es]
    cs = [flt(x) for x in SAMPLES] + [flt(-x) for x in SAMPLES[1:]]
    for i, a in enumerate(cs):
        for j, b in enumerate(cs):
            v = subst(r, {ks[0]: a, ks[1]: b})
            if v.op == "int" and v.a[1] == "bool" or v.op == "bool":
                if bool(v.a[0]) != (i == j):
                    return "equal apart" if i == j else "different same"
    return None


def same_key(k, key):
    if k.op == "oneof" and len(k.a) == 1:
        k = k.a[0]
    return k is key


def has_inf(S, base=None):
    """does the sequence contain +Inf for sure? base: a sequence known to"""
    o = S.op
    if S is base:
        return True
    if o in ("list",):
        return any(x is inf() for x in S.a)
    if o in ("push", "pushfront"):
        return any(x is inf() for x in S.a) or has_inf(S.a[0], base)
    if o == "append":
        return any(has_inf(x, base) for x in S.a)
    if o in ("sort", "dedup", "rev"):
        return has_inf(S.a[-1], base)
    if o == "comp":
        return has_inf(S.a[2], base)
    return False


def c17(ctx, chk):
    chk.rule("value flow: the buckets of a finished histogram are a sorted, deduplicated image of the builder's bounds, which contain +Inf in every builder")
    chk.rule("observe: every way through increments the bucket at the first position whose bound is not less than the value, once")
    R, fs = finished(ctx, "Histogram")
    r = R.root
    key = ub_key(ctx, R.I)
    floor(chk, "successful outcomes of HistogramBuilder::finish", len(fs), 1)
    bases = set()
    for cl, h, s in fs:
        p = cl.one("buckets", "Histogram", [h], pub=True)
        if p is None or key is None:
            chk.unk("the buckets of a finished histogram", "the getters were not understood", r["span"])
            continue
        S = cl.at(p)
        a = attrs(S, key)
        d = show(S)[:200]
        for what, v in (("in increasing order of bound", a.ordered), ("with distinct bounds", a.distinct), ("for every bound of the builder", a.complete)):
            chk.expect("a finished histogram has buckets " + what, {"yes": True, "no": False}.get(v), d, r["span"], closed=known(S))
        if a.base is not None:
            bases.add(a.base)
        if any(x is inf() for x in a.elems):
            chk.ok("finish adds +Inf", d, r["span"])
            continue
        if a.base is None:
            chk.unk("+Inf is among the bounds", d, r["span"])
            continue
        builders(ctx, chk, R, a.base)
        # new buckets are empty
        zero(ctx, chk, cl, S, r)
    chk.scope()
    observe(ctx, chk)


def zero(ctx, chk, cl, S, r):
    for x in {x for t in subterms(S) if t.op == "comp" for c, xs in t.a[3] for x in xs if x.op == "adt" and x.a[0].split("::")[-1] == "Bucket"}:
        n = cl.one("count", "Bucket", [cl.hold(x, "b")], pub=True)
        if n is not None:
            chk.expect("a new bucket is empty", n.op == "int" and n.a[0] == 0, show(n)[:80], r["span"], closed=known(n))


def builders(ctx, chk, R, base):
    """whatever is done with a builder, +Inf stays among its bounds"""
    a0 = R.args[0]
    n = 0
    for q in ctx.F.roots:
        if q.get("derived") or (q.get("selfpath") or "").split("::")[-1] != "HistogramBuilder" or not q.get("inst") or not ctx.F.body(q["inst"]):
            continue
        Q = ctx.run(q)
        own = None
        for k, v, s in Q.outs:
            if k != "ret":
                continue
            if v.op == "adt" and v.a[0].split("::")[-1] == "HistogramBuilder":
                n += 1
                V = subst(base, lambda t: mk("sym", "hb") if t is mk("deref", a0) else None)
                V = reproj(V, v)
                chk.expect("HistogramBuilder::%s starts with the bound +Inf" % q["name"], has_inf(V), show(V)[:160], q["span"], closed=known(V) and V.op not in ("proj", "deref"))
            LOOPS[0] = {li.id: li for ls in Q.I.loops.values() for li in ls}
            for x in Q.args:
                after = s.mem.get(mk("D", x))
                if after is None:
                    continue
                nv = reproj(subst(base, lambda t: mk("sym", "hb") if t is mk("deref", a0) else None), after)
                ov = reproj(subst(base, lambda t: mk("sym", "hb") if t is mk("deref", a0) else None), mk("deref", x))
                n += 1
                chk.expect("HistogramBuilder::%s keeps the bounds" % q["name"], keeps(nv, ov), show(nv)[:160], q["span"], closed=known(nv) and not any(not told(t) for t in subterms(nv) if t.op == "lv"))
    floor(chk, "ways to make and change a HistogramBuilder", n, 4)


def reproj(V, whole):
    """V with the builder it was read from replaced"""
    return subst(V, lambda t: whole if t.op == "sym" and t.a[0] == "hb" else None)


LOOPS = [{}]


def told(lv):
    """is it known how a loop builds a sequence?"""
    li = LOOPS[0].get(lv.a[0])
    if li is None:
        return False
    w = (lv.a[1], lv.a[2])
    z = li.init.get(w)
    return z is not None and known(z) and all(b.get(w) is not None and b[w].op in ("push", "append", "pushfront", "lv") for b in li.backs)


def keeps(S, old, seen=()):
    o = S.op
    if S is old or S in seen:
        return True
    if o == "lv":
        li, w = LOOPS[0].get(S.a[0]), (S.a[1], S.a[2])
        return li is not None and li.init.get(w) is not None and keeps(li.init[w], old) and all(b.get(w) is not None and keeps(b[w], old, seen + (S,)) for b in li.backs)
    if o in ("push", "append", "sort", "pushfront", "rev"):
        return any(isinstance(x, T) and keeps(x, old, seen) for x in S.a)
    if o == "dedup":
        return keeps(S.a[1], old, seen) if S.a[0] is ELT else False
    if o == "comp":
        return keeps(S.a[2], old, seen)
    return False


def bucket_cells(ctx, I, ptr, ix):
    """(upper bound, cell of the count) of the bucket at an index behind a pointer to the sequence"""
    cl = Client(ctx, I, State())
    root, pa = I.addr(ptr)
    b = mk("ref", root, pa + (("i", ix),))
    u, c = cl.one("upper_bound", "Bucket", [b], pub=True), cl.one("count", "Bucket", [b], pub=True)
    return u, (c.a[0] if c is not None and c.op == "aload" else None)


def observe(ctx, chk):
    r = ctx.root("observe", "Histogram", pub=True)
    with invariants(ctx):
        del TOUCHED[:]
        R = ctx.run(r, key="inv")
        val = R.args[1]
        cl = Client(ctx, R.I, State())
        p = cl.one("buckets", "Histogram", [R.args[0]], pub=True)
        if p is None:
            chk.unk("Histogram::buckets", "not understood", r["span"])
            return
        B = cl.at(p)
        key = ub_key(ctx, R.I)
        loops = {li.kind: li for li in live_loops(R) if isinstance(li.kind, T)}
        cells = {}
        n = 0

        def index(e):
            """the index of the bucket whose count an event changes, or None"""
            c = e.cell
            if c.op != "ref":
                return None
            for ix in {y[1] for x in subterms(c) if x.op == "ref" for y in x.a[1] if y[0] == "i"} | {x.a[1][1] for x in subterms(c) if x.op == "proj" and x.a[1][0] == "i"}:
                u, cc = bucket_cells(ctx, R.I, p, ix)
                if cc is c:
                    return ix
            return None

        def right(ix, st):
            """True, False or None: is the index that of the first bucket whose bound is not less than the value?"""
            if ix.op == "first" and ix.a[1] is B:
                pr = ix.a[0]
                if pr.op == "le" and pr.a[1] is val and pr.a[2] is key:
                    return True
                if pr.op == "not" or pr.op in ("lt", "le", "eq", "ne"):
                    q = pr
                    neg = False
                    while q.op == "not":
                        q, neg = q.a[0], not neg
                    if q.op == "lt" and neg and q.a[1] is key and q.a[2] is val:
                        return True
                    return False if closed(pr) else None
                return None
            u = proj(B, ("i", ix))
            u = subst(key, lambda t: u if t is ELT else None)
            m = relmask(st, val, u)
            if smaller(st, val, B, key, ix):
                # every earlier bound is smaller, and the last is not
                if ix is isub(seqlen(B), integer(1, "usize"), "usize") or m & ~(LT | EQ) == 0:
                    return True
            li = loops.get(ix)
            if li is not None:
                if m & ~(LT | EQ):
                    return False
                return True if all(relmask(b, val, u) & (LT | EQ) == 0 for b in li.backst) and li.init.get([w for w in li.W if mk("lv", li.id, w[0], w[1]) is ix][0]) is ZEROI else None
            if ix.op == "int" or closed(ix):
                return False if m & ~(LT | EQ) and closed(ix) else None
            return None

        ps = paths(R)
        if ps is None:
            chk.unk("Histogram::observe", "too many ways", r["span"])
            return
        none = 0
        for evs, i in ps:
            k, v, st = R.outs[i]
            if k != "ret":
                continue
            n += 1
            inc = []
            for e in evs:
                if e.kind == "atomic" and e.op in ("rmw", "store", "cas"):
                    ix = index(e)
                    if ix is not None:
                        inc.append((e, ix))
            if len(inc) > 1:
                chk.bad("observe increments one bucket", "%d increments on one way" % len(inc), where(inc[1][0]))
                continue
            if not inc:
                none += 1
                if not outside(st, val, B, key) and not infeasible(ctx, st):
                    chk.expect("every observation lands in a bucket", False, "no bucket is incremented on a way that does not mean that every bound is smaller", r["span"], closed=plain(st, val))
                continue
            e, ix = inc[0]
            q = right(ix, e.st)
            chk.expect("the bucket is the first whose bound is not less than the value", q, show(ix)[:160], where(e), closed=known(ix) and ix.op != "sum")
            if e.op == "rmw":
                d = isub(e.new, e.old, "u64")
                chk.expect("a bucket grows by one", d is not None and (d == 1 or isinstance(d, T) and d.op == "int" and d.a[0] == 1), show(e.new)[:120], where(e), closed=known(e.new))
        floor(chk, "ways through Histogram::observe", n, 1)
        if none < n:
            chk.ok("observe increments one bucket", "%d ways" % (n - none), r["span"])
        else:
            chk.bad("every observation lands in a bucket", "no way through observe increments one", r["span"])


ZEROI = mk("int", 0, "usize")


def plain(st, val):
    """is everything the path knows of the value understood?"""
    fs = [f for f in list(st.facts) + list(st.rng) if any(x is val for x in subterms(f))] + [x for ab in st.rel if any(x is val for x in ab) for x in ab]
    return not any(x.op in ("lv", "unk", "call", "callret") for f in fs for x in subterms(f)) and not any(x.op == "lv" for f in st.facts for x in subterms(f))


def relmask(st, x, y):
    """how two floats may compare on a path"""
    m = st.relmask(x, y) if hasattr(st, "relmask") else 15
    m &= st.rel.get((x, y), 15)
    f = st.rel.get((y, x))
    if f is not None:
        m &= (f & (EQ | UN)) | (GT if f & LT else 0) | (LT if f & GT else 0)
    a, b = st.range_f(x), st.range_f(y)
    if not any(lo <= NAN_ORD <= hi for lo, hi in a) and not any(lo <= NAN_ORD <= hi for lo, hi in b):
        m &= ~UN
    return m


def smaller(st, val, B, key, n):
    """does the path know that the first n bounds are smaller than the value?"""
    for f, b in st.facts.items():
        if f.op == "forall" and b and f.a[0].op == "int" and f.a[0].a[0] == 0 and f.a[1] is n:
            bv = f.a[3]
            u = subst(key, lambda t: proj(B, ("i", bv)) if t is ELT else None)
            good = True
            for case in f.a[2]:
                m = 15
                for a in case:
                    if a[0] == "rel" and a[2] is val and a[3] is u:
                        m &= a[4]
                    if a[0] == "rel" and a[2] is u and a[3] is val:
                        m &= (a[4] & (EQ | UN)) | (GT if a[4] & LT else 0) | (LT if a[4] & GT else 0)
                if m & (LT | EQ):
                    good = False
            if good:
                return True
    return False


def outside(st, val, B, key):
    """does the path know that every bound is smaller than the value?"""
    n = seqlen(B)
    if smaller(st, val, B, key, n):
        return True
    ix = mk("first", mk("le", "f", val, key), B)
    s = st.copy()
    if not s.assume(cmp_lt("i", ix, n), True) or not s.feasible():
        return True
    s = st.copy()
    return not s.assume(cmp_lt("i", ZEROI, n), True) or not s.feasible()


# ---------------------------------------------------------------------------------------------- C18
def drain(ctx, I, st, it, tag):
    """ask an iterator for its elements until there are none: (loop, [(element, its state, number of the back edge)])"""
    h = mk("H", "client", tag, len(I.loops) + I.nsite)
    st.mem[h] = it
    lid = mk("loop", mk("sym", "client:" + tag + str(I.nsite)), "drain", ())
    got = {}

    def step(s):
        backs, exits = [], []
        for kind, o, s2 in models().nxt(I, s, ref(h)):
            if kind != "ret":
                exits.append((kind, o, s2))
                continue
            for var, s3 in I.variants(s2, o):
                if var:
                    I.ev(s3, "yield", val=I.payload(o, 1))
                    got[s3.node] = (I.payload(o, 1), s3)
                    backs.append(s3)
                else:
                    exits.append(("ret", UNIT, s3))
        return backs, exits
    outs = I.fix_loop(lid, st, step, "", "client")
    lis = [li for ls in I.loops.values() for li in ls if li.id is lid]
    return lis, outs, got


def models():
    from sa import models as m
    return m


def c18(ctx, chk):
    chk.rule("loop summary of draining Histogram::cumulative_buckets: every bucket in turn, each with the count of the one before plus its own")
    chk.rule("every way through the rendering of a histogram writes as _count the last count it wrote in a bucket line")
    r = ctx.root("cumulative_buckets", "Histogram", pub=True)
    R = ctx.run(r)
    cl = Client(ctx, R.I, State())
    p = cl.one("buckets", "Histogram", [R.args[0]], pub=True)
    n = 0
    if p is None:
        chk.unk("Histogram::buckets", "", r["span"])
    else:
        B = cl.at(p)
        for k, v, s in R.outs:
            if k != "ret":
                continue
            I = R.I
            I.M.SKIPLOOP[0] = False
            s = s.copy()
            I.stack.append((mk("fr", "drain"), ctx.F.body(r["inst"]), 0))
            try:
                lis, outs, got = drain(ctx, I, s, v, "cum")
            finally:
                I.stack.pop()
            for li in lis[-1:]:
                n += cumulative(ctx, chk, I, p, B, li, got, r)
    floor(chk, "loops over the cumulative buckets of a histogram", n, 1)
    chk.scope()
    text.emit(ctx, chk, ("count", "bucket"))
    merged(ctx, chk, ("cumulative",))


def skips(ctx, I, p, B, li, b, x, s):
    """is the element certainly one that may lie beyond the next one?"""
    u = Client(ctx, I, s)
    u = u.one("upper_bound", "CumulativeBucket", [u.hold(x, "cb")], pub=True)
    if u is None:
        return False
    for t in subterms(u):
        if t.op == "proj" and t.a[0] is B and t.a[1][0] == "i":
            ix = t.a[1][1]
            for w in li.W:
                lv = mk("lv", li.id, w[0], w[1])
                if b.get(w) is iadd(ix, integer(1, "usize"), "usize") and ix is not lv:
                    e = s.copy()
                    z = li.init.get(w)
                    if z is not None and z.op == "int" and z.a[0] == 0 and e.assume(cmp_lt("i", lv, ix), True) and e.feasible():
                        return True
    return False


def cumulative(ctx, chk, I, p, B, li, got, r):
    doms = [d for nd, d in li.exitdom]
    if isinstance(li.kind, T):
        for (nd, d), st in zip(li.exitdom, li.exitst):
            e = st.copy()
            if d is None and e.feasible() and not (e.assume(cmp_lt("i", li.kind, seqlen(B)), False) and e.feasible()):
                chk.bad("every bucket is exposed", "the iteration may end with a bucket left", r["span"])
                return 1
    else:
        for nd, b in zip(li.backnodes, li.backs):
            if nd in got and skips(ctx, I, p, B, li, b, *got[nd]):
                chk.bad("every bucket is exposed", "buckets may be skipped: %s" % show(got[nd][0])[:120], r["span"])
                return 1
    good = bool(doms) and all(d is not None and d[0].op == "int" and d[0].a[0] == 0 and d[1] is seqlen(B) for d in doms)
    und = not doms or any(d is None for d in doms)
    chk.expect("every bucket is exposed", good, "", r["span"], closed=not und and all(closed(*d) for d in doms))
    ok = 0
    for nd, b in zip(li.backnodes, li.backs):
        if nd not in got:
            continue
        x, s = got[nd]
        cl = Client(ctx, I, s)
        q = cl.hold(x, "cb")
        u, c = cl.one("upper_bound", "CumulativeBucket", [q], pub=True), cl.one("cumulative_count", "CumulativeBucket", [q], pub=True)
        if u is None or c is None or not isinstance(li.kind, T):
            chk.unk("the getters of CumulativeBucket", "", r["span"])
            continue
        bu, cell = bucket_cells(ctx, I, p, li.kind)
        chk.expect("the bound is that of the bucket", u is bu, show(u)[:120], r["span"], closed=known(u))
        fits = False
        for w in li.W:
            lv = mk("lv", li.id, w[0], w[1])
            own = isub(c, lv, "u64")
            if isinstance(own, T) and own.op == "aload" and own.a[0] is cell and b.get(w) is c:
                z = li.init.get(w)
                if z is not None and z.op == "int" and z.a[0] == 0:
                    fits = True
        chk.expect("the count is that of the bucket before plus the bucket's own", fits, show(c)[:160], r["span"], closed=known(c))
        ok += fits
    return 1


# ---------------------------------------------------------------------------------------------- C19
def merged(ctx, chk, what):
    """the merge of several histograms' buckets"""
    del TOUCHED[:]
    with invariants(ctx):
        merge(ctx, chk, what)


def merge(ctx, chk, what):
    r = ctx.root("cumulative_buckets", "AggregatedHistogram", pub=True)
    Q = ctx.run(r, key="inv")
    nr = [q for q in ctx.F.roots if q["name"] == "next" and (q.get("trait") or "").split("::")[-1] == "Iterator" and any(
        v.op == "adt" and v.a[0] == q.get("selfpath") for k, v, s in Q.outs)]
    if len(nr) != 1:
        chk.unk("AggregatedHistogram::cumulative_buckets", "not an iterator of the crate", r["span"])
        return
    nr = nr[0]
    R = ctx.run(nr, key="inv")
    # where the sources and the running count are kept
    it = [v for k, v, s in Q.outs if k == "ret"]
    srcs = {i for v in it for i, x in enumerate(v.a[2:]) if x.op in ("comp", "list", "push", "append")}
    accs = {i for v in it for i, x in enumerate(v.a[2:]) if x.op == "int"} or {i for v in it for i, x in enumerate(v.a[2:]) if i not in srcs}
    if len(srcs) != 1 or len(accs) != 1:
        chk.unk("AggregatedHistogram::cumulative_buckets", "state not understood: %s" % "; ".join(show(v)[:100] for v in it), r["span"])
        return
    si, ai = srcs.pop(), accs.pop()
    if "source" in what:
        sources(ctx, chk, Q, it, si, r)
    for v in it:
        z = v.a[2 + ai]
        chk.expect("the count starts at nothing", z.op == "int" and z.a[0] == 0, show(z), r["span"])
    D = mk("D", R.args[0])
    oldacc, oldsrc = proj(mk("deref", R.args[0]), ("f", ai)), proj(mk("deref", R.args[0]), ("f", si))
    n = 0
    for k, v, s in R.outs:
        if k != "ret":
            continue
        end = s.mem.get(D)
        src = proj(end, ("f", si)) if end is not None else oldsrc
        acc = proj(end, ("f", ai)) if end is not None else oldacc
        if is_none(v):
            n += 1
            if "merge" in what:
                e = s.copy()
                some = e.assume(cmp_lt("i", ZEROI, seqlen(src)), True) and e.feasible()
                chk.expect("the end is reported only when nothing is left", not some, show(src)[:100], nr["span"], closed=known(src))
            continue
        if not is_some(v):
            chk.unk("what the merge yields", show(v)[:120], nr["span"])
            continue
        n += 1
        cl = Client(ctx, R.I, s)
        q = cl.hold(v.a[2], "cb")
        u, c = cl.one("upper_bound", "CumulativeBucket", [q], pub=True), cl.one("cumulative_count", "CumulativeBucket", [q], pub=True)
        if u is None or c is None:
            chk.unk("the getters of CumulativeBucket", "", nr["span"])
            continue
        if "cumulative" in what:
            chk.expect("the count of a merged bucket is the one the next goes on from", acc is c, "%s / %s" % (show(acc)[:80], show(c)[:80]), nr["span"], closed=known(acc, c))
        lis = live_loops(R)
        adding = [li for li in lis if c.op == "lv" and li.id is c.a[0]]
        if c.op != "lv" and closed_sum(chk, s, c, src, oldacc, lis, nr, what):
            continue
        if c.op != "lv" or len(adding) != 1:
            chk.unk("how the counts are added up", show(c)[:100], nr["span"])
            continue
        li = adding[0]
        add_loop(ctx, chk, R, li, c, u, oldacc, si, ai, D, nr, what)
        mins = [l for l in lis if u.op == "lv" and l.id is u.a[0]]
        if "merge" in what:
            if len(mins) != 1:
                chk.unk("how the bound is chosen", show(u)[:100], nr["span"])
            else:
                min_loop(ctx, chk, R, mins[0], u, si, D, nr)
    floor(chk, "outcomes of a step of the merge", n, 2)


def closed_sum(chk, s, c, src, oldacc, lis, nr, what):
    """True if the count is one that is certainly wrong"""
    if not known(c, src) or "merge" not in what:
        return False
    if c.op == "sum" and c.a[2] is oldacc and c.a[1] is seqlen(src) and not any(t.op in ("pnext", "lv") and t is not src for t in subterms(src)):
        chk.bad("a bucket that is taken is counted once", "the buckets that are added up stay where they are", nr["span"])
        return True
    own = isub(c, oldacc, "u64")
    ps = lin_parts(own) if isinstance(own, T) else None
    if ps is None:
        return False
    xs = [x for x, k in ps[1].items()] if isinstance(ps[1], dict) else [x for x, k in ps[1]]
    if all(x.op == "aload" and contains(x, lambda t: t.op == "peekhead") for x in xs) and not any(f.op == "forall" for f in s.facts):
        e = s.copy()
        if e.assume(cmp_lt("i", integer(len(xs), "usize"), seqlen(src)), True) and e.feasible():
            chk.bad("every source is looked at", "the count of at most %d bucket%s is added: %s" % (len(xs), "" if len(xs) == 1 else "s", show(c)[:120]), nr["span"])
            return True
    return False


def sources(ctx, chk, Q, its, si, r):
    """the sources of the merge are all buckets of all histograms"""
    agg = ctx.root("count", "AggregatedHistogram", pub=True)
    for v in its:
        S = v.a[2 + si]
        good, whole = False, None
        if S.op == "comp" and not S.a[2].a:
            lo, hi, init, cases, bv = S.a
            whole = lo.op == "int" and lo.a[0] == 0 and hi.op == "len"
            if whole:
                H = hi.a[0]
                good = True
                for conds, xs in cases:
                    good = good and len(xs) == 1 and self_source(ctx, Q, H, bv, xs[0])
                # the histograms are the aggregation's
                good = good and H.op == "proj" and H.a[0] is mk("deref", Q.args[0])
        chk.expect("the merge is over all buckets of all histograms", good, show(S)[:200], r["span"], closed=known(S))


def self_source(ctx, Q, H, bv, x):
    """an iterator over every bucket of the histogram at bv"""
    while x.op == "it" and x.a[0] in ("peek", "cloned"):
        x = x.a[1]
    if not (x.op == "it" and x.a[0] == "slice"):
        return False
    _, src, lo, hi = x.a
    cl = Client(ctx, Q.I, State())
    root = None
    for t in subterms(src):
        if t.op == "proj" and t.a[0] is H and t.a[1] == ("i", bv):
            root = t
    if root is None:
        return False
    p = cl.one("buckets", "Histogram", [cl.hold(root, "h")], pub=True)
    if p is None:
        return False
    return cl.at(p) is cl.at(src) and lo.op == "int" and lo.a[0] == 0 and hi is seqlen(cl.at(p))


def head(src, i):
    return mk("peekhead", proj(src, ("i", i)))


def bucket_at(ctx, R, p):
    cl = Client(ctx, R.I, State())
    u, c = cl.one("upper_bound", "Bucket", [p], pub=True), cl.one("count", "Bucket", [p], pub=True)
    return u, (c.a[0] if c is not None and c.op == "aload" else None)


def lvof(li, root, pred):
    for w in li.W:
        if w[0] is root and pred(w[1]):
            return w
    return None


def field_of(i):
    return lambda path: len(path) == 1 and path[0] in (2 + i, ("f", i))


def add_loop(ctx, chk, R, li, c, u, oldacc, si, ai, D, nr, what):
    """every source whose next bucket has the bound is advanced and its count added, every other one is left alone"""
    ws, wa = lvof(li, D, field_of(si)), lvof(li, D, field_of(ai))
    if ws is None or wa is None or not isinstance(li.kind, T):
        chk.unk("the step that adds the counts", "loop not understood", li.span)
        return
    L, A = mk("lv", li.id, *ws), mk("lv", li.id, *wa)
    if "merge" in what:
        doms = [d for nd, d in li.exitdom]
        whole = bool(doms) and all(d is not None and d[0].op == "int" and d[0].a[0] == 0 and d[1] is seqlen(li.init[ws]) for d in doms)
        chk.expect("every source is looked at", whole, "; ".join("%s..%s" % (show(d[0])[:40], show(d[1])[:60]) if d else "?" for d in doms), li.span, closed=bool(doms) and all(d is not None for d in doms))
    if "cumulative" in what:
        z = li.init.get(wa)
        chk.expect("a merged count goes on from the one before", z is oldacc, show(z)[:80] if z is not None else "", li.span, closed=z is not None and known(z))
    ub, cell = bucket_at(ctx, R, head(L, li.kind))
    if ub is None or cell is None:
        chk.unk("the getters of Bucket", "", li.span)
        return
    adds = keep = 0
    for nd, b, st in zip(li.backnodes, li.backs, li.backst):
        if not st.feasible():
            continue
        na, ns = b.get(wa), b.get(ws)
        if na is None or ns is None:
            chk.unk("the step that adds the counts", "", li.span)
            continue
        m = relmask(st, ub, u)
        own = isub(na, A, "u64")
        took = isinstance(own, T) and own.op == "aload" and own.a[0] is cell
        same = na is A
        has = st.facts.get(mk("hasnext", proj(L, ("i", li.kind))))
        adv = ns.op == "upd" and ns.a[0] is L and ns.a[1] == ("i", li.kind) and ns.a[2].op == "pnext" and ns.a[2].a[0] is proj(L, ("i", li.kind))
        stay = ns is L
        cl = known(na, ns)
        if "merge" in what:
            if took and adv:
                adds += 1
                chk.expect("what is added belongs to the bound that is reported", m & ~(EQ | LT) == 0, "the bucket's bound and the reported one may differ", li.span)
            elif same and stay:
                keep += 1
                chk.expect("no bucket of the reported bound is left behind", m & EQ == 0 or has is False, "a bucket with the reported bound may be left for later", li.span)
            else:
                chk.expect("a bucket that is taken is counted once", False, "count %s, source %s" % (show(na)[:80], show(ns)[:80]), li.span, closed=cl)
        if "cumulative" in what:
            chk.expect("merged counts never decrease", same or took, show(na)[:100], li.span, closed=known(na))
    if "merge" in what:
        chk.expect("buckets of the reported bound are added", adds > 0, "", li.span)


def min_loop(ctx, chk, R, li, u, si, D, nr):
    """the bound is the smallest of those next in any source; only exhausted sources are dropped"""
    ws = lvof(li, D, field_of(si))
    wu = [w for w in li.W if mk("lv", li.id, *w) is u]
    if len(wu) != 1:
        chk.unk("how the bound is chosen", "", li.span)
        return
    wu = wu[0]
    L = mk("lv", li.id, *ws) if ws else None
    idx = [w for w in li.W if w not in (ws, wu) and li.init.get(w) is not None and li.init[w].op == "int"]
    if L is None or len(idx) != 1:
        chk.unk("how the bound is chosen", "loop not understood", li.span)
        return
    wi = idx[0]
    X = mk("lv", li.id, *wi)
    z = li.init.get(wu)
    chk.expect("the search for the bound starts above all bounds", z is inf(), show(z)[:60], li.span, closed=known(z))
    chk.expect("the search for the bound starts at the first source", li.init[wi].a[0] == 0, show(li.init[wi]), li.span)
    ub, cell = bucket_at(ctx, R, head(L, X))
    for nd, b, st in zip(li.backnodes, li.backs, li.backst):
        if not st.feasible():
            continue
        nu, ns, nx = b.get(wu), b.get(ws), b.get(wi)
        if nu is None or ns is None or nx is None or not known(nu, ns, nx):
            chk.unk("how the bound is chosen", "", li.span)
            continue
        step = isub(nx, X, "usize")
        step = step.a[0] if isinstance(step, T) and step.op == "int" else step
        m = relmask(st, ub, u)
        if ns is L:
            chk.expect("the search for the bound passes no source", step == 1, "by %s" % step, li.span)
            has = st.facts.get(mk("hasnext", proj(L, ("i", X))))
            if nu.op == "fmin" and {nu.a[0], nu.a[1]} == {u, ub}:
                chk.ok("the bound is the smallest", show(nu)[:80], li.span)
            elif nu is ub:
                chk.expect("the bound is the smallest", m & ~(LT | EQ) == 0, "a larger bound may replace a smaller one", li.span)
            elif nu is u:
                chk.expect("the bound is the smallest", has is False or m & LT == 0, "a smaller bound may be passed over", li.span)
            else:
                chk.expect("the bound is one of a bucket", False, show(nu)[:80], li.span, closed=known(nu))
        elif ns.op in ("swaprm", "remove") and ns.a[0] is L and ns.a[1] is X:
            gone = st.facts.get(mk("hasnext", proj(L, ("i", X)))) is False
            chk.expect("only an exhausted source is dropped", gone, "", li.span)
            chk.expect("the search for the bound passes no source", step == 0 and isinstance(step, int) or isinstance(step, T) and step is ZEROI or nx is X, "a source is skipped after another was dropped", li.span)
            chk.expect("the bound is one of a bucket", nu is u, show(nu)[:80], li.span)
        elif ns.op in ("swaprm", "remove") and ns.a[0] is L and st.facts.get(mk("hasnext", proj(L, ("i", ns.a[1])))) is not False and isub(ns.a[1], X, "usize").op == "int":
            chk.bad("only an exhausted source is dropped", show(ns)[:100], li.span)
        else:
            chk.unk("how the bound is chosen", show(ns)[:100], li.span)
    # the search ends when every source was looked at
    for nd, s in exits_of(R, li):
        e = s.copy()
        more = e.assume(cmp_lt("i", X, seqlen(L)), True) and e.feasible()
        chk.expect("the search for the bound looks at every source", not more, "", li.span)


def c19(ctx, chk):
    chk.rule("loop invariants of the merge over the histograms' bucket iterators: the bound is the least head, exactly the heads with this bound are taken and counted, only exhausted sources are dropped")
    merged(ctx, chk, ("source", "merge"))


CHECKS = {"C17": c17, "C18": c18, "C19": c19}
