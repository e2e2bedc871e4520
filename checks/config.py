"""C07-C10: names, validation, reserved labels, label sets."""
from sa.lib import *
from .values import floor
from .registry import HANDLES, norm, deref_arg

RESERVED = {"Histogram": "le", "Summary": "quantile"}
BV = mk("bv", 901)


def oks(R):
    return [(v, s) for k, v, s in R.outs if k == "ret" and is_ok(v)]


def errs(R):
    return [(v, s) for k, v, s in R.outs if k == "ret" and is_err(v)]


def finished(ctx, ty):
    """[(client, pointer to the handle)] for every successful outcome of a builder"""
    R = ctx.run(ctx.root("finish", ty + "Builder", pub=True))
    out = []
    for v, s in oks(R):
        cl = Client(ctx, R.I, s)
        out.append((cl, cl.hold(v.a[2], "h"), s))
    return R, out


def name_parts(cl, ty, h):
    """[(part, string or None if absent or 'unk')] of a metric's name"""
    n = cl.one("metric_name", ty, [h], pub=True)
    if n is None:
        return None
    out = []
    for g in ("namespace", "subsystem", "name"):
        v = cl.one(g, "MetricName", [n], pub=True)
        if v is None:
            out.append((g, "unk"))
            continue
        if g != "name":
            if is_none(v):
                out.append((g, None))
                continue
            if not is_some(v):
                out.append((g, "unk"))
                continue
            v = v.a[2]
        out.append((g, cl.I.deref(cl.st, v)))
    return out


def label_parts(ctx, I, st, l):
    """(name, value) of a label value, through the getters"""
    cl = Client(ctx, I, st)
    p = cl.hold(l, "l")
    n, v = cl.one("name", "Label", [p], pub=True), cl.one("value", "Label", [p], pub=True)
    if n is None or v is None:
        return None, None
    return I.deref(cl.st, n), I.deref(cl.st, v)


def dunder(st, S):
    """can the string begin with two underscores? True: no"""
    if S.op == "str":
        return not S.a[0].startswith("__")
    if st.decide(mk("starts_with", S, string("__"))) is False:
        return True
    und = ((95, 95),)
    for X in (mk("chars", S), mk("bytes", S)):
        for i in (0, 1):
            if not iset_and(st.range(proj(X, ("i", integer(i, "usize")))), und):
                return True
        if st.range(mk("len", X))[-1][1] <= 1:
            return True
    for d in (st.facts, st.rng):
        for k in d:
            if contains(k, lambda x: x.op == "proj" and x.a[0].op in ("chars", "bytes") and x.a[0].a[0] is S and x.a[1][1] is integer(1, "usize")):
                return None
    return None if other_knowledge(st, S) else False


def check_label_name(chk, key, st, S, w):
    ok, d = in_language(st, S, LABEL_FIRST, LABEL_REST)
    chk.expect(key + " is valid", ok, "the name %s" % d, w, closed=ok is not None)
    du = dunder(st, S)
    chk.expect(key + " is not reserved", du, "the name may begin with two underscores", w, closed=du is not None and ok is not None)


def labels_of_builder(ctx, ty):
    """[(state, label name, label value, bv, lo, hi, span)] for the labels of finished metrics; None if not understood"""
    R, fs = finished(ctx, ty)
    out = []
    for cl, h, s in fs:
        V = label_seq(cl, ty, h)
        if V is None:
            return None
        src = origins(V)
        if src is None:
            return None
        for el, pre in src:
            st = with_pre(s, pre)
            if st is None:
                continue
            n, v = label_parts(ctx, R.I, merged(cl.st, st), el)
            if n is None:
                return None
            out.append((st, n, v, pre, V))
    return out


def merged(a, b):
    """the memory of a with the facts of b"""
    s = a.copy()
    s.facts, s.rng, s.lin, s.rel = dict(b.facts), dict(b.rng), dict(b.lin), dict(b.rel)
    return s


# ------------------------------------------------------------------------------------------------ C07
def c07(ctx, chk):
    chk.rule("For every successful outcome of every builder the name parts and label names, read through the public getters, are strings whose possible first and later characters "
             "(character-set domain, exact over all code points) lie inside the grammar, are not empty, and label names cannot begin with two underscores; the same for every label an update of a label set adds. "
             "Conversely, analysed under the assumption that the names are valid, no error outcome is reachable.")
    for ty in HANDLES:
        r = ctx.root("finish", ty + "Builder", pub=True)
        names(ctx, chk, ty, r)
        ls = labels_of_builder(ctx, ty)
        if ls is None:
            chk.unk("%sBuilder labels" % ty, "not understood", r["span"])
            continue
        chk.expect("%sBuilder labels reach the metric" % ty, bool(ls), "a finished metric never has a label", r["span"])
        for st, n, v, pre, V in ls:
            check_label_name(chk, "%sBuilder label name" % ty, st, n, r["span"])
    # Label::new and everything that changes a label set
    r = ctx.root("new", "Label", pub=True)
    R = ctx.run(r)
    for v, s in oks(R):
        n, x = label_parts(ctx, R.I, s, v.a[2])
        if n is None:
            chk.unk("Label::new", show(v)[:100])
            continue
        check_label_name(chk, "Label::new name", s, n, r["span"])
    chk.expect("Label::new can succeed", bool(oks(R)), "", r["span"])
    writes = 0
    for r, R, e in label_writes(ctx):
        writes += 1
        for l, st in new_labels(ctx, chk, r, R, e):
            n, x = label_parts(ctx, R.I, st, l)
            if n is None:
                chk.unk(r["nice"] + " label", show(l)[:100], where(e))
            else:
                check_label_name(chk, r["nice"].replace("::<'a>", "") + " label name", st, n, where(e))
    chk.expect("label sets can be changed", writes > 0, "no public function changes a label set")
    accept_names(ctx, chk)
    floor(chk, "C07 obligations", len(chk.ob), 30)


def names(ctx, chk, ty, r):
    R, fs = finished(ctx, ty)
    chk.expect("%sBuilder::finish can succeed" % ty, bool(fs), "", r["span"])
    for cl, h, s in fs:
        ps = name_parts(cl, ty, h)
        if ps is None:
            chk.unk("%s name" % ty, "metric_name", r["span"])
            continue
        for g, S in ps:
            if S is None:
                continue
            if S == "unk":
                chk.unk("%sBuilder %s" % (ty, g), "not understood", r["span"])
                continue
            ok, d = in_language(s, S, METRIC_FIRST, METRIC_REST)
            chk.expect("%sBuilder %s is valid" % (ty, g), ok, "the %s %s" % (g, d), r["span"], closed=ok is not None)


def label_writes(ctx):
    """[(root, result, event)] of updates of a label set by public functions"""
    out = []
    for r in ctx.F.roots:
        if not (r.get("pub") and r.get("inst") and ctx.F.body(r["inst"])):
            continue
        R = ctx.run(r)
        for n, e, m in edges(R, lambda e: e.kind == "imm" and e.op in ("update", "store")):
            out.append((r, R, e))
    return out


def new_labels(ctx, chk, r, R, e):
    """[(label, state)]: labels in the new value of a label set that were not in the old one"""
    src = origins(e.new)
    if src is None:
        chk.unk(r["nice"] + " labels", show(e.new)[:120], where(e))
        return []
    out = []
    old = e.d.get("old")
    for el, pre in src:
        if el.op == "proj" and el.a[1][0] == "i" and (old is None or el.a[0] is old or contains(el.a[0], lambda x: x.op in ("immcur", "immld"))):
            continue
        st = with_pre(e.st, pre)
        if st is not None:
            out.append((el, st))
    return out


def valid_builder(ctx, ty, extra=True):
    """assumptions: everything given to the builder is valid"""
    R, fs = finished(ctx, ty)
    atoms = {}
    for cl, h, s in fs:
        for g, S in name_parts(cl, ty, h) or []:
            if S is None or S == "unk" or S.op == "str":
                continue
            for a in valid_atoms(S, METRIC_FIRST, METRIC_REST, BV):
                atoms[a] = 1
    ls = labels_of_builder(ctx, ty)
    if ls is None:
        return None
    for st, n, v, pre, V in ls:
        b = [a for a in pre if a[0] == "between"]
        for x in valid_atoms(n, LABEL_FIRST, LABEL_REST, mk("bv", 902), True) + ((("rel", "?", string(RESERVED[ty]), n, LT | GT),) if ty in RESERVED else ()):
            if b:
                bv, lo, hi = b[0][1:]
                c = subst_atoms((x,), {bv: BV})[0]
                atoms[("fact", mk("forall", lo, hi, ((c,),), BV), True)] = 1
            else:
                atoms[x] = 1
    for seq, rg in (("buckets", ((-FINF, FINF),)), ("quantiles", ((ford(0.0), ford(1.0)),))):
        for t in bound_inputs(ctx, ty, seq) or []:
            atoms[("fact", mk("forall", integer(0, "usize"), seqlen(t), ((("rng", proj(t, ("i", BV)), rg),),), BV), True)] = 1
    return R, list(atoms)


def accept_names(ctx, chk):
    for name, ty, n in (("new", "Label", 0), ("insert", "LabelsMut", 1)):
        r = ctx.root(name, ty, pub=True)
        S = mk("deref", argsym(ctx.F, r, n))
        pre = valid_atoms(S, LABEL_FIRST, LABEL_REST, BV, True)
        if ty == "LabelsMut":
            # not the reserved name of this kind of metric: analysed for a plain metric
            continue
        R = ctx.run_pre(r, pre)
        for v, s in errs(R):
            chk.expect("%s::%s accepts every valid name" % (ty, name), False, "an error for a valid name, %s" % why(s), r["span"])
        chk.expect("%s::%s accepts valid names" % (ty, name), bool(oks(R)), "", r["span"])
    for ty in HANDLES:
        accept(ctx, chk, ty)
        insert_accept(ctx, chk, ty)


def why(s):
    fs = [("%s=%s" % (show(f)[:70], v)) for f, v in list(s.facts.items()) + list(s.rng.items()) if f.op != "forall"]
    return "when " + "; ".join(fs[:4]) if fs else ""


def accept(ctx, chk, ty):
    r = ctx.root("finish", ty + "Builder", pub=True)
    vb = valid_builder(ctx, ty)
    if vb is None:
        chk.unk("%sBuilder acceptance" % ty, "inputs not understood", r["span"])
        return
    R = ctx.run_pre(r, vb[1])
    es = errs(R)
    chk.expect("%sBuilder::finish accepts every valid configuration" % ty, not es, "an error although everything is valid %s" % (why(es[0][1]) if es else ""), r["span"], closed=not R.I.unknowns)


def labels_mut(ctx, ty):
    """clients holding the result of labels_mut() of a handle, one for each way through it: [(client, pointer to the LabelsMut)]"""
    R = ctx.run(ctx.root("labels_mut", ty, pub=True))
    if not R.outs or any(k != "ret" for k, v, s in R.outs):
        return None
    out = []
    for k, v, s in R.outs:
        cl = Client(ctx, R.I, s)
        out.append((cl, cl.hold(v, "lm")))
    return out


def insert_outs(ctx, ty, name, value, atoms=()):
    """[(client, outcomes of labels_mut().insert(name, value))]"""
    xs = labels_mut(ctx, ty)
    if xs is None:
        return None
    out = []
    for cl, lm in xs:
        n = cl.hold(name, "n") if name.op == "str" else name
        if atoms:
            s = with_pre(cl.st, atoms)
            if s is None:
                continue
            cl.st = s
        out.append((cl, cl.call("insert", "LabelsMut", [lm, n, value], pub=True)))
    return out or None


def sref(S):
    """a &str"""
    return ref(mk("K", S)) if False else mk("sym", "str:" + show(S))


def insert_accept(ctx, chk, ty):
    n = mk("sym", "labelname")
    S = mk("deref", n)
    pre = list(valid_atoms(S, LABEL_FIRST, LABEL_REST, BV, True))
    if ty in RESERVED:
        pre.append(("rel", "?", string(RESERVED[ty]), S, LT | GT))
    x = insert_outs(ctx, ty, n, mk("sym", "labelvalue"), pre)
    w = ctx.root("insert", "LabelsMut", pub=True)["span"]
    if x is None:
        chk.unk("%s label insertion" % ty, "labels_mut", w)
        return
    outs = [o for cl, os in x for o in os]
    bad = [s for k, v, s in outs if k == "ret" and is_err(v)]
    chk.expect("%s::labels_mut().insert accepts every valid name" % ty, not bad, "an error for a valid name %s" % (why(bad[0]) if bad else ""), w)
    chk.expect("%s::labels_mut().insert can succeed" % ty, any(k == "ret" and is_ok(v) for k, v, s in outs), "", w)


def bound_inputs(ctx, ty, which):
    """the sequences in the builder from which buckets or quantiles are made: opaque terms over the builder"""
    meth = {"buckets": "bucket", "quantiles": "quantile"}[which]
    try:
        r = ctx.root(meth, ty + "Builder", pub=True)
    except Missing:
        return []
    R = ctx.run(r)
    out = set()
    fin = ctx.run(ctx.root("finish", ty + "Builder", pub=True))
    for k, v, s in R.outs:
        after = s.mem.get(mk("D", R.args[0]))
        if after is None:
            continue
        for x in subterms(after):
            if x.op == "push" and x.a[1] is R.args[1]:
                b = x.a[0]
                out.add(subst(b, {R.args[0]: fin.args[0]}))
    return list(out)


# ------------------------------------------------------------------------------------------------ C08
def c08(ctx, chk):
    chk.rule("In every builder: each error outcome carries ErrorKind::InvalidInput; in every successful outcome the names are in the grammar, every bucket bound ever given is known not to be NaN and every quantile to lie in 0..=1; "
             "no panic is reachable in the constructors, setters and finish; under the assumption that everything is valid no error outcome is reachable.")
    for ty in HANDLES:
        r = ctx.root("finish", ty + "Builder", pub=True)
        R = ctx.run(r)
        for v, s in errs(R):
            k = err_kind(ctx, v)
            chk.expect("%sBuilder::finish errors are InvalidInput" % ty, k == "InvalidInput", "error of kind %s" % k, r["span"], closed=k is not None)
        chk.expect("%sBuilder::finish can fail" % ty, bool(errs(R)), "no error outcome", r["span"])
        names(ctx, chk, ty, r)
        for st, n, v, pre, V in labels_of_builder(ctx, ty) or []:
            check_label_name(chk, "%sBuilder label name" % ty, st, n, r["span"])
        for seq, rg, what in (("buckets", ((-FINF, FINF),), "a NaN bucket bound"), ("quantiles", ((ford(0.0), ford(1.0)),), "a quantile outside 0..=1")):
            ts = bound_inputs(ctx, ty, seq)
            if (ty, seq) in (("Histogram", "buckets"), ("Summary", "quantiles")) and not ts:
                chk.unk("%sBuilder %s" % (ty, seq), "not found", r["span"])
            for t in ts:
                i = mk("anyix", t)
                for v, s in oks(R):
                    st = with_pre(s, [("between", i, integer(0, "usize"), seqlen(t))])
                    if st is None:
                        continue
                    x = st.range_f(proj(t, ("i", i)))
                    bad = iset_sub(x, rg)
                    chk.expect("%sBuilder::finish refuses %s" % (ty, what), not bad, "accepted with a value in %s" % fshow(bad), r["span"])
        accept(ctx, chk, ty)
    n = 0
    for r in ctx.F.roots:
        sp = (r.get("selfpath") or "").split("::")[-1]
        if not (r.get("pub") and r.get("inst") and ctx.F.body(r["inst"])) or r.get("derived"):
            continue
        if r.get("trait"):
            continue
        if sp.endswith("Builder") or sp in ("Label", "Quantile", "LabelsMut") or (r["name"] == "new" and sp in HANDLES):
            R = ctx.run(r)
            n += 1
            for e in panics(R):
                chk.bad("%s does not panic" % r["nice"], "%s %s" % (e.d.get("why"), e.d.get("args", "")), where(e))
            if not panics(R):
                chk.ok("%s does not panic" % r["nice"], "", r["span"])
    for name, ty in (("new", "Label"), ("new", "Quantile"), ("insert", "LabelsMut")):
        r = ctx.root(name, ty, pub=True)
        R = ctx.run(r)
        for v, s in errs(R):
            k = err_kind(ctx, v)
            chk.expect("%s::%s errors are InvalidInput" % (ty, name), k == "InvalidInput", "error of kind %s" % k, r["span"], closed=k is not None)
    Q = ctx.run(ctx.root("new", "Quantile", pub=True))
    for v, s in oks(Q):
        bad = iset_sub(s.range_f(Q.args[0]), ((ford(0.0), ford(1.0)),))
        chk.expect("Quantile::new refuses values outside 0..=1", not bad, "accepts %s" % fshow(bad), Q.root["span"])
    for v, s in errs(Q):
        bad = iset_and(s.range_f(Q.args[0]), ((ford(0.0), ford(1.0)),))
        chk.expect("Quantile::new accepts 0..=1", not bad, "refuses %s" % fshow(bad), Q.root["span"])
    floor(chk, "C08 functions examined for panics", n, 40)


def panics(R):
    return [e for n, e, m in edges(R, lambda e: e.kind == "panic")]


def fshow(r):
    def f(x):
        return "NaN" if x == NAN_ORD else repr(unford(x)) if abs(x) <= FINF else "?"
    return ", ".join(f(a) if a == b else "%s..%s" % (f(a), f(b)) for a, b in (r or ())[:5])


# ------------------------------------------------------------------------------------------------ C09
def c09(ctx, chk):
    chk.rule("Every successful outcome of a histogram or summary builder has excluded, for every label, that its name equals the reserved one; inserting through labels_mut() of such a handle succeeds only on paths that have excluded it, "
             "and an error path performs no write to the label set. For the other kinds the reserved words are accepted.")
    for ty in HANDLES:
        r = ctx.root("finish", ty + "Builder", pub=True)
        w = r["span"]
        ls = labels_of_builder(ctx, ty)
        if ls is None:
            chk.unk("%sBuilder labels" % ty, "not understood", w)
            continue
        rn = RESERVED.get(ty)
        if rn:
            for st, n, v, pre, V in ls:
                m = st.getrel("?", string(rn), n)
                m = excluded_by_language(st, n, rn, m)
                chk.expect("%sBuilder refuses the label %s" % (ty, rn), not m & EQ, "a finished metric may have a label named %s" % rn, w, closed=closed(n) and not other_knowledge(st, n))
            ins = insert_path(ctx, chk, ty, rn)
        for word in ("le", "quantile"):
            if word == rn:
                continue
            # another kind of metric may use it
            vb = valid_builder(ctx, ty)
            if vb is None:
                continue
            atoms = vb[1] + reserved_atoms(ls, word)
            try:
                R = ctx.run_pre(r, atoms)
            except Missing:
                chk.unk("%sBuilder accepts the label %s" % (ty, word), "assumptions", w)
                continue
            es = errs(R)
            chk.expect("%sBuilder accepts the label %s" % (ty, word), not es, "refused", w, closed=not R.I.unknowns)
            K = const_str(word)
            x = insert_outs(ctx, ty, K, mk("sym", "labelvalue"))
            if x is None:
                continue
            bad = [s for cl, os in x for k, v, s in os if not (k == "ret" and is_ok(v))]
            chk.expect("%s::labels_mut().insert accepts the label %s" % (ty, word), not bad, "refused", ctx.root("insert", "LabelsMut", pub=True)["span"])
    floor(chk, "C09 obligations", len(chk.ob), 18)


def const_str(w):
    return string(w)


def excluded_by_language(st, n, word, m):
    """a string that cannot spell the word is not the word"""
    if n.op == "str":
        return EQ if n.a[0] == word else LT | GT
    k, f, r = char_sets(st, n)
    if not iset_and(f, ((ord(word[0]), ord(word[0])),)):
        return m & ~EQ
    return m


def reserved_atoms(ls, word):
    out = []
    for st, n, v, pre, V in ls:
        b = [a for a in pre if a[0] == "between"]
        a = ("rel", "?", string(word), n, EQ)
        if b:
            bv, lo, hi = b[0][1:]
            a = subst_atoms((a,), {bv: BV})[0]
            out.append(("fact", mk("forall", lo, hi, ((a,),), BV), True))
    return out


def insert_path(ctx, chk, ty, rn):
    w = ctx.root("insert", "LabelsMut", pub=True)["span"]
    n = mk("sym", "labelname")
    S = mk("deref", n)
    x = insert_outs(ctx, ty, n, mk("sym", "labelvalue"))
    if x is None:
        chk.unk("%s label insertion" % ty, "labels_mut", w)
        return
    for cl, outs in x:
        for k, v, s in outs:
            if k == "ret" and is_ok(v):
                m = excluded_by_language(s, S, rn, s.getrel("?", string(rn), S))
                chk.expect("%s::labels_mut().insert refuses %s" % (ty, rn), not m & EQ, "a label named %s can be inserted" % rn, w, closed=not other_knowledge(s, S))
            elif k == "ret" and is_err(v):
                kd = err_kind(ctx, v)
                chk.expect("%s::labels_mut().insert fails with InvalidInput" % ty, kd == "InvalidInput", str(kd), w, closed=kd is not None)
        X = cl.view()
        X.outs = outs
        for evs, i in paths(X) or []:
            k, v, s = outs[i]
            wr = [e for e in evs if e.kind == "imm" and e.op in ("update", "store")]
            if k == "ret" and is_err(v):
                chk.expect("%s::labels_mut().insert changes nothing when it fails" % ty, not wr, "the label set is written on a path that returns an error", where(wr[0]) if wr else w)
    y = insert_outs(ctx, ty, const_str(rn), mk("sym", "labelvalue"))
    if y is not None:
        good = [s for cl, os in y for k, v, s in os if k == "ret" and is_ok(v)]
        chk.expect("%s::labels_mut().insert(%s, ..) is an error" % (ty, rn), not good, "accepted", w)


# ------------------------------------------------------------------------------------------------ C10
def setform(new, old):
    """new as (sorted?, [appended], base) with base one of 'old', ('filter', cases, bv), 'none'; None if not understood"""
    srt = False
    add = []
    v = new
    while True:
        if v.op == "sort":
            k = v.a[0]
            if not add:
                srt = srt or k
            v = v.a[-1]
        elif v.op in ("push", "pushfront"):
            add.append(v.a[1])
            v = v.a[0]
        elif v.op == "append" and v.a[1].op == "list":
            add += list(v.a[1].a)
            v = v.a[0]
        else:
            break
    if v.op == "insert" and v.a[0] is old and not add:
        return srt, add + [v.a[2]], ("insert", v.a[1])
    if v.op in ("remove", "swaprm") and v.a[0] is old:
        return srt, add, (v.op, v.a[1])
    if v.op == "upd" and v.a[0] is old and v.a[1][0] == "i":
        return srt, add + [v.a[2]], ("upd", v.a[1][1])
    if v is old:
        return srt, add, "old"
    if v.op == "list":
        return srt, add + list(v.a), "none"
    if v.op == "comp":
        lo, hi, init, cases, bv = v.a
        if not (lo.op == "int" and lo.a[0] == 0 and hi is seqlen(old) and init.op == "list" and not init.a):
            return None
        el = proj(old, ("i", bv))
        cs = []
        for c, xs in cases:
            if len(xs) == 0:
                cs.append((c, False))
            elif len(xs) == 1 and xs[0] is el:
                cs.append((c, True))
            else:
                return None
        return srt, add, ("filter", cs, el, bv, lo, hi)
    return None


def name_relation(cond, n, elname):
    """possible orderings of n against the element's name under the condition"""
    s = State()
    for a in cond:
        if a[0] == "rel":
            if not s.setrel(a[1], a[2], a[3], a[4]):
                return 0
        elif a[0] == "fact":
            s.facts[a[1]] = a[2]
            if not s.assume(a[1], a[2]):
                return 0
        elif a[0] == "rng":
            s.rng[a[1]] = a[2]
    return s.getrel("?", n, elname) & (LT | EQ | GT)


def partition(ix, old, n, elname):
    """is it the place of that name in the order of the labels?"""
    return ix.op == "first" and ix.a[1] is old and ix.a[0].op == "le" and ix.a[0].a[-2] is n and ix.a[0].a[-1] is elname(mk("elt"))


def named(st, old, ix, n, elname):
    """is the label at an index the one of that name?"""
    if ix.op == "first" and ix.a[1] is old and ix.a[0].op == "eq" and {n, elname(mk("elt"))} == set(ix.a[0].a[-2:]):
        return True
    if partition(ix, old, n, elname) and st.facts.get(mk("bsexact", ix)) is True:
        return True
    x = elname(proj(old, ("i", ix)))
    m = LT | EQ | GT
    for (a, b), k in st.rel.items():
        if {a, b} == {n, x}:
            m &= k
    return True if m & (LT | GT) == 0 else False if m & EQ == 0 else None


def absent(st, old, n, elname):
    """does the path know that no label has that name?"""
    for f, b in st.facts.items():
        if f.op == "forall" and b and f.a[0].op == "int" and f.a[0].a[0] == 0 and f.a[1] is seqlen(old):
            x = elname(proj(old, ("i", f.a[3])))
            if all(any(a[0] == "rel" and {a[2], a[3]} == {n, x} and not a[4] & EQ for a in c) for c in f.a[2]):
                return True
        if f.op == "bsexact" and not b and partition(f.a[0], old, n, elname):
            return True
        if f.op == "bsfound" and not b and f.a[0].a[1] is old and f.a[0].a[0].op == "eq" and {n, elname(mk("elt"))} == set(f.a[0].a[0].a[-2:]):
            return True
    return False


def infeasible_any(s):
    """conditions this check does not weigh: what is known of the set on this path might rule it out"""
    return any(not known(f) for f in s.facts)


def check_set_update(chk, key, new, old, n, elname, w, insert=None, st=None):
    """the set afterwards: all labels with other names, none with this one, plus the inserted one, in order"""
    f = setform(new, old)
    if f is None:
        for x in subterms(new):
            if x.op in ("truncate", "popback", "popfront") and x.a[0] is old and st is not None:
                e = st.copy()
                more = cmp_lt("i", x.a[1], seqlen(old)) if x.op == "truncate" else cmp_lt("i", ZERO, seqlen(old))
                if known(new) and e.assume(more, True) and e.feasible() and not infeasible_any(e):
                    chk.bad(key + " keeps the other labels", "the set is cut: %s" % show(x)[:80], w)
                    return
        chk.unk(key, "new value %s" % show(new)[:160], w)
        return
    srt, add, base = f
    st = st or State()
    rep = key + (" replaces the label of that name" if insert is not None else " removes the label")
    if base[0] in ("upd", "remove", "swaprm"):
        # a set holds at most one label of a name
        good = named(st, old, base[1], n, elname)
        if good is None and not known(base[1]) or any(x.op == "lv" for x in subterms(base[1])):
            chk.unk(rep, show(base[1])[:100], w)
            return
        chk.expect(key + " keeps the other labels", bool(good), "the label at %s is dropped" % show(base[1])[:100], w, closed=known(base[1]))
        if base[0] == "upd":
            chk.expect(key + " adds the label", insert is not None and len(add) == 1 and insert(add[0]) is True, "sets %s" % ", ".join(show(a)[:60] for a in add), w, closed=known(new) and not contains(new, lambda x: x.op == "upd"))
            return
        if base[0] == "swaprm" and not srt:
            chk.bad(key + " keeps the labels sorted", "the last label takes the place of the removed one", w)
    if base[0] == "insert" and not srt:
        chk.expect(key + " adds the label", insert is not None and len(add) == 1 and insert(add[0]) is True, "adds %s" % ", ".join(show(a)[:60] for a in add), w, closed=known(new))
        chk.expect(key + " keeps the labels sorted", partition(base[1], old, n, elname), "the label is inserted at %s" % show(base[1])[:100], w, closed=known(base[1]))
        chk.expect(rep, absent(st, old, n, elname), "a label of that name stays", w, closed=known(base[1]))
        return
    if insert is not None:
        chk.expect(key + " adds the label", len(add) == 1 and insert(add[0]) is True, "adds %s" % ", ".join(show(a)[:60] for a in add), w, closed=known(new))
        by = srt.a[2] if srt else None
        if srt and by.op == "oneof" and len(by.a) == 1:
            by = by.a[0]
        good = srt and srt.a[0] == "asc" and (by.op == "elt" or by is elname(mk("elt")) or by.op == "tup" and by.a and by.a[0] is elname(mk("elt")))
        chk.expect(key + " keeps the labels sorted", bool(good), "the label is appended and the labels are %s" % ("sorted by %s" % show(srt)[:60] if srt else "not sorted"), w,
                   closed=known(new) and not (srt and srt.a[0] == "other"))
    else:
        chk.expect(key + " adds no label", not add, "adds %s" % ", ".join(show(a)[:60] for a in add), w, closed=known(new))
    if base == "none":
        chk.bad(key + " keeps the other labels", "all labels are dropped", w)
        return
    if base[0] in ("remove", "swaprm"):
        return
    if base == "old" or base[0] == "insert":
        chk.expect(rep, absent(st, old, n, elname), "a label of that name stays", w)
        return
    _, cs, el, bv, lo, hi = base
    for cond, keep in cs:
        m = name_relation(cond, n, elname(el))
        if keep:
            chk.expect(key + (" replaces the label of that name" if insert is not None else " removes the label"), not m & EQ, "a label of that name is kept", w, closed=known(new))
        else:
            chk.expect(key + " keeps the other labels", not m & (LT | GT), "a label of another name is dropped", w, closed=known(new))


def locks_over(evs, w):
    """names of the locks held at the write of a label set w and at every read its new value depends on, without interruption"""
    held, since = {}, {}
    for n, e in enumerate(evs):
        if e.kind == "lock":
            held[show(e.cell)] = n
        elif e.kind == "unlock":
            held.pop(show(e.cell), None)
        elif e is w:
            break
        elif e.kind == "imm" and e.op == "load":
            since[n] = e
    first = min([n for n, e in since.items() if contains(w.new, lambda x: x.op == "immld" and x is e.d.get("val"))] or [len(evs)])
    if first == len(evs) and contains(w.new, lambda x: x.op == "immld"):
        first = min(since or [-1])
    return {l for l, n in held.items() if n < first}


def c10(ctx, chk):
    chk.rule("Every update of a label set is analysed as a function of the old sequence: a filter that keeps exactly the labels whose name differs, plus at most the one inserted label, sorted by name; "
             "it is one replacement of the whole set, made (together with the read it depends on) while a lock is held that all writers of the set share: AtomicImmut::update alone compares only "
             "the address of the old value, which may be reused while it runs. Builders keep the same form. Reads take one snapshot.")
    N = lambda e: e
    nameterm = {}
    Ln = ctx.run(ctx.root("name", "Label", pub=True))
    lname = lambda el: Ln.I.deref(State(), subst(Ln.outs[0][1], lambda x: None)) if False else label_name_of(ctx, el)
    seen = {"insert": 0, "remove": 0, "clear": 0}
    locked = {}
    it = ctx.run(ctx.root("iter", "Labels", pub=True))
    if not edges(it, lambda e: e.kind == "imm"):
        chk.unk("label sets are kept in an AtomicImmut", "another representation", "")
        return
    for meth in ("insert", "remove", "clear"):
        r = ctx.root(meth, "LabelsMut", pub=True)
        R = ctx.run(r)
        key = "LabelsMut::" + meth
        X = R
        for evs, i in paths(R) or []:
            k, v, s = R.outs[i]
            wr = [e for e in evs if e.kind == "imm" and e.op in ("update", "store")]
            if k == "ret" and is_err(v):
                chk.expect(key + " changes nothing when it fails", not wr, "", where(wr[0]) if wr else r["span"])
                continue
            chk.expect(key + " is one change", len(wr) == 1, "%d changes of the label set on a path" % len(wr), where(wr[-1]) if wr else r["span"], closed=not R.I.unknowns)
            for e in wr:
                seen[meth] += 1
                held = locks_over(evs, e)
                chk.expect(key + " is serialized with other changes", bool(held), "no lock is held from the read of the old labels to the write: a change made by another thread in between is lost", where(e), closed=not R.I.unknowns)
                if held:
                    locked[meth] = held & locked.get(meth, held)
                old = e.d.get("old")
                if meth == "clear":
                    chk.expect(key + " leaves no label", e.new is mk("list"), show(e.new)[:80], where(e), closed=known(e.new))
                    continue
                if old is None:
                    lds = [x for x in subterms(e.new) if x.op == "deref" and x.a[0].op in ("immld", "immcur")]
                    old = lds[0] if lds else None
                if old is None:
                    chk.expect(key + " starts from the current labels", False, show(e.new)[:100], where(e), closed=known(e.new))
                    continue
                n = mk("deref", R.args[1])
                ins = None
                if meth == "insert":
                    def ins(l):
                        a, b = label_parts(ctx, R.I, e.st, l)
                        return a is n and b is mk("deref", R.args[2])
                check_set_update(chk, key, e.new, old, n, lname, where(e), ins, e.st)
        chk.expect(key + " works", seen[meth] > 0, "no change of the label set", r["span"], closed=not R.I.unknowns)
    if len(locked) == len(seen):
        common = set.intersection(*locked.values())
        chk.expect("all changes of a label set take one lock", bool(common), "; ".join("%s: %s" % (m, ", ".join(sorted(l))) for m, l in sorted(locked.items()))[:200], "")
    # nothing else changes label sets
    for r, R, e in label_writes(ctx):
        sp = (r.get("selfpath") or "").split("::")[-1]
        if not (sp == "LabelsMut" and r["name"] in seen):
            chk.unk("another function changes a label set: " + r["nice"], "", where(e))
    # builders
    for ty in HANDLES:
        builder_labels(ctx, chk, ty)
    # snapshots
    for name in ("iter", "len", "get", "is_empty"):
        r = ctx.root(name, "Labels", pub=True)
        R = ctx.run(r)
        for evs, i in paths(R) or []:
            lds = [e for e in evs if e.kind == "imm" and e.op == "load"]
            chk.expect("Labels::%s reads one snapshot" % name, len(lds) == 1, "%d loads of the set on a path" % len(lds), where(lds[-1]) if lds else r["span"], closed=not R.I.unknowns)
    floor(chk, "C10 obligations", len(chk.ob), 40)


_ln = {}


def label_name_of(ctx, el):
    R = ctx.run(ctx.root("name", "Label", pub=True))
    v = R.outs[0][1]
    t = R.I.deref(R.outs[0][2], v)
    return subst(t, {mk("deref", R.args[0]): el})


def builder_labels(ctx, chk, ty):
    key = "%sBuilder::label" % ty
    r = ctx.root("label", ty + "Builder", pub=True)
    R = ctx.run(r)
    fin = ctx.run(ctx.root("finish", ty + "Builder", pub=True))
    V = builder_label_seq(ctx, ty)
    if V is None:
        chk.unk(key, "labels of the builder not found", r["span"])
        return
    n, val = mk("deref", R.args[1]), mk("deref", R.args[2])
    old = deref_arg(V, fin.args[0], mk("deref", R.args[0]))
    for k, v, s in R.outs:
        after = s.mem.get(mk("D", R.args[0]))
        if k != "ret" or after is None:
            chk.unk(key, k, r["span"])
            continue
        new = deref_arg(V, fin.args[0], after)
        if new.op == "sort" or setform(new, old) is not None:
            f = setform(new, old)
            idx = None
            if f and len(f[1]) == 1:
                a = f[1][0]
                for i in range(len(a.a) if a.op == "tup" else 0):
                    if a.a[i] is n:
                        idx = i
            if idx is None:
                chk.expect(key + " adds the label", False, show(new)[:160], r["span"], closed=known(new) and f is not None and not contains(new, lambda x: x.op == "upd"))
                continue
            elname = lambda el: proj(el, ("f", idx))
            check_set_update(chk, key, new, old, n, elname, r["span"], lambda l: l.op == "tup" and val in l.a and l.a[idx] is n, s)
        else:
            chk.unk(key, show(new)[:160], r["span"])
    # everything else leaves the builder's labels alone
    for q in ctx.F.roots:
        if q.get("derived") or (q.get("selfpath") or "").split("::")[-1] != ty + "Builder" or not q.get("inst") or not ctx.F.body(q["inst"]) or q["name"] == "label":
            continue
        Q = ctx.run(q)
        for k, v, s in Q.outs:
            for a in Q.args:
                after = s.mem.get(mk("D", a))
                if after is None:
                    continue
                nv = deref_arg(V, fin.args[0], after)
                ov = deref_arg(V, fin.args[0], mk("deref", a))
                chk.expect("%sBuilder::%s leaves the labels alone" % (ty, q["name"]), nv is ov, show(nv)[:100], q["span"], closed=known(nv))
    # the metric's labels are the builder's, one for one
    Rf, fs = finished(ctx, ty)
    for cl, h, s in fs:
        S = label_seq(cl, ty, h)
        base, srt = S, False
        while base is not None and base.op in ("sort",):
            base, srt = base.a[-1], True
        good = None
        if base is not None and base.op == "comp":
            lo, hi, init, cases, bv = base.a
            good = lo.op == "int" and lo.a[0] == 0 and hi is seqlen(V) and init is mk("list") and all(len(xs) == 1 and contains(xs[0], lambda x: x.op == "proj" and x.a[0] is V and x.a[1] == ("i", bv)) for c, xs in cases)
        elif base is not None and base.op == "list" and not base.a:
            good = False
        chk.expect("%sBuilder::finish passes on every label once, in order" % ty, good, show(S)[:160] if S is not None else "", r["span"], closed=good is not None and known(S))


def builder_label_seq(ctx, ty):
    """the builder's sequence of labels, as a term over finish's argument"""
    R, fs = finished(ctx, ty)
    for cl, h, s in fs:
        V = label_seq(cl, ty, h)
        while V is not None and V.op == "sort":
            V = V.a[-1]
        if V is not None and V.op == "comp":
            hi, bv = V.a[1], V.a[4]
            if hi.op == "len":
                return hi.a[0]
            xs = {x.a[0] for c, vs in V.a[3] for v in vs for x in subterms(v) if x.op == "proj" and x.a[1] == ("i", bv)}
            if len(xs) == 1:
                return xs.pop()
    return None


CHECKS = {"C07": c07, "C08": c08, "C09": c09, "C10": c10}
