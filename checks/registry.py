"""C05, C06: registration, collection and removal."""
from sa.lib import *
from .values import floor

HANDLES = ["Counter", "Gauge", "Histogram", "Summary"]
SENDS = ("send", "sendfail")


def norm(t):
    """forget where values were made"""
    return subst(t, lambda x: mk("site*") if x.op == "site" else None)


def handle_ptr(v, st):
    """the pointer to the shared state in a handle"""
    ps = [x for x in subterms(v) if x.op == "ref" and x.a[0] in st.mem and x.a[0].op == "H"]
    return ps[0] if len(ps) == 1 else None


def channel_elem(li, chan):
    """(sequence, element) of which chan is a part, for the loop's index"""
    for x in subterms(chan):
        if x.op == "proj" and x.a[1][0] == "i" and li.kind is not None and x.a[1][1] is li.kind:
            return x.a[0], x
    return None, None


def registry_seq(ctx, ty):
    """the builder's sequence of registries that finish walks over"""
    R = ctx.run(ctx.root("finish", ty + "Builder", pub=True))
    for n, e, m in edges(R, lambda e: e.kind in SENDS):
        li = inner_loop(R, n)
        if li is not None:
            V, x = channel_elem(li, e.chan)
            if V is not None:
                return V
    return None


def builder_finish(ctx, chk, ty):
    name = ty + "Builder::finish"
    r = ctx.root("finish", ty + "Builder", pub=True)
    R = ctx.run(r)
    oks = [(i, o) for i, o in enumerate(R.outs) if o[0] == "ret" and is_ok(o[1])]
    errs = [o for o in R.outs if o[0] == "ret" and is_err(o[1])]
    other = [o for o in R.outs if o[0] == "ret" and not is_ok(o[1]) and not is_err(o[1])]
    for o in other:
        chk.unk(name + " outcome", show(o[1])[:100])
    chk.expect(name + " can succeed", bool(oks), "no path returns Ok", r["span"])
    sends = edges(R, lambda e: e.kind in SENDS)
    if not sends:
        chk.expect(name + " registers", False, "no registration is sent on any path", r["span"], closed=not R.I.unknowns)
        return
    bad = [e for n, e, m in sends if any(s.node in reachable(R, m) for k, v, s in errs)]
    chk.expect(name + " registers nothing when it fails", not bad, "an error return is reachable after a registration", where(bad[0]) if bad else "")
    loops = {}
    for n, e, m in sends:
        li = inner_loop(R, n)
        if li is None:
            chk.expect(name + " registers with every registry", False, "a registration outside any loop over the registries", where(e), closed=not R.I.unknowns)
            return
        loops.setdefault(li.head, (li, []))[1].append((n, e, m))
    for li, ss in loops.values():
        V, x = channel_elem(li, ss[0][1].chan)
        if V is None:
            chk.unk(name + " registration loop", "channel %s" % show(ss[0][1].chan)[:100], where(ss[0][1]))
            continue
        for n, e, m in ss:
            V2, x2 = channel_elem(li, e.chan)
            chk.expect(name + " sends to the registry of this round", V2 is V, show(e.chan)[:100], where(e), closed=V2 is not None)
        rp = round_paths(R, li, lambda e: e.kind in SENDS)
        if rp is None:
            chk.unk(name + " registration loop", "too many paths")
            continue
        for seq in rp:
            sp = sorted({where(e) for e in seq})
            chk.expect(name + " registers once per registry", len(seq) == 1, "%d registrations in one round" % len(seq), "; ".join(sp) or li.span)
        # leaving the loop early skips registries
        for n, d in li.exitdom:
            if not any(o[1][2].node in reachable(R, n) for o in oks):
                continue
            if d is None:
                chk.bad(name + " registers with every registry", "the loop over the registries can be left early", li.span)
            else:
                full = d[0].op == "int" and d[0].a[0] == 0 and d[1] is seqlen(V)
                chk.expect(name + " registers with every registry", full, "registries %s..%s of %s" % (show(d[0]), show(d[1])[:60], show(V)[:60]), li.span, closed(d[0], d[1], V))
    # every successful return has been through the loop
    heads = {li.head for li, ss in loops.values()}
    for i, (k, v, s) in oks:
        Vs = {channel_elem(li, ss[0][1].chan)[0] for li, ss in loops.values()}
        around = reaches(R, [R.entry], {s.node}, nodes=heads | (empty_at(R, Vs) if None not in Vs else set()))
        if around and None not in Vs:
            around = not all(s.range(seqlen(V)) == ((0, 0),) for V in Vs)
        chk.expect(name + " registers before returning a metric", not around, "a successful return bypasses the registration", r["span"])
    # what is sent collects the returned metric, weakly
    for li, ss in loops.values():
        for n, e, m in ss:
            for i, (k, v, s) in oks:
                if s.node not in reachable(R, m):
                    continue
                P = handle_ptr(v, s)
                if P is None:
                    chk.unk(name + " handle", show(v)[:100])
                    continue
                collector(ctx, chk, name, ty, R, e, P)


def empty_at(R, Vs):
    """nodes at which all of the sequences are known to be empty"""
    return {n for n, s in R.G.at.items() if all(s.range(seqlen(V)) == ((0, 0),) for V in Vs)}



def call_pattern(ctx, chk):
    """how gather calls a collector: (function term over elt(), number of arguments, index of the vector argument)"""
    R = ctx.run(ctx.root("gather", "Gatherer", pub=True))
    calls = edges(R, lambda e: e.kind == "ucall")
    for n, e, m in calls:
        f = e.f
        xs = [x for x in subterms(f) if x.op == "proj" and x.a[1][0] == "i"]
        if len(xs) >= 1:
            x = max(xs, key=lambda y: y.id) if len(xs) == 1 else [y for y in xs if not any(z is not y and y in subterms(z) for z in xs)][0]
            return subst(f, lambda y: mk("elt") if y is x else None), len(e.args), R, (n, e, m), x
    return None


def collector(ctx, chk, name, ty, R, e, P):
    pat = call_pattern(ctx, chk)
    if pat is None:
        chk.unk(name + " collector", "gather's call of a collector was not recognised")
        return
    f = subst(pat[0], {mk("elt"): e.val})
    if pat[1] != 1:
        chk.unk(name + " collector", "collectors take %d arguments" % pat[1])
        return
    st = e.st.copy()
    strong = find_strong(st, e.val, P)
    chk.expect(name + " does not keep the metric alive", not strong, "the registered collector holds a strong reference to the metric", where(e))
    st.node = R.G.node()
    vec = mk("H", "client", "vec")
    st.mem[vec] = mk("sym", "metrics0")
    R.I.nsite += 700000
    outs = R.I.call_value(st, f, [ref(vec)])
    yes = no = 0
    w = mk("alive", mk("weak", P))
    for k, v, s in outs:
        if k != "ret":
            chk.unk(name + " collector", "does not return")
            continue
        alive = s.facts.get(w)
        after = s.mem.get(vec)
        if after is None or not known(after) or v not in (TRUE, FALSE):
            chk.unk(name + " collector", "returns %s with %s" % (show(v)[:60], show(after)[:100]))
            continue
        added = None
        if after is mk("sym", "metrics0"):
            added = []
        elif after.op == "push" and after.a[0] is mk("sym", "metrics0"):
            added = [after.a[1]]
        else:
            added = elements_after(after)
        if added is None:
            chk.unk(name + " collector", show(after)[:160])
            continue
        if strong and alive is None:
            alive = True
        if v is TRUE and alive is not False:
            yes += 1
            good = len(added) == 1 and is_metric(ctx, added[0], ty, P)
            chk.expect(name + " registers a collector of the returned metric", good, "it yields %s" % ", ".join(show(a)[:100] for a in added), where(e))
        elif v is TRUE:
            chk.bad(name + " collector reports a dropped metric as gone", "true although the metric is gone", where(e))
        elif alive is False:
            no += 1
            chk.expect(name + " collector yields nothing for a dropped metric", not added, "", where(e))
        else:
            chk.bad(name + " collector keeps a live metric registered", "false although the metric is alive", where(e))
    chk.expect(name + " collector yields the metric while it is alive", yes > 0, "no path yields it", where(e))
    chk.expect(name + " collector deregisters when the metric is gone", no > 0 or strong, "no path reports it", where(e))


def elements_after(v):
    """elements added to metrics0, or None"""
    m0 = mk("sym", "metrics0")
    out = []
    while v is not m0:
        if v.op == "push":
            out.append(v.a[1])
            v = v.a[0]
        elif v.op == "append" and v.a[1].op == "list":
            out += list(reversed(v.a[1].a))
            v = v.a[0]
        else:
            return None
    return list(reversed(out))


def is_metric(ctx, v, ty, P):
    """Metric::<ty>(<ty>(P))"""
    if v.op != "adt" or v.a[0].split("::")[-1] != "Metric" or len(v.a) != 3:
        return False
    t = ctx.F.types[ctx.F.adts[v.a[0]]["ty"]]
    if t["variants"][v.a[1]]["n"] != ty:
        return False
    h = v.a[2]
    return h.op == "adt" and h.a[0].split("::")[-1] == ty and P in h.a


def find_strong(st, v, P, seen=None):
    """is P held other than through a weak reference?"""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "weak":
            continue
        if x is P:
            return True
        if x.op == "ref" and x.a[0] in st.mem:
            todo.append(st.mem[x.a[0]])
        todo.extend(x.a)
    return False


def register_user(ctx, chk):
    """Registry::register for an arbitrary collector"""
    r = ctx.root("register", "Registry", pub=True)
    R = ctx.run(r)
    ps = paths(R)
    for evs, i in ps or []:
        n = [e for e in evs if e.kind in SENDS]
        chk.expect("Registry::register sends the collector once", len(n) == 1, "%d sends on a path" % len(n), r["span"], closed=not R.I.unknowns)
    if not R.outs:
        chk.bad("Registry::register returns", "no path returns", r["span"])
    pat = call_pattern(ctx, chk)
    if pat is None or pat[1] != 1:
        chk.unk("Registry::register", "gather's call of a collector was not recognised")
        return
    done = False
    for n, e, m in edges(R, lambda e: e.kind == "send"):
        if e.d.get("blocking"):
            chk.bad("Registry::register does not wait for a gather", "it waits for room in a bounded channel", where(e))
        f = subst(pat[0], {mk("elt"): e.val})
        for unwind in (False,):
            st = e.st.copy()
            st.node = R.G.node()
            start = st.node
            vec = mk("H", "client", "vec")
            m0 = mk("sym", "metrics0")
            st.mem[vec] = m0
            outs = R.I.call_value(st, f, [ref(vec)])

            class X(object):
                G, I, entry = R.G, R.I, start
            X.outs = outs
            for evs, i in paths(X) or []:
                k, v, s = outs[i]
                calls = [x for x in evs if x.kind == "ucall" and x.f.op == "method" and "collect" in str(x.f.a[0])]
                chk.expect("a registered collector is asked once per gather", len(calls) == 1, "%d calls" % len(calls), where(calls[0]) if calls else where(e))
            for k, v, s in outs:
                after = s.mem.get(vec)
                disc = None
                for x, rg in s.rng.items():
                    if x.op == "discr" or x.op == "disc":
                        disc = x, rg
                some = outcome_some(s, after, v)
                if v is TRUE:
                    items = extended(after, m0)
                    chk.expect("everything a collector yields is gathered", items is True, show(after)[:160], where(e), closed=items is not None)
                    chk.expect("a collector that yields metrics stays registered", some is not False, "", where(e), closed=some is not None)
                    done = True
                elif v is FALSE:
                    chk.expect("a collector without metrics adds none", after is m0, show(after)[:160], where(e))
                    chk.expect("a collector is deregistered only if it yields None", some is not True, "deregistered although collect returned Some", where(e))
                else:
                    chk.unk("Registry::register collector result", show(v)[:100])
    chk.expect("Registry::register adds what the collector yields", done, "no path keeps the collector", r["span"], closed=not R.I.unknowns)


def outcome_some(s, after, v):
    """did collect() return Some on this path? (None: not known)"""
    for d in (s.rng, s.facts):
        for x, b in d.items():
            if isinstance(x, T) and any(y.op == "ures" and y.a[0].op == "method" for y in subterms(x)):
                if d is s.rng:
                    if b == ((1, 1),):
                        return True
                    if b == ((0, 0),):
                        return False
                elif x.op in ("isvar", "variant"):
                    return b if x.a[-1] in (1, integer(1, "isize")) else not b
    return None


def extended(v, m0):
    if v is m0:
        return False
    if v.op == "append" and v.a[0] is m0:
        x = v.a[1]
        if x.op == "useriter" and x.a[0].op == "proj":
            return True
        return None
    if v.op == "push":
        return None
    return None


# ------------------------------------------------------------------------------------------------ gather
def gather_drain(ctx, chk):
    r = ctx.root("gather", "Gatherer", pub=True)
    R = ctx.run(r)
    recv = edges(R, lambda e: e.kind == "recv")
    empty = lambda e: e.kind in ("recvempty", "recvdisc")
    calls = {n for n, e, m in edges(R, lambda e: e.kind == "ucall")}
    goals = calls | {s.node for k, v, s in R.outs}
    if not recv:
        chk.expect("gather takes up pending registrations", False, "the registration channel is never read", r["span"], closed=not R.I.unknowns)
        return
    for n, e, m in recv:
        chk.expect("gather takes up all pending registrations first", not reaches(R, [m], goals, empty), "a collector can be called, or gather return, before the channel is empty", where(e))
        chk.expect("gather does not wait for registrations", not e.d.get("blocking"), "blocking receive", where(e))
        # the received collector is kept
        kept = None
        li = inner_loop(R, n)
        keep = False
        for l in ([li] if li else []):
            for b in l.backs:
                for w, v in b.items():
                    if contains(v, lambda x: x is e.val) and base_of(v) is mk("lv", l.id, w[0], w[1]):
                        keep = True
        if not keep:
            # some memory of a later state holds it
            for a, e2, b2 in edges(R, lambda x: x.kind == "ucall"):
                if any(contains(v, lambda x: x is e.val) for v in e2.st.mem.values()):
                    keep = True
            for k, v, s in R.outs:
                if any(contains(v2, lambda x: x is e.val) for v2 in s.mem.values()):
                    keep = True
        chk.expect("gather keeps each received collector", keep, "the received collector is dropped", where(e), closed=not R.I.unknowns)
    skip = reaches(R, [R.entry], goals, lambda e: e.kind in ("recv", "recvempty", "recvdisc"))
    chk.expect("every gather looks at the channel", not skip, "a path neither reads the channel nor finds it empty", r["span"])


def base_of(v):
    while v.op in ("push", "append", "pushfront", "insert"):
        v = v.a[0]
    return v


def gather_walk(ctx, chk, what):
    """the loop over the collectors: each is called exactly once, and removed exactly if it returned false"""
    pat = call_pattern(ctx, chk)
    r = ctx.root("gather", "Gatherer", pub=True)
    R = ctx.run(r)
    if pat is None:
        calls = edges(R, lambda e: e.kind == "ucall")
        if not calls and not R.I.unknowns:
            chk.bad("gather calls the collectors", "no collector is ever called", r["span"])
        else:
            chk.unk("gather calls the collectors", "call of a collector not recognised")
        return None
    fpat, nargs, R, (n, e, m), x = pat
    L, i = x.a[0], x.a[1][1]
    li = inner_loop(R, n)
    if li is None:
        chk.expect("gather calls every collector", False, "a collector is called outside any loop over the collectors", where(e), closed=not R.I.unknowns)
        return None
    rp = round_paths(R, li, lambda y: y.kind == "ucall")
    if rp is None:
        chk.unk("gather's loop", "too many paths")
        return None
    if what == "C05":
        for seq in rp:
            chk.expect("gather asks one collector per round", len(seq) == 1, "%d calls in one round" % len(seq), "; ".join(where(y) for y in seq) or li.span)
    wl = wi = None
    for w in li.W:
        lv = mk("lv", li.id, w[0], w[1])
        if lv is L:
            wl = w
        if lv is i:
            wi = w
    if wi is None:
        if wl is not None and what == "C06":
            for b, st in zip(li.backs, li.backst):
                v = b.get(wl, L)
                if (v.op == "truncate" and v.a[0] is L or v.op == "list" and not v.a) and st.feasible():
                    chk.bad("gather drops only the collector that is gone", "the list of collectors becomes %s" % show(v)[:80], li.span)
                    return None
        chk.unk("gather's loop", "index %s is not carried" % show(i)[:60], where(e))
        return None
    # the collectors that stay may be put into a new list that takes the place of the old one
    wk = None
    if wl is None:
        for w in li.W:
            lv = mk("lv", li.id, w[0], w[1])
            if li.init[w] is mk("list") and all(b.get(w, lv) is lv or b[w] is mk("push", lv, x) for b in li.backs) and any(b.get(w, lv) is not lv for b in li.backs):
                wk = w
    for b, st in zip(li.backs, li.backst):
        res = [(f, v) for f, v in st.facts.items() if f.op == "ures" and f.a[0] is e.f]
        res = res[0][1] if res else None
        if res is None:
            # the result decides through its range
            for f, v in st.rng.items():
                if f.op == "ures" and f.a[0] is e.f:
                    res = {((1, 1),): True, ((0, 0),): False}.get(v)
        di = isub(b[wi], i, "i128")
        adv = di.a[0] if di.op == "int" else None
        newL = b.get(wl) if wl is not None else L
        if wl is not None and newL is None:
            newL = L
        if wk is not None:
            lv = mk("lv", li.id, wk[0], wk[1])
            rem = "kept" if b.get(wk, lv) is not lv else "removed"
            if adv == 1 and rem == "removed":
                adv = 0     # nothing takes the place of the removed one
        elif newL is L:
            rem = "kept"
        elif newL.op in ("swaprm", "remove") and newL.a[0] is L:
            rem = "removed" if newL.a[1] is i else "other"
        else:
            rem = None
        if res is None or adv is None or rem is None:
            chk.unk("gather's loop", "round with result %s, index %s, list %s" % (res, show(b[wi])[:60], show(newL)[:80]), li.span)
            continue
        w_ = where(e)
        if what == "C05":
            if rem == "kept":
                chk.expect("gather goes on with the next collector", adv == 1, "the index advances by %s after keeping a collector" % adv, w_)
            elif rem == "removed":
                chk.expect("gather skips no collector when it removes one", adv == 0, "the index advances by %s although another collector has taken the place of the removed one" % adv, w_)
        else:
            if res:
                chk.expect("a collector that has metrics stays", rem == "kept", "it is removed" if rem == "removed" else "another collector is removed", w_)
            else:
                chk.expect("a collector that has no more metrics is removed", rem == "removed", "it stays" if rem == "kept" else "another collector is removed", w_)
            if rem == "removed":
                chk.expect("removing a collector skips no other", adv == 0, "index advances by %s" % adv, w_)
    if wk is not None:
        kept = mk("lv", li.id, wk[0], wk[1])
        for k, v, s in R.outs:
            if k == "ret" and s.node in reachable(R, m):
                back = any(contains(y, lambda z: z is kept or z.op == "comp" and contains(mk("tup", z.a[1]), lambda u: u is L)) for root, y in s.mem.items() if root.op == "D")
                chk.expect("the collectors that stay are kept for the next gather", back, "", li.span, closed=not R.I.unknowns)
    if what == "C05":
        i0 = li.init[wi]
        chk.expect("gather starts with the first collector", i0.op == "int" and i0.a[0] == 0, show(i0)[:60], li.span, closed(i0))
        for s, (nd, d) in zip(li.exitst, li.exitdom):
            if not any(o[2].node in reachable(R, nd) for o in R.outs if o[0] == "ret"):
                continue
            end = s.decide(cmp_le("i", seqlen(L), i)) is True or s.decide(cmp_eq("i", i, seqlen(L))) is True
            if not end and d is not None:
                end = d[1] is seqlen(L)
            chk.expect("gather asks every collector", end, "the loop over the collectors can be left early", li.span)
    return R, li, e, n, m


def gather_collects_into_result(ctx, chk):
    """all calls of collectors are given the same vector, which starts empty and is what is grouped into families"""
    w = gather_walk(ctx, chk, "C05")
    if w is None:
        return
    R, li, e, n, m = w
    vecs = [a for a in e.args if a.op == "ref"]
    if len(vecs) != 1:
        chk.unk("gather's vector of metrics", "arguments %s" % show(mk("tup", *e.args))[:100], where(e))
        return
    root, path = vecs[0].a
    W = [x for x in li.W if x[0] is root]
    if len(W) != 1:
        chk.expect("collectors add to one vector", False, "the vector given to collectors is not carried through the loop", where(e), closed=False)
        return
    lv = mk("lv", li.id, W[0][0], W[0][1])
    init = li.init[W[0]]
    chk.expect("the vector of metrics starts empty", init is mk("list"), show(init)[:80], li.span, closed(init))
    for b in li.backs:
        v = b[W[0]]
        chk.expect("what a collector adds is kept", v.op == "uout" and v.a[1] is lv, show(v)[:120], where(e), closed=known(v))
    # grouped: a later loop runs over sort(.., lv), all of it
    V = None
    for l in live_loops(R):
        for w2 in l.W:
            for b in l.backs:
                for x in subterms(b[w2]) if w2 in b else ():
                    if x.op == "proj" and x.a[1][0] == "i" and l.kind is not None and x.a[1][1] is l.kind and lossless(x.a[0])[0] is lv:
                        V = (l, x.a[0])
    if V is None:
        chk.unk("the metrics are grouped", "the loop over the collected metrics was not recognised")
        return
    l, S = V
    z = l.init.get((l.kind.a[1], l.kind.a[2]))
    if z is not None and z.op == "lv":
        chk.unk("every collected metric gets into a family", "the grouping loop goes on where another one was", l.span)
        return
    chk.expect("all collected metrics are grouped", lossless(S)[1], "grouped: %s" % show(S)[:120], l.span)
    for nd, d in l.exitdom:
        if any(o[2].node in reachable(R, nd) for o in R.outs if o[0] == "ret"):
            full = d is not None and d[0].op == "int" and d[0].a[0] == 0 and d[1] is seqlen(S)
            chk.expect("every collected metric gets into a family", full, "the grouping loop %s" % ("can be left early" if d is None else "runs over %s..%s" % (show(d[0])[:40], show(d[1])[:60])), l.span)


# ------------------------------------------------------------------------------------------------ plumbing of registries
def deref_arg(t, p, val):
    return subst(t, {mk("deref", p): val})


def plumbing(ctx, chk):
    # a registry of a gatherer sends to that gatherer
    G = ctx.run(ctx.root("new", "Gatherer", pub=True))
    RG = ctx.run(ctx.root("registry", "Gatherer", pub=True))
    RR = ctx.run(ctx.root("register", "Registry", pub=True))
    GG = ctx.run(ctx.root("gather", "Gatherer", pub=True))
    if len(G.outs) != 1 or len(RG.outs) != 1:
        chk.unk("Gatherer::new / registry", "several outcomes")
        return
    g = G.outs[0][1]
    reg = deref_arg(RG.outs[0][1], RG.args[0], g)
    chan = {deref_arg(e.chan, RR.args[0], reg) for n, e, m in edges(RR, lambda e: e.kind in SENDS)}
    rch = {deref_arg(e.chan, GG.args[0], g) for n, e, m in edges(GG, lambda e: e.kind in ("recv", "recvempty"))}
    for c in chan:
        for d in rch:
            good = c.op == "tx" and d.op == "rx" and c.a[0] is d.a[0]
            chk.expect("a registry feeds the gatherer it came from", good, "sends to %s, gather reads %s" % (show(c)[:60], show(d)[:60]), closed=closed(c, d))
    if not chan or not rch:
        chk.unk("a registry feeds the gatherer it came from", "no channel found")
    for n in ctx.F.find("default", "Gatherer", None):
        D = ctx.run(n)
        if len(D.outs) == 1:
            chk.expect("Gatherer::default is Gatherer::new", norm(D.outs[0][1]) is norm(g), show(D.outs[0][1])[:100], closed=closed(D.outs[0][1]))
    # the default registry feeds the default gatherer, even after a panic under its lock
    DG = ctx.run(ctx.root("default_gatherer", "", pub=True))
    cell = DG.outs[0][1] if len(DG.outs) == 1 else None
    r = ctx.root("default_registry", "", pub=True)
    for poison in (False, True):
        DR = ctx.run(r, poison=poison)
        for k, v, s in DR.outs:
            if k != "ret":
                chk.bad("default_registry returns", k, r["span"])
                continue
            lk = [x for x in subterms(v) if x.op == "locked"]
            if not lk:
                chk.expect("default_registry belongs to the default gatherer", False, show(v)[:160], r["span"], closed=closed(v))
                continue
            want = deref_arg(RG.outs[0][1], RG.args[0], lk[0])
            chk.expect("default_registry belongs to the default gatherer", v is want and lk[0].a[0] is cell, "%s" % show(v)[:160], r["span"], closed=closed(v))
        for n, e, m in edges(DR, lambda e: e.kind == "panic"):
            chk.bad("default_registry does not panic", str(e.d.get("why")), where(e))
    # builder.registry(r) / default_registry() make finish register with r
    DR = ctx.run(r)
    dreg = DR.outs[0][1] if DR.outs else None
    for ty in HANDLES:
        V = registry_seq(ctx, ty)
        if V is None:
            chk.unk("%sBuilder registries" % ty, "not found")
            continue
        for meth in ("registry", "default_registry"):
            rr = ctx.root(meth, ty + "Builder", pub=True)
            Q = ctx.run(rr)
            fin = ctx.run(ctx.root("finish", ty + "Builder", pub=True))
            for k, v, s in Q.outs:
                key = "%sBuilder::%s adds the registry" % (ty, meth)
                after = s.mem.get(mk("D", Q.args[0]))
                if k != "ret":
                    chk.unk(key, k)
                    continue
                nv = deref_arg(V, fin.args[0], after) if after is not None else V
                old = deref_arg(V, fin.args[0], mk("deref", Q.args[0]))
                want = Q.args[1] if meth == "registry" else dreg
                els, b = split_seq(nv, old)
                if els is None:
                    chk.expect(key, False, show(nv)[:200], rr["span"], closed=known(nv) and nv.op in ("list", "push", "append", "truncate", "proj", "deref"))
                    continue
                n = len([x for x in els if norm(x) is norm(want)])
                chk.expect(key, b and n == 1 and len(els) == 1, "afterwards: %s" % show(nv)[:200], rr["span"], closed=known(nv))


def split_seq(v, old):
    """(elements added, is the old sequence still there?)"""
    els = []
    while v is not old:
        if v.op in ("push", "pushfront"):
            els.append(v.a[1])
            v = v.a[0]
        elif v.op == "insert":
            els.append(v.a[-1])
            v = v.a[0]
        elif v.op == "list":
            return els + list(v.a), False
        elif v.op == "append" and v.a[1].op == "list":
            els += list(v.a[1].a)
            v = v.a[0]
        elif v.op == "append" and v.a[0].op == "list" and v.a[1] is old:
            return els + list(v.a[0].a), True
        else:
            return None, False
    return els, True


def c05(ctx, chk):
    chk.rule("In every builder's finish: no error return after a registration; the loop over the builder's registries runs from the first to the last, is on every path to a successful return and makes exactly one registration per round, "
             "of a collector that (analysed by calling it abstractly the way gather does) yields exactly the returned metric. gather: the channel is drained before the first collector is called and every received collector is kept; "
             "the collector loop calls each exactly once, into one vector that is grouped completely. Registries are traced to the receiving end of their gatherer's channel.")
    for ty in HANDLES:
        builder_finish(ctx, chk, ty)
    register_user(ctx, chk)
    gather_drain(ctx, chk)
    gather_collects_into_result(ctx, chk)
    plumbing(ctx, chk)
    for ty in HANDLES:
        user_collector(ctx, chk, ty)
    floor(chk, "C05 obligations", len([o for o in chk.ob]), 60)


def user_collector(ctx, chk, ty):
    """handle.collector().collect() yields the metric itself while it is alive"""
    C = ctx.run(ctx.root("collector", ty, pub=True))
    K = ctx.root("collect", ty + "Collector", None)
    Q = ctx.run(K)
    key = "%s::collector" % ty
    if len(C.outs) != 1:
        chk.unk(key, "several outcomes")
        return
    cv = C.outs[0][1]
    for k, v, s in Q.outs:
        v2 = deref_arg(v, Q.args[0], cv)
        if is_some(v):
            chk.ok(key + " yields", "", K["span"])
        elif not is_none(v):
            chk.unk(key, show(v)[:100])


def c06(ctx, chk):
    chk.rule("Ownership analysis of what finish sends and collector() returns: every path from the registered value to the metric's shared state goes through a weak reference; "
             "the collector returns true and yields the metric exactly on the paths where upgrading succeeds; gather's loop removes the collector at the index exactly when its call returned false and does not advance then.")
    for ty in HANDLES:
        r = ctx.root("finish", ty + "Builder", pub=True)
        R = ctx.run(r)
        name = ty + "Builder::finish"
        n_ = 0
        for n, e, m in edges(R, lambda e: e.kind == "send"):
            for i, (k, v, s) in enumerate(R.outs):
                if k == "ret" and is_ok(v) and s.node in reachable(R, m):
                    P = handle_ptr(v, s)
                    if P is None:
                        chk.unk(name + " handle", show(v)[:100])
                        continue
                    n_ += 1
                    collector(ctx, chk, name, ty, R, e, P)
                    # nothing else keeps it: the builder and globals are not given the pointer
        chk.expect(name + " sends a collector", n_ > 0, "", r["span"], closed=not R.I.unknowns)
        # strong references elsewhere: memory behind arguments or statics
        for k, v, s in R.outs:
            if k == "ret" and is_ok(v):
                P = handle_ptr(v, s)
                if P is None:
                    continue
                leak = [root for root, x in s.mem.items() if root.op in ("D", "S") and find_strong(s, x, P)]
                chk.expect(name + " hands the metric to nobody but the caller", not leak, "stored in %s" % ", ".join(show(x)[:60] for x in leak), r["span"])
        C = ctx.run(ctx.root("collector", ty, pub=True))
        for k, v, s in C.outs:
            ptrs = [x for x in subterms(v) if x.op == "proj" and x.a[0].op == "deref" and x.a[0].a[0] is C.args[0]]
            weak = all(under_weak(v, x) for x in ptrs) and bool(ptrs)
            chk.expect("%s::collector holds the metric weakly" % ty, weak, show(v)[:120], C.root["span"], closed=closed(v))
        Q = ctx.run(ctx.root("collect", ty + "Collector", None))
        some = none = 0
        for k, v, s in Q.outs:
            al = [b for f, b in s.facts.items() if f.op == "alive"]
            if is_some(v):
                some += 1
                chk.expect("%s collector yields only a live metric" % ty, al == [True], "", Q.root["span"], closed=closed(v))
            elif is_none(v):
                none += 1
                chk.expect("%s collector ends only when the metric is gone" % ty, al == [False], "None although the metric may be alive", Q.root["span"])
            else:
                chk.unk("%s collector" % ty, show(v)[:100])
        chk.expect("%s collector has both outcomes" % ty, bool(some and none), "%d/%d" % (some, none), Q.root["span"])
    register_user(ctx, chk)
    gather_walk(ctx, chk, "C06")
    floor(chk, "C06 obligations", len(chk.ob), 50)


def under_weak(v, x):
    return not find_strong_val(v, x)


def find_strong_val(v, x):
    todo = [v]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo.extend(y)
            continue
        if not isinstance(y, T) or y.op == "weak":
            continue
        if y is x:
            return True
        todo.extend(y.a)
    return False


CHECKS = {"C05": c05, "C06": c06}
