"""C28: no panic is reachable from gathering, reading and rendering."""
from sa.lib import *
from .values import floor

from .summary import conds_state

# refusals of an argument, by panic: the only ones the crate has
REFUSALS = (("observe", "Histogram"), ("set", "TimestampMut"), ("set_time", "TimestampMut"), ("set_now", "TimestampMut"))


def loop_of(R, t):
    """the loop a carried value belongs to"""
    for ls in R.I.loops.values():
        for li in ls:
            if li.id is t.a[0]:
                return li
    return None


def carried(t):
    return (t.a[1], t.a[2])


def untouched_ahead(R, L, X):
    """what sequence L held at index X when its loop began, if the loop has changed nothing but the elements it passed"""
    li = loop_of(R, L)
    if li is None or li.kind is not X:
        return None
    w = carried(L)
    if w not in li.init:
        return None
    for b, st in zip(li.backs, li.backst):
        v = b.get(w)
        while isinstance(v, T) and v.op == "upd" and v.a[1] == ("i", X):
            v = v.a[0]
        if v is not L and st.feasible():
            return None
    return li.init[w]


def kept(R, L):
    """[fact] that hold for every element of L after its loop: the loop counts up over the elements it keeps"""
    li = loop_of(R, L)
    if li is None or carried(L) not in li.init:
        return []
    w = carried(L)
    for wi in li.W:
        X = mk("lv", li.id, *wi)
        z = li.init.get(wi)
        if wi == w or z is None or z.op != "int" or z.a[0] != 0 or X.op != "lv":
            continue
        facts = None
        good = True
        for b, st in zip(li.backs, li.backst):
            if not st.feasible():
                continue
            nv, nx = b.get(w), b.get(wi)
            if nv is None or nx is None or not known(nv, nx):
                good = False
                break
            if nv is L and nx is iadd(X, integer(1, "usize"), "usize"):
                fs = {(f, t) for f, t in st.facts.items() if contains(f, lambda x: x.op == "proj" and x.a[0] is L and x.a[1] == ("i", X))
                      and not contains(f, lambda x: x.op == "lv" and x is not L and x is not X)}
                facts = fs if facts is None else facts & fs
            elif nv.op in ("swaprm", "remove") and nv.a[0] is L and nv.a[1] is X and nx is X:
                pass
            elif nv.op == "pop" and nv.a[0] is L and nx is X:
                pass
            else:
                good = False
                break
        if not good or not facts:
            continue
        # the loop ends only when every element was looked at
        ends = exits_of(R, li)
        for nd, s in ends:
            e = s.copy()
            if e.assume(cmp_lt("i", X, seqlen(L)), True) and e.feasible():
                good = False
        if good and ends:
            return [(f, t, X) for f, t in facts]
    return []


def contradicted(R, s):
    """what loops have established about the elements they kept rules this path out"""
    facts = dict(s.facts)
    for n in range(3):
        for f, t in list(facts.items()):
            for x in list(subterms(f)):
                if x.op == "proj" and x.a[0].op == "lv" and x.a[1][0] == "i" and x.a[1][1].op == "lv":
                    L, X = x.a[0], x.a[1][1]
                    for g, t2, Y in kept(R, L):
                        if subst(g, {Y: X}) is f and t is not t2:
                            return "every element that the loop at %s kept has this" % loop_of(R, L).span
                    V = untouched_ahead(R, L, X)
                    if V is not None:
                        g = subst(f, lambda y: proj(V, x.a[1]) if y is x else None)
                        if g.op in ("int",):
                            continue
                        facts.setdefault(g, t)
                elif x.op == "proj" and x.a[0].op == "comp" and x.a[1][0] == "i":
                    if never_kept(x, f, t):
                        return "no element that passed the filter has this"
    return None


def never_kept(x, f, t):
    """the list of which x is an element was made by a filter that lets no element through for which f is t"""
    lo, hi, init, cases, bv = x.a[0].a
    if init.op != "list" or init.a:
        return False
    for conds, xs in cases:
        if not xs:
            continue
        if len(xs) != 1 or xs[0].op == "seq":
            return False
        st = conds_state(conds)
        if st is None:
            continue
        g = subst(f, lambda y: xs[0] if y is x else None)
        if st.assume(g, t) and st.feasible():
            return False
    return True


def made_values(ctx, k):
    """[(value, where, state)] that constructors give a private field"""
    out = []
    for r in ctx.F.roots:
        if not (r.get("inst") and ctx.F.body(r["inst"])):
            continue
        R = ctx.run(r)
        for path, var, vs, fl, span, fn, st in R.I.made:
            if (path, var) == k[:2]:
                for v in choices(vs[k[2]]):
                    if FIELDOF.get(v) != k:
                        out.append((v, span, st))
    return out


def choices(v):
    """the values of which v is one"""
    if v.op in ("max", "min") and len(v.a) == 2 and all(isinstance(x, T) for x in v.a):
        return choices(v.a[0]) + choices(v.a[1])
    return [v]


def written_values(ctx, k, x, ats):
    """values the field is changed to for which the conditions can hold, though they do not hold for the value before"""
    out = []
    for r in ctx.F.roots:
        if not (r.get("inst") and ctx.F.body(r["inst"])):
            continue
        R = ctx.run(r)
        ps = R.I.mutplaces.get(k, ())
        for e in R.live_events("write"):
            if (e.root, e.path) not in ps or not known(e.val):
                continue
            for v in choices(e.val):
                if FIELDOF.get(v) == k:
                    continue
                st = e.st.copy()
                if len(ats) == 1:
                    a = ats[0]
                    for y in subterms(v):
                        if FIELDOF.get(y) == k:
                            t = subst(a[1], {x: y})
                            if a[0] == "fact":
                                st.assume(t, not a[2])
                            else:
                                st.rng[t] = iset_sub(st.range(t), a[2])
                if can_hold(ats, {x: v}, st):
                    out.append(v)
    return out


def extremes(s):
    """is the path impossible for each value that the greatest (least) of a list can be?"""
    ms = set()
    for a in atoms_of(s):
        for x in subterms(a[1]):
            if x.op in ("maxof", "minof") and isinstance(x.a[0], T) and x.a[0].op == "comp":
                ms.add(x)
    for m in ms:
        lo, hi, init, cases, bv = m.a[0].a
        if init.op != "list" or init.a:
            continue
        mine = [a for a in atoms_of(s) if contains(a[1], lambda y: y is m)]
        can = False
        for conds, xs in cases:
            st = conds_state(conds)
            if st is None or not xs:
                continue
            if len(xs) != 1 or xs[0].op == "seq" or can_hold(mine, {m: xs[0]}, st):
                can = True
        if not can:
            return True
    return False


def atoms_of(s):
    out = [("fact", f, b) for f, b in s.facts.items() if f.op != "forall"]
    out += [("rng", t, r) for t, r in s.rng.items()]
    return out


def can_hold(ats, m, st):
    """can the conditions hold together once fields are replaced by values they are given?"""
    st = st.copy() if st is not None else State()
    st.node = getattr(st, "node", 0)
    for a in ats:
        t = subst(a[1], m)
        if t.op == "discr" and t.a[0].op == "adt":
            t = integer(t.a[0].a[1], "i128")
        if a[0] == "fact":
            if not st.assume(t, a[2]):
                return False
        elif t.op == "int":
            if not any(lo <= t.a[0] <= hi for lo, hi in a[2]):
                return False
        else:
            r = iset_and(st.range(t), a[2])
            if not r:
                return False
            st.rng[t] = r
    return st.feasible()


def verdict(ctx, R, e):
    """(is the panic impossible (True), possible (False) or neither (None), why)"""
    s = e.st
    if not s.feasible():
        return True, "no value satisfies the conditions on the way"
    if infeasible(ctx, passed(R, s)):
        return True, "some bucket is unbounded"
    c = contradicted(R, s)
    if c:
        return True, c
    if extremes(s):
        return True, "no element of the list has such a value"
    ops = list(flat_terms(e.d.get("ops", ())))
    s = s.copy()
    m = {}
    for t in list(s.facts) + [x for k in s.rel for x in k] + list(s.rng):
        for x in subterms(t):
            if x.op == "proj" and x.a[0].op == "lv" and x.a[1][0] == "i" and x not in m:
                V = untouched_ahead(R, x.a[0], x.a[1][1])
                if V is not None:
                    m[x] = proj(V, x.a[1])
    if m:
        s.facts = {subst(f, m): b for f, b in s.facts.items()}
        s.rng = {subst(f, m): b for f, b in s.rng.items()}
        s.rel = {(subst(a, m), subst(b, m)): v for (a, b), v in s.rel.items()}
    for f, b in list(s.facts.items()):
        if f.op != "forall":
            q = s.copy()
            del q.facts[f]
            if q.decide(f) is (not b):
                return True, "what holds for all elements rules it out"
    conds = [x[1] for x in atoms_of(s)] + [x for k in s.rel for x in k]
    if not known(*ops) or not known(*[f for f in s.facts]) or not known(*conds):
        return None, "the way to it is not understood"
    for f in [f for f in s.facts if f.op != "forall"] + [x for k in s.rel for x in k] + ops:
        for x in subterms(f):
            if x.op == "lv":
                li = loop_of(R, x)
                if li is None or li.kind is not x:
                    return None, "it depends on a value carried through a loop"
    # private fields: only what constructors put there
    mut = getattr(ctx, "_mutf", None)
    if mut is None:
        mut = ctx._mutf = mutable_fields(ctx.F)
    fields = {}
    for t in conds + ops:
        for x in subterms(t):
            k = FIELDOF.get(x)
            if k is not None and not public_field(ctx.F, k):
                fields[x] = k
    ats = atoms_of(s)
    for x, k in fields.items():
        mine = [a for a in ats if contains(a[1], lambda y: y is x)]
        if not mine:
            continue
        vs = made_values(ctx, k)
        if not vs:
            continue
        can = [v for v, sp, st in vs if can_hold(mine, {x: v}, st)]
        if not can and k in mut:
            can = written_values(ctx, k, x, mine)
            if not can:
                return None, "it depends on a field that changes"
        if not can:
            return True, "no constructor gives the field such a value"
        if not all(known(v) for v in can):
            return None, "it depends on a field whose values are not understood"
    return False, "the path is feasible"


def flat_terms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            for z in flat_terms(y):
                yield z


def poisoned_before(R):
    """nodes -> locks that were found poisoned on the way there"""
    held = {R.entry: frozenset()}
    work = [R.entry]
    while work:
        n = work.pop()
        for e, m in R.G.out.get(n, []):
            h = held[n]
            if e is not None and e.kind == "poisoned":
                h = h | {e.cell}
            o = held.get(m)
            x = h if o is None else o & h
            if o is None or x != o:
                held[m] = x
                work.append(m)
    return held


def shared(cell):
    """the lock is one that users of the crate can hold while they panic"""
    return contains(cell, lambda x: x.op == "sym" and str(x.a[0]).startswith(("static:", "lazy:", "tls:")))


WHY = {"bounds": "an index may be out of range", "slice-range": "a range may be out of order or out of range", "char-boundary": "a string may be cut inside a character",
       "option::expect_failed": "expect() on None", "option::unwrap_failed": "unwrap() on None", "unwrap_failed::unwrap_failed_inner": "unwrap() on Err", "result::unwrap_failed": "unwrap() on Err",
       "panicking::panic": "an assertion", "panicking::panic_fmt": "a panic", "panicking::assert_failed": "an assertion", "div": "division by zero", "rem": "remainder by zero",
       "no duration": "no duration has this length"}


def c28(ctx, chk):
    chk.rule("for every public function and trait implementation: no panic event (failed assertion, unwrap, index, range or character boundary, comparator) on a feasible path of the event graph derived from MIR; "
             "paths are refuted with the ranges and list lengths that all constructors establish and with what earlier loops have established about the elements they kept")
    n = gath = disp = 0
    for r in ctx.F.roots:
        if not (r.get("inst") and ctx.F.body(r["inst"])) or not r.get("pub") or r.get("derived"):
            continue
        name = r["nice"].replace("prometrics::", "")
        if any(r["name"] == a and (r.get("selfpath") or "").endswith("::" + b) for a, b in REFUSALS):
            continue
        chk.scope()
        with invariants(ctx):
            R = ctx.run(r, key="inv", poison=True)
            n += 1
            if r["name"] == "gather":
                gath += 1
            if r["name"] == "fmt" and (r.get("trait") or "").endswith("Display"):
                disp += 1
                fails = [v for k, v, s in R.outs if k == "ret" and is_err(v) and s.feasible()]
                chk.expect("%s fails only when its sink does" % name, not fails, "an error is returned though nothing failed" if fails else "", r["span"], closed=all(known(v) for v in fails))
            pb = None
            count = 0
            for nd, e, m in edges(R, lambda e: e.kind in ("panic", "boundary?")):
                if e.kind == "boundary?":
                    chk.unk("%s: %s" % (name, e.d.get("why", "a string is cut at a place that is not understood")), where=where(e))
                    continue
                if e.why in ("overflow", "overflow-neg"):
                    continue
                pb = pb or poisoned_before(R)
                p = pb.get(nd)
                if p and not any(shared(c) for c in p):
                    continue    # a lock nobody can panic under (C23) is never poisoned
                count += 1
                v, why = verdict(ctx, R, e)
                what = "%s: %s does not happen" % (name, WHY.get(e.why, e.why))
                if v is None:
                    chk.unk(what, why, where(e))
                elif v:
                    chk.ok(what, why, where(e))
                else:
                    chk.bad(what, "panic reachable at %s%s" % (where(e), "" if not e.d.get("ops") else " with " + ", ".join(show(x)[:80] for x in flat_terms(e.d["ops"]))), where(e))
            for u in R.I.unknowns[:3]:
                chk.unk("%s: all of it is understood" % name, "%s in %s" % (u[0], u[1]))
            if not count:
                chk.ok("%s never panics" % name, "no panic on any path", r["span"])
    chk.scope()
    floor(chk, "public functions", n, 100)
    floor(chk, "gathering functions", gath, 1)
    floor(chk, "rendering functions", disp, 14)


CHECKS = {"C28": c28}
