"""Closing of loops: what a loop has computed when it is left."""
from .term import *
from .state import *

FOLDS = ("comp", "catc", "sum", "fsum", "last", "psum", "pfsum", "forall", "fold")


def height(t, memo={}):
    """the largest bound variable in t"""
    if isinstance(t, tuple):
        return max([height(x) for x in t] or [0])
    if not isinstance(t, T):
        return 0
    r = memo.get(t)
    if r is None:
        if t.op == "bv":
            r = t.a[0]
        else:
            r = max([height(x) for x in t.a] or [0])
        memo[t] = r
    return r


def pathdiff(h, b, drop=None, keep=False):
    """the path condition that b adds to h"""
    out = []
    for k, v in b.rng.items():
        if h.rng.get(k) != v and (k is not drop or keep):
            out.append(("rng", k, v))
    for k, v in b.facts.items():
        if h.facts.get(k) != v:
            out.append(("fact", k, v))
    for k, v in b.rel.items():
        if h.rel.get(k) != v:
            out.append(("rel", "?", k[0], k[1], v))
    for k, v in b.lin.items():
        if h.lin.get(k) != v and not (drop is not None and any(x is drop for x, _ in k)):
            out.append(("lin", k, v))
    out.sort(key=lambda c: (c[0], c[1].id if isinstance(c[1], T) else 0, c[2].id if isinstance(c[2], T) else 0, str(c[-1])))
    return tuple(out)


def casediff(li, st, idx):
    """the condition of one kind of repetition; its indices matter when the kinds differ in them"""
    return pathdiff(li.headst, st, idx, idx is not None and len({b.rng.get(idx) for b in li.backst}) > 1)


def upper(exit_st, backs, head, idx):
    """t such that leaving the loop means idx >= t while every repetition had idx < t; t is loop-invariant"""
    cands = []
    r = exit_st.rng.get(idx)
    hr = head.range(idx)
    if r and (not hr or r[0][0] > hr[0][0]):
        cands.append(((), r[0][0]))
    for ps, (lo, hi) in exit_st.lin.items():
        for x, k in ps:
            if x is idx and abs(k) == 1:
                if head.lin.get(ps) == (lo, hi):
                    continue
                rest = tuple((y, -c * k) for y, c in ps if y is not idx)
                b = lo if k == 1 else -hi
                if b > -BIG and b < BIG:
                    cands.append((rest, b))
    for rest, c in cands:
        # t = rest + c ; repetitions need idx - rest <= c - 1
        ok = True
        for b in backs:
            q = [(idx, 1)] + [(y, -k) for y, k in rest]
            q = tuple(sorted(q, key=lambda p: p[0].id))
            lo, hi = b.sumrange(q)
            if hi > c - 1:
                ok = False
        if not ok:
            continue
        t = integer(c, "usize")
        for y, k in rest:
            t = iadd(t, imul(y, integer(k, "usize"), "usize"), "usize")
        return t
    return None


def inv(t, lid):
    """does t avoid everything the loop changes?"""
    return not contains(t, lambda x: x.op == "lv" and x.a[0] is lid)


def pushes(v, lv):
    xs = []
    while v.op == "push":
        xs.append(v.a[1])
        v = v.a[0]
    if v is lv:
        return tuple(reversed(xs))
    return None


def base(v):
    while v.op in ("append", "push"):
        v = v.a[0]
    return v


def rebase(v, new):
    from .models import vappend, vpush
    if v.op == "append":
        return vappend(rebase(v.a[0], new), v.a[1])
    if v.op == "push":
        return vpush(rebase(v.a[0], new), v.a[1])
    return new


def merge_cases(cs):
    """drop cases without effect; merge equal ones"""
    vals = {}
    for c, x in cs:
        vals.setdefault(x, []).append(c)
    if len(vals) == 1:
        x = list(vals)[0]
        common = set(vals[x][0])
        for c in vals[x][1:]:
            common &= set(c)
        return ((tuple(c for c in vals[x][0] if c in common), x),)
    out = []
    for c, x in cs:
        if (c, x) not in out:
            out.append((c, x))
    return tuple(out)


def accumulate(I, li, w, lv, idx, i0, t, sub, bv):
    """the value of location w after repetitions idx = i0 .. t-1, or None"""
    init = li.init[w]
    cases = []
    kinds = set()
    from . import models
    for b, st in zip(li.backs, li.backst):
        if w not in b:
            return None
        v = b[w]
        cond = casediff(li, st, idx)
        if v is lv:
            cases.append((cond, None))
            continue
        p = pushes(v, lv)
        if p is not None:
            kinds.add("comp")
            cases.append((cond, p))
        elif base(v) is lv:
            kinds.add("comp")
            cases.append((cond, (mk("seq", rebase(v, mk("list"))),)))
        elif v.op == "cat" and v.a[0] is lv:
            kinds.add("catc")
            cases.append((cond, models.cat(*v.a[1:])))
        elif v.op == "fadd" and lv in v.a:
            x = v.a[1] if v.a[0] is lv else v.a[0]
            kinds.add("fsum")
            cases.append((cond, x))
        elif v.op == "lin" and any(x is lv and k == 1 for x, k in v.a[2]):
            kinds.add("sum")
            cases.append((cond, isub(v, lv, "i128")))
        elif not contains(v, lambda x: x is lv):
            kinds.add("last")
            cases.append((cond, v))
        else:
            return None
    if not kinds:
        return init
    if len(kinds) > 1:
        return None
    kind = kinds.pop()
    zero = {"comp": (), "catc": string(""), "fsum": flt(0), "sum": integer(0, "i128"), "last": mk("keep")}[kind]
    cases = [(c, zero if x is None else x) for c, x in cases]
    return kind, init, cases, zero


def close_case(x, sub):
    if isinstance(x, tuple):
        return tuple(close_case(y, sub) for y in x)
    return sub(x) if isinstance(x, T) else x


def build(kind, i0, t, init, cases, zero, bv, ty=None):
    cs = [(c, x) for c, x in merge_cases(cases)]
    if kind in ("comp", "catc"):
        if all(x == zero for _, x in cs):
            return init
    if kind in ("fsum", "sum") and all(x is zero for _, x in cs):
        return init
    cs = tuple(cs)
    if kind == "comp" and init is not mk("list"):
        from .models import vappend
        return vappend(init, build(kind, i0, t, mk("list"), cases, zero, bv))
    if kind == "catc" and init is not string(""):
        from .models import cat
        return cat(init, build(kind, i0, t, string(""), cases, zero, bv))
    if kind == "comp":
        # copying every element of V in order gives V
        if i0.op == "int" and i0.a[0] == 0 and len(cs) == 1 and len(cs[0][1]) == 1:
            x = cs[0][1][0]
            if x.op == "proj" and x.a[1] == ("i", bv) and seqlen(x.a[0]) is t and not contains(x.a[0], lambda y: y is bv):
                return x.a[0]
    return mk(kind, i0, t, init, cs, bv)


def finish(I, li, e, idx, eqs, lvof):
    kind, val, s = e
    li.exitdom.append((s.node, None))
    if idx is None:
        return search_exit(I, li, e, idx)
    t = upper(s, li.backst, li.headst, idx) if li.backst else None
    if t is not None and not inv(t, li.id):
        t = None
    w0 = next(w for w in li.W if lvof(w) is idx)
    i0 = li.init[w0]
    if t is None:
        return search_exit(I, li, e, idx)
    li.dom = (i0, t)
    li.exitdom[-1] = (s.node, (i0, t))
    accs = {}
    for w in li.W:
        lv = lvof(w)
        if w == w0 or w in eqs:
            continue
        accs[w] = accumulate(I, li, w, lv, idx, i0, t, None, None)
    h = 0
    for a in accs.values():
        if isinstance(a, tuple):
            h = max(h, height(a[2]))
    for st in li.backst:
        h = max(h, max([height(c[1:]) for c in casediff(li, st, idx)] or [0]))
    bv = mk("bv", h + 1)
    # values inside one repetition: the index is the bound variable, running sums are prefix sums
    m = {idx: bv}
    for w, a in accs.items():
        if isinstance(a, tuple) and a[0] in ("sum", "fsum"):
            k, init, cases, zero = a
            if all(inv_but(x, idx, li.id) for c, x in cases):
                cs = close_case(tuple(merge_cases(cases)), lambda x: subst(x, {idx: bv}))
                m[lvof(w)] = mk("p" + k, i0, bv, init, cs)
    memo = {}
    close = lambda x: subst(x, m, memo)
    sigma = {}
    lo_ok = s.decide(cmp_le("i", i0, t)) is True
    if lo_ok:
        sigma[idx] = t
    for w, a in accs.items():
        lv = lvof(w)
        if a is None:
            continue
        if isinstance(a, T):
            sigma[lv] = a
            continue
        k, init, cases, zero = a
        cases = [(close_case(c, close), close_case(x, close)) for c, x in cases]
        if any(contains_any(x, li.id) for _, x in cases):
            # depends on another value carried through the loop in an unrecognised way
            if k not in ("comp", "catc"):
                continue
        sigma[lv] = build(k, i0, t, init, cases, zero, bv)
    # the last value of a running sum
    for w, a in accs.items():
        if isinstance(a, tuple) and a[0] == "last":
            for w2, a2 in accs.items():
                if isinstance(a2, tuple) and a2[0] in ("sum", "fsum") and w2 != w:
                    if all(b.get(w) is b.get(w2) for b in li.backs) and li.init[w] is li.init[w2]:
                        if lvof(w2) in sigma:
                            sigma[lvof(w)] = sigma[lvof(w2)]
    li.exitsig.append(sigma)
    apply_subst(s, sigma)
    memo2 = {}
    val2 = subst(val, sigma, memo2) if isinstance(val, T) else val
    cs = []
    for st in li.backst:
        c = close_case(casediff(li, st, idx), close)
        if c not in cs:
            cs.append(c)
    if cs and all(cs):
        s.facts[mk("forall", i0, t, tuple(cs), bv)] = True
    return (kind, val2, s)


def contains_any(x, lid):
    if isinstance(x, tuple):
        return any(contains_any(y, lid) for y in x)
    return isinstance(x, T) and contains(x, lambda y: y.op == "lv" and y.a[0] is lid)


def inv_but(x, idx, lid):
    return not contains(x, lambda y: y.op == "lv" and y.a[0] is lid and y is not idx)


def apply_subst(s, sigma):
    if not sigma:
        return
    memo = {}
    g = lambda x: subst(x, sigma, memo)
    s.mem = {g(r): g(v) for r, v in s.mem.items()}
    s.facts = {g(k): v for k, v in s.facts.items()}
    s.facts = {k: v for k, v in s.facts.items() if k.op != "int"}
    rng = {}
    for k, v in s.rng.items():
        k = g(k)
        if not is_const(k):
            rng[k] = iset_and(rng[k], v) or v if k in rng else v
    s.rng = rng
    s.rel = {(g(a), g(b)): v for (a, b), v in s.rel.items()}
    lin = {}
    for ps, b in s.lin.items():
        if any(x in sigma for x, _ in ps):
            continue
        lin[ps] = b
    s.lin = lin


def single_atom(conds):
    return conds[0] if len(conds) == 1 else None


def stringy(x):
    if isinstance(x, tuple):
        return any(stringy(y) for y in x)
    return isinstance(x, T) and contains(x, lambda y: y.op in ("chars", "bytes", "starts_with", "strfn", "substr"))


def search_exit(I, li, e, idx):
    r = search_exit1(I, li, e, idx)
    if r is e and stringy(tuple(pathdiff(li.headst, b, None) for b in li.backst)):
        f = passed_fact(li, idx)
        if f is not None:
            e[2].facts[f] = True
        else:
            # what the repetitions found out about strings is forgotten
            e[2].facts[mk("lossy", "str")] = True
    return r


def passed_fact(li, idx):
    """what holds for the indices that a loop has passed when it is left early"""
    if idx is None:
        return None
    w0 = [w for w in li.W if mk("lv", li.id, w[0], w[1]) is idx]
    if not w0 or any(b.get(w0[0]) is not iadd(idx, integer(1, "usize"), "usize") for b in li.backs):
        return None
    cases = [nodom(casediff(li, b, idx), idx) for b in li.backst]
    if not cases or not all(cases) or any(contains_any(x, li.id) for c in cases for x in subst_all(c, {idx: mk("bv", 0)})):
        return None
    bv = mk("bv", max(height(c[1:]) for cs in cases for c in cs) + 1)
    m = {idx: bv}
    out = []
    for c in cases:
        c = close_case(c, lambda x: subst(x, m))
        if c not in out:
            out.append(c)
    return mk("forall", li.init[w0[0]], idx, tuple(out), bv)


def subst_all(c, m):
    return tuple(close_case(x, lambda y: subst(y, m)) for x in c)


def search_exit1(I, li, e, idx):
    """leaving early: when every repetition means 'not p(element)' and this exit means 'p(element)', the index is the first such element"""
    kind, val, s = e
    if idx is None or not li.backst:
        return e
    w0 = [w for w in li.W if mk("lv", li.id, w[0], w[1]) is idx]
    if not w0 or not (li.init[w0[0]].op == "int" and li.init[w0[0]].a[0] == 0):
        return e
    ec = single_atom(nodom(pathdiff(li.headst, s, None), idx))
    bcs = {single_atom(nodom(pathdiff(li.headst, b, None), idx)) for b in li.backst}
    if ec is None or len(bcs) != 1:
        return e
    bc = bcs.pop()
    if bc is None or bc[0] != ec[0]:
        return e
    if ec[0] == "rel":
        a, b, m = ec[2], ec[3], ec[4]
        if (bc[2], bc[3]) != (a, b):
            return e
        f = {LT: ("lt", a, b), LT | EQ: ("le", a, b), GT: ("lt", b, a), GT | EQ: ("le", b, a), EQ: ("eq", a, b)}.get(m & (LT | EQ | GT))
        if f is None or (bc[4] & m & (LT | EQ | GT)):
            return e
        p = mk(f[0], "f", f[1], f[2])
    elif ec[0] == "fact" and ec[1] is bc[1] and ec[2] != bc[2]:
        p = ec[1] if ec[2] else lnot(ec[1])
    else:
        return e
    vs = set()
    for x in subterms(p):
        if x.op == "proj" and x.a[1] == ("i", idx):
            vs.add(x.a[0])
    # pointers to elements
    if len(vs) != 1:
        return e
    V = vs.pop()
    if not inv(V, li.id):
        return e
    pe = subst(p, lambda x: mk("elt") if x.op == "proj" and x.a[1] == ("i", idx) and x.a[0] is V else None)
    if contains_any(pe, li.id):
        return e
    f = mk("first", pe, V)
    TYOF[f] = "usize"
    sigma = {idx: f}
    lins = [(ps, b) for ps, b in s.lin.items()]
    apply_subst(s, sigma)
    s.facts[mk("bsfound", f)] = True
    s.assume(cmp_lt("i", f, seqlen(V)), True)
    return (kind, subst(val, sigma) if isinstance(val, T) else val, s)


def nodom(conds, idx):
    out = []
    for c in conds:
        if c[0] == "lin" and any(x is idx for x, _ in c[1]):
            continue
        if c[0] == "rng" and (c[1] is idx or c[1].op == "len"):
            continue
        out.append(c)
    # the ranges that a relation between floats implies
    if len(out) > 1:
        r = [c for c in out if c[0] == "rel"]
        if len(r) == 1 and all(c is r[0] or c[0] == "rng" and (c[1] is r[0][2] or c[1] is r[0][3]) for c in out):
            return tuple(r)
    return tuple(out)


def prove_lt(st, a, b):
    if st.decide(cmp_lt("i", a, b)) is True:
        return True
    if a.op == "min":
        return any(prove_lt(st, x, b) for x in a.a)
    if a.op == "f2i":
        # the least of several floats, one of them a count that is no length beyond 2^53
        x = a.a[0]
        while x.op in ("floor", "trunc"):
            x = x.a[0]
        if x.op == "fmin":
            return any(y.op == "i2f" and st.decide(cmp_lt("i", y.a[0], integer(0, "usize"))) is False and prove_lt(st, y.a[0], b) for y in x.a)
        return False
    if a.op == "lin":
        # a = x - c with x <= b
        pa = a
        d = isub(b, a, "i128")
        c, ps = lin_parts(d)
        lo, hi = st.sumrange(ps)
        return lo + c > 0
    return False
