"""C01-C04: the numbers that handles hold."""
from sa.lib import *


# (type, method) -> what one call adds to each getter; None: any value (checked elsewhere)
ONE = flt(1)
TABLE = [
    ("Counter", "increment", {"value": {}}, 1),
    ("Counter", "add", {"value": "+arg"}, None),
    ("Counter", "add_u64", {"value": "+arg"}, None),
    ("Gauge", "increment", {"value": {}}, 1),
    ("Gauge", "add", {"value": "+arg"}, None),
    ("Gauge", "decrement", {"value": {}}, -1),
    ("Gauge", "subtract", {"value": "-arg"}, None),
    ("Gauge", "set", {"value": "=arg"}, None),
    ("Histogram", "observe", {"sum": "+arg", "count": {}}, 1),
    ("Summary", "observe", {"sum": "+arg", "count": {}}, 1),
]
GETTERS = {"Counter": ["value"], "Gauge": ["value"], "Histogram": ["count", "sum"], "Summary": ["count", "sum"]}


def getter(ctx, ty, name):
    """the value a getter returns, over the contents of atomic cells"""
    R = ctx.run(ctx.root(name, ty, pub=True))
    return R


def cells_of_steps(li, v):
    """does every round add what a shared cell holds to it?"""
    nv = [b.get((v.a[1], v.a[2])) for b in li.backs]
    return bool(nv) and all(x is not None and known(x) and contains(x, lambda t: t is v) and cells_of(x) for x in nv)


def leftover(q, b, ix):
    """the bound says that the index has not reached the number of elements"""
    return len(q) == 2 and any(t is ix and c == -1 for t, c in q) and any(t.op == "len" and c == 1 for t, c in q) and b[0] >= 1


def getter_value(ctx, chk, ty, name):
    R = getter(ctx, ty, name)
    if len(R.outs) != 1 or R.outs[0][0] != "ret" or not closed(R.outs[0][1]):
        for k, v, s in R.outs:
            for li in live_loops(R):
                if k == "ret" and v.op == "lv" and v.a[0] == li.id and li.kind.op == "lv" and cells_of_steps(li, v):
                    # the sum so far is returned: the loop has to be at its end
                    for nd, e in exits_of(R, li):
                        if any(leftover(q, b, li.kind) for q, b in e.lin.items()) and e.feasible():
                            chk.bad("%s::%s adds up all that was recorded" % (ty, name), "the loop may end before the last element", li.span)
                            return None
        chk.unk("%s::%s" % (ty, name), "the value read has several cases")
        return None
    v = R.outs[0][1]
    if not cells_of(v):
        chk.bad("%s::%s reads no shared cell" % (ty, name), show(v)[:200])
        return None
    return v


def mutators(ctx):
    """every public function with a handle that can reach an atomic cell of it"""
    out = []
    for ty in GETTERS:
        for r in ctx.F.roots:
            if (r.get("selfpath") or "").split("::")[-1] == ty and r.get("pub") and r.get("inst") and not r.get("derived") and ctx.F.body(r["inst"]):
                out.append((ty, r))
    return out


# ---------------------------------------------------------------------------------------------- C01
def c01(ctx, chk):
    chk.rule("Every write to a shared cell that depends on a value read from a shared cell is one atomic read-modify-write: "
             "fetch-op, or compare-exchange whose expected value is the value the new one was computed from, "
             "and no path returns after a failed compare-exchange without a successful one (dataflow over all public methods of the four handle types).")
    n = 0
    for ty, r in mutators(ctx):
        R = ctx.run(r)
        n += atomic_updates(R, chk, "%s::%s" % (ty, r["name"]))
        # values moved with two separate events (load + store of the same cell is covered above); AtomicImmut is C10
    floor(chk, "C01 atomic writes of public methods", n, 10)
    for ty in GETTERS:
        for g in GETTERS[ty]:
            getter_value(ctx, chk, ty, g)
    # what the tabled updates really do to the cells the getters read
    for ty, m, spec, k in TABLE:
        r = ctx.root(m, ty, pub=True)
        R = ctx.run(r)
        for g in spec:
            v = getter_value(ctx, chk, ty, g)
            if v is None:
                continue
            cs = cells_of(v)
            touched = {e.cell for a, e, b in edges(R, lambda e: e.kind == "atomic" and e.op in ("store", "rmw", "swap", "cas"))}
            key = "%s::%s updates what %s() reads" % (ty, m, g)
            if touched & cs:
                chk.ok(key)
            elif any(match_index(p, c, x.a[4]) for x in subterms(v) if x.op == "sum" for p in cs for c in touched):
                chk.ok(key)
            elif any(not closed(c) for c in touched):
                chk.unk(key, "cells not resolved")
            else:
                chk.bad(key, "no cell read by %s() is written" % g, r["span"])


def atomic_updates(R, chk, name):
    """no write to a shared cell loses what another thread wrote between it and the read it depends on; -> number of writes"""
    n = 0
    cells = edges(R, lambda e: e.kind == "atomic" and e.op in ("store", "rmw", "swap", "cas"))
    for a, e, b in cells:
        key = "%s %s" % (name, e.op)
        n += 1
        dep = loads(e.new)
        if e.op == "store":
            if dep:
                chk.bad(key + " of a value computed from a load", "cell %s := %s: an update between the load and the store is lost" % (show(e.cell)[:80], show(e.new)[:160]), where(e))
            else:
                chk.ok(key, "", where(e))
        elif e.op == "swap":
            if dep - {e.d.get("old")}:
                chk.bad(key + " of a value computed from a load", show(e.new)[:160], where(e))
            else:
                chk.ok(key, "", where(e))
        elif e.op == "rmw":
            old = e.d.get("old")
            if dep - {old}:
                chk.bad(key + " by an amount computed from a load", show(e.new)[:160], where(e))
            else:
                chk.ok(key, "", where(e))
        else:
            # the new value may depend on shared cells only through the expected value
            t = subst(e.new, {e.exp: mk("expected")})
            extra = loads(t)
            if extra:
                chk.bad(key + " whose new value is not computed from the expected value", "expected %s new %s" % (show(e.exp)[:80], show(e.new)[:160]), where(e))
            elif not expected_read(R, e):
                chk.unk(key, "the expected value %s was not traced to a load of the cell" % show(e.exp)[:80], where(e))
            else:
                chk.ok(key, "", where(e))
    # a failed exchange is retried
    fails = edges(R, lambda e: e.kind == "atomic" and e.op == "casfail")
    goals = {s.node for k, v, s in R.outs if k == "ret"}
    for a, e, b in fails:
        cell = e.cell
        lost = reaches(R, [b], goals, lambda x: x.kind == "atomic" and x.op == "cas" and x.cell is cell)
        key = "%s failed exchange is retried" % name
        if lost:
            chk.bad(key, "a path returns after a failed compare-exchange of %s without applying the update" % show(cell)[:80], where(e))
        else:
            chk.ok(key, "", where(e))
    return n


def loads(t):
    """the reads of shared cells and loop variables a value is computed from (which cell is read is another matter)"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T):
            st += x if isinstance(x, tuple) else ()
        elif x not in seen:
            seen.add(x)
            if x.op in ("aload", "casfail", "lv"):
                out.add(x)
            else:
                st += x.a
    return out


def carried(R, x):
    """the values a loop variable can have been given"""
    src = []
    for li in R.I.loops.get(x.a[0], []):
        for w in li.W:
            if mk("lv", li.id, w[0], w[1]) is x:
                src += [li.init[w]] + [b.get(w) for b in li.backs]
    return src


def expected_read(R, e):
    x = e.exp
    if x.op in ("aload", "casfail") and x.a[0] is e.cell:
        return True
    if x.op == "lv":
        # carried round a retry loop: every value it is given is a load (or the value seen by a failed exchange) of this cell
        src = carried(R, x)
        return src and all(s is not None and (s is x or s.op in ("aload", "casfail") and s.a[0] is e.cell) for s in src)
    return False


def floor(chk, what, n, least):
    if n < least and any(o[1] == "unknown" for o in chk.ob):
        # what is missing may be among what was not understood
        chk.unk("instances: " + what, "%d found" % n)
    elif n < least:
        chk.bad("instances: " + what, "%d found, at least %d expected" % (n, least))
    else:
        chk.ok("instances: " + what, "%d" % n)


# ---------------------------------------------------------------------------------------------- C02
def nonneg(t, st):
    """t >= 0 and not NaN"""
    if t.op in ("f64",):
        v = ffrom(t.a[0])
        return v >= 0
    r = st.range_f(t)
    if r and all(a != NAN_ORD and a >= 0 for a, b in r):
        return True
    if t.op == "fadd" or t.op == "fmul" or t.op == "fdiv":
        return nonneg(t.a[0], st) and nonneg(t.a[1], st) and (t.op != "fdiv" or t.a[1].op == "f64" and 0 < ffrom(t.a[1].a[0]) < float("inf"))
    if t.op == "i2f":
        r = st.range(t.a[0])
        return bool(r) and r[0][0] >= 0
    if t.op in ("f2i",):
        return t.a[1][0] == "u"
    if t.op == "max":
        return nonneg(t.a[0], st) or nonneg(t.a[1], st)
    r = st.range(t)
    return bool(r) and r[0][0] >= 0 and r[0][0] > -BIG


def fsummands(t):
    if t.op == "fadd":
        return fsummands(t.a[0]) + fsummands(t.a[1])
    return [t]


def rising(t):
    """does t never fall when the cells it is read from rise?  None: not known"""
    if t.op in ("aload", "f64", "int"):
        return True
    if t.op in ("frombits", "i2f", "f2i"):
        return rising(t.a[0])
    if t.op == "fadd" or t.op in ("max", "min"):
        return every([rising(x) for x in t.a if isinstance(x, T)])
    if t.op == "lin":
        c, ps = lin_parts(t)
        return every([rising(x) if k > 0 else False if rising(x) else None for x, k in ps])
    if t.op == "cast":
        f, to = [x for x in t.a if isinstance(x, str)]
        wide = to[0] == "u" and INTW.get(to, 0) >= INTW.get(f, 99) or to[0] == "i" and INTW.get(to, 0) > INTW.get(f, 99)
        return rising(t.a[0]) if wide and f[0] == "u" else False if rising(t.a[0]) else None
    if t.op == "sum":
        return every([rising(c[1]) if not c[0] else None for x in t.a if isinstance(x, tuple) for c in x])
    if t.op in ("fmul", "fdiv") and t.a[1].op == "f64":
        k = ffrom(t.a[1].a[0])
        return rising(t.a[0]) if k > 0 else None
    if t.op in ("fsub", "fneg", "irem", "frem") and rising(t.a[0]):
        return False
    return None


INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def every(rs):
    return False if False in rs else None if None in rs else True


def c02(ctx, chk):
    chk.rule("On every path of every public function, a write to a cell that Counter::value, Histogram::count, Summary::count or Bucket::count reads adds an amount whose sign domain excludes negative values and NaN; "
             "the values read are monotone functions of those cells; Counter::add returns Err(InvalidInput) without any write exactly on the paths where the amount is negative or NaN.")
    mono = {"Counter": ["value"], "Histogram": ["count"], "Summary": ["count"]}
    n = 0
    for ty, r in mutators(ctx):
        if ty not in mono:
            continue
        R = ctx.run(r)
        cs = set()
        for g in mono[ty]:
            v = getter_value(ctx, chk, ty, g)
            if v is not None:
                cs |= cells_of(v)
        if ty == "Histogram":
            bc = bucket_count_cells(R)
            cs |= bc
        for a, e, b in edges(R, lambda e: e.kind == "atomic" and e.op in ("store", "rmw", "swap", "cas") and e.cell in cs):
            n += 1
            grows(chk, "%s::%s %s" % (ty, r["name"], e.op), e, R)
    for ty, g in (("Counter", "value"), ("Histogram", "count"), ("Summary", "count"), ("Bucket", "count")):
        v = getter_value(ctx, chk, ty, g)
        if v is not None:
            up = rising(v)
            chk.expect("%s::%s rises with its cells" % (ty, g), up, "the value read, %s, can fall while the cells rise" % show(v)[:120], ctx.root(g, ty, pub=True)["span"], closed=up is not None)
    floor(chk, "C02 writes to monotonic cells", n, 8)
    r = ctx.root("add", "Counter", pub=True)
    R = ctx.run(r)
    ps = paths(R, skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
    if ps is None:
        chk.unk("Counter::add paths")
        return
    for evs, i in ps:
        k, v, s = R.outs[i]
        rng = s.range_f(R.args[1])
        neg = iset_and(rng, ((-FINF, -1), (NAN_ORD, NAN_ORD)))
        pos = iset_and(rng, ((0, FINF),))
        writes = [e for e in evs if e.kind == "atomic" and e.op in ("store", "rmw", "swap", "cas")]
        if k != "ret":
            continue
        if is_err(v):
            chk.expect("Counter::add rejects without changing anything", not writes, "a path that returns Err has written %s" % (show(writes[0].cell) if writes else ""), where(writes[0]) if writes else "")
            chk.expect("Counter::add rejects with InvalidInput", err_kind(ctx, v) == "InvalidInput", str(err_kind(ctx, v)), closed=closed(v))
            chk.expect("Counter::add accepts non-negative amounts", not pos, "Err although the amount may be %s" % ranges(pos), r["span"])
        elif is_ok(v):
            chk.expect("Counter::add rejects negative amounts and NaN", not neg, "Ok although the amount may be %s" % ranges(neg), r["span"])
        else:
            chk.unk("Counter::add outcome", show(v)[:100])


def ranges(rs):
    out = []
    for a, b in rs:
        out.append("NaN" if a == NAN_ORD else "%r..%r" % (unford(a), unford(b)))
    return " ".join(out)


def bucket_count_cells(R):
    """cells inside elements of a sequence: the buckets' counters"""
    out = set()
    for a, e, b in edges(R, lambda e: e.kind == "atomic"):
        if e.cell.op == "ref" and any(c[0] == "i" for c in e.cell.a[1]):
            out.add(e.cell)
    return out


def grows(chk, key, e, R=None):
    st = e.st
    if e.op == "rmw":
        old = e.d.get("old")
        new = e.new
        if old is not None and new.op == "lin":
            d = isub(new, old, "i128")
            if contains(d, lambda x: x is old):
                chk.unk(key, "amount %s" % show(d)[:120], where(e))
                return
            if nonneg(d, st) or d.op == "int" and d.a[0] >= 0:
                chk.ok(key, "amount %s" % show(d)[:100], where(e))
            else:
                chk.expect(key + " adds a non-negative amount", False, "amount %s" % show(d)[:160], where(e), closed(d))
            return
        if old is not None and new.op == "max" and old in new.a:
            chk.ok(key, "maximum", where(e))
            return
        chk.expect(key + " adds a non-negative amount", False, "new value %s" % show(new)[:160], where(e), closed(new) and new.op in ("int", "f64"))
        return
    if e.op == "cas":
        new = e.new
        if new.op == "tobits":
            parts = fsummands(new.a[0])
            base = mk("frombits", e.exp)
            if base in parts:
                parts = list(parts)
                parts.remove(base)
                badp = [p for p in parts if not nonneg(p, st)]
                if not badp:
                    chk.ok(key, "adds %s" % " + ".join(show(p)[:60] for p in parts), where(e))
                else:
                    chk.expect(key + " adds a non-negative amount", False, "adds %s, which may be negative or NaN here" % show(badp[0])[:160], where(e), closed(badp[0]))
                return
            if new is mk("tobits", mk("frombits", e.exp)) or new is e.exp:
                chk.ok(key, "unchanged", where(e))
                return
        elif new.op == "lin":
            d = isub(new, e.exp, "i128")
            if not contains(d, lambda x: x is e.exp) and nonneg(d, st):
                chk.ok(key, "adds %s" % show(d)[:60], where(e))
                return
        chk.expect(key + " adds a non-negative amount", False, "new value %s" % show(new)[:160], where(e), known(new))
        return
    # stores and swaps
    chk.expect(key + " adds a non-negative amount", False, "overwrites the cell with %s" % show(e.new)[:160], where(e), known(e.new))


# ---------------------------------------------------------------------------------------------- C03
def c03(ctx, chk):
    chk.rule("For every path of an update that returns, the getter's value term over the cells' contents after the path minus the term before it equals the documented amount "
             "(exact linear arithmetic; the path's facts decide when a conversion to an integer is exact); every cell a getter reads is covered.")
    for ty, m, spec, k in TABLE:
        r = ctx.root(m, ty, pub=True)
        R = ctx.run(r)
        A1 = R.args[1] if len(R.args) > 1 else None
        ps = paths(R, skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
        if ps is None:
            chk.unk("%s::%s" % (ty, m), "too many paths")
            continue
        done = 0
        for g, what in spec.items():
            v = getter_value(ctx, chk, ty, g)
            if v is None:
                continue
            for evs, i in ps:
                kk, val, st = R.outs[i]
                if kk != "ret":
                    continue
                if is_err(val):
                    continue
                if infeasible(ctx, st):
                    continue
                done += 1
                key = "%s::%s changes %s() by %s" % (ty, m, g, what if isinstance(what, str) else k)
                # states along the path know more than the joined exit state
                eff = {}
                stx = [e.st for e in evs] + [st]
                cur = seq_effect(evs)
                after = apply_cells(v, cur)
                before = apply_cells(v, {})
                if not known(after):
                    chk.unk(key, show(after)[:200])
                    continue
                best = None
                for s in reversed(stx):
                    env = zero_env(s, A1)
                    try:
                        if isinstance(what, str) and what[0] == "=":
                            d = sub(lincomb(after, env, s), lincomb(A1, env, s))
                        else:
                            d = sub(lincomb(after, env, s), lincomb(before, env, s))
                            want = ({}, Fraction(k)) if isinstance(what, dict) else ({A1: Fraction(1 if what[0] == "+" else -1)}, Fraction(0))
                            if A1 in env and isinstance(what, str):
                                want = ({}, Fraction(0))
                            d = sub(d, want)
                    except ZeroDivisionError:
                        continue
                    if not d[0] and not d[1]:
                        best = True
                        break
                    best = best or d
                if best is True:
                    chk.ok(key, "", r["span"])
                else:
                    last = [e for e in evs if e.kind == "atomic" and e.op != "load"]
                    chk.expect(key, False, "off by %s on a path with %s" % (lc_show(best)[:160], facts_of(st)), where(last[-1]) if last else r["span"], closed=understood(after, best))
        if not done:
            chk.expect("%s::%s returns" % (ty, m), False, "no path returns normally", r["span"])


def understood(after, d):
    """a difference made only of cell contents, the argument and plain conversions of it"""
    for x in subterms(after):
        if x.op in ("unk", "bad", "ures", "uout"):
            return False
    return True


def facts_of(st):
    fs = ["%s=%s" % (show(f)[:60], b) for f, b in list(st.facts.items())[:4]]
    fs += ["%s in %s" % (show(a)[:40], ranges(b) if b and abs(b[0][0]) > 2 ** 60 else b) for a, b in list(st.rng.items())[:3]]
    return "; ".join(fs) or "no condition"


def zero_env(s, A1):
    """the argument when it can only be zero"""
    for x in [A1] + [t for t in s.rng if t.op == "fneg" and t.a[0] is A1]:
        r = s.range_f(x) if x in s.rng else None
        if r == ((0, 0),):
            # 0.0 or -0.0
            return {A1: ({}, Fraction(0))}
    return {}


def sub(a, b):
    d = dict(a[0])
    for x, c in b[0].items():
        d[x] = d.get(x, 0) - c
        if d[x] == 0:
            del d[x]
    return d, a[1] - b[1]


# ---------------------------------------------------------------------------------------------- C04
def c04(ctx, chk):
    pass


CHECKS = {"C01": c01, "C02": c02, "C03": c03}
