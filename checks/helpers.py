"""C22: timing and in-progress helpers."""
from sa.lib import *
from .values import atomic_updates, floor, getter_value, sub
from .summary import st_at

# (type, getters: what timing does to them)
TIMERS = [
    ("Counter", {"value": "+"}),
    ("Gauge", {"value": "="}),
    ("Histogram", {"sum": "+", "count": 1}),
    ("Summary", {"sum": "+", "count": 1}),
]
SAMPLES = [(0, 0), (0, 1), (0, 250000000), (1, 0), (2, 500000000), (3, 123456789), (31536000, 999999999)]


def span_at(secs, nanos, d=None):
    """replace what is read from a time span by its value for a span of that length"""
    def f(x):
        if x.op in ("dur_as_secs", "dur_subsec_nanos", "dur_subsec_micros", "dur_subsec_millis", "dur_as_nanos", "dur_as_micros", "dur_as_millis", "dur_as_secs_f64", "dur_as_secs_f32"):
            y = x.a[0]
            if d is not None and y is not d or d is None and not measured(y):
                return None
            k = x.op[4:]
            if k in ("as_secs_f64", "as_secs_f32"):
                import struct
                v = secs + nanos / 1e9
                if k.endswith("32"):
                    v = struct.unpack("f", struct.pack("f", v))[0]
                return flt(v)
            t = secs * 10 ** 9 + nanos
            return integer({"as_secs": secs, "subsec_nanos": nanos, "subsec_micros": nanos // 1000, "subsec_millis": nanos // 10 ** 6,
                            "as_nanos": t, "as_micros": t // 1000, "as_millis": t // 10 ** 6}[k], {"as_secs": "u64", "as_nanos": "u128", "as_micros": "u128", "as_millis": "u128"}.get(k, "u32"))
        return None
    return f


def measured(y):
    return y.op == "tdiff" and y.a[0].op == "now" and y.a[1].op == "now"


def near(got, want):
    return abs(got - want) <= 1e-9 + 1e-12 * abs(want)


def order(chk, key, evs, x, span):
    """the clock is read before the call and again after it"""
    at = {}
    call = None
    for i, e in enumerate(evs):
        if e.kind == "now":
            at[e.d["val"]] = i
        if e.kind == "ucall":
            call = i
    for y in subterms(x):
        if measured(y):
            b, a = at.get(y.a[0]), at.get(y.a[1])
            if a is None or b is None or call is None:
                chk.unk(key, show(y)[:100], span)
            else:
                chk.expect(key, a < call < b, "the time is taken %s" % ("before the function ran" if b < call else "from a start that is not before the function"), span)


def timer(ctx, chk, ty, spec):
    r = ctx.root("time", ty, pub=True)
    R = ctx.run(r)
    what = "%s::time" % ty
    span = r["span"]
    ps = paths(R, skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
    if ps is None:
        chk.unk(what, "too many paths", span)
        return
    f = R.args[1]
    n = 0
    atomic_updates(R, chk, what)
    for evs, i in ps:
        k, v, st = R.outs[i]
        if k != "ret":
            continue
        if infeasible(ctx, st):
            continue
        calls = [e for e in evs if e.kind == "ucall"]
        good = len(calls) == 1 and calls[0].d["f"] is f
        chk.expect(what + " runs the function exactly once", good, "%d times on a path" % len(calls), span, closed=not R.I.unknowns or len(calls) > 1)
        if not good:
            continue
        chk.expect(what + " returns the function's result", v.op == "ures" and v.a[0] is f, show(v)[:100], span, closed=known(v))
        # nothing is recorded before the function has run
        j = evs.index(calls[0])
        early = [e for e in evs[:j] if e.kind == "atomic" and e.op in ("store", "rmw", "swap", "cas") or e.kind == "write" and e.root.op != "L"]
        chk.expect(what + " records after the function has finished", not early, "; ".join(e.kind for e in early), where(early[0]) if early else span)
        eff = seq_effect(evs)
        stx = [e.st for e in evs] + [st]
        for g, how in spec.items():
            val = getter_value(ctx, chk, ty, g)
            if val is None:
                continue
            after, before = apply_cells(val, eff), apply_cells(val, {})
            key = "%s changes %s() by %s" % (what, g, "1" if how == 1 else "the elapsed seconds" if how == "+" else "setting it to the elapsed seconds")
            if not known(after):
                chk.unk(key, show(after)[:160], span)
                continue
            order(chk, what + " measures the run of the function", evs, after, span)
            res = None
            for s, m in SAMPLES:
                f_ = span_at(s, m)
                if any(st_at(x, f_) is False for x in stx):
                    continue
                a = lincomb(subst(after, f_), None, st)
                d = a if how == "=" else sub(a, lincomb(subst(before, f_), None, st))
                if d[0]:
                    if res is not False:
                        res = (None, "%s left" % lc_show(d)[:120])
                    if any(x.op in ("cellval", "aload") for x in d[0]) and all(x.op in ("cellval", "aload", "frombits") for x in d[0]):
                        res = (False, "off by %s" % lc_show(d)[:120])
                        break
                    continue
                want = 1 if how == 1 else s + m / 1e9
                if near(float(d[1]), want):
                    res = res or (True, "")
                else:
                    res = (False, "for %d.%09d s it is %r" % (s, m, float(d[1])))
                    break
            if res is None:
                continue
            n += 1
            if res[0] is None:
                chk.unk(key, res[1], span)
            else:
                chk.expect(key, res[0], res[1], span)
    floor(chk, what + ": recordings", n, len(spec))
    # nothing goes wrong on the way
    with invariants(ctx):
        R = ctx.run(r, key="inv")
    bad = edges(R, lambda e: e.kind in ("panic", "abort"))
    live = reachable(R, R.entry)
    for a, e, b in bad:
        if a in live and not infeasible(ctx, passed(R, e.st)):
            chk.expect(what + " always records", False, "it may panic: %s" % (e.d.get("what") or e.d.get("why") or ""), where(e), closed=not R.I.unknowns and all(known(x) for x in e.d.values() if isinstance(x, T)) and not any(contains(x, lambda y: y.op in ("lv", "aload")) for x in e.d.values() if isinstance(x, T)))
    chk.ok(what + " always records", "", span)


def inprogress(ctx, chk):
    r = ctx.root("track_inprogress", "Gauge", pub=True)
    R = ctx.run(r, unwind=True)
    span = r["span"]
    what = "Gauge::track_inprogress"
    val = getter_value(ctx, chk, "Gauge", "value")
    ps = paths(R, skip=lambda e: e.kind == "atomic" and e.op == "casfail", at=True)
    if ps is None or val is None:
        chk.unk(what, "too many paths", span)
        return
    f = R.args[1]
    atomic_updates(R, chk, what)
    kinds = {"ret": 0, "unwind": 0}
    for evs, i in ps:
        k, v, st = R.outs[i]
        if infeasible(ctx, st):
            continue
        calls = [e for e in evs if e.kind == "ucall"]
        good = len(calls) == 1 and calls[0].d["f"] is f
        if k == "ret" or calls:
            chk.expect(what + " runs the function exactly once", good, "%d times on a path" % len(calls), span, closed=not R.I.unknowns or len(calls) > 1)
        if not good:
            continue
        if k == "ret":
            chk.expect(what + " returns the function's result", v.op == "ures" and v.a[0] is f, show(v)[:100], span, closed=known(v))
        j = evs.index(calls[0])
        before = apply_cells(val, {})
        mid = apply_cells(val, seq_effect(evs[:j]))
        # the user's function may do anything to the gauge: what happens afterwards is counted from there
        end = apply_cells(val, seq_effect(evs[j:]))
        if not known(mid, end):
            chk.unk(what, show(end)[:120], span)
            continue
        kinds[k] = kinds.get(k, 0) + 1
        for key, x, w in ((what + " raises the gauge by one before", mid, 1), (what + " lowers the gauge by one afterwards" + (" also after a panic" if k == "unwind" else ""), end, -1)):
            d = sub(lincomb(x, None, st), lincomb(before, None, st))
            chk.expect(key, not d[0] and d[1] == w, "changes it by %s" % lc_show(d)[:100], span)
    floor(chk, what + ": ways to return", kinds["ret"], 1)
    floor(chk, what + ": ways to unwind", kinds["unwind"], 1)


def seconds(ctx, chk):
    """the public conversion"""
    r = ctx.root("duration_to_seconds", None, pub=True)
    R = ctx.run(r)
    n = 0
    key = "duration_to_seconds is the length in seconds"
    for k, v, st in R.outs:
        if k != "ret":
            chk.expect(key, False, k, r["span"], closed=False)
            continue
        for s, m in SAMPLES:
            f_ = span_at(s, m, R.args[0])
            if st_at(st, f_) is False:
                continue
            x = subst(v, f_)
            n += 1
            if x.op != "f64":
                chk.unk(key, show(x)[:100], r["span"])
            else:
                chk.expect(key, near(ffrom(x.a[0]), s + m / 1e9), "for %d.%09d s it is %r" % (s, m, ffrom(x.a[0])), r["span"])
    floor(chk, "conversions", n, 1)


def c22(ctx, chk):
    chk.rule("on every path of time, the given function is called exactly once, between two readings of the clock, its result is returned, and the effect of everything after it on the cells the getters read is exactly that of recording the seconds between those readings once; on every path of track_inprogress, returning or unwinding, the gauge gains one before the call and loses one after it")
    for ty, spec in TIMERS:
        timer(ctx, chk, ty, spec)
        chk.scope()
    inprogress(ctx, chk)
    chk.scope()
    try:
        seconds(ctx, chk)
    except Missing:
        pass


CHECKS = {"C22": c22}
