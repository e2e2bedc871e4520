"""C23: what runs while a lock of the crate is held."""
from sa.lib import *

# (kind of event, what it is)
CALLOUT = {"ucall": "user code is called", "upanic": "user code is called", "out": "output is written to the caller's sink"}


def held_at(R):
    """node -> {lock: the acquisition it may be held from} for every node of the event graph"""
    held = {R.entry: {}}
    work = [R.entry]
    while work:
        n = work.pop()
        for e, m in R.G.out.get(n, []):
            h = dict(held[n])
            if e is not None and e.kind == "lock":
                h[e.cell] = e
            elif e is not None and e.kind == "unlock":
                h.pop(e.cell, None)
            old = held.get(m)
            new = dict(old or {})
            for k, v in h.items():
                new.setdefault(k, v)
            if old is None or len(new) != len(old):
                held[m] = new
                work.append(m)
    return held


def fn_of(r):
    return r["nice"].replace("prometrics::", "")


def leaked(R, held):
    """[(outcome kind, lock event)] of locks still held when the function is left, other than by what it returns"""
    out = []
    for k, v, st in R.outs:
        for c, e in held.get(st.node, {}).items():
            if k == "ret" and contains(v, lambda x: x.op == "guard" and x.a[0] is c):
                continue
            if k == "ret" and find_in(st, v, lambda x: x.op == "guard" and x.a[0] is c):
                continue
            out.append((k, e))
    return out


def unmodelled(R):
    return R.I.unknowns[0] if R.I.unknowns else None


def c23(ctx, chk):
    chk.rule("for every public function and trait implementation, with unwinding: forward dataflow of the set of held locks over the event graph derived from MIR; "
             "no call to user code, output to a sink, blocking lock, blocking receive or panic at a node where the set may be non-empty; the set is empty at every return and every unwinding exit")
    sites = {}
    takers = set()
    for r in ctx.F.roots:
        if not (r.get("inst") and ctx.F.body(r["inst"])):
            continue
        name = fn_of(r)
        lazy = r["nice"].endswith("__static_ref_initialize")
        if not r.get("pub") and not lazy:
            continue
        if r.get("derived"):
            continue
        chk.scope()
        R = ctx.run(r, unwind=True)
        evs = edges(R, lambda e: e.kind in ("lock", "unlock", "recv", "lazy") or e.kind == "send" and e.d.get("blocking"))
        if not evs:
            u = unmodelled(R)
            if u:
                chk.unk("locks:" + name, "not understood: %s in %s" % (u[0], u[1]))
            else:
                chk.ok("locks:" + name, "takes no lock and waits for nothing")
            continue
        if lazy:
            bad = [e for n, e, m in evs if e.kind in ("lock", "recv", "lazy")]
            chk.expect("init:" + name, not bad, "the initialiser of a static takes no lock and forces no other static" if not bad else
                       "the initialiser of a static can wait: %s at %s" % (bad[0].kind, where(bad[0])), r["span"])
            continue
        waits = [e for n, e, m in evs if e.kind in ("recv", "send") and e.d.get("blocking")]
        chk.expect("wait:" + name, not waits, "never waits for a message" if not waits else "waits for %s at %s" % ("a message" if waits[0].kind == "recv" else "room in a channel", where(waits[0])), r["span"])
        if not any(e.kind == "lock" for n, e, m in evs):
            continue
        takers.add(name)
        held = held_at(R)
        for n, e, m in evs:
            if e.kind == "lock":
                sites.setdefault((e.fn, e.span), 0)
                sites[(e.fn, e.span)] += 1
        under = {}
        for n, e, m in edges(R, lambda e: True):
            if not held.get(n):
                continue
            l = list(held[n].values())[0]
            if e.kind in CALLOUT:
                under.setdefault("callout", (CALLOUT[e.kind], e, l))
            elif e.kind == "lock" and e.blocking:
                under.setdefault("second", ("another lock is taken" if e.cell not in held[n] else "the same lock is taken again", e, l))
            elif e.kind == "recv" and e.blocking:
                under.setdefault("callout", ("the thread waits for a message", e, l))
            elif e.kind == "panic":
                under.setdefault("panic", ("a panic is possible", e, l))
        for key, what in (("callout", "no user code runs and no output is written under the lock"), ("second", "no second lock is taken under the lock"), ("panic", "nothing that can panic runs under the lock")):
            b = under.get(key)
            chk.expect("%s:%s" % (key, name), b is None, what if b is None else "%s at %s while the lock taken at %s is held" % (b[0], where(b[1]), where(b[2])), r["span"])
        left = leaked(R, held)
        chk.expect("release:" + name, not left, "the lock is released on every path, returning and unwinding" if not left else
                   "the lock taken at %s is still held when the function %s" % (where(left[0][1]), "returns" if left[0][0] == "ret" else "unwinds"), r["span"])
        # a lock poisoned by a panic elsewhere is released as well
        R2 = ctx.run(r, unwind=True, poison=True)
        left = leaked(R2, held_at(R2))
        chk.expect("poison:" + name, not left, "a poisoned lock is released on every path" if not left else
                   "the poisoned lock taken at %s is still held when the function is left" % where(left[0][1]), r["span"])
    chk.scope()
    for nm, ty, tr in (("observe", "Summary", ""), ("quantiles", "Summary", ""), ("default_registry", "", ""), ("quantiles", "AggregatedSummary", "")):
        try:
            ctx.root(nm, ty, tr, pub=True)
        except Missing as e:
            chk.bad("anchor:%s" % e, "public function is missing")
    chk.ok("sites", "%d lock call sites, reached from %d public functions" % (len(sites), len(takers)))
    if not sites and not any(s == "unknown" for k, s, d, w in chk.ob):
        chk.ok("sites-none", "the crate takes no lock")


CHECKS = {"C23": c23}
