"""C04 (clones share their metric, auto traits) and C27 (unsafe operations)."""
import re

from sa.lib import *
from sa.render import norm
from sa.interp import Unmodelled
from .values import floor

HANDLES = ("Counter", "Gauge", "Histogram", "Summary")


# ------------------------------------------------------------------------------------------------ types
def adt_by_name(F, name):
    return [a for a in F.raw["adts"] if a["name"] == name and a["pub"]]


SHARED = HANDLES + ("Registry", "Labels", "Timestamp", "Label", "MetricName", "Metric", "MetricFamily", "MetricFamilies")
SENT = SHARED + ("Gatherer", "ProcessMetricsCollector", "CounterCollector", "GaugeCollector", "HistogramCollector", "SummaryCollector",
                 "MetricBuilder", "CounterBuilder", "GaugeBuilder", "HistogramBuilder", "SummaryBuilder",
                 "AggregatedCounter", "AggregatedGauge", "AggregatedHistogram", "AggregatedSummary")

# (type, what changes the metric through a handle, with which arguments)
OPS = {
    "Counter": [("inc", ()), ("add_u64", ("u64",))],
    "Gauge": [("set", ("f64",)), ("add", ("f64",)), ("sub", ("f64",)), ("inc", ()), ("dec", ()), ("set_to_current_time", ())],
    "Histogram": [("observe", ("f64",))],
    "Summary": [("observe", ("f64",))],
}


def methods(F, ty):
    """public methods on a handle"""
    return [r for r in F.roots if r.get("pub") and not r.get("trait") and r.get("selfpath", "").split("::")[-1] == ty and r.get("inst") and F.body(r["inst"])
            and r["inputs"] and r["inputs"][0].startswith("&") and r["inputs"][0].split("::")[-1].split("<")[0] == ty]


def behaviour(cl, sts, o):
    """(effects, results) of a method, without where they come from; sts: [(handle, state)]"""
    eff, res = set(), {}
    n = len(o["inputs"]) - 1
    for h, s in sts:
        n0 = s.node
        outs = cl.call(s, o, [h] + [mk("sym", "x%d" % i) for i in range(n)])
        for kind, v, s2 in outs:
            res.setdefault((kind, norm(v)), (v, s2))
        live = reachable(cl, n0)
        for a, e, m in edges(cl, lambda e: e.kind in ("atomic", "imm", "lock", "write", "ucall", "send")):
            if a not in live:
                continue
            if e.kind == "write":
                eff.add(("write", norm(e.root), str(e.path)))
            elif e.kind in ("atomic", "imm", "lock"):
                eff.add((e.kind, getattr(e, "op", ""), norm(e.cell)))
            elif e.kind == "send":
                eff.add((e.kind, norm(e.chan)))
            else:
                eff.add((e.kind,))
    return eff, res


def c04(ctx, chk):
    chk.rule("for each handle type and each of its public methods: the effects on memory (which cells are written, updated or locked) and the results derived from MIR for a call through a clone "
             "are those of the call through the original, for every handle")
    chk.rule("Send and Sync of the public types are asked of the compiler's trait solver on the type-checked crate")
    for ty in HANDLES + ("Registry",):
        chk.scope()
        r = ctx.root("clone", ty, "Clone")
        R = ctx.run(r)
        if not chk_returns(chk, ty, r, R):
            continue
        evs = edges(R, lambda e: e.kind in ("atomic", "imm", "send", "lock", "now", "lazy") and not (e.kind in ("atomic", "imm") and e.op == "load"))
        chk.expect("%s::clone has no side effect" % ty, not evs, "" if not evs else "%s at %s" % (evs[0][1].kind, where(evs[0][1])), r["span"])
        ms = methods(ctx.F, ty)
        done = 0
        for o in ms:
            chk.scope()
            key = "%s::%s through a clone" % (ty, o["name"])
            both = []
            skip = None
            for cloned in (False, True):
                cl = Session(ctx, unwind=False)
                st = cl.st.copy()
                h = mk("sym", "arg0")
                if cloned:
                    sts = [(cl.new(s, v, "clone"), s) for k, v, s in cl.call(st, r, [h]) if k == "ret"]
                else:
                    sts = [(h, st)]
                try:
                    both.append(behaviour(cl, sts, o))
                except Unmodelled as e:
                    skip = str(e)
                    break
                if cl.I.unknowns:
                    skip = "not understood: %s in %s" % cl.I.unknowns[0][:2]
            if skip:
                chk.unk(key, skip, o["span"])
                continue
            (e1, r1), (e2, r2) = both
            done += 1
            chk.expect(key, e1 == e2, "acts on the same cells" if e1 == e2 else
                       "acts on %s instead of %s" % (brief(e2 - e1), brief(e1 - e2)), o["span"])
            lost = [(k, r1[k]) for k in r1 if k not in r2]
            extra = [(k, r2[k]) for k in r2 if k not in r1]
            if lost and len(lost) == len(extra) and all(same_content(R.I, a, b) for a, b in zip(sorted(lost, key=lambda x: str(x[0])), sorted(extra, key=lambda x: str(x[0])))):
                lost = extra = []
            chk.expect(key + ": result", not lost and not extra, "the same result" if not lost and not extra else
                       "yields %s where the original yields %s" % (show(extra[0][1][0])[:100] if extra else "nothing", show(lost[0][1][0])[:100] if lost else "nothing"), o["span"])
        least = 1 if ty == "Registry" else 8
        if done < least:
            chk.expect("%s: methods compared" % ty, False if len(ms) < least else None, "only %d public methods on the handle" % done)
        else:
            chk.ok("%s: methods compared" % ty, "%d" % done)
    for names, tr in ((SENT, "send"), (SHARED, "sync")):
        for n in names:
            a = adt_by_name(ctx.F, n)
            key = "%s is %s" % (n, tr.capitalize())
            if len(a) != 1:
                chk.unk(key, "no such public type")
                continue
            chk.expect(key, a[0][tr], "the trait solver says %s" % ("yes" if a[0][tr] else "no"), a[0]["span"], a[0][tr] is not None)


def brief(s):
    return "; ".join(sorted(" ".join(show(y)[:70] if isinstance(y, T) else str(y)[:40] for y in x) for x in s)[:2]) or "nothing"


def chk_returns(chk, ty, r, R):
    rets = [v for k, v, s in R.outs if k == "ret"]
    chk.expect("%s::clone returns" % ty, bool(rets), "a clone is returned" if rets else "no clone is ever returned", r["span"], not R.I.unknowns)
    return bool(rets)


def same_content(I, a, b):
    """references to equal values that cannot change"""
    (k1, (v1, s1)), (k2, (v2, s2)) = a, b
    if k1[0] != k2[0] or v1.op != "ref" or v2.op != "ref":
        return False
    x, y = I.deref(s1, v1), I.deref(s2, v2)
    return norm(x) is norm(y) and not contains(y, lambda t: t.op == "adt" and str(t.a[0]).split("::")[-1] in ("Atomic", "AtomicImmut", "Mutex"))


# ------------------------------------------------------------------------------------------------ unsafe operations
# unsafe calls that the standard macros expand to
STDMACRO = ("core::fmt::Arguments", "core::fmt::rt::", "box_assume_init", "core::hint::", "core::panicking")
# smart pointers that keep what they point to alive
OWNERS = ("Arc", "Rc", "Box", "Vec", "String", "MutexGuard", "RwLockReadGuard", "RwLockWriteGuard")
THREAD_BOUND = ("Rc", "Cell", "RefCell", "UnsafeCell", "NonNull", "Receiver", "MutexGuard", "OnceCell")


def plain(path):
    return re.sub(r"::\{closure#\d+\}", "", path)


def unsafe_ops(F):
    """[(function, kind, what, span)] of the unsafe operations in the crate's own unsafe blocks and unsafe functions"""
    fns = {}
    for u in F.unsafe:
        fns.setdefault(u["fn"], set()).add(u["span"])
    for r in F.roots:
        if r.get("unsafe"):
            fns.setdefault(r["path"], set())
    out = {}
    for k in list(F._raw_insts):
        b = F.body(k)
        if b is None or b.path not in fns and plain(b.path) not in fns:
            continue
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    if s[2][0] == "cast" and s[2][1] == "Transmute":
                        a, c = F.types[s[2][3]], F.types[s[2][4]]
                        same = s[2][3] == s[2][4] or a["s"] == c["s"]
                        out[(plain(b.path), "lifetime" if same else "reinterpret", "%s as %s" % (a["s"], c["s"]), s[-1])] = 1
                    for p in places(s[2]):
                        d = raw_deref(F, b, p)
                        if d:
                            out[(plain(b.path), "raw pointer", d, s[-1])] = 1
            t = bl["t"]
            if t[0] == "call" and (t[1].get("unsafe") or str(t[1].get("nice", "")).endswith("::transmute")):
                n = t[1].get("nice") or "?"
                if any(x in n for x in STDMACRO):
                    continue
                if n.endswith("::transmute"):
                    ts = [F.types[x] for x in t[1].get("targs", [])[:2]]
                    kind = "lifetime" if len(ts) == 2 and ts[0]["s"] == ts[1]["s"] else "reinterpret"
                    out[(plain(b.path), kind, " as ".join(x["s"] for x in ts), bl.get("sp", ""))] = 1
                elif t[1].get("foreign"):
                    out[(plain(b.path), "foreign", n, bl.get("sp", ""))] = (F, b, t)
                else:
                    out[(plain(b.path), "call", n, bl.get("sp", ""))] = 1
    return fns, [(k, v) for k, v in out.items()]


def places(rv):
    """places read in an rvalue"""
    out = []

    def go(x):
        if isinstance(x, dict):
            for k in ("c", "m"):
                if k in x:
                    out.append(x[k])
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.append(x)
            else:
                for y in x:
                    go(y)
    go(rv)
    return out


def raw_deref(F, b, p):
    ty = F.types[b.locals[p[0]]]
    for e in p[1]:
        if e == "*":
            if ty["k"] == "ptr" and "MaybeUninit" not in ty["s"]:
                return ty["s"]
            ty = F.types[ty["to"]] if "to" in ty else {"k": "?", "s": "?"}
        elif e[0] == "f":
            ty = F.types[e[2]]
        else:
            return None
    return None


def has_ref(F, t, seen=None):
    """may a value of the type contain a reference?"""
    seen = seen if seen is not None else set()
    if not isinstance(t, int) or t in seen:
        return False
    seen.add(t)
    ty = F.types[t]
    if ty["k"] in ("ref", "ptr"):
        return True
    if "'" in ty["s"] and ty["k"] == "adt" and not ty.get("local"):
        return True
    if ty["k"] == "adt" and ty.get("local"):
        return any(has_ref(F, f["ty"], seen) for v in ty.get("variants", []) for f in v["f"])
    return any(has_ref(F, x, seen) for x in list(ty.get("args", [])) + list(ty.get("f", [])) + ([ty["to"]] if "to" in ty else []))


def base(p):
    """what must stay alive for a pointer to be usable: the shared object it was read from, or None"""
    while isinstance(p, T):
        if p.op == "ref":
            r = p.a[0]
            if r.op == "D":
                p = r.a[0]
                continue
            return r
        if p.op in ("immld", "guard"):
            return p
        if p.op == "it":
            p = p.a[1]
            continue
        return None
    return None


def carried(F, I, st, v, t, depth=0):
    """[(own|ref, base)] of the pointers a value of type t carries"""
    ty = F.types[t]
    out = []
    if depth > 8:
        return out
    if ty["k"] == "ref" or ty["k"] == "ptr":
        return [("ref", base(v), v)]
    if ty["k"] == "adt":
        last = ty["path"].split("::")[-1]
        if last in OWNERS and v.op not in ("adt",):
            if last in ("Vec", "Box"):
                pass
            else:
                return [("own", v, v)]
        if v.op == "adt" and ty.get("variants") and v.a[1] < len(ty["variants"]):
            for x, f in zip(v.a[2:], ty["variants"][v.a[1]]["f"]):
                out += carried(F, I, st, x, f["ty"], depth + 1)
            return out
        if has_ref(F, t):
            for x in subterms(v):
                if x.op in ("ref", "it"):
                    out.append(("ref", base(x), x))
                elif x.op == "immld" and v.op == "it":
                    out.append(("ref", x, x))
        return out
    if ty["k"] == "tuple" and v.op == "tup":
        for x, f in zip(v.a, ty["f"]):
            out += carried(F, I, st, x, f, depth + 1)
    return out


def owned(own, b):
    return any(b is o or norm(b) is norm(o) and b is o for o in own)


def protected(R, v):
    """pointers into what a lock protects, in a value that does not hold the lock"""
    out = []
    for n, e, m in edges(R, lambda e: e.kind == "lock"):
        try:
            r, pa = R.I.addr(e.cell)
        except Exception:
            continue
        if contains(v, lambda x: x.op == "guard" and x.a[0] is e.cell):
            continue
        pre = pa + (("f", 0),)
        for x in subterms(v):
            if x.op == "ref" and x.a[0] is r and x.a[1][:len(pre)] == pre:
                out.append((x, e))
    return out


def made_borrowing(ctx):
    """{(type, field)} of local types built with a field that points into what a sibling field owns"""
    out = {}
    F = ctx.F
    for r in F.roots:
        if not (r.get("inst") and F.body(r["inst"])) or r.get("derived"):
            continue
        R = ctx.run(r)
        for path, var, vs, fl, span, fn, st in R.I.made:
            a = F.adts.get(path)
            if not a:
                continue
            fs = F.types[a["ty"]]["variants"][var]["f"]
            own = []
            refs = []
            for i, (x, f) in enumerate(zip(vs, fs)):
                for kind, b, p in carried(F, R.I, None, x, f["ty"]):
                    if b is not None and b.op == "immld":
                        (own if kind == "own" else refs).append((i, b))
            for i, b in refs:
                if any(o is b for j, o in own):
                    out[(path, i)] = span
    return out


def c27(ctx, chk):
    F = ctx.F
    chk.rule("every unsafe operation in the crate's MIR is listed and classified; foreign functions take and return numbers only; unchecked element accesses have a proved index; "
             "no mutable static; no Send or Sync granted by hand to a type with thread-bound parts")
    chk.rule("a reference whose lifetime is changed by an unsafe operation leaves a safe public function only together with what it points into: its owner is part of the returned value, and no method hands out the reference for longer than the owner's value lives")
    fns, ops = unsafe_ops(F)
    lifetimes = False
    for (fn, kind, what, span), x in sorted(ops, key=lambda y: str(y[0])):
        name = fn.replace("prometrics::", "")
        key = "%s: %s %s" % (name, kind, what)
        if kind == "foreign":
            f, b, t = x
            ts = [b.locals[t[3][0]]] if not t[3][1] else []
            pointers = any(isinstance(y, int) and F.types[y]["k"] in ("ptr", "ref", "fnptr") for y in ts) or any(argptr(F, b, a) for a in t[2])
            if pointers:
                chk.unk(key, "a foreign function is given or returns a pointer", span)
            else:
                chk.ok(key, "a foreign function of numbers only", span)
        elif kind in ("lifetime", "raw pointer"):
            lifetimes = True
            chk.ok(key + ": examined below", "changes lifetimes only: see the escape rule", span)
        elif kind == "call" and "get_unchecked" in what:
            lifetimes = True
            chk.ok(key + ": examined below", "see the index rule", span)
        elif kind == "call" and what.split("::")[-1] in ("from_raw_parts", "as_ref", "as_mut", "unwrap_unchecked", "read", "deref"):
            lifetimes = True
            chk.ok(key + ": examined below", "see the escape rule", span) if what.split("::")[-1] in ("from_raw_parts", "as_ref") else chk.unk(key, "not justified by a rule", span)
        else:
            chk.unk(key, "not justified by a rule", span)
    listed = set(k[0] for k, x in ops)
    for fn in sorted(fns):
        if plain(fn) not in listed:
            chk.ok("%s: no unsafe operation" % fn.replace("prometrics::", ""), "an unsafe block without an unsafe operation") if body_known(F, fn) else chk.unk("%s: unsafe block" % fn, "no MIR")
    for s in F.statics:
        if s["mut"]:
            chk.bad("static %s" % s["path"].replace("prometrics::", ""), "a mutable static can be reached from several threads without synchronisation", s["span"])
    for im in F.impls:
        tr = (im.get("trait") or "").split("::")[-1]
        if im.get("unsafe") and not im.get("derived") and tr in ("Send", "Sync"):
            n = im["self"].split("<")[0].split("::")[-1]
            parts = set()
            for a in F.adts.values():
                if a["name"] == n:
                    from sa.models import made_of
                    parts |= set(p.split("::")[-1] for p in made_of(F, a["ty"]))
            b = sorted(parts & set(THREAD_BOUND))
            key = "unsafe impl %s for %s" % (tr, im["self"])
            if b and not (tr == "Send" and b == ["Receiver"]):
                chk.bad(key, "the type contains %s" % ", ".join(b), im["span"])
            else:
                chk.unk(key, "granted by hand", im["span"])
    # references whose owner is not kept
    borrowing = made_borrowing(ctx)
    escapes = 0
    for r in F.roots:
        if not (r.get("inst") and F.body(r["inst"])) or not r.get("pub") or r.get("derived") or r.get("unsafe"):
            continue
        chk.scope()
        name = "::".join(x.split("::")[-1] for x in (r.get("selfpath") or "", r.get("trait") or "", r["name"]) if x)
        R = ctx.run(r)
        b = F.body(r["inst"])
        rt = b.locals[0]
        pan = [e for n, e, m in edges(R, lambda e: e.kind == "panic") if e.why == "unchecked-bounds"]
        for e in pan[:1]:
            with invariants(ctx):
                R2 = ctx.run(r, key="inv")
            p2 = [e for n, e, m in edges(R2, lambda e: e.kind == "panic") if e.why == "unchecked-bounds"]
            chk.expect("%s: unchecked index" % name, not p2, "the index is below the length" if not p2 else "an unchecked index may be out of range: %s" % show(p2[0].ops[0])[:80], where(e))
        if not has_ref(F, rt):
            continue
        bad, odd = [], []
        for k, v, st in R.outs:
            if k != "ret":
                continue
            cs = carried(F, R.I, st, v, rt)
            own = [x for kind, x, p in cs if kind == "own"]
            for kind, x, p in cs:
                if kind != "ref" or x is None:
                    continue
                if x.op == "immld" and not any(o is x for o in own):
                    bad.append("a reference into a list of labels that is only kept alive by a temporary (%s)" % show(p)[:80])
                elif x.op == "L" and x.a and contains(x, lambda y: y.op == "fr"):
                    odd.append(p)
            for p, e in protected(R, v):
                bad.append("a reference into what the lock taken at %s protects, without the guard" % where(e))
            # fields that point into a sibling
            for p in [p for kind, x, p in cs if kind == "ref"] + [y for y in subterms(v) if y.op == "item"]:
                f = field_of_self(r, p, borrowing)
                if f is not None and outlives(r):
                    bad.append("a reference from field %d, which points into what the same %s owns, is handed out for longer than that value lives" % (f, r["selfpath"].split("::")[-1]))
        escapes += 1
        chk.expect("%s keeps what it refers to" % name, not bad, "every reference handed out points into what the caller or the result keeps alive" if not bad else bad[0], r["span"])
    chk.scope()
    chk.ok("listed", "%d unsafe operations in %d functions; %d public functions hand out references" % (len(ops), len(fns), escapes))
    floor(chk, "public functions that hand out references", escapes, 20)


def argptr(F, b, a):
    p = a.get("c") or a.get("m")
    if p is None:
        t = a.get("k", {}).get("ty")
    elif p[1]:
        return False
    else:
        t = b.locals[p[0]]
    return isinstance(t, int) and F.types[t]["k"] in ("ptr", "ref", "fnptr")


def body_known(F, fn):
    return any((F.body(k).path == fn or plain(F.body(k).path) == fn) for k in F._raw_insts if k.startswith(fn) and F.body(k))


def field_of_self(r, p, borrowing):
    """the field of the method's own receiver that a pointer was taken from"""
    for x in subterms(p):
        if x.op == "ref" and x.a[0].op == "D" and x.a[0].a[0].op == "sym" and x.a[0].a[0].a[0] == "arg0" and x.a[1]:
            f = x.a[1][0]
            if f[0] == "f" and (r.get("selfpath"), f[1]) in borrowing:
                return f[1]
        if x.op == "proj" and x.a[0].op == "deref" and x.a[0].a[0].op == "sym" and x.a[0].a[0].a[0] == "arg0":
            f = x.a[1]
            if f[0] == "f" and (r.get("selfpath"), f[1]) in borrowing:
                return f[1]
    return None


def outlives(r):
    """is the result's lifetime a parameter of the receiver's type rather than that of the borrow?"""
    if r.get("trait"):
        return r["output"].find("::Item") >= 0 or bool(re.search(r"'[a-z]", r["output"]))
    names = set(re.findall(r"'([a-z]\w*)", r.get("self") or ""))
    return bool(names & set(re.findall(r"'([a-z]\w*)", r["output"])))


CHECKS = {"C04": c04, "C27": c27}
