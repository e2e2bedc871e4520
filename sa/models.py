"""Models of the library functions the crate uses: every model maps argument values to values, path facts and events."""
import os
import re

from .term import *
from .state import *

USZ = "usize"
ZERO = integer(0, USZ)
ONE = integer(1, USZ)
TRACK = "trackable::error::TrackableError"
POISON = "std::sync::poison::PoisonError"
FN = {}

_norm = {}


def norm(n):
    r = _norm.get(n)
    if r is None:
        r = n
        while True:
            x = re.sub(r"<impl [^<>]*(?:<[^<>]*>)?[^<>]*>::", "", r)
            if x == r:
                break
            r = x
        while True:
            x = re.sub(r"::<[^<>]*>", "", r)
            if x == r:
                break
            r = x
        _norm[n] = r
    return r


def model(*names):
    def dec(f):
        for n in names:
            FN[n] = f
        return f
    return dec


def ret(v, st):
    return [("ret", v, st)]


class C(object):
    """one call: interpreter, state, callee, argument values, argument types"""
    __slots__ = ("I", "st", "c", "v", "ty", "name")

    def __init__(self, I, st, c, v, ty, name):
        self.I, self.st, self.c, self.v, self.ty, self.name = I, st, c, v, ty, name

    def targ(self, i):
        ts = [t for t in self.c.get("targs", []) if isinstance(t, int)]
        return self.I.F.types[ts[i]] if i < len(ts) else None

    def rtarg(self, i):
        ts = [t for t in self.c.get("rargs", []) if isinstance(t, int)]
        return self.I.F.types[ts[i]] if i < len(ts) else None

    def deref(self, p):
        return deref(self.I, self.st, p)

    def out(self, v):
        return [("ret", v, self.st)]


def deref(I, st, p):
    if p.op in ("str", "bytesc"):
        return p
    return I.deref(st, p)


def strip(I, st, v, ty):
    """value behind all references of type `ty` (a type node)"""
    n = 0
    while ty is not None and ty["k"] == "ref" and n < 5:
        v = deref(I, st, v)
        ty = I.F.types[ty["to"]]
        n += 1
    return v, ty


# ------------------------------------------------------------------------------------------------ dispatch
def dispatch(I, st, callee, vals, tys):
    nice = callee.get("nice") or ""
    tr = callee.get("trait")
    meth = nice.rsplit("::", 1)[-1]
    if tr:
        key = tr.rsplit("::", 1)[-1] + "::" + meth
        rn = callee.get("rnice") or ""
        if key in ("FnOnce::call_once", "Fn::call", "FnMut::call_mut"):
            return FN[key](C(I, st, callee, vals, tys, key))
        if callee.get("rlocal") and callee.get("inst"):
            if key == "Clone::clone" and derived(I, callee["rpath"]):
                return ret(deref(I, st, vals[0]), st)
            if key == "Clone::clone_from":
                return None
            return None
    else:
        if callee.get("rlocal"):
            return None
        n = norm(nice)
        parts = n.split("::")
        key = "::".join(parts[-2:])
    f = FN.get(key)
    if f is None:
        return None
    c = C(I, st, callee, vals, tys, key)
    if DEBUG:
        return f(c)
    try:
        return f(c)
    except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError):
        # arguments of a shape the model does not expect: not understood
        return None


DEBUG = os.environ.get("PM_DEBUG")


def made_of(F, t):
    """the types a type is made of"""
    out, work, seen = set(), [t], set()
    while work:
        i = work.pop()
        if i in seen or not isinstance(i, int):
            continue
        seen.add(i)
        ty = F.types[i]
        if ty.get("path"):
            out.add(ty["path"])
        work += [x for x in ty.get("args", []) if isinstance(x, int)]
        if "to" in ty:
            work.append(ty["to"])
        if ty["k"] == "adt" and ty.get("local"):
            for v in ty.get("variants", []):
                work += [f["ty"] for f in v["f"]]
        work += [x for x in ty.get("f", []) if isinstance(x, int)]
    return out


def derived(I, path):
    d = getattr(I.F, "_derived", None)
    if d is None:
        d = I.F._derived = {r["path"]: bool(r.get("derived")) for r in I.F.roots}
        manual = set(r.get("selfpath") for r in I.F.roots if r["name"] == "clone" and (r.get("trait") or "").endswith("::Clone") and not r.get("derived"))
        if manual:
            # a hand-written copy may be part of a derived one
            for r in I.F.roots:
                if r["name"] == "clone" and r.get("derived") and r.get("selfpath") in I.F.adts:
                    if made_of(I.F, I.F.adts[r["selfpath"]]["ty"]) & manual:
                        d[r["path"]] = False
    return d.get(path, False)


def inst_of(I, adtpath, trait, name):
    """the local implementation of trait::name for a local type"""
    key = (adtpath, trait, name)
    d = getattr(I.F, "_impl", None)
    if d is None:
        d = I.F._impl = {}
        for r in I.F.roots:
            if r.get("selfpath") and r.get("trait"):
                d.setdefault((r["selfpath"], r["trait"].split("::")[-1], r["name"]), []).append(r)
    rs = d.get(key, [])
    if len(rs) == 1 and rs[0].get("inst"):
        return rs[0]
    return None


# ------------------------------------------------------------------------------------------------ memory helpers
def tmp(I, st, val, tag):
    root = mk("H", I.site(), tag, tuple(I.loopstack) if tag == "arc" else ())
    st.mem[root] = val
    return mk("ref", root, ())


def loc(I, p):
    return I.addr(p)


def setp(I, st, p, val):
    r, pa = I.addr(p)
    I.store(st, r, pa, val)


def elem(I, p, i):
    """pointer to element i of the sequence behind pointer p"""
    r, pa = I.addr(p)
    return mk("ref", r, pa + (("i", i),))


def is_empty(v):
    return cmp_eq("i", seqlen(v), ZERO)


def lastidx(v):
    return isub(seqlen(v), ONE, USZ)


# ------------------------------------------------------------------------------------------------ smart pointers
@model("Arc::new", "Rc::new")
def _(c):
    return c.out(tmp(c.I, c.st, c.v[0], "arc"))


@model("Box::new", "Box::pin")
def _(c):
    return c.out(tmp(c.I, c.st, c.v[0], "box"))


@model("Vec::as_ptr", "slice::as_ptr", "Vec::as_mut_ptr", "slice::as_mut_ptr", "Arc::as_ptr", "Rc::as_ptr", "ptr::cast_const", "ptr::cast_mut", "ptr::from_ref")
def _(c):
    return c.out(c.v[0] if not c.name.startswith(("Arc", "Rc")) else c.deref(c.v[0]))


@model("raw::from_raw_parts", "raw::from_raw_parts_mut", "slice::from_raw_parts")
def _(c):
    if c.v[0].op == "ref" and seqlen(c.deref(c.v[0])) is c.v[1] or c.v[0].op != "ref" and seqlen(c.deref(c.v[0])) is c.v[1]:
        return c.out(c.v[0])
    return None


@model("Box::leak", "Box::into_raw")
def _(c):
    return c.out(c.v[0])


@model("Box::new_uninit")
def _(c):
    return c.out(tmp(c.I, c.st, mk("unk", "uninit", c.I.site()), "boxu"))


@model("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "slice::box_assume_init_into_vec_unsafe")
def _(c):
    v = c.deref(c.v[0])
    n = 0
    while v.op == "adt" and n < 4:
        v = v.a[-1]
        n += 1
    while v.op == "upd" and v.a[1][0] in ("f", "vf"):
        v = v.a[2]
    if v.op == "arr":
        v = mk("list", *v.a)
    return c.out(v)


@model("boxed::box_new", "Box::assume_init")
def _(c):
    return c.out(c.v[0])


@model("Arc::downgrade", "Rc::downgrade")
def _(c):
    return c.out(mk("weak", c.deref(c.v[0])))


@model("Weak::upgrade")
def _(c):
    w = c.deref(c.v[0])
    p = w.a[0] if w.op == "weak" else mk("upg", w)
    out = []
    for b, s in c.I.fork(c.st, mk("alive", w)):
        out.append(("ret", some(p) if b else NONE, s))
    return out


@model("Weak::new")
def _(c):
    return c.out(mk("weak", mk("sym", "dangling")))


@model("Arc::ptr_eq")
def _(c):
    return c.out(cmp_eq("g", c.deref(c.v[0]), c.deref(c.v[1])))


@model("Arc::strong_count")
def _(c):
    t = mk("strong", c.deref(c.v[0]), c.I.site())
    TYOF[t] = "usize"
    c.st.rng[t] = ((1, BIG),)
    return c.out(t)


@model("Weak::strong_count")
def _(c):
    w = c.deref(c.v[0])
    out = []
    for b, s in c.I.fork(c.st, mk("alive", w)):
        t = mk("strong", w, c.I.site())
        TYOF[t] = "usize"
        s.rng[t] = ((1, BIG),)
        out.append(("ret", t if b else integer(0, "usize"), s))
    return out


@model("Arc::get_mut", "Arc::try_unwrap", "Arc::weak_count")
def _(c):
    c.I.unknown(c.st, "unmodelled " + c.name)
    return c.out(c.I.unk(c.name))


@model("Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "AsMut::as_mut")
def _(c):
    t = c.targ(0)
    p = c.v[0]
    path = (t or {}).get("path", "")
    last = path.split("::")[-1]
    if c.name.startswith("AsRef") and t is not None and t["k"] == "ref":
        n = 0
        while t["k"] == "ref" and n < 4:
            p = deref(c.I, c.st, p)
            t = c.I.F.types[t["to"]]
            n += 1
        last = t.get("path", "").split("::")[-1]
    if last in ("Arc", "Rc", "Box", "Weak"):
        return c.out(c.deref(p))
    if last in ("String", "Vec", "str", "VecDeque", "") or t["k"] in ("str", "slice", "prim", "array"):
        if last == "" and t["k"] not in ("str", "slice", "prim", "array"):
            return None
        return c.out(p)
    if last == "ManuallyDrop":
        r, pa = c.I.addr(p)
        return c.out(mk("ref", r, pa + (("f", 0),)))
    if last in ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard"):
        g = c.deref(p)
        if g.op == "guard":
            r, pa = c.I.addr(g.a[0])
            return c.out(mk("ref", r, pa + (("f", 0),)))
        return c.out(mk("guarded", g))
    if last in ("Lazy",):
        return c.out(p)
    return None


@model("Lazy::get")
def _(c):
    # lazy_static: one shared cell, initialised by the given function
    t = c.targ(1)
    name = "lazy:" + (t["s"] if t else "?")
    c.I.ev(c.st, "lazy", cell=name)
    return c.out(mk("sym", name))


@model("Lazy::new", "OnceLock::new", "OnceCell::new")
def _(c):
    return c.out(mk("lazycell", *c.v))


@model("OnceLock::get_or_init", "OnceCell::get_or_init", "LazyLock::force")
def _(c):
    c.I.ev(c.st, "lazy", cell=show(c.v[0]))
    return c.out(mk("lazyval", c.v[0]))


@model("mem::drop", "mem::forget")
def _(c):
    if c.name == "mem::drop":
        ty = c.targ(0)
        outs = []
        p = tmp(c.I, c.st, c.v[0], "drop")
        for s in c.I.drop(c.st, c.v[0], ty, (p.a[0], ())):
            outs.append(("ret", UNIT, s))
        return outs
    return c.out(UNIT)


@model("ManuallyDrop::new")
def _(c):
    return c.out(adt("ManuallyDrop", 0, c.v[0]))


@model("ManuallyDrop::into_inner")
def _(c):
    return c.out(proj(c.v[0], ("f", 0)))


@model("num::max_value", "num::min_value")
def _(c):
    m = re.search(r"<impl ([iu](?:\d+|size))>::(m..)_value", c.c.get("nice") or "")
    if not m:
        return None
    lo, hi = INTS[m.group(1)]
    return c.out(integer(hi if m.group(2) == "max" else lo, m.group(1)))


@model("mem::replace")
def _(c):
    old = c.deref(c.v[0])
    setp(c.I, c.st, c.v[0], c.v[1])
    return c.out(old)


@model("mem::take")
def _(c):
    old = c.deref(c.v[0])
    t = c.targ(0)
    p = (t or {}).get("path", "").split("::")[-1]
    if p in ("Vec", "VecDeque"):
        new = mk("list")
    elif p == "String":
        new = string("")
    elif p == "Option":
        new = NONE
    elif t and t["s"] in INTS:
        new = integer(0, t["s"])
    else:
        return None
    setp(c.I, c.st, c.v[0], new)
    return c.out(old)


@model("mem::swap")
def _(c):
    a, b = c.deref(c.v[0]), c.deref(c.v[1])
    setp(c.I, c.st, c.v[0], b)
    setp(c.I, c.st, c.v[1], a)
    return c.out(UNIT)


@model("hint::must_use", "hint::black_box", "convert::identity", "Pin::new", "Wrapping", "panic::AssertUnwindSafe",
       "mem::transmute", "intrinsics::transmute", "slice::into_boxed_slice", "Vec::into_boxed_slice", "str::into_string")
def _(c):
    return c.out(c.v[0])


@model("intrinsics::discriminant_value", "mem::discriminant")
def _(c):
    t = c.targ(0)
    return c.out(c.I.discr(c.st, c.deref(c.v[0]), t))


@model("intrinsics::assume", "hint::assert_unchecked", "ub_checks::check_language_ub", "intrinsics::ub_checks")
def _(c):
    return c.out(UNIT if "check" not in c.name else FALSE)


# ------------------------------------------------------------------------------------------------ clone / convert
@model("Clone::clone", "ToOwned::to_owned")
def _(c):
    return c.out(c.deref(c.v[0]))


@model("Default::default")
def _(c):
    if c.c.get("inst"):
        return None
    v = default_of(c, c.targ(0))
    return None if v is None else c.out(v)


def default_of(c, t, depth=0):
    if t is None or depth > 4:
        return None
    s, p = t["s"], t.get("path", "").split("::")[-1]
    if s in INTS:
        return integer(0, s)
    if s == "f64":
        return flt(0)
    if p in ("Vec", "VecDeque"):
        return mk("list")
    if p == "String":
        return string("")
    if p == "Option":
        return NONE
    if t["k"] == "ref" and c.I.F.types[t["to"]]["k"] in ("str",) or s == "&str":
        return string("")
    if t["k"] == "tuple":
        vs = [default_of(c, c.I.F.types[x], depth + 1) for x in t.get("f", [])]
        return None if None in vs else tup(*vs) if vs else UNIT
    if p.startswith("Atomic") or p == "Atomic":
        return adt("Atomic", 0, integer(0, "u64"))
    if p == "PhantomData":
        return UNIT
    if p in ("Arc", "Rc", "Box", "Mutex", "RwLock"):
        ts = [x for x in t.get("args", []) if isinstance(x, int)]
        v = default_of(c, c.I.F.types[ts[0]], depth + 1) if ts else None
        if v is None:
            return None
        return adt("Mutex", 0, v) if p in ("Mutex", "RwLock") else tmp(c.I, c.st, v, "box")
    return None


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def _(c):
    meth = c.name.split("::")[1]
    a, b = c.targ(0), c.targ(1)
    if meth in ("into", "try_into"):
        a, b = b, a
    # a <- b
    pa = (a or {}).get("path", "").split("::")[-1]
    v = c.v[0]
    sa, sb = (a or {}).get("s", ""), (b or {}).get("s", "")
    if meth.startswith("try"):
        if sa in INTS and sb in INTS:
            lo, hi = INTS[sa]
            inr = v if False else None
            out = []
            for b1, s in c.I.fork(c.st, cmp_le("i", v, integer(hi, "i128"))):
                if not b1:
                    out.append(("ret", err(mk("sym", "TryFromIntError")), s))
                    continue
                for b2, s2 in c.I.fork(s, cmp_le("i", integer(lo, "i128"), v)):
                    out.append(("ret", ok(v) if b2 else err(mk("sym", "TryFromIntError")), s2))
            return out
        return None
    if pa.startswith("Atomic"):
        return c.out(adt("Atomic", 0, v))
    if pa == "TrackableError":
        return c.out(v if v.op == "adt" and v.a[0] == TRACK else adt(TRACK, 0, v))
    if pa == "String":
        if b["k"] == "ref":
            x, _ = strip(c.I, c.st, v, b)
            return c.out(x)
        if sb == "char":
            return c.out(cat(mk("chr", v)))
        return c.out(v)
    if sa == "f64":
        if sb in INTS:
            return c.out(flt(v.a[0]) if v.op == "int" else typed_i2f(v, sb))
        return c.out(v)
    if sa in INTS and sb in INTS:
        return c.out(c.I.cast(c.st, "IntToInt", v, b, a))
    if sa == sb:
        return c.out(v)
    if pa in ("Arc", "Box", "Rc"):
        return c.out(tmp(c.I, c.st, v, "arc"))
    if pa == "Mutex":
        return c.out(adt("Mutex", 0, v))
    if pa == "Option":
        return c.out(some(v))
    if pa in ("Vec", "VecDeque"):
        if b["k"] == "ref":
            v, _ = strip(c.I, c.st, v, b)
        if v.op == "arr":
            v = mk("list", *v.a)
        return c.out(v)
    if pa in ("AtomicImmut",):
        return c.out(adt("AtomicImmut", 0, v))
    if meth == "into" and a is not None and a.get("path"):
        # the local conversion
        for r in c.I.F.roots:
            if r["name"] == "from" and r.get("selfpath") == a["path"] and r.get("trait", "").endswith("::From") and r.get("inst"):
                if len(r["inputs"]) == 1 and sb and r["inputs"][0] == sb:
                    return c.I.call_body(r["inst"], [v], c.st)
    return None


def typed_i2f(v, ty):
    TYOF.setdefault(v, ty)
    return mk("i2f", v)


# ------------------------------------------------------------------------------------------------ strings
def cat(*ps):
    """concatenation of string values"""
    out = []
    for p in ps:
        if p.op == "cat":
            out.extend(p.a)
        elif p.op == "str":
            if p.a[0] == "":
                continue
            if out and out[-1].op == "str":
                out[-1] = string(out[-1].a[0] + p.a[0])
            else:
                out.append(p)
        elif p.op == "chr" and p.a[0].op == "int":
            x = string(chr(p.a[0].a[0]))
            if out and out[-1].op == "str":
                out[-1] = string(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
        else:
            out.append(p)
    # adjacent literals introduced by flattening
    res = []
    for p in out:
        if p.op == "str" and res and res[-1].op == "str":
            res[-1] = string(res[-1].a[0] + p.a[0])
        else:
            res.append(p)
    if not res:
        return string("")
    if len(res) == 1 and res[0].op not in ("chr",):
        return res[0]
    return mk("cat", *res)


REBUILD["cat"] = lambda a: cat(*a)


@model("ToString::to_string")
def _(c):
    t = c.targ(0)
    return show_into(c.I, c.st, c.v[0], t, None, "display", lambda s, piece: ret(piece, s))


def display_piece(I, st, p, ty):
    """the string value that Display of *p yields"""
    v, t = strip(I, st, p, {"k": "ref", "to": None} if False else None), None


def show_into(I, st, p, ty, spec, how, k):
    """p: pointer to a value of type node ty; k(st, piece) continues"""
    n = 0
    while ty is not None and ty["k"] == "ref" and n < 5:
        p = deref(I, st, p)
        ty = I.F.types[ty["to"]]
        n += 1
    path = (ty or {}).get("path", "")
    last = path.split("::")[-1]
    if last in ("Arc", "Box", "Rc") and ty.get("a"):
        p = deref(I, st, p)
        a = [x for x in ty["a"] if isinstance(x, int)]
        if a:
            return show_into(I, st, p, I.F.types[a[0]], spec, how, k)
    if how == "display" and path in I.F.adts:
        r = inst_of(I, path, "Display", "fmt")
        if r is not None:
            if I.cfg.inline_display is not None and I.cfg.inline_display(path, p):
                return display_adt(I, st, p, r, k, spec)
            root, pa = I.addr(p)
            if root.op in ("L", "H", "tmp"):
                v = I.load(st, root, pa)
                return k(st, mk("disp", path, "val", v, spec))
            return k(st, mk("disp", path, "ptr", p, spec))
    v = deref(I, st, p)
    if how == "display":
        if spec is None:
            if last == "String" or (ty is not None and ty["k"] == "str"):
                return k(st, v)
            if ty is not None and ty["s"] == "char":
                return k(st, cat(mk("chr", v)))
        if v.op == "fmtargs":
            return k(st, v.a[0])
        if last == "Arguments":
            return k(st, v)
    return k(st, mk("disp", (how + ":" if how != "display" else "") + (ty["s"] if ty else "?"), "val", v, spec))


def display_of(I, key):
    """the local type whose Display this is"""
    d = getattr(I.F, "_disp", None)
    if d is None:
        d = I.F._disp = {}
        for r in I.F.roots:
            if r.get("selfpath") in I.F.adts and (r.get("trait") or "").split("::")[-1] == "Display" and r["name"] == "fmt" and r.get("inst"):
                d[r["inst"]] = r["selfpath"]
    return d.get(key)


def show_whole(I, st, args, path):
    p = args[0]
    root, pa = I.addr(p)
    if root.op in ("L", "H", "tmp"):
        piece = mk("disp", path, "val", I.load(st, root, pa), None)
    else:
        piece = mk("disp", path, "ptr", p, None)
    return sink_write(I, st, args[1], piece)


def display_adt(I, st, p, r, k, spec):
    sink = mk("H", I.site(), "fmt", ())
    st.mem[sink] = string("")
    I.nsite += 1
    outs = []
    for kind, v, s in I.call_body(r["inst"], [p, mk("ref", sink, ())], st):
        if kind != "ret":
            outs.append((kind, v, s))
            continue
        piece = s.mem.get(sink)
        outs += k(s, piece)
    return outs


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_pointer", "Argument::new_upper_exp")
def _(c):
    t = [x for x in c.c.get("targs", []) if isinstance(x, int)]
    how = c.name.split("new_")[1]
    return c.out(mk("fmtarg", how, c.v[0], t[0] if t else -1))


@model("Argument::from_usize")
def _(c):
    return c.out(mk("fmtarg", "usize", c.v[0], -1))


def parse_template(bs):
    """pieces of a compiled format template: str or (arg index or None, spec or None)"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf-8", "replace"))
            i += n
        else:
            flags = width = prec = None
            if b & 1:
                flags = bs[i:i + 4]
                i += 4
            if b & 2:
                width = bs[i:i + 2]
                i += 2
            if b & 4:
                prec = bs[i:i + 2]
                i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            spec = None
            if flags is not None or width is not None or prec is not None:
                spec = (tuple(flags or ()), tuple(width or ()), tuple(prec or ()))
            out.append((nxt, spec))
            nxt += 1
    return out


def build_args(I, st, pieces, args, k):
    """k(st, string value)"""
    def go(i, acc, s):
        if i == len(pieces):
            return k(s, cat(*acc))
        p = pieces[i]
        if isinstance(p, str):
            return go(i + 1, acc + [string(p)], s)
        ix, spec = p
        a = args[ix] if ix < len(args) else mk("unk", "fmtarg")
        if a.op != "fmtarg":
            return go(i + 1, acc + [mk("disp", "?", "val", a, None)], s)
        ty = I.F.types[a.a[2]] if a.a[2] >= 0 else None
        I.nsite += 1
        return show_into(I, s, a.a[1], ty, spec, a.a[0], lambda s2, piece: go(i + 1, acc + [piece], s2))
    return go(0, [], st)


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_v1_formatted")
def _(c):
    t = c.v[0]
    t = deref(c.I, c.st, t) if t.op != "bytesc" else t
    a = deref(c.I, c.st, c.v[1])
    if t.op == "arr" and all(x.op == "int" for x in t.a):
        t = mk("bytesc", tuple(x.a[0] for x in t.a))
    if t.op != "bytesc" or a.op not in ("arr", "list"):
        c.I.unknown(c.st, "format template", t=t, a=a)
        return c.out(mk("fmtargs", mk("disp", "debug:?", "val", t, None)))
    return build_args(c.I, c.st, parse_template(t.a[0]), a.a, lambda s, v: ret(mk("fmtargs", v), s))


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def _(c):
    v = c.v[0]
    if v.op != "str":
        v = c.deref(v)
    if v.op == "arr" and v.a and all(x.op == "str" for x in v.a):
        v = cat(*v.a)
    return c.out(mk("fmtargs", v))


@model("Arguments::as_str", "Arguments::as_statically_known_str")
def _(c):
    v = c.deref(c.v[0])
    if v.op == "fmtargs" and v.a[0].op == "str":
        return c.out(some(v.a[0]))
    return c.out(NONE)


def fmtval(v):
    return v.a[0] if v.op == "fmtargs" else mk("disp", "args", "val", v, None)


@model("fmt::format", "format::format_inner")
def _(c):
    return c.out(fmtval(c.v[0]))


def sink_write(I, st, p, piece, wrap=True):
    """append to a String / Formatter behind p"""
    r, pa = I.addr(p)
    # a &mut &mut Formatter: follow references
    cur = I.load(st, r, pa)
    n = 0
    while cur.op == "ref" and n < 4:
        r, pa = I.addr(cur)
        cur = I.load(st, r, pa)
        n += 1
    new = cat(cur, piece)
    if pa:
        st.mem[r] = put(I.load(st, r), pa, new)
    else:
        st.mem[r] = new
    I.ev(st, "out", sink=mk("ref", r, pa), piece=piece)
    if not wrap:
        return ret(UNIT, st)
    outs = []
    if I.cfg.sink_err and r.op in ("D", "S"):
        s2 = st.copy()
        I.ev(s2, "sinkerr", sink=mk("ref", r, pa))
        outs.append(("ret", err(mk("sym", "fmt::Error")), s2))
    outs.append(("ret", ok(UNIT), st))
    return outs


@model("Formatter::write_fmt", "Write::write_fmt")
def _(c):
    return sink_write(c.I, c.st, c.v[0], fmtval(c.v[1]))


@model("Formatter::write_str", "Write::write_str", "Formatter::pad")
def _(c):
    return sink_write(c.I, c.st, c.v[0], strv(c.I, c.st, c.v[1]))


@model("Formatter::write_char", "Write::write_char")
def _(c):
    return sink_write(c.I, c.st, c.v[0], mk("chr", c.v[1]))


@model("String::push_str", "String::push", "AddAssign::add_assign")
def _(c):
    if c.name == "AddAssign::add_assign":
        t = c.targ(0)
        if (t or {}).get("path", "").split("::")[-1] != "String":
            if t and t["s"] == "f64":
                v, _ = strip(c.I, c.st, c.v[1], c.targ(1))
                setp(c.I, c.st, c.v[0], fbin("add", c.deref(c.v[0]), v))
                return c.out(UNIT)
            if t and t["s"] in INTS:
                v, _ = strip(c.I, c.st, c.v[1], c.targ(1))
                setp(c.I, c.st, c.v[0], iadd(c.deref(c.v[0]), v, t["s"]))
                return c.out(UNIT)
            return None
    piece = mk("chr", c.v[1]) if c.name == "String::push" else strv(c.I, c.st, c.v[1])
    return sink_write(c.I, c.st, c.v[0], piece, wrap=False)


@model("Add::add")
def _(c):
    t, u = c.targ(0), c.targ(1)
    if (t or {}).get("path", "").split("::")[-1] == "String":
        return c.out(cat(c.v[0], strv(c.I, c.st, c.v[1])))
    a, ta = strip(c.I, c.st, c.v[0], t)
    b, tb = strip(c.I, c.st, c.v[1], u)
    if ta and ta["s"] == "f64":
        return c.out(fbin("add", a, b))
    if ta and ta["s"] in INTS:
        return c.out(iadd(a, b, ta["s"]))
    return timeop(c, "add", a, b, ta, tb)


def timeop(c, op, a, b, ta, tb):
    """arithmetic on times: panics where the result has no representation"""
    last = lambda t: (t or {}).get("path", "").split("::")[-1]
    x, y = last(ta), last(tb)
    if x in ("SystemTime", "Instant") and y == "Duration" and op in ("add", "sub"):
        t = mk("t" + op, a, b)
        out = []
        for f, s in c.I.fork(c.st, mk("representable", t)):
            out += [("ret", t, s)] if f else c.I.panic(s, "time overflow", None, ops=(a, b))
        return out
    if x == "Instant" and y == "Instant" and op == "sub":
        return c.out(mk("tdiff", a, b))
    if "Duration" in (x, y):
        t = mk("dur" + op, a, b)
        out = []
        for f, s in c.I.fork(c.st, mk("representable", t)):
            out += [("ret", t, s)] if f else c.I.panic(s, "duration overflow", None, ops=(a, b))
        return out
    return None


@model("Duration::saturating_sub", "Duration::saturating_add", "Duration::saturating_mul", "Duration::mul_f64", "Duration::div_f64")
def _(c):
    return c.out(mk("dur" + c.name.split("::")[1], *c.v))


@model("Duration::checked_sub", "Duration::checked_add", "Duration::checked_mul", "Duration::checked_div")
def _(c):
    t = mk("dur" + c.name.split("_")[1], *c.v)
    out = []
    for f, s in c.I.fork(c.st, mk("representable", t)):
        out.append(("ret", some(t) if f else NONE, s))
    return out


@model("Sub::sub", "Mul::mul", "Div::div")
def _(c):
    op = c.name.split("::")[1]
    a, ta = strip(c.I, c.st, c.v[0], c.targ(0))
    b, tb = strip(c.I, c.st, c.v[1], c.targ(1))
    if ta and ta["s"] == "f64":
        return c.out(fbin(op, a, b))
    if ta and ta["s"] in INTS:
        return c.out({"sub": isub, "mul": imul, "div": idiv}[op](a, b, ta["s"]))
    return timeop(c, op, a, b, ta, tb)


@model("Neg::neg")
def _(c):
    a, ta = strip(c.I, c.st, c.v[0], c.targ(0))
    if ta and ta["s"] == "f64":
        return c.out(fneg(a))
    return None


def strv(I, st, p):
    """string value behind a &str / &String"""
    if p.op == "str":
        return p
    v = deref(I, st, p)
    n = 0
    while v.op == "ref" and n < 3:
        v = deref(I, st, v)
        n += 1
    return v


@model("String::new", "String::with_capacity")
def _(c):
    return c.out(string(""))


@model("String::clear")
def _(c):
    setp(c.I, c.st, c.v[0], string(""))
    return c.out(UNIT)


@model("String::as_str", "String::as_mut_str", "str::as_str", "String::into_boxed_str", "str::trim_noop", "Vec::as_slice", "Vec::as_mut_slice", "str::as_ref",
       "String::borrow", "slice::as_slice")
def _(c):
    return c.out(c.v[0])


@model("str::to_string", "str::to_owned", "String::from_str", "str::into", "slice::to_vec", "slice::to_owned", "Vec::to_vec")
def _(c):
    return c.out(c.deref(c.v[0]))


@model("String::len", "str::len")
def _(c):
    return c.out(seqlen(strv(c.I, c.st, c.v[0])))


@model("String::is_empty", "str::is_empty")
def _(c):
    return c.out(str_empty(strv(c.I, c.st, c.v[0])))


def str_empty(v):
    if v.op == "str":
        return boolean(v.a[0] == "")
    return cmp_eq("i", seqlen(chars(v)), ZERO)


def chars(v):
    return mk("chars", v)


@model("str::chars")
def _(c):
    return c.out(mk("it", "chars", strv(c.I, c.st, c.v[0]), ZERO))


@model("str::bytes")
def _(c):
    return c.out(mk("it", "bytes", strv(c.I, c.st, c.v[0]), ZERO))


@model("str::char_indices")
def _(c):
    return c.out(mk("it", "charidx", strv(c.I, c.st, c.v[0]), ZERO))


@model("str::as_bytes", "String::as_bytes", "String::into_bytes")
def _(c):
    s = strv(c.I, c.st, c.v[0])
    v = mk("bytes", s)
    if c.name == "String::into_bytes":
        return c.out(v)
    return c.out(tmp(c.I, c.st, v, "bytes"))


@model("str::starts_with", "str::ends_with", "str::contains")
def _(c):
    s = strv(c.I, c.st, c.v[0])
    p = c.v[1]
    what = c.name.split("::")[1]
    if p.op == "int":
        p = string(chr(p.a[0]))
    elif p.op in ("ref",) or p.op == "deref" or p.op == "proj":
        t = c.ty[1] if c.ty else None
        if t is not None and c.I.F.types[t]["k"] == "ref":
            p = strv(c.I, c.st, p)
    if p.op in ("clo", "fn"):
        if what == "starts_with":
            # the first character satisfies the predicate
            out = []
            for b, s1 in c.I.fork(c.st, str_empty(s)):
                if b:
                    out.append(("ret", FALSE, s1))
                else:
                    out += c.I.call_value(s1, p, [proj(chars(s), ("i", ZERO))])
            return out
        if what == "contains":
            it = mk("it", "chars", s, ZERO)
            return search(c.I, c.st, it, p, "any")
        return None
    if p.op == "arr":
        return None
    if s.op == "str" and p.op == "str":
        f = {"starts_with": s.a[0].startswith, "ends_with": s.a[0].endswith, "contains": s.a[0].__contains__}[what]
        return c.out(boolean(f(p.a[0])))
    if what == "contains" and p.op == "str" and len(p.a[0]) == 1 or p.op == "proj":
        return c.out(mk("strhas", s, p))
    return c.out(mk(what, s, p))


@model("str::replace")
def _(c):
    s = strv(c.I, c.st, c.v[0])
    p = c.v[1]
    if p.op == "int":
        p = string(chr(p.a[0]))
    elif p.op not in ("clo", "fn", "arr"):
        p = strv(c.I, c.st, p)
    r = strv(c.I, c.st, c.v[2])
    if s.op == "str" and p.op == "str" and r.op == "str":
        return c.out(string(s.a[0].replace(p.a[0], r.a[0])))
    return c.out(mk("replace", s, p, r))


@model("slice::concat", "slice::join", "Join::join", "Concat::concat")
def _(c):
    v = c.deref(c.v[0])
    sep = strv(c.I, c.st, c.v[1]) if len(c.v) > 1 else string("")
    if v.op in ("list", "arr"):
        out = []
        for i, x in enumerate(v.a):
            if i and sep.op == "str" and sep.a[0]:
                out.append(sep)
            out.append(strv(c.I, c.st, x) if x.op in ("ref", "str") else x)
        return c.out(cat(*out))
    return c.out(mk("join", v, sep))


@model("str::eq_ignore_ascii_case", "str::trim", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::trim_start", "str::trim_end",
       "str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::trim_left", "str::trim_right")
def _(c):
    args = [strv(c.I, c.st, v) for v in c.v]
    r = mk("strfn", c.name, *args)
    if "case" not in c.name:
        return c.out(tmp(c.I, c.st, r, "strfn"))
    return c.out(r)


def cclass(name, x):
    S = {
        "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_digit": ((48, 57),), "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
        "is_ascii_uppercase": ((65, 90),), "is_ascii_lowercase": ((97, 122),), "is_ascii": ((0, 127),),
        "is_ascii_graphic": ((33, 126),), "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)), "is_ascii_control": ((0, 31), (127, 127)),
        "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)), "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    }[name]
    return mk("inset", x, S)


for _n in ("is_ascii_alphabetic", "is_ascii_digit", "is_ascii_alphanumeric", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii", "is_ascii_graphic",
           "is_ascii_whitespace", "is_ascii_control", "is_ascii_punctuation", "is_ascii_hexdigit"):
    def _mkf(n):
        def f(c):
            x = c.v[0]
            if c.ty and c.ty[0] is not None and c.I.F.types[c.ty[0]]["k"] == "ref":
                x = c.deref(x)
            if x.op not in ("int",) and "::str::" not in c.c["nice"]:
                return c.out(cclass(n, x))
            if x.op == "int":
                return c.out(boolean(any(lo <= x.a[0] <= hi for lo, hi in cclass(n, mk("sym", "x")).a[1])))
            return None
        return f
    for _ct in ("char", "u8", "methods", "num", "ascii"):
        FN["%s::%s" % (_ct, _n)] = _mkf(_n)


@model("char::is_alphabetic", "char::is_alphanumeric", "char::is_numeric", "char::is_whitespace", "char::is_digit", "char::is_control", "char::is_uppercase", "char::is_lowercase",
       "methods::is_alphabetic", "methods::is_alphanumeric", "methods::is_numeric", "methods::is_whitespace", "methods::is_digit", "methods::is_control")
def _(c):
    n = c.name.split("::")[1]
    # exact on ASCII; beyond ASCII these classes contain further characters
    A = {"is_alphabetic": ((65, 90), (97, 122), (0xAA, 0xAA), (0xB5, 0xB5), (0xBA, 0xBA), (0xC0, 0x10FFFF)),
         "is_alphanumeric": ((48, 57), (65, 90), (97, 122), (0xAA, 0xAA), (0xB2, 0xB3), (0xB5, 0xB5), (0xB9, 0xBA), (0xBC, 0x10FFFF))}.get(n)
    if A:
        # an over-approximation of the accepted set: "accepted" is decided by an atom beyond ASCII
        t = mk("ucls", n, c.v[0])
        out = []
        for b, s in c.I.fork(c.st, mk("inset", c.v[0], ((0, 127),))):
            if b:
                out.append(("ret", mk("inset", c.v[0], tuple(x for x in A if x[1] < 128)), s))
            else:
                out.append(("ret", mk("and", mk("inset", c.v[0], A), t), s))
        return out
    return c.out(mk("ucls", n, c.v[0]))


# ------------------------------------------------------------------------------------------------ comparisons
def tykind(ty):
    if ty is None:
        return "g"
    if ty["s"] in ("f64", "f32"):
        return "f"
    if ty["s"] in INTS:
        return "i"
    p = ty.get("path", "").split("::")[-1]
    if p in ("Duration", "SystemTime", "Instant"):
        return "t"
    return "g"


def teq(I, st, a, b, ty):
    k = tykind(ty)
    return cmp_eq(k, a, b)


@model("PartialEq::eq", "PartialEq::ne", "String::eq")
def _(c):
    ne = c.name.endswith("ne")
    ta, tb = c.targ(0), c.targ(1)
    if c.c.get("inst") and (ta is None or tykind(ta) == "g" and not strlike(c.I, ta)):
        return None
    a, t = strip(c.I, c.st, c.deref(c.v[0]), ta)
    b, t2 = strip(c.I, c.st, c.deref(c.v[1]), tb)
    if t is not None and t.get("path", "").split("::")[-1] == "Vec" or t is not None and t["k"] in ("slice", "array"):
        r = mk("seqeq", *sorted((a, b), key=lambda x: x.id)) if a is not b else TRUE
        return c.out(lnot(r) if ne else r)
    if c.c.get("inst") and t is not None and t.get("path") in c.I.F.adts:
        return None
    r = teq(c.I, c.st, a, b, t)
    return c.out(lnot(r) if ne else r)


def strlike(I, t):
    n = 0
    while t["k"] == "ref" and n < 4:
        t = I.F.types[t["to"]]
        n += 1
    return t["k"] == "str" or t.get("path", "").split("::")[-1] in ("String",) or t["s"] in INTS or t["s"] == "f64"


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _(c):
    ta, tb = c.targ(0), c.targ(0 if c.name == "Ord::cmp" else 1)
    a, t = strip(c.I, c.st, c.deref(c.v[0]), ta)
    b, t2 = strip(c.I, c.st, c.deref(c.v[1]), tb or ta)
    k = tykind(t)
    if k == "g" and c.c.get("inst") and not strlike(c.I, t):
        return None
    if t is not None and t.get("path") in c.I.F.adts:
        return None
    r = mk("cmp", k, a, b)
    if a.op == "int" and b.op == "int":
        r = adt("core::cmp::Ordering", 0 if a.a[0] < b.a[0] else 1 if a.a[0] == b.a[0] else 2)
    if c.name == "Ord::cmp":
        return c.out(r)
    if k != "f":
        return c.out(some(r))
    out = []
    m = c.st.getrel("f", a, b)
    if m & UN:
        s2 = c.st.copy()
        if s2.setrel("f", a, b, UN):
            out.append(("ret", NONE, s2))
    if m & ~UN:
        if c.st.setrel("f", a, b, LT | EQ | GT):
            out.append(("ret", some(r), c.st))
    return out


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(c):
    m = c.name.split("::")[1]
    ta, tb = c.targ(0), c.targ(1)
    a, t = strip(c.I, c.st, c.deref(c.v[0]), ta)
    b, t2 = strip(c.I, c.st, c.deref(c.v[1]), tb or ta)
    k = tykind(t)
    if k == "g" and not strlike(c.I, t):
        return None
    r = {"lt": lambda: cmp_lt(k, a, b), "le": lambda: cmp_le(k, a, b), "gt": lambda: cmp_lt(k, b, a), "ge": lambda: cmp_le(k, b, a)}[m]()
    return c.out(r)


def tmax(op, k, a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return a if (a.a[0] > b.a[0]) == (op == "max") else b
    if k == "g" and op == "max":
        # Option<T> as ordered by core: None is the least
        if a is NONE:
            return b
        if b is NONE:
            return a
    if a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


@model("cmp::max", "Ord::max", "cmp::min", "Ord::min")
def _(c):
    op = c.name.split("::")[1]
    t = c.targ(0)
    k = tykind(t)
    if t is not None and t["s"] in INTS:
        for v in c.v:
            if v.op not in ("int", "lin"):
                TYOF.setdefault(v, t["s"])
    r = tmax(op, k, c.v[0], c.v[1])
    if t is not None and t.get("path") == OPT and r.op in ("max", "min"):
        return c.out(r)
    return c.out(r)


@model("Ord::clamp")
def _(c):
    return c.out(tmax("min", "i", tmax("max", "i", c.v[0], c.v[1]), c.v[2]))


@model("intrinsics::integer_min", "intrinsics::integer_max")
def _(c):
    t = c.targ(0)
    return c.out(tmax(c.name[-3:], "i", c.v[0], c.v[1]))


# ------------------------------------------------------------------------------------------------ floats
def fpred(name):
    def f(c):
        x = c.v[0]
        if x.op == "f64":
            v = ffrom(x.a[0])
            import math
            r = {"isnan": v != v, "isfin": v == v and abs(v) != float("inf"), "isinf": abs(v) == float("inf"),
                 "signpos": math.copysign(1, v) > 0}[name]
            return c.out(boolean(r))
        return c.out(mk(name, x))
    return f


FN["f64::is_nan"] = fpred("isnan")
FN["f64::is_finite"] = fpred("isfin")
FN["f64::is_infinite"] = fpred("isinf")
FN["f64::is_sign_positive"] = fpred("signpos")


@model("f64::is_sign_negative")
def _(c):
    r = fpred("signpos")(c)
    return ret(lnot(r[0][1]), c.st)


@model("f64::floor", "f64::ceil", "f64::trunc", "f64::round", "f64::fract", "f64::abs", "f64::sqrt", "f64::ln", "f64::exp", "f64::round_ties_even", "f64::signum", "f64::recip")
def _(c):
    n = c.name.split("::")[1]
    x = c.v[0]
    if n in ("floor", "ceil", "trunc", "abs"):
        return c.out(frnd(n, x))
    return c.out(mk(n, x))


@model("f64::powi", "f64::powf", "f64::mul_add", "f64::rem_euclid")
def _(c):
    n = c.name.split("::")[1]
    if n in ("powi", "powf") and c.v[0].op == "f64" and c.v[1].op in ("int", "f64"):
        x, y = ffrom(c.v[0].a[0]), c.v[1].a[0] if c.v[1].op == "int" else ffrom(c.v[1].a[0])
        try:
            z = x ** int(y) if y == int(y) and abs(y) < 64 else None
        except (OverflowError, ZeroDivisionError, ValueError):
            z = None
        if z is not None and z == z and abs(z) < 2.0 ** 53 and z == int(z):
            return c.out(flt(z))    # whole numbers: exact
    return c.out(mk(n, *c.v))


@model("f64::max", "f64::min")
def _(c):
    return c.out(mk("f" + c.name.split("::")[1], *sorted(c.v, key=lambda x: x.id)))


@model("f64::to_bits")
def _(c):
    from .interp import tobits
    return c.out(tobits(c.v[0]))


@model("f64::from_bits")
def _(c):
    from .interp import frombits
    return c.out(frombits(c.v[0]))


@model("f64::total_cmp")
def _(c):
    return c.out(mk("cmp", "ft", c.deref(c.v[0]), c.deref(c.v[1])))


@model("num::wrapping_add", "num::wrapping_sub", "num::saturating_sub", "num::saturating_add", "num::checked_add", "num::checked_sub", "num::min", "num::max",
       "usize::saturating_sub", "usize::wrapping_add", "u64::wrapping_add", "u64::wrapping_sub", "u64::saturating_add", "u64::saturating_sub", "usize::checked_sub", "u64::checked_add", "u64::checked_sub",
       "usize::saturating_add", "usize::checked_add", "usize::wrapping_sub", "i64::saturating_add", "i64::saturating_mul", "i64::wrapping_add", "i64::checked_add", "num::saturating_mul", "u64::saturating_mul", "i64::checked_mul", "i64::wrapping_mul", "u64::wrapping_mul")
def _(c):
    m = c.name.split("::")[1]
    ty = None
    if c.ty and c.ty[0] is not None:
        ty = c.I.F.types[c.ty[0]]["s"]
    if ty not in INTS:
        ty = "u64"
    a, b = c.v[0], c.v[1]
    op = isub if "sub" in m else imul if "mul" in m else iadd
    if m.startswith("wrapping"):
        return c.out(op(a, b, ty))
    if ty[0] == "u" and "sub" in m:
        out = []
        for f, s in c.I.fork(c.st, cmp_le("i", b, a)):
            if f:
                r = isub(a, b, ty)
                out.append(("ret", some(r) if m.startswith("checked") else r, s))
            else:
                out.append(("ret", NONE if m.startswith("checked") else integer(0, ty), s))
        return out
    # sums that saturate or overflow need 2^63 operations: treated as exact
    r = op(a, b, ty)
    return c.out(some(r) if m.startswith("checked") else r)


# ------------------------------------------------------------------------------------------------ atomics
def aev(c, op, **d):
    if op != "load" and private(c) is not None:
        setp(c.I, c.st, c.v[0], adt("Atomic", 0, d["new"]))
    return c.I.ev(c.st, "atomic", op=op, cell=c.v[0], **d)


@model("Atomic::new", "AtomicU64::new", "AtomicI64::new", "AtomicUsize::new", "AtomicBool::new", "AtomicU32::new", "AtomicI32::new", "AtomicIsize::new")
def _(c):
    return c.out(adt("Atomic", 0, c.v[0]))


def acell(p):
    return p


def aty(c):
    n = c.c.get("rself") or ""
    m = re.search(r"Atomic<(\w+)>", n)
    if m:
        return m.group(1)
    t = c.targ(0)
    if t and t["s"] in INTS:
        return t["s"]
    m = re.search(r"Atomic(U|I)(\d+|size)", c.c.get("nice", ""))
    if m:
        return m.group(1).lower() + m.group(2)
    return "u64"


def private(c):
    """the cell that only the function being analysed can reach, if it is one"""
    r, pa = c.I.addr(c.v[0])
    if r.op in ("L", "tmp") or (r.op == "H" and r.a[0] == "client"):
        v = c.I.load(c.st, r, pa)
        if v.op == "adt" and v.a[0] == "Atomic":
            return v
    return None


def afresh(c, tag="aload"):
    v = mk(tag, c.v[0], c.I.site())
    TYOF[v] = aty(c)
    return v


for _A in ("Atomic", "AtomicU64", "AtomicI64", "AtomicUsize", "AtomicU32", "AtomicI32", "AtomicIsize", "AtomicBool"):
    def _reg(A):
        @model(A + "::load")
        def _(c):
            p = private(c)
            v = afresh(c) if p is None else p.a[2]
            aev(c, "load", val=v)
            return c.out(v)

        @model(A + "::store")
        def _(c):
            aev(c, "store", new=c.v[1])
            return c.out(UNIT)

        @model(A + "::swap")
        def _(c):
            v = afresh(c)
            aev(c, "swap", new=c.v[1], old=v)
            return c.out(v)

        @model(A + "::fetch_add")
        def _(c):
            v = afresh(c)
            aev(c, "rmw", old=v, new=iadd(v, c.v[1], aty(c)))
            return c.out(v)

        @model(A + "::fetch_sub")
        def _(c):
            v = afresh(c)
            aev(c, "rmw", old=v, new=isub(v, c.v[1], aty(c)))
            return c.out(v)

        @model(A + "::fetch_max", A + "::fetch_min", A + "::fetch_or", A + "::fetch_and", A + "::fetch_xor", A + "::fetch_nand")
        def _(c):
            v = afresh(c)
            m = c.name.split("fetch_")[1]
            new = tmax(m, "i", v, c.v[1]) if m in ("max", "min") else mk("bin" + m, v, c.v[1])
            aev(c, "rmw", old=v, new=new)
            return c.out(v)

        @model(A + "::compare_exchange_weak", A + "::compare_exchange")
        def _(c):
            exp, new = c.v[1], c.v[2]
            s2 = c.st.copy()
            # failure: somebody else's value is returned
            v = mk("casfail", c.v[0], c.I.site())
            TYOF[v] = aty(c)
            c.I.ev(s2, "atomic", op="casfail", cell=c.v[0], exp=exp, val=v)
            aev(c, "cas", exp=exp, new=new)
            return [("ret", ok(exp), c.st), ("ret", err(v), s2)]

        @model(A + "::compare_and_swap")
        def _(c):
            exp, new = c.v[1], c.v[2]
            v = mk("casfail", c.v[0], c.I.site())
            TYOF[v] = aty(c)
            s2 = c.st.copy()
            c.I.ev(s2, "atomic", op="casfail", cell=c.v[0], exp=exp, val=v)
            s2.assume(cmp_eq("i", v, exp), False)
            aev(c, "cas", exp=exp, new=new)
            return [("ret", exp, c.st), ("ret", v, s2)]

        @model(A + "::fetch_update", A + "::try_update", A + "::update")
        def _(c):
            upd = c.name.endswith("::update")
            outs = []
            v = afresh(c)
            s0 = c.st
            c.I.nsite += 1
            for kind, r, s in c.I.call_value(s0, c.v[3], [v]):
                if kind != "ret":
                    outs.append((kind, r, s))
                    continue
                if upd:
                    c.I.ev(s, "atomic", op="rmw", cell=c.v[0], old=v, new=r)
                    outs.append(("ret", v, s))
                    continue
                for var, s2 in c.I.variants(s, r):
                    if var == 1:
                        c.I.ev(s2, "atomic", op="rmw", cell=c.v[0], old=v, new=c.I.payload(r, 1))
                        outs.append(("ret", ok(v), s2))
                    else:
                        outs.append(("ret", err(v), s2))
            return outs

        @model(A + "::into_inner", A + "::get_mut")
        def _(c):
            if c.name.endswith("into_inner"):
                return c.out(proj(c.v[0], ("f", 0)))
            r, pa = c.I.addr(c.v[0])
            return c.out(mk("ref", r, pa + (("f", 0),)))
    _reg(_A)


@model("AtomicImmut::new")
def _(c):
    return c.out(adt("AtomicImmut", 0, c.v[0]))


@model("AtomicImmut::load")
def _(c):
    v = mk("immld", c.v[0], c.I.site())
    c.I.ev(c.st, "imm", op="load", cell=c.v[0], val=v)
    return c.out(v)


@model("AtomicImmut::store", "AtomicImmut::swap")
def _(c):
    c.I.ev(c.st, "imm", op="store", cell=c.v[0], new=c.v[1])
    return c.out(UNIT if c.name.endswith("store") else mk("immld", c.v[0], c.I.site()))


@model("AtomicImmut::update")
def _(c):
    old = mk("immcur", c.v[0], c.I.site())
    outs = []
    for kind, r, s in c.I.call_value(c.st, c.v[1], [old]):
        if kind == "ret":
            c.I.ev(s, "imm", op="update", cell=c.v[0], old=mk("deref", old), new=r)
            outs.append(("ret", UNIT, s))
        else:
            outs.append((kind, r, s))
    return outs


# ------------------------------------------------------------------------------------------------ locks, channels
@model("Mutex::new", "RwLock::new")
def _(c):
    return c.out(adt("Mutex", 0, c.v[0]))


def lock(c, blocking=True):
    I, st = c.I, c.st
    r, pa = I.addr(c.v[0])
    outs = []
    g = mk("guard", c.v[0])
    I.ev(st, "lock", cell=c.v[0], blocking=blocking, held=tuple(st.mem.get(HELD, UNIT).a))
    content = pa + (("f", 0),)
    cur = I.load(st, r)
    st.mem[r] = put(cur, content, mk("locked", c.v[0], I.site()))
    if I.cfg.poison:
        s2 = st.copy()
        I.ev(s2, "poisoned", cell=c.v[0])
        e = adt(POISON, 0, g)
        if not blocking:
            e = mk("adt", "TryLockError", 0, e)
        outs.append(("ret", err(e), s2))
    if not blocking:
        s3 = st.copy()
        I.ev(s3, "unlock", cell=c.v[0], failed=True)
        outs.append(("ret", err(mk("adt", "TryLockError", 1)), s3))
    outs.append(("ret", ok(g), st))
    return outs


HELD = mk("held")


@model("Mutex::lock", "RwLock::write", "RwLock::read")
def _(c):
    return lock(c)


@model("Mutex::try_lock", "RwLock::try_read", "RwLock::try_write")
def _(c):
    return lock(c, False)


@model("PoisonError::into_inner")
def _(c):
    return c.out(proj(c.v[0], ("f", 0)))


@model("PoisonError::get_ref", "PoisonError::get_mut")
def _(c):
    r, pa = c.I.addr(c.v[0])
    return c.out(mk("ref", r, pa + (("f", 0),)))


@model("Mutex::is_poisoned", "Mutex::clear_poison")
def _(c):
    return c.out(mk("ispoisoned", c.v[0]) if "is_" in c.name else UNIT)


@model("mpsc::channel", "mpsc::sync_channel")
def _(c):
    ch = c.I.site(9)
    return c.out(tup(mk("tx", ch), mk("rx", ch)))


@model("Sender::send", "SyncSender::send")
def _(c):
    tx = c.deref(c.v[0])
    s2 = c.st.copy()
    c.I.ev(c.st, "send", chan=tx, val=c.v[1], blocking=c.name.startswith("Sync"))
    c.I.ev(s2, "sendfail", chan=tx, val=c.v[1])
    return [("ret", ok(UNIT), c.st), ("ret", err(adt("SendError", 0, c.v[1])), s2)]


@model("SyncSender::try_send")
def _(c):
    tx = c.deref(c.v[0])
    s2, s3 = c.st.copy(), c.st.copy()
    c.I.ev(c.st, "send", chan=tx, val=c.v[1], blocking=False)
    c.I.ev(s2, "sendfail", chan=tx, val=c.v[1])
    c.I.ev(s3, "sendfull", chan=tx, val=c.v[1])
    return [("ret", ok(UNIT), c.st), ("ret", err(adt("TrySendError", 1, c.v[1])), s2), ("ret", err(adt("TrySendError", 0, c.v[1])), s3)]


@model("Receiver::try_recv", "Receiver::recv", "Receiver::recv_timeout")
def _(c):
    rx = c.deref(c.v[0])
    v = mk("recvd", rx, c.I.site())
    s2 = c.st.copy()
    c.I.ev(c.st, "recv", chan=rx, val=v, blocking=not c.name.endswith("try_recv"))
    c.I.ev(s2, "recvempty", chan=rx)
    return [("ret", ok(v), c.st), ("ret", err(mk("sym", "TryRecvError")), s2)]


@model("Receiver::try_iter", "Receiver::iter")
def _(c):
    return c.out(mk("it", "recv", c.deref(c.v[0]), boolean(c.name.endswith("::iter"))))


# ------------------------------------------------------------------------------------------------ errors (trackable)
@model("ErrorKindExt::cause", "ErrorKindExt::error", "ErrorKindExt::takes_over")
def _(c):
    k = c.v[0]
    # an event of its own, so that what is known of a refused operation is not forgotten where its course joins others
    c.I.ev(c.st, "refuse", what=k)
    return c.out(adt(TRACK, 0, k))


@model("Trackable::track")
def _(c):
    return c.out(c.v[0])


@model("Trackable::track_err", "Track::track")
def _(c):
    return c.out(c.v[0])


@model("TrackableError::kind")
def _(c):
    r, pa = c.I.addr(c.v[0])
    return c.out(mk("ref", r, pa + (("f", 0),)))


@model("Location::new", "Trackable::history", "Trackable::history_mut", "Error::source", "Error::cause", "TrackableError::new", "Location::unknown")
def _(c):
    return c.out(mk("opaque", c.name, *c.v))


# ------------------------------------------------------------------------------------------------ panics
def panics(c, why, **d):
    r = c.I.panic(c.st, why, None, **d)
    return r


@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::panic_explicit", "panicking::assert_failed", "option::expect_failed", "option::unwrap_failed",
       "unwrap_failed::unwrap_failed_inner", "result::unwrap_failed", "panicking::unreachable_display", "panicking::panic_bounds_check", "rt::begin_panic", "panicking::assert_failed_inner",
       "panicking::panic_str_2015", "panicking::begin_panic", "panicking::panic_nounwind", "option::expect_none_failed", "panic::panic_any", "panicking::unreachable")
def _(c):
    return panics(c, c.name, args=tuple(c.v))


@model("process::abort", "process::exit", "intrinsics::abort")
def _(c):
    c.I.ev(c.st, "abort", why=c.name)
    return []


@model("panic::catch_unwind")
def _(c):
    outs = []
    for kind, v, s in c.I.call_value(c.st, c.v[0] if c.v[0].op != "adt" else c.v[0].a[2], []):
        outs.append(("ret", ok(v) if kind == "ret" else err(mk("sym", "panic payload")), s))
    return outs


@model("panic::resume_unwind")
def _(c):
    return [("unwind", UNIT, c.st)]


# ------------------------------------------------------------------------------------------------ time
@model("Instant::now", "SystemTime::now")
def _(c):
    v = mk("now", c.name.split("::")[0], c.I.site())
    c.I.ev(c.st, "now", clock=c.name.split("::")[0], val=v)
    return c.out(v)


@model("functions::panicking", "thread::panicking", "panicking::panicking")
def _(c):
    return c.out(mk("panicking", c.I.site()))


@model("Instant::elapsed")
def _(c):
    n = mk("now", "Instant", c.I.site())
    c.I.ev(c.st, "now", clock="Instant", val=n)
    return c.out(mk("tdiff", n, c.deref(c.v[0])))


@model("SystemTime::elapsed")
def _(c):
    n = mk("now", "SystemTime", c.I.site())
    c.I.ev(c.st, "now", clock="SystemTime", val=n)
    return tdiff(c, n, c.deref(c.v[0]))


def tdiff(c, a, b):
    """a.duration_since(b): Ok iff b <= a"""
    out = []
    for f, s in c.I.fork(c.st, cmp_le("t", b, a)):
        if f:
            out.append(("ret", ok(mk("tdiff", a, b)), s))
        else:
            out.append(("ret", err(adt("SystemTimeError", 0, mk("tdiff", b, a))), s))
    return out


@model("SystemTime::duration_since")
def _(c):
    return tdiff(c, c.deref(c.v[0]), c.v[1])


@model("Instant::duration_since", "Instant::saturating_duration_since")
def _(c):
    return c.out(mk("tdiff", c.deref(c.v[0]), c.v[1]))


@model("Instant::checked_duration_since")
def _(c):
    a, b = c.deref(c.v[0]), c.v[1]
    out = []
    for f, s in c.I.fork(c.st, cmp_le("t", b, a)):
        out.append(("ret", some(mk("tdiff", a, b)) if f else NONE, s))
    return out


@model("SystemTimeError::duration")
def _(c):
    return c.out(proj(c.deref(c.v[0]), ("f", 0)))


@model("SystemTime::checked_sub", "SystemTime::checked_add", "Instant::checked_sub", "Instant::checked_add")
def _(c):
    t = mk("tsub" if c.name.endswith("sub") else "tadd", c.deref(c.v[0]), c.v[1])
    out = []
    for f, s in c.I.fork(c.st, mk("representable", t)):
        out.append(("ret", some(t) if f else NONE, s))
    return out


def dur(name, ty):
    def f(c):
        d = c.v[0]
        if c.ty and c.ty[0] is not None and c.I.F.types[c.ty[0]]["k"] == "ref":
            d = c.deref(d)
        v = mk("dur_" + name, d)
        if ty:
            TYOF[v] = ty
        return c.out(v)
    return f


for _n, _t in (("as_secs", "u64"), ("subsec_nanos", "u32"), ("subsec_millis", "u32"), ("subsec_micros", "u32"), ("as_millis", "u128"), ("as_nanos", "u128"), ("as_micros", "u128"),
               ("as_secs_f64", None), ("as_secs_f32", None), ("is_zero", None)):
    FN["Duration::" + _n] = dur(_n, _t)


@model("Duration::new", "Duration::from_secs", "Duration::from_millis", "Duration::from_nanos", "Duration::from_micros", "Duration::from_secs_f64")
def _(c):
    r = mk("mkdur", c.name.split("::")[1], *c.v)
    if c.name.endswith("from_secs_f64"):
        # panics for what is no duration
        outs = []
        for f, s in c.I.fork(c.st, cmp_le("f", flt(0.0), c.v[0])):
            outs += [("ret", r, s)] if f else c.I.panic(s, "no duration", None, ops=(c.v[0],))
        return outs
    return c.out(r)


# ------------------------------------------------------------------------------------------------ system
@model("unix::sysconf", "libc::sysconf", "linux_like::sysconf")
def _(c):
    return c.out(mk("sysconf", c.v[0]))


@model("limits::limits_self", "stat::stat_self", "status::status_self", "statm::statm_self", "pid::stat_self", "pid::limits_self", "pid::status_self", "pid::statm_self")
def _(c):
    n = c.name.split("::")[1]
    v = mk("procinfo", n, c.I.site())
    out = []
    for f, s in c.I.fork(c.st, mk("isok", v)):
        out.append(("ret", ok(v) if f else err(mk("sym", "io error")), s))
    return out


# ------------------------------------------------------------------------------------------------ vectors
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def _(c):
    return c.out(mk("list"))


@model("vec::from_elem")
def _(c):
    return c.out(mk("repeatv", *c.v))


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "VecDeque::reserve", "VecDeque::shrink_to_fit")
def _(c):
    return c.out(UNIT)


@model("Vec::capacity", "String::capacity")
def _(c):
    return c.out(mk("cap", c.deref(c.v[0])))


def vpush(v, x):
    if v.op == "list":
        return mk("list", *(v.a + (x,)))
    return mk("push", v, x)


def vappend(v, w):
    if w.op == "list":
        for x in w.a:
            v = vpush(v, x)
        return v
    if v.op == "list" and not v.a:
        return w
    if w.op == "append":
        return vappend(vappend(v, w.a[0]), w.a[1])
    if w.op == "push":
        return vpush(vappend(v, w.a[0]), w.a[1])
    return mk("append", v, w)


@model("Vec::push", "VecDeque::push_back")
def _(c):
    setp(c.I, c.st, c.v[0], vpush(c.deref(c.v[0]), c.v[1]))
    return c.out(UNIT)


@model("VecDeque::push_front")
def _(c):
    setp(c.I, c.st, c.v[0], mk("pushfront", c.deref(c.v[0]), c.v[1]))
    return c.out(UNIT)


@model("Vec::insert")
def _(c):
    v = c.deref(c.v[0])

    def k(s):
        setp(c.I, s, c.v[0], mk("insert", v, c.v[1], c.v[2]))
        return ret(UNIT, s)
    return bounds(c, v, c.v[1], k, 1)


@model("Vec::append", "VecDeque::append")
def _(c):
    w = c.deref(c.v[1])
    setp(c.I, c.st, c.v[0], vappend(c.deref(c.v[0]), w))
    setp(c.I, c.st, c.v[1], mk("list"))
    return c.out(UNIT)


@model("Vec::extend_from_slice")
def _(c):
    setp(c.I, c.st, c.v[0], vappend(c.deref(c.v[0]), c.deref(c.v[1])))
    return c.out(UNIT)


@model("Vec::len", "slice::len", "VecDeque::len")
def _(c):
    return c.out(seqlen(c.deref(c.v[0])))


@model("Vec::capacity", "VecDeque::capacity", "String::capacity")
def _(c):
    return c.out(mk("capacity", c.I.site(), USZ))


@model("Vec::is_empty", "slice::is_empty", "VecDeque::is_empty")
def _(c):
    return c.out(is_empty(c.deref(c.v[0])))


@model("Vec::clear", "VecDeque::clear")
def _(c):
    setp(c.I, c.st, c.v[0], mk("list"))
    return c.out(UNIT)


@model("Vec::truncate", "VecDeque::truncate")
def _(c):
    v = c.deref(c.v[0])
    if c.v[1].op == "int" and c.v[1].a[0] == 0:
        r = mk("list")
    elif c.v[1].op == "int" and v.op == "list":
        r = mk("list", *v.a[:c.v[1].a[0]])
    else:
        r = mk("truncate", v, c.v[1])
    setp(c.I, c.st, c.v[0], r)
    return c.out(UNIT)


@model("slice::reverse")
def _(c):
    setp(c.I, c.st, c.v[0], mk("rev", c.deref(c.v[0])))
    return c.out(UNIT)


@model("slice::swap")
def _(c):
    v = c.deref(c.v[0])
    a, b = proj(v, ("i", c.v[1])), proj(v, ("i", c.v[2]))

    def k(s):
        setp(c.I, s, c.v[0], setc(setc(v, ("i", c.v[1]), b), ("i", c.v[2]), a))
        return ret(UNIT, s)
    return bounds(c, v, c.v[1], lambda s: bounds(c, v, c.v[2], k, 0, s))


def bounds(c, v, i, k, slack=0, st=None):
    outs = []
    n = seqlen(v)
    if slack:
        n = iadd(n, integer(slack, "usize"), "usize")
    cond = cmp_lt("i", i, n)
    for f, s in c.I.fork(st if st is not None else c.st, cond):
        if f:
            outs += k(s)
        elif not c.I.prove_lt(s, i, n):
            outs += c.I.panic(s, "bounds", None, ops=(i, n))
        # an index proved in range has no other branch
    return outs


@model("Vec::swap_remove", "Vec::remove", "VecDeque::remove")
def _(c):
    v = c.deref(c.v[0])
    i = c.v[1]
    op = "swaprm" if c.name == "Vec::swap_remove" else "remove"
    deque = c.name.startswith("VecDeque")

    def k(s):
        setp(c.I, s, c.v[0], mk(op, v, i))
        return ret(proj(v, ("i", i)) if not deque else some(proj(v, ("i", i))), s)
    if deque:
        outs = []
        for f, s in c.I.fork(c.st, cmp_lt("i", i, seqlen(v))):
            outs += k(s) if f else ret(NONE, s)
        return outs
    return bounds(c, v, i, k)


def opt_nonempty(c, v, val, upd=None):
    out = []
    for f, s in c.I.fork(c.st, is_empty(v)):
        if f:
            out.append(("ret", NONE, s))
        else:
            if upd is not None:
                setp(c.I, s, c.v[0], upd)
            out.append(("ret", some(val), s))
    return out


@model("Vec::pop", "VecDeque::pop_back")
def _(c):
    v = c.deref(c.v[0])
    if v.op == "list" and v.a:
        setp(c.I, c.st, c.v[0], mk("list", *v.a[:-1]))
        return c.out(some(v.a[-1]))
    if v.op == "push":
        setp(c.I, c.st, c.v[0], v.a[0])
        return c.out(some(v.a[1]))
    return opt_nonempty(c, v, proj(v, ("i", lastidx(v))), mk("popback", v))


@model("VecDeque::pop_front")
def _(c):
    v = c.deref(c.v[0])
    return opt_nonempty(c, v, proj(v, ("i", ZERO)), mk("popfront", v))


@model("VecDeque::front", "slice::first", "VecDeque::front_mut", "slice::first_mut")
def _(c):
    v = c.deref(c.v[0])
    return opt_nonempty(c, v, elem(c.I, c.v[0], ZERO))


@model("VecDeque::back", "slice::last", "VecDeque::back_mut", "slice::last_mut")
def _(c):
    v = c.deref(c.v[0])
    return opt_nonempty(c, v, elem(c.I, c.v[0], lastidx(v)))


@model("slice::get", "slice::get_mut", "VecDeque::get", "VecDeque::get_mut")
def _(c):
    v = c.deref(c.v[0])
    i = c.v[1]
    t = c.I.F.types[c.ty[1]] if c.ty and len(c.ty) > 1 and c.ty[1] is not None else None
    if t is not None and t["s"] != "usize":
        return None
    out = []
    for f, s in c.I.fork(c.st, cmp_lt("i", i, seqlen(v))):
        if f:
            out.append(("ret", some(elem(c.I, c.v[0], i)), s))
        else:
            out.append(("ret", NONE, s))
    return out


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def _(c):
    v = c.deref(c.v[0])
    if not c.I.prove_lt(c.st, c.v[1], seqlen(v)) and c.st.decide(cmp_lt("i", c.v[1], seqlen(v))) is not True:
        c.I.panic(c.st.copy(), "unchecked-bounds", None, ops=(c.v[1], seqlen(v)))
    return c.out(elem(c.I, c.v[0], c.v[1]))


@model("Index::index", "IndexMut::index_mut")
def _(c):
    t = c.targ(1)
    if t is not None and t["s"] == "usize":
        v = c.deref(c.v[0])
        return bounds(c, v, c.v[1], lambda s: ret(elem(c.I, c.v[0], c.v[1]), s))
    last = (t or {}).get("path", "").split("::")[-1]
    if last == "RangeFull":
        return c.out(c.v[0])
    if last in RANGES:
        st0 = c.targ(0)
        v = c.deref(c.v[0])
        isstr = st0["k"] == "str" or st0.get("path", "").endswith("String")
        if isstr:
            v = strv(c.I, c.st, c.v[0])
        b = range_of(c.v[1], last)
        if b is None:
            return None
        lo, hi = b
        if lo is ZERO and hi is None:
            return c.out(c.v[0])
        return cut(c, v, lo, hi, isstr)
    return None


RANGES = ("RangeFrom", "Range", "RangeTo", "RangeToInclusive", "RangeInclusive")


def range_of(r, last):
    f = r.a[2:] if r.op == "adt" else ()
    if not f:
        return None
    lo = ZERO if last in ("RangeTo", "RangeToInclusive") else f[0]
    hi = None if last == "RangeFrom" else f[1] if last in ("Range", "RangeInclusive") else f[0]
    if hi is not None and "Inclusive" in last:
        hi = iadd(hi, ONE, USZ)
    return lo, hi


def cut(c, v, lo, hi, isstr):
    """v[lo..hi], with the panics it can raise"""
    I, outs = c.I, []
    n = seqlen(v)
    sts = [c.st]
    for a, b in ((lo, hi if hi is not None else n), (hi, n)):
        if a is None or a is n or a is ZERO:
            continue
        new = []
        for st in sts:
            # a <= b
            for f, s in I.fork(st, cmp_lt("i", b, a)):
                if not f:
                    new.append(s)
                elif not I.prove_lt(s, a, iadd(b, ONE, USZ)):
                    outs += I.panic(s, "slice-range", None, ops=(a, b))
        sts = new
    for x in (lo, hi):
        if not isstr or x is None or x is ZERO or x is n:
            continue
        new = []
        for st in sts:
            r = on_boundary(st, v, x)
            if r is None:
                I.ev(st, "boundary?", val=v, at=x)
                r = True
            if r is True:
                new.append(st)
                continue
            for f, s in I.fork(st, mk("boundary", v, x)):
                if f:
                    new.append(s)
                else:
                    outs += I.panic(s, "char-boundary", None, ops=(v, x))
        sts = new
    for st in sts:
        r = mk("substr" if isstr else "subseq", v, lo, hi if hi is not None else n)
        if v.op == "str" and lo.op == "int" and r.a[2].op == "int":
            try:
                r = string(v.a[0].encode()[lo.a[0]:r.a[2].a[0]].decode())
            except UnicodeDecodeError:
                pass
        outs.append(("ret", tmp(I, st, r, "sub"), st))
    return outs


def on_boundary(st, v, x):
    """is position x of string v the boundary of a character? True, False (not necessarily) or None (unclear)"""
    if x is ZERO or x is seqlen(v):
        return True
    if v.op == "str":
        return True if all(ord(ch) < 128 for ch in v.a[0]) else None
    if v.op in ("proj", "deref", "sym", "disp"):
        if any(contains(f, lambda y: y is v) and f.op not in ("discr",) for f in st.facts):
            return None
        if contains(x, lambda y: y.op not in ("int", "len", "iadd", "isub", "add", "sub", "min", "max", "imin", "imax", "lin") and not contains(v, lambda z: z is y)):
            return None
        return False
    return None


@model("str::is_char_boundary", "String::is_char_boundary")
def _(c):
    v = strv(c.I, c.st, c.v[0])
    if on_boundary(c.st, v, c.v[1]) is True:
        return c.out(cmp_le("i", c.v[1], seqlen(v)))
    return c.out(mk("boundary", v, c.v[1]))


@model("str::split_at", "slice::split_at")
def _(c):
    isstr = c.name.startswith("str")
    v = strv(c.I, c.st, c.v[0]) if isstr else c.deref(c.v[0])
    outs = []
    for k, r, s in cut(c, v, ZERO, c.v[1], isstr):
        if k == "ret":
            c2 = C(c.I, s, c.c, c.v, c.ty, c.name)
            rest = mk("substr" if isstr else "subseq", v, c.v[1], seqlen(v))
            outs.append(("ret", tup(r, tmp(c.I, s, rest, "sub2")), s))
        else:
            outs.append((k, r, s))
    return outs


@model("String::truncate")
def _(c):
    v = strv(c.I, c.st, c.v[0])
    outs = []
    for f, s in c.I.fork(c.st, cmp_lt("i", seqlen(v), c.v[1])):
        if f:
            outs.append(("ret", UNIT, s))
            continue
        c2 = C(c.I, s, c.c, c.v, c.ty, c.name)
        for k, r, s2 in cut(c2, v, ZERO, c.v[1], True):
            if k == "ret":
                setp(c.I, s2, c.v[0], deref(c.I, s2, r))
                outs.append(("ret", UNIT, s2))
            else:
                outs.append((k, r, s2))
    return outs


@model("slice::split_first", "slice::split_last", "slice::split_first_mut", "slice::split_last_mut")
def _(c):
    v = c.deref(c.v[0])
    n = seqlen(v)
    out = []
    for f, s in c.I.fork(c.st, is_empty(v)):
        if f:
            out.append(("ret", NONE, s))
        elif "first" in c.name:
            out.append(("ret", some(tup(elem(c.I, c.v[0], ZERO), tmp(c.I, s, mk("subseq", v, ONE, n), "sub"))), s))
        else:
            out.append(("ret", some(tup(elem(c.I, c.v[0], lastidx(v)), tmp(c.I, s, mk("subseq", v, ZERO, lastidx(v)), "sub"))), s))
    return out


@model("slice::iter", "slice::iter_mut", "VecDeque::iter", "VecDeque::iter_mut", "Option::iter")
def _(c):
    if c.name == "Option::iter":
        return None
    v = c.deref(c.v[0])
    return c.out(mk("it", "slice", c.v[0], ZERO, seqlen(v)))


@model("Vec::drain", "VecDeque::drain")
def _(c):
    t = c.targ(1)
    v = c.deref(c.v[0])
    if any(isinstance(x, int) and c.I.F.types[x].get("path", "").endswith("RangeFull") for x in c.c.get("targs", [])):
        setp(c.I, c.st, c.v[0], mk("list"))
        return c.out(mk("it", "into", v, ZERO, seqlen(v)))
    r = c.v[1]
    last = r.a[0].split("::")[-1] if r.op == "adt" else ""
    b = range_of(r, last) if last in RANGES else None
    n = seqlen(v)
    if b is None or not (b[0] is ZERO or b[1] is None or b[1] is n):
        return None
    lo, hi = b
    outs = []
    for k, t, st in cut(c, v, lo, hi, False):
        if k != "ret":
            outs.append((k, t, st))
            continue
        gone = c.I.deref(st, t)
        left = mk("subseq", v, hi, n) if lo is ZERO and hi is not None else mk("truncate", v, lo)
        setp(c.I, st, c.v[0], left)
        outs.append(("ret", mk("it", "into", gone, ZERO, seqlen(gone)), st))
    return outs


@model("str::escape_default", "str::escape_debug", "str::escape_unicode")
def _(c):
    return c.out(mk("escaped", c.name, c.deref(c.v[0])))


@model("slice::windows", "slice::chunks", "slice::contains", "slice::fill", "slice::copy_from_slice")
def _(c):
    if c.name == "slice::contains":
        return c.out(mk("seqhas", c.deref(c.v[0]), strip(c.I, c.st, c.v[1], {"k": "ref", "to": None} if False else None)[0] if False else c.deref(c.v[1])))
    return None


# ------------------------------------------------------------------------------------------------ ordering of sequences
def generic_elems(I, st, v, n):
    """abstract elements of sequence v: [(state with the element's facts, values)] for n elements"""
    cases = elem_cases(v)
    outs = [(st.copy(), [])]
    for j in range(n):
        new = []
        for s, xs in outs:
            for cond, x, own in cases:
                s2 = s.copy()
                ix = mk("sym", "elem%d" % j)
                TYOF[ix] = "usize"

                def sub(t, own=own):
                    if t is own:
                        return ix
                    return None
                x2 = subst(x, sub)
                good = True
                for cd in subst_c(cond, sub):
                    if not assume_cond(s2, cd):
                        good = False
                        break
                if good:
                    new.append((s2, xs + [x2]))
        outs = new
    return outs


def subst_c(cond, sub):
    memo = {}
    out = []
    for cd in cond:
        out.append(tuple(subst(y, sub, memo) if isinstance(y, (T, tuple)) else y for y in cd))
    return out


def assume_cond(s, cd):
    if cd[0] == "rng":
        return s.restrict(cd[1], cd[2])
    if cd[0] == "fact":
        return s.assume(cd[1], cd[2])
    if cd[0] == "rel":
        return s.setrel(cd[1], cd[2], cd[3], cd[4])
    return True


def elem_cases(v):
    """possible forms of an element of v: [(condition, value)], bound variable bv"""
    if v.op in ("sort", "dedup", "rev", "popfront", "popback"):
        return elem_cases(v.a[-1])
    if v.op == "comp":
        out = []
        if v.a[2].op != "list" or v.a[2].a:
            out += elem_cases(v.a[2])
        for cond, xs in v.a[3]:
            for x in xs:
                if x.op == "seq":
                    out += [(cond + c, y, o) for c, y, o in elem_cases(x.a[0])]
                else:
                    out.append((cond, x, v.a[4]))
        return out
    if v.op == "list":
        return [((), x, None) for x in v.a]
    if v.op == "append":
        return elem_cases(v.a[0]) + elem_cases(v.a[1])
    if v.op == "push":
        return elem_cases(v.a[0]) + [((), v.a[1], None)]
    g = mk("gen", v)
    return [((), proj(v, ("i", g)), g)]


def run_scratch(I, st, f):
    """evaluate a callback on abstract elements without recording its events: (results, panics)"""
    I.scratch += 1
    saved = st.node
    n0 = I.G.node()
    st.node = n0
    pan = []
    keep = I.panics
    old = I.panic

    def hook(s, why, unwind=None, **d):
        pan.append((why, d))
        return []
    I.panic = hook
    try:
        return f(st), pan
    finally:
        I.panic = old
        I.scratch -= 1


def comparator(I, st, v, f):
    """key of a comparator closure: ('asc'|'desc', kind, key over elem sym) or None; panics reachable"""
    pans = []
    keys = set()
    for s, (a, b) in generic_elems(I, st, v, 2):
        pa, pb = tmp(I, s, a, "cmpa"), tmp(I, s, b, "cmpb")
        outs, pan = run_scratch(I, s, lambda s1: f(s1, pa, pb))
        pans += pan
        for kind, r, s2 in outs:
            keys.add(cmpkey(r, a, b))
    k = opaque_key(I, st, f, 2, lambda r, es: cmpkey(r, *es))
    if k is not None and k[0] != "other":
        return k, pans
    if len(keys) == 1:
        return keys.pop(), pans
    return None, pans


def opaque_key(I, st, f, n, g):
    """what a callback computes from arbitrary elements: g(result, elements) when that is the same on every path"""
    es = [mk("gelt", i) for i in range(n)]
    s = st.copy()
    ps = [tmp(I, s, e, "cmpx%d" % i) for i, e in enumerate(es)]
    nu = len(I.unknowns)
    outs, pan = run_scratch(I, s, lambda s1: f(s1, *ps))
    del I.unknowns[nu:]
    ks = {g(r, es) for kind, r, s2 in outs if kind == "ret"}
    return ks.pop() if len(ks) == 1 else None


def eltsub(t, x):
    return subst(t, lambda y: mk("elt") if y is x else None)


def cmpkey(r, a, b):
    if r.op == "cmp":
        k, x, y = r.a
        kx, ky = eltsub(x, a), eltsub(y, b)
        if kx is ky and contains(kx, lambda t: t.op == "elt"):
            return ("asc", k, kx)
        kx, ky = eltsub(x, b), eltsub(y, a)
        if kx is ky and contains(kx, lambda t: t.op == "elt"):
            return ("desc", k, kx)
    return ("other", "?", r)


def natural(I, v, t):
    """the natural order of the element type"""
    return ("asc", tykind(t), mk("elt"))


def elt_type(c, i=0):
    """element type node of a slice/Vec method's receiver"""
    for n in (c.c.get("rargs") or [], c.c.get("targs") or []):
        for x in n:
            if isinstance(x, int):
                t = c.I.F.types[x]
                return t
    return None


def sort_apply(c, key, pans):
    v = c.deref(c.v[0])
    for why, d in pans:
        e = c.I.ev(c.st, "panic", why="in-comparator:" + why, **d)
        if not c.I.scratch:
            c.I.panics.append(e)
    r = sorted_list(v, key)
    setp(c.I, c.st, c.v[0], r or mk("sort", mk("key", *key) if key else mk("key", "other", "?", c.I.site()), v))
    return c.out(UNIT)


def deduped(k, v):
    """v without repetitions of k next to each other, if that is known"""
    if v.op != "list" or k.op in ("other", "oneof", "unk"):
        return mk("dedup", k, v)
    ks = [subst(k, lambda t, e=e: e if t.op == "elt" else None) for e in v.a]
    out = []
    for x, e in zip(ks, v.a):
        if out:
            o = concrete_order(out[-1][0], x)
            if o is None:
                return mk("dedup", k, v)
            if o == 0:
                continue
        out.append((x, e))
    return mk("list", *[e for x, e in out])


def concrete_order(a, b):
    """-1, 0, 1 for plain values whose order is known; None otherwise"""
    if a is b:
        return 0
    if a.op == b.op == "str":
        x, y = a.a[0].encode("utf-8", "surrogatepass"), b.a[0].encode("utf-8", "surrogatepass")
        return -1 if x < y else 1 if x > y else 0
    if a.op == b.op == "int":
        return -1 if a.a[0] < b.a[0] else 1 if a.a[0] > b.a[0] else 0
    if a.op == b.op == "f64":
        x, y = ffrom(a.a[0]), ffrom(b.a[0])
        # (zeros of different sign are equal to some orders only)
        return -1 if x < y else 1 if x > y else None
    if a.op == b.op == "tup" and len(a.a) == len(b.a):
        for x, y in zip(a.a, b.a):
            k = concrete_order(x, y)
            if k != 0:
                return k
        return 0
    return None


def sorted_list(v, key):
    """a list of plain values in order (stably), if their order is known"""
    if v.op != "list" or not key or key[0] != "asc" or len(key) != 3 or len(v.a) < 1:
        return None
    k = key[2]
    if k.op == "oneof" and len(k.a) == 1:
        k = k.a[0]
    if contains(k, lambda t: t.op in ("oneof", "unk", "other")):
        return None
    ks = [subst(k, lambda t, e=e: e if t.op == "elt" else None) for e in v.a]
    out = []
    for x, e in zip(ks, v.a):
        i = len(out)
        if x.op not in ("str", "int", "f64", "tup") or x.op == "f64" and ffrom(x.a[0]) != ffrom(x.a[0]):
            return None
        for j in range(len(out) - 1, -1, -1):
            o = concrete_order(x, out[j][0])
            if o is None:
                return None
            if o < 0:
                i = j
        out.insert(i, (x, e))
    return mk("list", *[e for x, e in out])


@model("slice::sort", "slice::sort_unstable")
def _(c):
    return sort_apply(c, natural(c.I, None, elt_type(c)), [])


@model("slice::sort_by", "slice::sort_unstable_by")
def _(c):
    v = c.deref(c.v[0])
    key, pans = comparator(c.I, c.st, v, lambda s, a, b: c.I.call_value(s, c.v[1], [a, b]))
    return sort_apply(c, key, pans)


@model("slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable_by_key")
def _(c):
    v = c.deref(c.v[0])
    keys = set()
    pans = []
    multi = []
    for s, (a,) in generic_elems(c.I, c.st, v, 1):
        p = tmp(c.I, s, a, "cmpa")
        outs, pan = run_scratch(c.I, s, lambda s1: c.I.call_value(s1, c.v[1], [p]))
        pans += pan
        for kind, r, s2 in outs:
            keys.add(eltsub(r, a))
    k = opaque_key(c.I, c.st, lambda s1, q: c.I.call_value(s1, c.v[1], [q]), 1, lambda r, es: eltsub(r, es[0]))
    if k is not None and contains(k, lambda t: t.op == "elt"):
        keys = {k}
    cached = c.name == "slice::sort_by_cached_key"
    c.I.ev(c.st, "sortkeys", keys=tuple(sorted(keys, key=lambda k: k.id)), cached=cached)
    key = ("asc", "cached" if cached else "key", mk("oneof", *sorted(keys, key=lambda k: k.id)))
    return sort_apply(c, key, pans)


@model("Vec::dedup")
def _(c):
    v = c.deref(c.v[0])
    setp(c.I, c.st, c.v[0], deduped(mk("elt"), v))
    return c.out(UNIT)


@model("Vec::dedup_by_key")
def _(c):
    v = c.deref(c.v[0])
    keys = set()
    for s, (a,) in generic_elems(c.I, c.st, v, 1):
        p = tmp(c.I, s, a, "cmpa")
        outs, pan = run_scratch(c.I, s, lambda s1: c.I.call_value(s1, c.v[1], [p]))
        for kind, r, s2 in outs:
            keys.add(eltsub(r, a))
    k = opaque_key(c.I, c.st, lambda s1, q: c.I.call_value(s1, c.v[1], [q]), 1, lambda r, es: eltsub(r, es[0]))
    if k is None:
        k = keys.pop() if len(keys) == 1 else mk("other", c.I.site())
    setp(c.I, c.st, c.v[0], deduped(k, v))
    return c.out(UNIT)


def eqkey(r, a, b):
    """what two elements have in common when an equality test holds"""
    if r.op == "eq":
        x, y = r.a[1], r.a[2]
        for p, q in ((a, b), (b, a)):
            k = eltsub(x, p)
            if k is eltsub(y, q) and contains(k, lambda t: t.op == "elt") and not contains(k, lambda t: t is a or t is b):
                return k
    return None


@model("Vec::dedup_by")
def _(c):
    v = c.deref(c.v[0])
    keys = set()
    for s, (a, b) in generic_elems(c.I, c.st, v, 2):
        pa, pb = tmp(c.I, s, a, "cmpa"), tmp(c.I, s, b, "cmpb")
        outs, pan = run_scratch(c.I, s, lambda s1: c.I.call_value(s1, c.v[1], [pa, pb]))
        for kind, r, s2 in outs:
            keys.add(eqkey(r, a, b))
    k = opaque_key(c.I, c.st, lambda s1, p, q: c.I.call_value(s1, c.v[1], [p, q]), 2, lambda r, es: eqkey(r, *es))
    if k is None:
        k = keys.pop() if len(keys) == 1 else None
    if k is None:
        # what counts as equal: a term over two elements, when there is one
        k = opaque_key(c.I, c.st, lambda s1, p, q: c.I.call_value(s1, c.v[1], [p, q]), 2, lambda r, es: r)
        k = mk("same", k) if k is not None else None
    setp(c.I, c.st, c.v[0], deduped(k if k is not None else mk("other", c.I.site()), v))
    return c.out(UNIT)


def first_idx(v, pred):
    """index of the first element satisfying pred (a term over elt), or the length"""
    t = mk("first", pred, v)
    TYOF[t] = USZ
    return t


@model("slice::binary_search_by", "slice::binary_search_by_key", "slice::binary_search", "VecDeque::binary_search_by", "VecDeque::binary_search")
def _(c):
    v = c.deref(c.v[0])
    res = set()
    pans = []
    if c.name.endswith("binary_search"):
        return binary_search(c, v, tykind(elt_type(c)), mk("elt"), c.deref(c.v[1]))
    f = c.v[1] if c.name.endswith("search_by") else c.v[2]
    for s, (a,) in generic_elems(c.I, c.st, v, 1):
        p = tmp(c.I, s, a, "cmpa")
        # the callback sees arbitrary elements: facts about the current path still hold
        outs, pan = run_scratch(c.I, s, lambda s1: c.I.call_value(s1, f, [p]))
        pans += pan
        for kind, r, s2 in outs:
            if c.name.endswith("_key"):
                r = mk("cmp", tykind(elt_type(c)), r, c.deref(c.v[1]))
            if r.op == "cmp" and not contains(r.a[2], lambda t: t is a):
                res.add(("cmp", r.a[0], eltsub(r.a[1], a), r.a[2]))
            else:
                res.add(("other", r))
    for why, d in pans:
        e = c.I.ev(c.st, "panic", why="in-comparator:" + why, **d)
        if not c.I.scratch:
            c.I.panics.append(e)
    if len(res) == 1 and list(res)[0][0] == "cmp":
        _, k, key, target = res.pop()
        return binary_search(c, v, k, key, target)
    c.I.unknown(c.st, "binary search key")
    i = mk("bsidx", v, c.I.site())
    return [("ret", ok(i), c.st.copy()), ("ret", err(i), c.st)]


def binary_search(c, v, k, key, target):
    """both outcomes carry the partition point (the keys are distinct and sorted)"""
    ix = first_idx(v, mk("le", k, target, key))
    s2 = c.st.copy()
    c.st.facts[mk("bsexact", ix)] = True
    c.st.assume(cmp_lt("i", ix, seqlen(v)), True)
    s2.facts[mk("bsexact", ix)] = False
    s2.assume(cmp_le("i", ix, seqlen(v)), True)
    return [("ret", ok(ix), c.st), ("ret", err(ix), s2)]


@model("slice::partition_point")
def _(c):
    v = c.deref(c.v[0])
    res = set()
    pans = []
    for s, (a,) in generic_elems(c.I, c.st, v, 1):
        p = tmp(c.I, s, a, "cmpa")
        outs, pan = run_scratch(c.I, s, lambda s1: c.I.call_value(s1, c.v[1], [p]))
        pans += pan
        for kind, r, s2 in outs:
            res.add(eltsub(r, a))
    for why, d in pans:
        c.I.ev(c.st, "panic", why="in-comparator:" + why, **d)
    if len(res) == 1:
        r = res.pop()
        ix = first_idx(v, notpred(r))
        c.st.facts[mk("bspart", ix)] = True
        c.st.assume(cmp_le("i", ix, seqlen(v)), True)
        return c.out(ix)
    c.I.unknown(c.st, "partition point predicate")
    return c.out(mk("bsidx", v, c.I.site()))


def notpred(r):
    """negation of a comparison between non-NaN operands"""
    if r.op == "lt":
        return mk("le", r.a[0], r.a[2], r.a[1])
    if r.op == "le":
        return mk("lt", r.a[0], r.a[2], r.a[1])
    return lnot(r)


# ------------------------------------------------------------------------------------------------ iterators
@model("IntoIterator::into_iter")
def _(c):
    t = c.targ(0)
    return into_iter(c.I, c.st, c.v[0], t, c)


def option_iter(I, st, v):
    out = []
    for var, s in I.variants(st, deref(I, st, v)):
        if var:
            r, pa = I.addr(v)
            out.append(("ret", mk("it", "once", some(mk("ref", r, pa + (("vf", 1, 0),)))), s))
        else:
            out.append(("ret", mk("it", "once", NONE), s))
    return out


@model("Option::iter", "Option::iter_mut")
def _(c):
    return option_iter(c.I, c.st, c.v[0])


def into_iter(I, st, v, t, c=None):
    if t is None:
        return ret(v, st)
    if v.op == "it":
        return ret(v, st)
    if t["k"] == "ref":
        inner = I.F.types[t["to"]]
        last = inner.get("path", "").split("::")[-1]
        if last in ("Vec", "VecDeque") or inner["k"] in ("slice", "array"):
            return ret(mk("it", "slice", v, ZERO, seqlen(deref(I, st, v))), st)
        if last == "Option":
            return option_iter(I, st, v)
        # &mut I of an iterator
        return ret(v, st)
    last = t.get("path", "").split("::")[-1]
    if last in ("Vec", "VecDeque") or t["k"] == "array":
        return ret(mk("it", "into", v, ZERO, seqlen(v)), st)
    if last == "Option":
        return ret(mk("it", "once", v), st)
    if last == "Range":
        return ret(mk("it", "range", proj(v, ("f", 0)), proj(v, ("f", 1))), st)
    if last == "RangeInclusive":
        return ret(mk("it", "range", proj(v, ("f", 0)), iadd(proj(v, ("f", 1)), ONE, USZ)), st)
    if last == "RangeFrom":
        return ret(mk("it", "from", proj(v, ("f", 0))), st)
    if t["k"] == "param" or t["k"] == "alias":
        return ret(v, st)
    return ret(v, st)


@model("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def _(c):
    v, x = c.deref(c.v[0]), c.deref(c.v[1])
    kind = c.name.split("::")[0]
    if v.op != "adt":
        return None
    k = tykind(c.targ(0)) if c.targ(0) is not None else None
    if k is None:
        return None
    lo = v.a[2] if kind in ("RangeInclusive", "Range", "RangeFrom") else None
    hi = v.a[3] if kind in ("RangeInclusive", "Range") else v.a[2] if kind != "RangeFrom" else None
    outs = []
    sts = [c.st]
    for test in ([cmp_le(k, lo, x)] if lo is not None else []) + ([(cmp_le if "Inclusive" in kind else cmp_lt)(k, x, hi)] if hi is not None else []):
        new = []
        for s in sts:
            for b, s2 in c.I.fork(s, test):
                if b:
                    new.append(s2)
                else:
                    outs.append(("ret", FALSE, s2))
        sts = new
    return outs + [("ret", TRUE, s) for s in sts]


@model("RangeInclusive::new")
def _(c):
    return c.out(adt("core::ops::range::RangeInclusive", 0, c.v[0], c.v[1]))


def wrap(kind):
    def f(c):
        v = c.v[0]
        if v.op == "adt" and v.a[0].endswith("ops::range::Range"):
            v = mk("it", "range", v.a[2], v.a[3])
        elif v.op == "adt" and v.a[0].endswith("RangeFrom"):
            v = mk("it", "from", v.a[2])
        elif v.op == "adt" and v.a[0].endswith("RangeInclusive"):
            v = mk("it", "range", v.a[2], iadd(v.a[3], ONE, USZ))
        return c.out(mk("it", kind, v, *c.v[1:]))
    return f


for _k in ("map", "filter", "filter_map", "take_while", "skip_while", "inspect", "map_while"):
    FN["Iterator::" + _k] = wrap(_k)


def as_it(v):
    if v.op == "adt" and v.a[0].endswith("ops::range::Range"):
        return mk("it", "range", v.a[2], v.a[3])
    if v.op == "adt" and v.a[0].endswith("RangeInclusive"):
        return mk("it", "range", v.a[2], iadd(v.a[3], ONE, USZ))
    if v.op == "adt" and v.a[0].endswith("RangeFrom"):
        return mk("it", "from", v.a[2])
    return v


@model("Iterator::cloned", "Iterator::copied")
def _(c):
    return c.out(mk("it", "cloned", as_it(c.v[0])))


@model("Iterator::enumerate")
def _(c):
    return c.out(mk("it", "enumerate", as_it(c.v[0]), ZERO))


@model("Iterator::peekable")
def _(c):
    return c.out(mk("it", "peek", as_it(c.v[0]), mk("nopeek")))


@model("Iterator::fuse", "Iterator::by_ref")
def _(c):
    return c.out(c.v[0])


@model("Iterator::skip")
def _(c):
    v = as_it(c.v[0])
    n = c.v[1]
    if v.a[0] in ("chars", "bytes") and v.op == "it":
        return c.out(mk("it", v.a[0], v.a[1], iadd(v.a[2], n, USZ)))
    if v.op == "it" and v.a[0] in ("slice", "into"):
        return c.out(mk("it", v.a[0], v.a[1], iadd(v.a[2], n, USZ), v.a[3]))
    if v.op == "it" and v.a[0] == "enumerate" and v.a[1].op == "it" and v.a[1].a[0] in ("slice", "into", "chars"):
        inner = v.a[1]
        a = list(inner.a)
        a[2] = iadd(a[2], n, USZ)
        return c.out(mk("it", "enumerate", mk("it", *a), iadd(v.a[2], n, USZ)))
    w = wrapped_it(c.I, c.st, v)
    if w is not None:
        return c.out(subst(v, {w: mk("it", w.a[0], w.a[1], iadd(w.a[2], n, USZ), w.a[3])}))
    if n.op == "int" and n.a[0] <= 3 and pure_it(c.I, v):
        # advancing now or at the first use makes no difference
        h = tmp(c.I, c.st, v, "skip")
        outs, cur = [], [c.st]
        for _ in range(n.a[0]):
            nextcur = []
            for s in cur:
                for kind, o, s2 in nxt(c.I, s, h):
                    if kind != "ret":
                        outs.append((kind, o, s2))
                        continue
                    for var, s3 in c.I.variants(s2, o):
                        if var:
                            nextcur.append(s3)
                        else:
                            outs.append(("ret", deref(c.I, s3, h), s3))
            cur = nextcur
        return outs + [("ret", deref(c.I, s, h), s) for s in cur]
    return c.out(mk("it", "skip", v, n))


def pure_it(I, v):
    """does advancing this iterator have no effect but on itself?"""
    if v.op == "adt":
        return v.a[0] in I.F.adts
    if v.op == "it":
        return v.a[0] in ("slice", "into", "revslice", "revinto", "chars", "bytes", "charidx", "range", "revrange") or v.a[0] in ("cloned", "enumerate") and pure_it(I, v.a[1])
    return False



def take_into(it, n):
    """the first n elements of an iterator over a sequence"""
    if it.op != "it":
        return None
    if it.a[0] in ("slice", "into") and it.a[2].op == "int" and n.op == "int":
        pos, end = it.a[2], it.a[3]
        lim = iadd(pos, n, USZ)
        if end.op == "int":
            return mk("it", it.a[0], it.a[1], pos, lim if lim.a[0] < end.a[0] else end)
        e = mk("min", lim, end)
        TYOF.setdefault(e, USZ)
        return mk("it", it.a[0], it.a[1], pos, e)
    if it.a[0] in ("map", "cloned", "inspect") or it.a[0] == "enumerate":
        r = take_into(it.a[1], n)
        return None if r is None else mk("it", it.a[0], r, *it.a[2:])
    return None


@model("Iterator::take")
def _(c):
    it = as_it(c.v[0])
    return c.out(take_into(it, c.v[1]) or mk("it", "take", it, c.v[1]))


@model("Iterator::chain", "Iterator::zip")
def _(c):
    out = []
    t = c.targ(1)
    ts = [x for x in c.c.get("targs", []) if isinstance(x, int)]
    t2 = c.I.F.types[c.ty[1]] if c.ty and c.ty[1] is not None else None
    for k, v, s in into_iter(c.I, c.st, as_it(c.v[1]), t2):
        out.append((k, mk("it", c.name.split("::")[1], as_it(c.v[0]), v), s))
    return out


@model("Iterator::flat_map")
def _(c):
    return c.out(mk("it", "flat", mk("it", "map", as_it(c.v[0]), c.v[1]), NONE, c.targ_ty if False else mk("ty", rty(c))))


@model("Iterator::flatten")
def _(c):
    return c.out(mk("it", "flat", as_it(c.v[0]), NONE, mk("ty", rty(c))))


def rty(c):
    # the type produced for each element (decides how it is iterated)
    ts = [x for x in c.c.get("targs", []) if isinstance(x, int)]
    return ts[1] if c.name == "Iterator::flat_map" and len(ts) > 1 else -1


@model("Iterator::rev")
def _(c):
    v = as_it(c.v[0])
    if v.op == "it" and v.a[0] in ("slice", "into"):
        return c.out(mk("it", "rev" + v.a[0], v.a[1], v.a[2], v.a[3]))
    if v.op == "it" and v.a[0] == "range":
        return c.out(mk("it", "revrange", v.a[1], v.a[2]))
    if v.op == "it" and v.a[0] in ("revslice", "revinto", "revrange"):
        return c.out(mk("it", v.a[0][3:], *v.a[1:]))
    return c.out(mk("it", "rev", v))


@model("once::once", "sources::once")
def _(c):
    return c.out(mk("it", "once", some(c.v[0])))


@model("iter::once", "once_with")
def _(c):
    return c.out(mk("it", "once", some(c.v[0])))


@model("empty::empty", "iter::empty")
def _(c):
    return c.out(mk("it", "once", NONE))


@model("repeat::repeat", "repeat_with::repeat_with", "successors::successors", "from_fn::from_fn")
def _(c):
    k = c.name.split("::")[1]
    if k == "from_fn":
        return c.out(mk("it", "fromfn", c.v[0]))
    if k == "successors":
        return c.out(mk("it", "succ", c.v[0], c.v[1]))
    return c.out(mk("it", k, c.v[0]))


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(c):
    if c.name.endswith("next_back"):
        v = c.deref(c.v[0])
        if v.op == "it" and v.a[0] in ("slice", "into"):
            out = []
            for f, s in c.I.fork(c.st, cmp_lt("i", v.a[2], v.a[3])):
                if f:
                    e = isub(v.a[3], ONE, USZ)
                    setp(c.I, s, c.v[0], mk("it", v.a[0], v.a[1], v.a[2], e))
                    out.append(("ret", some(elem(c.I, v.a[1], e) if v.a[0] == "slice" else proj(v.a[1], ("i", e))), s))
                else:
                    out.append(("ret", NONE, s))
            return out
        return None
    return nxt(c.I, c.st, c.v[0], c.targ(0))


def nxt(I, st, p, ty=None):
    """advance the iterator behind pointer p -> [('ret', Option, state)]"""
    root, path = I.addr(p)
    it = I.load(st, root, path)
    n = 0
    while it.op in ("ref",) and n < 4:
        root, path = I.addr(it)
        it = I.load(st, root, path)
        n += 1
    it = as_it(it)

    def save(s, new):
        s.mem[root] = put(I.load(s, root), path, new)

    if it.op == "adt" and it.a[0] in I.F.adts or it.op in ("proj", "deref", "lv") and ty is not None and ty.get("path") in I.F.adts:
        apath = it.a[0] if it.op == "adt" else ty["path"]
        r = inst_of(I, apath, "Iterator", "next")
        if r is None:
            I.unknown(st, "iterator " + apath)
            return ret(I.unk("next"), st)
        I.nsite += 1
        return I.call_body(r["inst"], [mk("ref", root, path) if not (root.op == "D" and path == ()) else root.a[0]], st)
    if it.op == "adt" and not it.a[0].startswith("prometrics::") and it.a[0].split("::")[0] in ("core", "alloc", "std"):
        I.unknown(st, "iterator " + it.a[0])
    if it.op != "it":
        # an iterator of unknown type (a user's): each call yields an arbitrary element
        v = mk("item", mk("ref", root, path), I.site())
        s2 = st.copy()
        I.ev(st, "usernext", it=it, val=v)
        I.ev(s2, "userend", it=it)
        return [("ret", some(v), st), ("ret", NONE, s2)]
    k = it.a[0]
    if k in ("slice", "into"):
        src, pos, end = it.a[1:]
        out = []
        for f, s in I.fork(st, cmp_lt("i", pos, end)):
            if f:
                save(s, mk("it", k, src, iadd(pos, ONE, USZ), end))
                out.append(("ret", some(elem(I, src, pos) if k == "slice" else proj(src, ("i", pos))), s))
            else:
                out.append(("ret", NONE, s))
        return out
    if k in ("revslice", "revinto"):
        src, pos, end = it.a[1:]
        out = []
        for f, s in I.fork(st, cmp_lt("i", pos, end)):
            if f:
                e = isub(end, ONE, USZ)
                save(s, mk("it", k, src, pos, e))
                out.append(("ret", some(elem(I, src, e) if k == "revslice" else proj(src, ("i", e))), s))
            else:
                out.append(("ret", NONE, s))
        return out
    if k in ("chars", "bytes", "charidx"):
        S, pos = it.a[1:]
        seq = mk("bytes", S) if k == "bytes" else chars(S)
        out = []
        for f, s in I.fork(st, cmp_lt("i", pos, seqlen(seq))):
            if f:
                save(s, mk("it", k, S, iadd(pos, ONE, USZ)))
                x = proj(seq, ("i", pos))
                TYOF.setdefault(x, "u8" if k == "bytes" else "char")
                if k == "charidx":
                    x = tup(mk("byteidx", S, pos) if pos is not ZERO else ZERO, x)
                out.append(("ret", some(x), s))
            else:
                out.append(("ret", NONE, s))
        return out
    if k == "revrange":
        out = []
        a, b = it.a[1:]
        for f, s in I.fork(st, cmp_lt("i", a, b)):
            if f:
                e = isub(b, ONE, USZ)
                save(s, mk("it", "revrange", a, e))
                out.append(("ret", some(e), s))
            else:
                out.append(("ret", NONE, s))
        return out
    if k == "range":
        a, b = it.a[1:]
        out = []
        for f, s in I.fork(st, cmp_lt("i", a, b)):
            if f:
                save(s, mk("it", "range", iadd(a, ONE, USZ), b))
                out.append(("ret", some(a), s))
            else:
                out.append(("ret", NONE, s))
        return out
    if k == "from":
        a = it.a[1]
        save(st, mk("it", "from", iadd(a, ONE, USZ)))
        return ret(some(a), st)
    if k == "once":
        o = it.a[1]
        out = []
        for var, s in I.variants(st, o):
            save(s, mk("it", "once", NONE))
            out.append(("ret", some(I.payload(o, 1)) if var else NONE, s))
        return out
    if k == "recv":
        rx, blocking = it.a[1:]
        v = mk("recvd", rx, I.site())
        s2 = st.copy()
        I.ev(st, "recv", chan=rx, val=v, blocking=bool(blocking.a[0]))
        I.ev(s2, "recvempty", chan=rx)
        return [("ret", some(v), st), ("ret", NONE, s2)]
    if k == "repeat":
        return ret(some(it.a[1]), st)
    if k == "fromfn":
        r, pa = root, path + (("f", 1),)
        # the closure is stored in the iterator
        h = tmp(I, st, it.a[1], "fromfn")
        out = []
        for kind, v, s in I.call_value(st, h, []):
            if kind == "ret":
                save(s, mk("it", "fromfn", deref(I, s, h)))
            out.append((kind, v, s))
        return out

    # adapters: step the inner iterator through a temporary
    def inner_next(s, inner, tag):
        I.nsite += 1
        h = tmp(I, s, inner, "it" + tag)
        res = []
        for kind, v, s2 in nxt(I, s, h):
            ni = deref(I, s2, h) if kind in ("ret", "skip") else None
            if kind == "skip":
                rebuild_skip(s2, inner, ni)
            res.append((kind, v, s2, ni))
        return res

    def rebuild_skip(s2, inner, ni):
        cur = it
        if k == "chain" and inner is cur.a[2]:
            a0 = mk("doneit")
            save(s2, mk("it", "chain", a0, ni))
        elif k == "zip" and inner is cur.a[2]:
            save(s2, mk("it", "zip", cur.a[1], ni))
        else:
            save(s2, mk("it", k, ni, *cur.a[2:]))

    if inner_is_ref(it):
        pass
    out = []
    if k in ("map", "cloned", "enumerate", "inspect", "map_while"):
        for kind, o, s, ni in inner_next(st, it.a[1], k):
            if kind != "ret":
                out.append((kind, o, s))
                continue
            for var, s2 in I.variants(s, o):
                if not var:
                    save(s2, mk("it", k, ni, *it.a[2:]))
                    out.append(("ret", NONE, s2))
                    continue
                x = I.payload(o, 1)
                if k == "cloned":
                    save(s2, mk("it", k, ni))
                    out.append(("ret", some(deref(I, s2, x)), s2))
                elif k == "enumerate":
                    save(s2, mk("it", k, ni, iadd(it.a[2], ONE, USZ)))
                    out.append(("ret", some(tup(it.a[2], x)), s2))
                else:
                    h = tmp(I, s2, it.a[2], "clo" + k)
                    arg = x
                    if k == "inspect":
                        arg = tmp(I, s2, x, "insp")
                    for kind2, r, s3 in I.call_value(s2, h, [arg]):
                        if kind2 != "ret":
                            out.append((kind2, r, s3))
                            continue
                        save(s3, mk("it", k, ni, deref(I, s3, h)))
                        out.append(("ret", some(x) if k == "inspect" else r if k == "map_while" else some(r), s3))
        return out
    if k in ("filter", "filter_map", "take_while", "skip_while"):
        return filter_next(I, st, it, save, inner_next)
    if k == "peek":
        inner, pk = it.a[1:]
        if pk.op == "nopeek":
            for kind, o, s, ni in inner_next(st, inner, k):
                if kind == "ret":
                    save(s, mk("it", "peek", ni, pk))
                out.append((kind, o, s))
            return out
        save(st, mk("it", "peek", inner, mk("nopeek")))
        return ret(pk, st)
    if k == "take":
        inner, cnt = it.a[1:]
        for f, s in I.fork(st, cmp_le("i", cnt, ZERO)):
            if f:
                out.append(("ret", NONE, s))
                continue
            for kind, o, s2, ni in inner_next(s, inner, k):
                if kind == "ret":
                    save(s2, mk("it", "take", ni, isub(cnt, ONE, USZ)))
                out.append((kind, o, s2))
        return out
    if k == "chain":
        a, b = it.a[1:]
        if a.op == "doneit":
            for kind, o, s, ni in inner_next(st, b, "chainb"):
                if kind == "ret":
                    save(s, mk("it", "chain", a, ni))
                out.append((kind, o, s))
            return out
        for kind, o, s, ni in inner_next(st, a, "chaina"):
            if kind != "ret":
                out.append((kind, o, s))
                continue
            for var, s2 in I.variants(s, o):
                if var:
                    save(s2, mk("it", "chain", ni, b))
                    out.append(("ret", some(I.payload(o, 1)), s2))
                else:
                    for kind2, o2, s3, nb in inner_next(s2, b, "chainb"):
                        if kind2 == "ret":
                            save(s3, mk("it", "chain", mk("doneit"), nb))
                        out.append((kind2, o2, s3))
        return out
    if k == "zip":
        for kind, o, s, na in inner_next(st, it.a[1], "zipa"):
            if kind != "ret":
                out.append((kind, o, s))
                continue
            for var, s2 in I.variants(s, o):
                if not var:
                    out.append(("ret", NONE, s2))
                    continue
                x = I.payload(o, 1)
                for kind2, o2, s3, nb in inner_next(s2, it.a[2], "zipb"):
                    if kind2 != "ret":
                        out.append((kind2, o2, s3))
                        continue
                    for var2, s4 in I.variants(s3, o2):
                        save(s4, mk("it", "zip", na, nb))
                        out.append(("ret", some(tup(x, I.payload(o2, 1))) if var2 else NONE, s4))
        return out
    if k == "flat":
        return flat_next(I, st, it, save, inner_next)
    I.unknown(st, "iterator " + k)
    return ret(I.unk("next " + k), st)


def inner_is_ref(it):
    return False


def filter_next(I, st, it, save, inner_next):
    k = it.a[0]
    root = mk("H", I.site(), "filt", ())
    st.mem[root] = it
    lid = mk("loop", I.site(), "filter", I.tags)

    def step(s):
        cur = s.mem[root]
        backs, exits = [], []
        for kind, o, s1, ni in inner_next(s, cur.a[1], "f"):
            if kind == "skip":
                s1.mem[root] = mk("it", k, ni, *cur.a[2:])
                backs.append(s1)
                continue
            if kind != "ret":
                exits.append((kind, o, s1))
                continue
            for var, s2 in I.variants(s1, o):
                if not var:
                    s2.mem[root] = mk("it", k, ni, *cur.a[2:])
                    exits.append(("ret", NONE, s2))
                    continue
                x = I.payload(o, 1)
                h = tmp(I, s2, cur.a[2], "clo" + k)
                arg = x if k == "filter_map" else tmp(I, s2, x, "farg")
                for kind2, r, s3 in I.call_value(s2, h, [arg]):
                    if kind2 != "ret":
                        exits.append((kind2, r, s3))
                        continue
                    f2 = deref(I, s3, h)
                    if k == "filter_map":
                        for var2, s4 in I.variants(s3, r):
                            s4.mem[root] = mk("it", k, ni, f2)
                            if var2:
                                exits.append(("ret", some(I.payload(r, 1)), s4))
                            else:
                                backs.append(s4)
                        continue
                    for b, s4 in I.fork(s3, r):
                        s4.mem[root] = mk("it", k, ni, f2)
                        if k == "filter":
                            (exits.append(("ret", some(x), s4)) if b else backs.append(s4))
                        elif k == "take_while":
                            exits.append(("ret", some(x) if b else NONE, s4))
                        elif k == "skip_while":
                            if b:
                                backs.append(s4)
                            else:
                                s4.mem[root] = ni
                                exits.append(("ret", some(x), s4))
        return backs, exits

    outs = []
    if SKIPLOOP[0]:
        # inside a consuming loop: "skip" is reported to the consumer instead of looping here
        b, e = step(st)
        for kind, o, s in e:
            if kind == "ret":
                save(s, s.mem.pop(root))
            outs.append((kind, o, s))
        for s in b:
            save(s, s.mem.pop(root))
            outs.append(("skip", None, s))
        return outs
    for kind, o, s in I.fix_loop(lid, st, step):
        if kind == "ret":
            save(s, s.mem.pop(root))
        outs.append((kind, o, s))
    return outs


SKIPLOOP = [False]


def flat_next(I, st, it, save, inner_next):
    """concatenation of inner sequences"""
    I.unknown(st, "flattened iteration")
    return ret(I.unk("flat"), st)


@model("Peekable::peek", "Peekable::peek_mut")
def _(c):
    I, st = c.I, c.st
    root, path = I.addr(c.v[0])
    it = I.load(st, root, path)
    if it.op == "it" and it.a[0] == "peek":
        inner, pk = it.a[1:]
        if pk.op != "nopeek":
            o = pk
            out = []
            for var, s in I.variants(st, o):
                out.append(("ret", some(tmp(I, s, I.payload(o, 1), "peeked")) if var else NONE, s))
            return out
        out = []
        h = tmp(I, st, inner, "pk")
        for kind, o, s in nxt(I, st, h):
            if kind != "ret":
                out.append((kind, o, s))
                continue
            s.mem[root] = put(I.load(s, root), path, mk("it", "peek", deref(I, s, h), o))
            for var, s2 in I.variants(s, o):
                out.append(("ret", some(tmp(I, s2, I.payload(o, 1), "peeked")) if var else NONE, s2))
        return out
    # an opaque Peekable: its head element
    if it.op in ("proj", "deref", "lv", "upd", "pnext"):
        h = mk("peekhead", it)
        out = []
        for f, s in I.fork(st, mk("hasnext", it)):
            out.append(("ret", some(tmp(I, s, h, "peeked")) if f else NONE, s))
        return out
    return None


@model("Peekable::next_if", "Peekable::next_if_eq")
def _(c):
    if c.name.endswith("next_if"):
        I, st = c.I, c.st
        root, path = I.addr(c.v[0])
        it = I.load(st, root, path)
        if it.op != "it":
            h = mk("peekhead", it)
            out = []
            for f, s in I.fork(st, mk("hasnext", it)):
                if not f:
                    out.append(("ret", NONE, s))
                    continue
                p = tmp(I, s, h, "peeked")
                for kind, r, s2 in I.call_value(s, c.v[1], [p]):
                    for b, s3 in I.fork(s2, r):
                        if b:
                            I.store(s3, root, path, mk("pnext", it))
                            out.append(("ret", some(h), s3))
                        else:
                            out.append(("ret", NONE, s3))
            return out
    return None


def opaque_peek_next(I, st, root, path, it):
    h = mk("peekhead", it)
    out = []
    for f, s in I.fork(st, mk("hasnext", it)):
        if f:
            I.store(s, root, path, mk("pnext", it))
            out.append(("ret", some(h), s))
        else:
            out.append(("ret", NONE, s))
    return out


_old_next = FN["Iterator::next"]


@model("Iterator::next")
def _(c):
    t = c.targ(0)
    if t is not None and t.get("path", "").endswith("Peekable"):
        root, path = c.I.addr(c.v[0])
        it = c.I.load(c.st, root, path)
        if it.op != "it":
            return opaque_peek_next(c.I, c.st, root, path, it)
    return _old_next(c)


# ------------------------------------------------------------------------------------------------ consumers
def consume(I, st, it, body, done, acc0=None):
    """virtual loop over an iterator.  body(s, x) -> [('back', s) | (kind, value, s)];  done(s) -> outcomes"""
    root = mk("H", I.site(), "cons", ())
    I.nsite += 1
    p = mk("ref", root, ())
    if it.op == "ref":
        p = it
    else:
        st.mem[root] = as_it(it)
    lid = mk("loop", I.site(), "consume", I.tags)

    def step(s):
        backs, exits = [], []
        old = SKIPLOOP[0]
        SKIPLOOP[0] = True
        try:
            outs = nxt(I, s, p)
        finally:
            SKIPLOOP[0] = old
        for kind, o, s1 in outs:
            if kind == "skip":
                backs.append(s1)
                continue
            if kind != "ret":
                exits.append((kind, o, s1))
                continue
            for var, s2 in I.variants(s1, o):
                if not var:
                    exits.append(("done", UNIT, s2))
                else:
                    for r in body(s2, I.payload(o, 1)):
                        if r[0] == "back":
                            backs.append(r[1])
                        else:
                            exits.append(r)
        return backs, exits

    fl = flat_core(it)
    if fl is not None:
        def nested(s, x):
            res = []
            for kind, it2, s2 in into_iter(I, s, x, I.F.types[fl.a[3].a[0]] if fl.a[3].a[0] >= 0 else None):
                if kind != "ret":
                    res.append((kind, it2, s2))
                    continue
                if it2.op != "it":
                    I.unknown(s2, "flattened iteration")
                I.nsite += 1
                for k2, v2, s3 in consume(I, s2, flat_wrap(it, it2), body, lambda s4: [("nested", UNIT, s4)]):
                    res.append(("back", s3) if k2 == "nested" else (k2, v2, s3))
            return res
        return consume(I, st, fl.a[1], nested, done)

    outs = []
    fast = unroll(I, st, it, p, step) if it.op == "it" else None
    for kind, v, s in (fast if fast is not None else I.fix_loop(lid, st, step, I.span, I.stack[-1][1].path if I.stack else "")):
        if it.op != "ref":
            s.mem.pop(root, None)
        if kind == "done":
            outs += done(s)
        else:
            outs.append((kind, v, s))
    return outs


def flat_core(it):
    """the flattening adapter below stateless adapters"""
    while it.op == "it":
        if it.a[0] == "flat":
            return it
        if it.a[0] not in ("map", "cloned", "filter", "filter_map", "inspect"):
            return None
        it = it.a[1]
    return None


def flat_wrap(it, inner):
    if it.a[0] == "flat":
        return inner
    return mk("it", it.a[0], flat_wrap(it.a[1], inner), *it.a[2:])


def itlen(it):
    """number of elements when constant"""
    if it.op != "it":
        return None
    k = it.a[0]
    if k == "once":
        return 1
    if k in ("slice", "into", "revslice", "revinto") and it.a[2].op == "int" and it.a[3].op == "int":
        return it.a[3].a[0] - it.a[2].a[0]
    if k in ("range", "revrange") and it.a[1].op == "int" and it.a[2].op == "int":
        return max(0, it.a[2].a[0] - it.a[1].a[0])
    if k in ("map", "filter", "cloned", "enumerate", "filter_map", "inspect"):
        return itlen(it.a[1])
    if k == "chain":
        a, b = itlen(it.a[1]), itlen(it.a[2])
        return None if a is None or b is None else a + b
    return None


def unroll(I, st, it, p, step):
    n = itlen(it)
    if n is None or n > max(8, I.cfg.unroll):
        return None
    sts = [st]
    outs = []
    for _ in range(n + 1):
        new = []
        for s in sts:
            b, e = step(s)
            new += b
            outs += e
        sts = I.merge(new)
        if not sts:
            break
    return outs


def collect_seq(I, st, it, k, acc=None):
    """k(state, sequence) with all elements pushed onto acc"""
    root = mk("H", I.site(), "acc", ())
    I.nsite += 1
    st.mem[root] = acc if acc is not None else mk("list")

    def body(s, x):
        s.mem[root] = vpush(s.mem[root], x)
        return [("back", s)]

    return consume(I, st, it, body, lambda s: k(s, s.mem.pop(root)))


@model("Iterator::collect", "FromIterator::from_iter")
def _(c):
    ts = [x for x in c.c.get("targs", []) if isinstance(x, int)]
    if c.name == "Iterator::collect":
        t = c.I.F.types[ts[1]] if len(ts) > 1 else None
    else:
        t = c.targ(0)
        it = c.v[0]
        tt = c.I.F.types[c.ty[0]] if c.ty and c.ty[0] is not None else None
        r = into_iter(c.I, c.st, it, tt)
        c.v[0] = r[0][1]
    return collect_to(c, c.v[0], t)


def collect_to(c, it, t):
    I, st = c.I, c.st
    last = (t or {}).get("path", "").split("::")[-1]
    if last in ("Vec", "VecDeque", "Box", "Arc"):
        return collect_seq(I, st, it, lambda s, v: ret(v, s))
    if last in ("BTreeMap", "BTreeSet", "HashMap", "HashSet"):
        return collect_seq(I, st, it, lambda s, v: ret(mk("set", last, v), s))
    if last in ("Result", "Option"):
        args = [x for x in t.get("a", []) if isinstance(x, int)]
        t2 = I.F.types[args[0]] if args else None
        good = 0 if last == "Result" else 1
        root = mk("H", I.site(), "acc", ())
        I.nsite += 1
        isunit = t2 is not None and t2["k"] == "tuple"
        st.mem[root] = mk("list")

        def body(s, x):
            out = []
            for var, s2 in I.variants(s, x):
                if var == good:
                    if not isunit:
                        s2.mem[root] = vpush(s2.mem[root], I.payload(x, good))
                    out.append(("back", s2))
                else:
                    s2.mem.pop(root, None)
                    out.append(("ret", err(I.payload(x, 1)) if last == "Result" else NONE, s2))
            return out

        def done(s):
            v = s.mem.pop(root)
            v = UNIT if isunit else v
            return ret(ok(v) if last == "Result" else some(v), s)
        return consume(I, st, it, body, done)
    if last == "String":
        return collect_string(I, st, it, string(""), lambda s, v: ret(v, s))
    if t is not None and t["k"] == "tuple":
        return collect_seq(I, st, it, lambda s, v: ret(UNIT, s))
    I.unknown(st, "collect into " + str((t or {}).get("s")))
    return ret(I.unk("collect"), st)


def collect_string(I, st, it, init, k):
    root = mk("H", I.site(), "acc", ())
    I.nsite += 1
    st.mem[root] = init

    def body(s, x):
        s.mem[root] = cat(s.mem[root], to_piece(I, s, x))
        return [("back", s)]
    return consume(I, st, it, body, lambda s: k(s, s.mem.pop(root)))


def to_piece(I, s, x):
    if x.op == "ref" or x.op == "str":
        return strv(I, s, x)
    if x in TYOF and TYOF[x] == "char" or x.op == "int" or x.op == "proj" and x.a[0].op == "chars":
        return mk("chr", x)
    return x


@model("Extend::extend", "Vec::extend", "VecDeque::extend")
def _(c):
    I, st = c.I, c.st
    t = c.targ(0)
    last = (t or {}).get("path", "").split("::")[-1]
    t2 = I.F.types[c.ty[1]] if c.ty and len(c.ty) > 1 and c.ty[1] is not None else None
    it = c.v[1]
    if it.op != "it":
        r = into_iter(I, st, as_it(it), t2)
        if len(r) != 1:
            return None
        it = r[0][1]
    if t2 is not None and t2["k"] in ("param", "alias") and it.op not in ("it",):
        # elements of a user's iterator are appended in order
        I.ev(st, "extend", target=c.v[0], it=it)
        setp(I, st, c.v[0], mk("append", c.deref(c.v[0]), mk("useriter", it)))
        return ret(UNIT, st)

    if last == "String":
        def k(s, v):
            setp(I, s, c.v[0], v)
            return ret(UNIT, s)
        return collect_string(I, st, it, c.deref(c.v[0]), k)

    def k2(s, v):
        # Vec<T>::extend(&T items) copies
        setp(I, s, c.v[0], vappend(deref(I, s, c.v[0]), v))
        return ret(UNIT, s)
    ts = [x for x in c.c.get("targs", []) if isinstance(x, int)]
    if len(ts) > 1 and I.F.types[ts[1]]["k"] == "ref":
        vt = [x for x in (t.get("a") or []) if isinstance(x, int)]
        if vt and I.F.types[vt[0]]["k"] != "ref":
            it = mk("it", "cloned", it)
    # appended in place, so that the target's own terms stay visible
    return collect_seq(I, st, it, k2)


@model("Iterator::for_each", "Iterator::try_for_each")
def _(c):
    I = c.I
    h = tmp(I, c.st, c.v[1], "fe")
    tr = c.name.endswith("try_for_each")

    def body(s, x):
        out = []
        for kind, r, s2 in I.call_value(s, h, [x]):
            if kind != "ret":
                out.append((kind, r, s2))
            elif not tr:
                out.append(("back", s2))
            else:
                for var, s3 in I.variants(s2, r):
                    out.append(("back", s3) if var == 0 else ("ret", err(I.payload(r, 1)), s3))
        return out
    return consume(I, c.st, c.v[0], body, lambda s: ret(ok(UNIT) if tr else UNIT, s))


def search(I, st, it, f, what):
    h = tmp(I, st, f, "srch")
    cnt = mk("H", I.site(), "pos", ())
    I.nsite += 1
    if what == "position":
        st.mem[cnt] = ZERO

    def body(s, x):
        out = []
        arg = x
        if what == "find":
            arg = tmp(I, s, x, "farg")
        for kind, r, s2 in I.call_value(s, h, [arg]):
            if kind != "ret":
                out.append((kind, r, s2))
                continue
            if what == "find_map":
                for var, s3 in I.variants(s2, r):
                    out.append(("ret", some(I.payload(r, 1)), s3) if var else ("back", s3))
                continue
            for b, s3 in I.fork(s2, r):
                if what == "any":
                    out.append(("ret", TRUE, s3) if b else ("back", s3))
                elif what == "all":
                    out.append(("back", s3) if b else ("ret", FALSE, s3))
                elif what == "find":
                    out.append(("ret", some(x), s3) if b else ("back", s3))
                elif what == "position":
                    if b:
                        v = s3.mem.pop(cnt)
                        out.append(("ret", some(v), s3))
                    else:
                        s3.mem[cnt] = iadd(s3.mem[cnt], ONE, USZ)
                        out.append(("back", s3))
        return out

    def done(s):
        s.mem.pop(cnt, None)
        return ret({"any": FALSE, "all": TRUE}.get(what, NONE), s)
    return consume(I, st, it, body, done)


for _w in ("any", "all", "find", "position", "find_map"):
    def _mks(w):
        FN["Iterator::" + w] = lambda c: search(c.I, c.st, c.v[0], c.v[1], w)
    _mks(_w)


@model("Iterator::fold")
def _(c):
    I = c.I
    root = mk("H", I.site(), "fold", ())
    I.nsite += 1
    c.st.mem[root] = c.v[1]
    h = tmp(I, c.st, c.v[2], "foldf")

    def body(s, x):
        out = []
        for kind, r, s2 in I.call_value(s, h, [s.mem[root], x]):
            if kind != "ret":
                out.append((kind, r, s2))
            else:
                s2.mem[root] = r
                out.append(("back", s2))
        return out
    return consume(I, c.st, c.v[0], body, lambda s: ret(s.mem.pop(root), s))


@model("Iterator::sum", "Iterator::count", "Iterator::product")
def _(c):
    I = c.I
    root = mk("H", I.site(), "sum", ())
    I.nsite += 1
    t = None
    ts = [x for x in c.c.get("targs", []) if isinstance(x, int)]
    if len(ts) > 1:
        t = I.F.types[ts[1]]["s"]
    cnt = c.name.endswith("count")
    if c.name.endswith("product"):
        return None
    isf = t == "f64"
    ty = "usize" if cnt else t
    c.st.mem[root] = flt(0) if isf else integer(0, ty)

    def body(s, x):
        if not cnt:
            if x.op == "ref":
                x = deref(I, s, x)
            s.mem[root] = fbin("add", s.mem[root], x) if isf else iadd(s.mem[root], x, ty)
        else:
            s.mem[root] = iadd(s.mem[root], ONE, "usize")
        return [("back", s)]
    return consume(I, c.st, c.v[0], body, lambda s: ret(s.mem.pop(root), s))


@model("Iterator::max", "Iterator::min", "Iterator::last", "Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key")
def _(c):
    I = c.I
    op = c.name.split("::")[1]
    if op.endswith("by") or op.endswith("key"):
        key = c.v[1]
        return collect_seq(I, c.st, c.v[0], lambda s, v: ret(mk(op, v, key), s))

    def k(s, v):
        if v.op == "list" and v.a:
            r = v.a[0]
            for x in v.a[1:]:
                r = tmax(op, "g", r, x) if op != "last" else x
            return ret(some(r), s)
        outs = []
        for f, s2 in I.fork(s, is_empty(v)):
            outs.append(("ret", NONE if f else some(mk(op + "of", v)), s2))
        return outs
    return collect_seq(I, c.st, c.v[0], k)


def wrapped_it(I, st, v):
    """the sequence iterator that an iterator struct of this crate merely passes on, if it is one"""
    if v.op != "adt" or v.a[0] not in I.F.adts:
        return None
    its = [x for x in v.a if isinstance(x, T) and x.op == "it" and x.a[0] in ("slice", "into")]
    if len(its) != 1:
        return None
    it = its[0]
    s = st.copy()
    h = tmp(I, s, v, "wrap")
    base = len(s.mem)
    outs = nxt(I, s, h)
    if len(outs) != 2 or any(k != "ret" for k, o, t in outs):
        return None
    step = mk("it", it.a[0], it.a[1], iadd(it.a[2], ONE, USZ), it.a[3])
    el = elem(I, it.a[1], it.a[2]) if it.a[0] == "slice" else proj(it.a[1], ("i", it.a[2]))
    got = {o: deref(I, t, h) for k, o, t in outs}
    if got.get(some(el)) is subst(v, {it: step}) and got.get(NONE) is v:
        return it
    return None


@model("Iterator::nth")
def _(c):
    I, st = c.I, c.st
    n = c.v[1]
    root, path = I.addr(c.v[0])
    it = as_it(I.load(st, root, path))
    new = None
    if it.op == "it" and it.a[0] in ("slice", "into", "chars", "bytes"):
        a = list(it.a)
        a[2] = iadd(a[2], n, USZ)
        new = mk("it", *a)
    else:
        w = wrapped_it(I, st, it)
        if w is not None:
            new = subst(it, {w: mk("it", w.a[0], w.a[1], iadd(w.a[2], n, USZ), w.a[3])})
    if new is not None:
        st.mem[root] = put(I.load(st, root), path, new)
        return nxt(I, st, c.v[0])
    cnt = mk("H", I.site(), "nth", ())
    I.nsite += 1
    st.mem[cnt] = ZERO

    def body(s, x):
        out = []
        for f, s2 in I.fork(s, cmp_eq("i", s.mem[cnt], n)):
            if f:
                s2.mem.pop(cnt)
                out.append(("ret", some(x), s2))
            else:
                s2.mem[cnt] = iadd(s2.mem[cnt], ONE, USZ)
                out.append(("back", s2))
        return out

    def done(s):
        s.mem.pop(cnt, None)
        return ret(NONE, s)
    return consume(I, st, c.v[0], body, done)


@model("Iterator::eq", "Iterator::ne", "Iterator::cmp", "Iterator::partial_cmp", "Iterator::lt")
def _(c):
    I = c.I
    op = c.name.split("::")[1]
    t2 = I.F.types[c.ty[1]] if c.ty and c.ty[1] is not None else None
    r0 = into_iter(I, c.st, as_it(c.v[1]), t2)
    if len(r0) != 1:
        return None
    b = r0[0][1]

    def k1(s, v1):
        def k2(s2, v2):
            if v1 is v2 and op in ("eq", "ne"):
                r = TRUE
            else:
                r = mk("seqeq", *sorted((v1, v2), key=lambda x: x.id)) if op in ("eq", "ne") else mk("cmp", "g", v1, v2)
            return ret(lnot(r) if op == "ne" else r, s2)
        return collect_seq(I, s, b, k2)
    return collect_seq(I, c.st, c.v[0], k1)


@model("Iterator::size_hint")
def _(c):
    return c.out(tup(mk("sizehint", c.v[0]), mk("opaque", "sizehint")))


@model("ExactSizeIterator::len")
def _(c):
    it = c.deref(c.v[0])
    if it.op == "it" and it.a[0] in ("slice", "into"):
        return c.out(isub(it.a[3], it.a[2], USZ))
    return c.out(mk("itlen", it))


@model("Vec::retain", "Vec::retain_mut", "VecDeque::retain", "VecDeque::retain_mut")
def _(c):
    I, st = c.I, c.st
    v = c.deref(c.v[0])
    h = tmp(I, st, c.v[1], "retf")
    root = mk("H", I.site(), "ret", ())
    I.nsite += 1
    st.mem[root] = mk("list")
    mut = c.name.endswith("mut")

    def body(s, x):
        out = []
        # x: pointer to the element
        px = x
        for kind, r, s2 in I.call_value(s, h, [px]):
            if kind != "ret":
                out.append((kind, r, s2))
                continue
            for b, s3 in I.fork(s2, r):
                if b:
                    s3.mem[root] = vpush(s3.mem[root], deref(I, s3, px))
                out.append(("back", s3))
        return out

    def done(s):
        nv = s.mem.pop(root)
        setp(I, s, c.v[0], nv)
        return ret(UNIT, s)
    return consume(I, st, mk("it", "slice", c.v[0], ZERO, seqlen(v)), body, done)


def bvdepth(I):
    return len(I.loopstack)


# ------------------------------------------------------------------------------------------------ calls of values
@model("FnOnce::call_once", "Fn::call", "FnMut::call_mut", "AsyncFn::call")
def _(c):
    f = c.v[0]
    args = c.v[1]
    if args.op == "tup":
        al = list(args.a)
    else:
        al = [args]
    t = c.targ(0)
    if t is not None and t.get("path", "").split("::")[-1] == "Box" and f.op == "ref":
        # &mut Box<F> or Box<F>
        pass
    return c.I.call_value(c.st, f, al)


@model("Hash::hash", "Hasher::write_u64", "Hasher::write", "Hasher::write_str", "Hasher::write_u8", "Hasher::write_isize", "Hasher::finish")
def _(c):
    v = c.deref(c.v[0])
    c.I.ev(c.st, "hash", val=v)
    return c.out(UNIT)


def dbg(c):
    return sink_write(c.I, c.st, c.v[0], mk("disp", "debug", "val", c.v[-1], None))


for _n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish", "debug_struct_field5_finish", "debug_struct_fields_finish",
           "debug_tuple_field1_finish", "debug_tuple_field2_finish", "debug_tuple_fields_finish", "debug_tuple_field3_finish"):
    FN["Formatter::" + _n] = dbg


@model("Debug::fmt")
def _(c):
    if c.c.get("rlocal"):
        return None
    return sink_write(c.I, c.st, c.v[1], mk("disp", "debug", "val", c.deref(c.v[0]), None))


@model("Display::fmt")
def _(c):
    if c.c.get("rlocal"):
        return None
    t = c.targ(0)
    return show_into(c.I, c.st, c.v[0], t, None, "display", lambda s, piece: sink_write(c.I, s, c.v[1], piece))


@model("Formatter::alternate", "Formatter::width", "Formatter::precision", "Formatter::fill", "Formatter::sign_plus")
def _(c):
    return c.out(mk("fmtopt", c.name, c.v[0]))


@model("RefCell::new", "Cell::new", "UnsafeCell::new")
def _(c):
    return c.out(adt("Cell", 0, c.v[0]))


@model("Cell::get", "RefCell::borrow", "RefCell::borrow_mut", "UnsafeCell::get")
def _(c):
    r, pa = c.I.addr(c.v[0])
    p = mk("ref", r, pa + (("f", 0),))
    if c.name.startswith("RefCell::"):
        c.I.ev(c.st, "boundary?", why="a cell may be borrowed already", ops=(p,))
    return c.out(c.deref(p) if c.name == "Cell::get" else p)


@model("Cell::set")
def _(c):
    r, pa = c.I.addr(c.v[0])
    c.I.store(c.st, r, pa + (("f", 0),), c.v[1])
    return c.out(UNIT)


@model("any::type_name", "thread::panicking", "thread::yield_now", "hint::spin_loop", "atomic::fence", "thread::sleep")
def _(c):
    return c.out(mk("opaque", c.name) if c.name not in ("thread::yield_now", "hint::spin_loop", "atomic::fence", "thread::sleep") else UNIT)
