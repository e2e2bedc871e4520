"""Hash-consed value expressions ("terms") and their local simplification.

A term denotes one runtime value.  Terms are interned, so structural equality
is identity; all simplification happens on construction.
"""
import math
import struct

_tab = {}


class T(object):
    __slots__ = ("op", "a", "id", "_syms")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab) + 1
        t._syms = None
        _tab[k] = t
    return t


INTS = {
    "u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1),
    "u128": (0, 2 ** 128 - 1), "usize": (0, 2 ** 64 - 1),
    "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
    "i64": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1), "isize": (-2 ** 63, 2 ** 63 - 1),
    "char": (0, 0x10FFFF), "bool": (0, 1),
}
NAN_ORD = 1 << 70


def integer(v, ty):
    return mk("int", v, ty)


def boolean(b):
    return mk("int", 1 if b else 0, "bool")


TRUE = boolean(True)
FALSE = boolean(False)
UNIT = mk("tup")


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def ffrom(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def flt(x):
    return mk("f64", fbits(float(x)))


def ford(x):
    """total, monotone map of a float to an integer; -0.0 and 0.0 coincide; NaN is its own point"""
    if x != x:
        return NAN_ORD
    b = fbits(x)
    if b >> 63:
        return -(b & ((1 << 63) - 1))
    return b


def unford(o):
    if o == NAN_ORD:
        return float("nan")
    if o < 0:
        return ffrom((-o) | (1 << 63))
    return ffrom(o)


FINF = ford(float("inf"))
FRANGE = ((-FINF, FINF), (NAN_ORD, NAN_ORD))


def is_const(t):
    return t.op in ("int", "f64", "str")


def string(s):
    return mk("str", s)


def tup(*a):
    return mk("tup", *a)


def adt(name, variant, *fs):
    return mk("adt", name, variant, *fs)


OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return adt(OPT, 1, x)


NONE = adt(OPT, 0)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


def ref(root, path=()):
    return mk("ref", root, path)


# ---------------------------------------------------------------- arithmetic
# Linear normal form for integers: ('lin', ty, const, ((term, coef), ...)) sorted by id
def lin_parts(t):
    if t.op == "int":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[1], t.a[2]
    return 0, ((t, 1),)


def mklin(ty, c, parts):
    d = {}
    for x, k in parts:
        d[x] = d.get(x, 0) + k
    ps = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))
    if not ps:
        lo, hi = INTS.get(ty, (None, None))
        if lo is not None and not (lo <= c <= hi):
            if ty == "char":
                return mk("int", c, ty)
            c = (c - lo) % (hi - lo + 1) + lo
        return integer(c, ty)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return mk("lin", ty, c, ps)


def iadd(a, b, ty):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return mklin(ty, ca + cb, pa + pb)


def isub(a, b, ty):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return mklin(ty, ca - cb, pa + tuple((x, -k) for x, k in pb))


def imul(a, b, ty):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    if not pa:
        return mklin(ty, ca * cb, tuple((x, k * ca) for x, k in pb))
    if not pb:
        return mklin(ty, ca * cb, tuple((x, k * cb) for x, k in pa))
    if a.id > b.id:
        a, b = b, a
    return mk("imul", ty, a, b)


def idiv(a, b, ty):
    if a.op == "int" and b.op == "int" and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        if (a.a[0] < 0) != (b.a[0] < 0):
            q = -q
        return integer(q, ty)
    if b.op == "int" and b.a[0] == 1:
        return a
    # (x / m) / n == x / (m*n) for positive constants (truncating division)
    if a.op == "idiv" and b.op == "int" and a.a[2].op == "int" and a.a[2].a[0] > 0 and b.a[0] > 0:
        return mk("idiv", ty, a.a[1], integer(a.a[2].a[0] * b.a[0], ty))
    return mk("idiv", ty, a, b)


def irem(a, b, ty):
    if a.op == "int" and b.op == "int" and b.a[0] != 0:
        r = abs(a.a[0]) % abs(b.a[0])
        return integer(-r if a.a[0] < 0 else r, ty)
    return mk("irem", ty, a, b)


def fbin(op, a, b):
    if a.op == "f64" and b.op == "f64":
        x, y = ffrom(a.a[0]), ffrom(b.a[0])
        try:
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}.get(op, lambda: None)()
            if op == "div" and y != 0:
                r = x / y
            if r is not None:
                return flt(r)
        except (OverflowError, ZeroDivisionError):
            pass
    if op == "sub":
        # x - y and x + (-y) are the same IEEE operation
        return fbin("add", a, fneg(b))
    if op in ("add", "mul") and a.id > b.id:
        a, b = b, a  # IEEE addition and multiplication commute
    if op == "mul" and b.op == "f64" and ffrom(b.a[0]) == -1.0:
        return fneg(a)
    if op == "mul" and a.op == "f64" and ffrom(a.a[0]) == -1.0:
        return fneg(b)
    return mk("f" + op, a, b)


def frnd(n, x):
    """floor, ceil, trunc, abs of a float"""
    if x.op == "f64":
        v = ffrom(x.a[0])
        if v == v and abs(v) != float("inf"):
            if n == "round":
                return flt(math.copysign(math.floor(abs(v) + 0.5) if abs(v) < 2 ** 52 else abs(v), v))
            return flt(abs(v) if n == "abs" else math.copysign(float(getattr(math, n)(v)), v))
        return flt(abs(v)) if n == "abs" else x
    return mk(n, x)


def ffold(n, *xs):
    """a float function, computed on constants"""
    if any(x.op != "f64" for x in xs):
        return mk(n, *xs)
    v = [ffrom(x.a[0]) for x in xs]
    x = v[0]
    fin = all(y == y and abs(y) != float("inf") for y in v)
    if n in ("isnan", "isfin", "isinf", "signpos"):
        return boolean({"isnan": x != x, "isfin": fin, "isinf": abs(x) == float("inf"), "signpos": math.copysign(1, x) > 0}[n])
    if not fin or n == "frem" and v[1] == 0 or n == "sqrt" and x < 0:
        return mk(n, *xs)
    if n == "fract":
        return flt(x - math.trunc(x))
    if n == "frem":
        return flt(math.fmod(x, v[1]))
    return flt(math.sqrt(x))


def f2i(v, t):
    if v.op == "f64":
        x = ffrom(v.a[0])
        lo, hi = INTS[t]
        return integer(0 if x != x else lo if x <= lo else hi if x >= hi else int(x), t)
    return mk("f2i", v, t)


def icast(v, f, t):
    if v.op == "int" and t in INTS:
        lo, hi = INTS[t]
        return integer((v.a[0] - lo) % (hi - lo + 1) + lo, t)
    return mk("cast", v, f, t)


def i2f(v):
    return flt(v.a[0]) if v.op == "int" else mk("i2f", v)


def imm(op, a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return a if (a.a[0] > b.a[0]) == (op == "max") else b
    if a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def fmm(n, a, b):
    if a.op == "f64" and b.op == "f64":
        x, y = ffrom(a.a[0]), ffrom(b.a[0])
        if x == x and y == y:
            return flt((min if n == "fmin" else max)(x, y))
    return mk(n, a, b)


def fneg(a):
    if a.op == "f64":
        return flt(-ffrom(a.a[0]))
    if a.op == "fneg":
        return a.a[0]
    return mk("fneg", a)


def lnot(t):
    if t.op == "int":
        return boolean(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def ordering(a, b, what):
    """comparison of an Ordering with a constant (as the machine code of is_lt() and the like does it)"""
    if a.op == "discr" and a.a[0].op == "cmp" and b.op == "int":
        k, x, y = a.a[0].a
        c = b.a[0] - 256 if b.a[0] > 127 else b.a[0]
        if what == "eq":
            return {0: lambda: cmp_eq(k, x, y), 1: lambda: cmp_lt(k, y, x), -1: lambda: cmp_lt(k, x, y)}.get(c, lambda: FALSE)()
        return {-1: lambda: cmp_lt(k, x, y), 0: lambda: cmp_le(k, x, y)}.get(c, lambda: boolean(c >= 1))()
    if b.op == "discr" and b.a[0].op == "cmp" and a.op == "int":
        if what == "eq":
            return ordering(b, a, what)
        # c <= d  is  not (d <= c-1)
        return lnot(ordering(b, integer(a.a[0] - 1, "i128"), "le"))
    return None


# comparisons.  kind: 'i' integers (incl. char/bool), 'f' floats, 'g' generic (total equality)
def cmp_lt(kind, a, b):
    if a.op == "int" and b.op == "int":
        return boolean(a.a[0] < b.a[0])
    if a.op == "f64" and b.op == "f64":
        return boolean(ffrom(a.a[0]) < ffrom(b.a[0]))
    if a is b:
        return FALSE
    if kind == "i":
        return lnot(cmp_le(kind, b, a))
    return mk("lt", kind, a, b)


def cmp_le(kind, a, b):
    if a.op == "int" and b.op == "int":
        return boolean(a.a[0] <= b.a[0])
    if a.op == "f64" and b.op == "f64":
        return boolean(ffrom(a.a[0]) <= ffrom(b.a[0]))
    if a is b and kind != "f":
        return TRUE
    if a is b:
        return lnot(mk("isnan", a))
    r = ordering(a, b, "le") if kind == "i" else None
    if r is not None:
        return r
    if kind == "i":
        # canonical: sum of terms <= const, moved to one side
        ca, pa = lin_parts(a)
        cb, pb = lin_parts(b)
        d = {}
        for x, k in pa:
            d[x] = d.get(x, 0) + k
        for x, k in pb:
            d[x] = d.get(x, 0) - k
        ps = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))
        c = cb - ca
        if not ps:
            return boolean(0 <= c)
        return mk("sle", c, ps)  # sum(ps) <= c   (exact integers: no wrap assumed)
    return mk("le", kind, a, b)


def cmp_eq(kind, a, b):
    if a is b and kind != "f":
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == "f64" and b.op == "f64":
            return boolean(ffrom(a.a[0]) == ffrom(b.a[0]))
        if a.op == b.op:
            return boolean(a.a[0] == b.a[0])
    r = ordering(a, b, "eq") if kind != "f" else None
    if r is not None:
        return r
    if a is b:
        return lnot(mk("isnan", a))
    if kind == "i":
        if a.op == "int" and a.a[1] == "bool":
            return b if a.a[0] else lnot(b)
        if b.op == "int" and b.a[1] == "bool":
            return a if b.a[0] else lnot(a)
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
        return FALSE
    if a.op == "sortkey" and b.op == "sortkey":
        pass
    if a.id > b.id:
        a, b = b, a
    return mk("eq", kind, a, b)


# ---------------------------------------------------------------- projections
TRANSPARENT = ("ref", "buf", "wbuf")


def proj(x, c):
    """component `c` of value `x`; c is ('f',i) | ('vf',variant,i) | ('i',T) | ('mx',)"""
    o = x.op
    if o == "adt":
        if c[0] == "vf":
            if x.a[1] == c[1] and len(x.a) > 2 + c[2]:
                return x.a[2 + c[2]]
            return mk("bad", x, c)
        if c[0] == "f" and len(x.a) > 2 + c[1]:
            return x.a[2 + c[1]]
    elif o in ("tup", "arr"):
        if c[0] == "f" and len(x.a) > c[1]:
            return x.a[c[1]]
        if c[0] == "i" and c[1].op == "int" and 0 <= c[1].a[0] < len(x.a):
            return x.a[c[1].a[0]]
    elif o == "clo":
        if c[0] == "f" and len(x.a) > 1 + c[1]:
            return x.a[1 + c[1]]
    elif o == "list":
        if c[0] == "i" and c[1].op == "int" and 0 <= c[1].a[0] < len(x.a):
            return x.a[c[1].a[0]]
    elif o == "upd":
        if x.a[1] == c:
            return x.a[2]
        if c[0] == x.a[1][0] and c[0] in ("f", "vf"):
            return proj(x.a[0], c)
        if c[0] == "i" and x.a[1][0] == "i" and c[1].op == "int" and x.a[1][1].op == "int":
            return proj(x.a[0], c)
    elif o in ("chars", "bytes") and x.a[0].op == "str":
        if c[0] == "i" and c[1].op == "int":
            q = [ord(y) for y in x.a[0].a[0]] if o == "chars" else list(x.a[0].a[0].encode())
            if 0 <= c[1].a[0] < len(q):
                return integer(q[c[1].a[0]], "char" if o == "chars" else "u8")
    elif o == "subseq":
        if c[0] == "i":
            return proj(x.a[0], ("i", iadd(x.a[1], c[1], "usize")))
    elif o in TRANSPARENT:
        if c[0] == "f":
            return x
    elif o == "comp" and c[0] == "i":
        # exactly one value per index
        lo, hi, init, cases, bv = x.a
        if init.op == "list" and not init.a and lo.op == "int" and lo.a[0] == 0 and len(cases) == 1 and len(cases[0][1]) == 1 and cases[0][1][0].op != "seq":
            return subst(cases[0][1][0], {bv: c[1]})
    return mk("proj", x, c)


def setc(x, c, v):
    """x with component c replaced by v"""
    o = x.op
    if o == "adt":
        i = c[2] if c[0] == "vf" else c[1] if c[0] == "f" else None
        if i is not None and (c[0] == "f" or x.a[1] == c[1]) and len(x.a) > 2 + i:
            a = list(x.a)
            a[2 + i] = v
            return mk("adt", *a)
    elif o in ("tup", "arr") and c[0] == "f" and len(x.a) > c[1]:
        a = list(x.a)
        a[c[1]] = v
        return mk(o, *a)
    elif o == "clo" and c[0] == "f" and len(x.a) > 1 + c[1]:
        a = list(x.a)
        a[1 + c[1]] = v
        return mk(o, *a)
    elif o in ("list", "arr") and c[0] == "i" and c[1].op == "int" and 0 <= c[1].a[0] < len(x.a):
        a = list(x.a)
        a[c[1].a[0]] = v
        return mk(o, *a)
    elif o == "upd" and x.a[1] == c:
        return setc(x.a[0], c, v)
    if v.op == "proj" and v.a[0] is x and v.a[1] == c:
        return x
    return mk("upd", x, c, v)


def get(x, path):
    for c in path:
        x = proj(x, c)
    return x


def put(x, path, v):
    if not path:
        return v
    return setc(x, path[0], put(proj(x, path[0]), path[1:], v))




def seqlen(v):
    if v.op in ("list", "arr"):
        return integer(len(v.a), "usize")
    if v.op == "push":
        return iadd(seqlen(v.a[0]), integer(1, "usize"), "usize")
    if v.op in ("sort", "rev", "updlen"):
        return seqlen(v.a[-1])
    if v.op in ("swaprm", "remove", "popfront", "popback"):
        return isub(seqlen(v.a[0]), integer(1, "usize"), "usize")
    if v.op == "pushfront":
        return iadd(seqlen(v.a[0]), integer(1, "usize"), "usize")
    if v.op == "comp":
        lo, hi, init, cases, bv = v.a
        if all(len(xs) == 1 and xs[0].op != "seq" for _, xs in cases) and lo.op == "int" and lo.a[0] == 0:
            # (the cases cover every repetition: those without effect are kept)
            return iadd(seqlen(init), hi, "usize")
    if v.op == "append":
        return iadd(seqlen(v.a[0]), seqlen(v.a[1]), "usize")
    if v.op == "upd" and v.a[1][0] == "i":
        return seqlen(v.a[0])
    if v.op == "chars" and v.a[0].op == "str":
        return integer(len(v.a[0].a[0]), "usize")
    if v.op == "bytes" and v.a[0].op == "str":
        return integer(len(v.a[0].a[0].encode()), "usize")
    if v.op == "str":
        return integer(len(v.a[0].encode()), "usize")
    if v.op in ("subseq", "substr"):
        return isub(v.a[2], v.a[1], "usize")
    return mk("len", v)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    """every term occurring in t (also inside path components and tuples)"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


_lvs = {}
_E = frozenset()


def lvs_in(t):
    """loop variables in t"""
    if isinstance(t, tuple):
        r = _E
        for x in t:
            if isinstance(x, (T, tuple)):
                r |= lvs_in(x)
        return r
    r = _lvs.get(t)
    if r is None:
        r = frozenset((t,)) if t.op == "lv" else _E
        if t.op != "lv":
            for x in t.a:
                if isinstance(x, (T, tuple)):
                    r |= lvs_in(x)
        _lvs[t] = r
    return r


_roots = {}


def roots_in(t):
    """memory roots that t points to"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            if isinstance(x, (T, tuple)):
                r |= roots_in(x)
        return r
    r = _roots.get(t)
    if r is None:
        r = frozenset()
        if t.op == "ref" and isinstance(t.a[0], T):
            r |= frozenset((t.a[0],))
        for x in t.a:
            if isinstance(x, (T, tuple)):
                r |= roots_in(x)
        _roots[t] = r
    return r


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


REBUILD = {
    "proj": lambda a: proj(*a), "upd": lambda a: setc(a[0], a[1], a[2]), "lin": None,
    "len": lambda a: seqlen(*a), "not": lambda a: lnot(*a), "fneg": lambda a: fneg(*a),
    "imul": lambda a: imul(a[1], a[2], a[0]), "idiv": lambda a: idiv(a[1], a[2], a[0]),
    "irem": lambda a: irem(a[1], a[2], a[0]),
    "fadd": lambda a: fbin("add", *a), "fmul": lambda a: fbin("mul", *a), "fdiv": lambda a: fbin("div", *a),
    "abs": lambda a: frnd("abs", *a), "floor": lambda a: frnd("floor", *a), "ceil": lambda a: frnd("ceil", *a), "trunc": lambda a: frnd("trunc", *a),
    "round": lambda a: frnd("round", *a), "i2f": lambda a: i2f(*a),
    "fract": lambda a: ffold("fract", *a), "frem": lambda a: ffold("frem", *a), "sqrt": lambda a: ffold("sqrt", *a),
    "isnan": lambda a: ffold("isnan", *a), "isfin": lambda a: ffold("isfin", *a), "isinf": lambda a: ffold("isinf", *a), "signpos": lambda a: ffold("signpos", *a),
    "min": lambda a: imm("min", *a) if len(a) == 2 else mk("min", *a), "max": lambda a: imm("max", *a) if len(a) == 2 else mk("max", *a),
    "cast": lambda a: icast(*a), "f2i": lambda a: f2i(*a), "fmin": lambda a: fmm("fmin", *a), "fmax": lambda a: fmm("fmax", *a),
    "lt": lambda a: cmp_lt(*a), "le": lambda a: cmp_le(*a), "eq": lambda a: cmp_eq(*a),
}


def rebuild(op, a):
    if op == "lin":
        ty, c, ps = a
        r = integer(c, ty)
        for x, k in ps:
            r = iadd(r, imul(x, integer(k, ty), ty), ty)
        return r
    if op == "sle":
        c, ps = a
        r = integer(0, "i128")
        for x, k in ps:
            r = iadd(r, imul(x, integer(k, "i128"), "i128"), "i128")
        return cmp_le("i", r, integer(c, "i128"))
    f = REBUILD.get(op)
    if f:
        return f(a)
    return mk(op, *a)


def subst(t, m, memo=None):
    """replace terms by terms (dict or function), bottom-up with re-simplification"""
    if memo is None:
        memo = {}
    fn = m if callable(m) else m.get

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            r = fn(x)
            if r is None:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else rebuild(x.op, a)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(t)


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.a
    g = lambda x: show(x, d + 1)
    if o == "int":
        if a[1] == "bool":
            return "true" if a[0] else "false"
        if a[1] == "char":
            return repr(chr(a[0]))
        return str(a[0])
    if o == "f64":
        return repr(ffrom(a[0]))
    if o == "str":
        return repr(a[0])
    if o == "tup":
        return "(" + ", ".join(g(x) for x in a) + ")"
    if o == "adt":
        n = a[0].split("::")[-1]
        return "%s#%s(%s)" % (n, a[1], ", ".join(g(x) for x in a[2:]))
    if o == "proj":
        c = a[1]
        if c[0] == "i":
            return "%s[%s]" % (g(a[0]), g(c[1]))
        return "%s.%s" % (g(a[0]), ".".join(str(y) for y in c[1:]))
    if o == "deref":
        return "*" + g(a[0])
    if o == "sym":
        return "%" + (str(a[0]).split(":")[0] if str(a[0]).startswith("arg") else str(a[0]))
    if o == "fr":
        return "fr%d" % t.id
    if o in ("site", "loop", "lv", "unk"):
        return "%s%d" % (o, t.id)
    if o == "bv":
        return "#%d" % a[0]
    if o == "ref":
        return "&" + g(a[0]) + "".join("[%s]" % g(c[1]) if c[0] == "i" else "." + ".".join(str(y) for y in c[1:]) for c in a[1])
    if o == "lin":
        return "(" + " + ".join(["%s%s" % ("" if k == 1 else "%d*" % k, g(x)) for x, k in a[2]] + ([str(a[1])] if a[1] else [])) + ")"
    if o == "sle":
        return "(" + " + ".join(["%s%s" % ("" if k == 1 else "%d*" % k, g(x)) for x, k in a[1]]) + " <= %d)" % a[0]
    if o == "clo":
        return "clo<%s>(%s)" % (a[0].split("::")[-1][:24], ", ".join(g(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(g(x) for x in a))


# ---------------------------------------------------------------- interval sets
def iset_norm(s):
    s = sorted(x for x in s if x[0] <= x[1])
    out = []
    for lo, hi in s:
        if out and lo <= out[-1][1] + 1 and not (lo == NAN_ORD):
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def iset_and(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return iset_norm(out)


def iset_or(a, b):
    return iset_norm(tuple(a) + tuple(b))


BIG = 1 << 200


def iset_not(a):
    out = []
    cur = -BIG
    for lo, hi in iset_norm(a):
        if cur <= lo - 1:
            out.append((cur, lo - 1))
        cur = hi + 1
    out.append((cur, BIG))
    return tuple(out)


def iset_sub(a, b):
    return iset_and(a, iset_not(b))
