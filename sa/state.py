"""Abstract states: memory, path facts (ranges, linear bounds, order relations, atoms) and the event graph."""
from .term import *

LT, EQ, GT, UN = 1, 2, 4, 8


class Event(object):
    __slots__ = ("kind", "d", "st", "span", "fn", "loops", "frame")

    def __init__(self, kind, d, st, span, fn, loops, frame):
        self.kind, self.d, self.st, self.span, self.fn, self.loops, self.frame = kind, d, st, span, fn, loops, frame

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join("%s=%s" % (k, show(v) if isinstance(v, (T, tuple)) else v) for k, v in self.d.items()))


class Graph(object):
    def __init__(self):
        self.n = 0
        self.out = {}
        self.at = {}    # node -> the state that goes on from there into a join that forgets something

    def node(self):
        self.n += 1
        return self.n

    def edge(self, a, ev, b):
        self.out.setdefault(a, []).append((ev, b))


class State(object):
    __slots__ = ("mem", "facts", "rng", "lin", "rel", "node", "own")

    def __init__(self):
        self.mem, self.facts, self.rng, self.lin, self.rel = {}, {}, {}, {}, {}
        self.node = 0

    def copy(self):
        s = State.__new__(State)
        s.mem, s.facts, s.rng, s.lin, s.rel = dict(self.mem), dict(self.facts), dict(self.rng), dict(self.lin), dict(self.rel)
        s.node = self.node
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.rng.items()),
                frozenset(self.lin.items()), frozenset(self.rel.items()))

    def snap(self):
        """the path facts, frozen (events keep them)"""
        s = State.__new__(State)
        s.mem, s.facts, s.rng, s.lin, s.rel = self.mem.copy(), dict(self.facts), dict(self.rng), dict(self.lin), dict(self.rel)
        s.node = self.node
        return s

    # ------------------------------------------------------------ ranges
    def range(self, t):
        o = t.op
        if o == "int":
            return ((t.a[0], t.a[0]),)
        if o == "f64":
            x = ford(ffrom(t.a[0]))
            return ((x, x),)
        r = self.rng.get(t)
        d = default_range(t)
        if o == "lin":
            lo, hi = t.a[1], t.a[1]
            for x, k in t.a[2]:
                rx = self.range(x)
                if not rx:
                    return ()
                a, b = rx[0][0] * k, rx[-1][1] * k
                lo += min(a, b)
                hi += max(a, b)
            lo, hi = max(lo, -BIG), min(hi, BIG)
            d = ((lo, hi),)
            ty = t.a[0]
            if ty in INTS and ty[0] == "u":
                d = iset_and(d, ((0, BIG),)) or d
            b = self.linb(t.a[2])
            if b:
                d = iset_and(d, ((b[0] + t.a[1], b[1] + t.a[1]),)) or d
        elif o == "min":
            a, b = self.range(t.a[0]), self.range(t.a[1])
            if not a or not b:
                return ()
            d = ((min(a[0][0], b[0][0]), min(a[-1][1], b[-1][1])),)
        elif o == "max":
            a, b = self.range(t.a[0]), self.range(t.a[1])
            if not a or not b:
                return ()
            d = ((max(a[0][0], b[0][0]), max(a[-1][1], b[-1][1])),)
        elif o in ("dur_subsec_nanos", "dur_subsec_micros", "dur_subsec_millis"):
            d = ((0, {"dur_subsec_nanos": 999999999, "dur_subsec_micros": 999999, "dur_subsec_millis": 999}[o]),)
        elif o == "idiv" and t.a[2].op == "int" and t.a[2].a[0] > 0:
            a = self.range(t.a[1])
            q = lambda v: (abs(v) // t.a[2].a[0]) * (1 if v >= 0 else -1)
            d = ((q(a[0][0]), q(a[-1][1])),)
        elif o == "len" and t.a[0].op in ("chars", "bytes"):
            # a string has a character exactly when it has a byte, and no more characters than bytes
            S = t.a[0].a[0]
            o2 = self.rng.get(mk("len", mk("bytes" if t.a[0].op == "chars" else "chars", S)))
            if o2:
                if o2[0][0] >= 1:
                    d = iset_and(d, ((1, BIG),)) if t.a[0].op == "chars" else iset_and(d, ((o2[0][0], BIG),))
                if o2[-1][1] <= 0 or t.a[0].op == "chars" and o2[-1][1] < d[-1][1]:
                    d = iset_and(d, ((0, max(o2[-1][1], 0)),))
        elif o == "proj" and t.a[0].op in ("chars", "bytes") and t.a[1][0] == "i" and t.a[1][1].op == "int" and t.a[1][1].a[0] == 0:
            # the first byte and the first character agree on ASCII
            S = t.a[0].a[0]
            o2 = self.rng.get(mk("proj", mk("bytes" if t.a[0].op == "chars" else "chars", S), t.a[1]))
            if o2:
                lo = iset_and(o2, ((0, 127),))
                hi = iset_and(o2, ((128, BIG),))
                d = iset_and(d, iset_or(lo, ((128, BIG),) if hi else ()))
        iv = FINV.get(t)
        if iv is not None:
            d = iset_and(d, iv) or d
        if indexes(t):
            for cases in self.insts("rng", t):
                u = ()
                for atoms in cases:
                    c = ((-BIG, BIG),)
                    for a in atoms:
                        if a[0] == "rng" and a[1] is t:
                            c = iset_and(c, a[2])
                    u = iset_or(u, c)
                d = iset_and(d, u)
            if t.op == "proj" and t.a[1][0] == "i" and t.a[1][1].op != "int":
                x = self.range(t.a[1][1])
                if len(x) == 1 and x[0][0] == x[0][1]:
                    d = iset_and(d, self.range(proj(t.a[0], ("i", integer(x[0][0], "usize")))))
            if t.op == "proj":
                e = self.elem_range(t)
                if e is not None:
                    d = iset_and(d, e) if d else d
        if r is not None:
            return iset_and(r, d)
        return d

    def insts(self, kind, t, u=None):
        """what the facts about all elements say about t (or the pair t, u): [cases of atoms]"""
        if GUARD[0] > 2:
            return
        for f, b in list(self.facts.items()):
            if f.op != "forall" or not b:
                continue
            for vs, cases, pats in patterns(f):
                for k, ps in pats:
                    if k != kind:
                        continue
                    m = {}
                    if not (match(ps[0], t, vs, m) and (u is None or match(ps[1], u, vs, m))) or len(m) != len(vs):
                        continue
                    GUARD[0] += 1
                    try:
                        ok = all(self.inside(m[bv], bv, lo, hi, m) for bv, lo, hi in vs.values())
                    finally:
                        GUARD[0] -= 1
                    if ok:
                        cs = tuple(tuple(substa(a, m) for a in atoms) for atoms in cases)
                        if len(cs) > 1:
                            GUARD[0] += 1
                            try:
                                cs = tuple(c for c in cs if not any(self.excluded(a, t, u) for a in c))
                            finally:
                                GUARD[0] -= 1
                        yield cs

    def excluded(self, a, t, u):
        """can a condition not hold here? (conditions on what is being asked about are left alone)"""
        if a[0] == "rng":
            return a[1] is not t and not iset_and(self.range(a[1]), a[2])
        if a[0] == "fact":
            return a[1] is not t and a[1].op != "forall" and self.decide(a[1]) is (not a[2])
        if a[0] == "rel":
            return not (a[2] in (t, u) and a[3] in (t, u)) and not self.getrel(a[1], a[2], a[3]) & a[4]
        return False

    def inside(self, x, bv, lo, hi, m):
        if self.facts.get(mk("within", x, lo, hi)):
            return True
        if x is bv:
            return False
        lo, hi = subst(lo, m), subst(hi, m)
        return self.decide(cmp_le("i", lo, x)) is True and self.decide(cmp_lt("i", x, hi)) is True

    def feasible(self):
        """False: what is known about this path contradicts itself"""
        return all(self.range(k) for k in list(self.rng))

    def elem_range(self, t):
        """the range of (a component of) an element of a sequence made from other sequences"""
        path = []
        x = t
        while x.op == "proj" and not (x.a[1][0] == "i" and x.a[0].op in DERIVED):
            path.append(x.a[1])
            x = x.a[0]
        if x.op != "proj" or GUARD[0] > 2:
            return None
        path.reverse()
        if any(c[0] == "i" for c in path):
            return None
        src = origins(x.a[0])
        if src is None:
            return None
        u = ()
        GUARD[0] += 1
        try:
            for el, pre in src:
                s = self.copy()
                ok = True
                for a in pre:
                    if a[0] == "rng":
                        r = iset_and(s.range(a[1]), a[2])
                        ok = ok and bool(r)
                        s.rng[a[1]] = r
                    elif a[0] == "fact":
                        s.facts[a[1]] = a[2]
                    elif a[0] == "between":
                        s.facts[mk("within", *a[1:])] = True
                        ok = ok and s.assume(cmp_le("i", a[2], a[1]), True) and s.assume(cmp_lt("i", a[1], a[3]), True)
                if ok:
                    u = iset_or(u, s.range(get(el, path)))
        finally:
            GUARD[0] -= 1
        return u

    def linb(self, ps):
        """(lo,hi) of a canonical linear sum, or None"""
        if len(ps) == 1 and ps[0][1] == 1:
            r = self.range(ps[0][0]) if ps[0][0].op != "lin" else None
            return (r[0][0], r[-1][1]) if r else None
        sgn = 1 if ps[0][1] > 0 else -1
        q = ps if sgn > 0 else tuple((x, -k) for x, k in ps)
        b = self.lin.get(q)
        if b is None:
            return None
        return b if sgn > 0 else (-b[1], -b[0])

    def sumrange(self, ps):
        lo = hi = 0
        for x, k in ps:
            rx = self.range(x)
            if not rx:
                return (1, 0)
            a, b = rx[0][0] * k, rx[-1][1] * k
            lo += min(a, b)
            hi += max(a, b)
        b = self.linb(ps) if len(ps) > 1 else None
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return (lo, hi)

    # ------------------------------------------------------------ relations (floats and abstract orders)
    def getrel(self, kind, a, b):
        """possible orderings of a against b"""
        if a is b:
            if kind != "f":
                return EQ
            r = self.range_f(a)
            m = 0
            if any(x == (NAN_ORD, NAN_ORD) for x in r):
                m |= UN
            if any(x[1] != NAN_ORD for x in r):
                m |= EQ
            return m
        m = self.rel.get((a, b))
        if m is None:
            m2 = self.rel.get((b, a))
            if m2 is None:
                m = LT | EQ | GT | (UN if kind == "f" else 0)
            else:
                m = flip(m2)
        if kind == "f":
            ra, rb = self.range_f(a), self.range_f(b)
            na = any(x[0] == NAN_ORD for x in ra) or any(x[0] == NAN_ORD for x in rb)
            if not na:
                m &= ~UN
            fa = [x for x in ra if x[0] != NAN_ORD]
            fb = [x for x in rb if x[0] != NAN_ORD]
            if not fa or not fb:
                m &= UN
            else:
                if not fa[0][0] < fb[-1][1]:
                    m &= ~LT
                if not fa[-1][1] > fb[0][0]:
                    m &= ~GT
                if not iset_and(fa, fb):
                    m &= ~EQ
        if indexes(a) or indexes(b):
            for cases in list(self.insts("rel", a, b)) + list(self.insts("rel", b, a)):
                u = 0
                for atoms in cases:
                    k = 15
                    for x in atoms:
                        if x[0] == "rel":
                            if x[2] is a and x[3] is b:
                                k &= x[4]
                            elif x[2] is b and x[3] is a:
                                k &= flip(x[4])
                    u |= k
                m &= u
        return m

    def range_f(self, t):
        r = self.range(t)
        if r and r[0][0] == -BIG:
            r = iset_and(r, FRANGE)
        if t.op == "fneg":
            r2 = self.range_f(t.a[0])
            r2 = iset_norm([x if x[0] == NAN_ORD else (-x[1], -x[0]) for x in r2])
            r = iset_and(r, r2)
        elif t.op == "floor" or t.op == "ceil":
            r2 = self.range_f(t.a[0])
            f = __import__("math").floor if t.op == "floor" else __import__("math").ceil

            def g(o):
                if o == NAN_ORD or abs(o) == FINF:
                    return o
                try:
                    return ford(float(f(unford(o))))
                except OverflowError:
                    return o
            r = iset_and(r, iset_norm([(g(x[0]), g(x[1])) for x in r2])) or r
        elif t.op == "i2f":
            ri = self.range(t.a[0])
            if ri and abs(ri[0][0]) < BIG and abs(ri[-1][1]) < BIG:
                r = iset_and(r, ((ford(float(ri[0][0])), ford(float(ri[-1][1]))),)) or r
            else:
                r = iset_and(r, ((-FINF, FINF),)) or r
        elif t.op in ("fadd", "fmul", "fdiv"):
            # rounding is monotone, so that the ends bound the result
            r2 = fends(t.op, self.range_f(t.a[0]), self.range_f(t.a[1]))
            if r2 is not None:
                r = iset_and(r, r2) or r
        elif t.op in ("dur_as_secs_f64", "dur_as_secs_f32"):
            r = iset_and(r, ((0, ford(1.9e19)),)) or r
        return r

    def setrel(self, kind, a, b, mask):
        m = self.getrel(kind, a, b) & mask
        if not m:
            return False
        if kind == "f":
            ca, cb = a.op == "f64", b.op == "f64"
            if ca and not cb:
                return self.setrel(kind, b, a, flip(mask))
            if cb:
                v = ford(ffrom(b.a[0]))
                ok = []
                if v == NAN_ORD:
                    return bool(mask & UN)
                if m & LT:
                    ok.append((-FINF, v - 1))
                if m & EQ:
                    ok.append((v, v))
                if m & GT:
                    ok.append((v + 1, FINF))
                if m & UN:
                    ok.append((NAN_ORD, NAN_ORD))
                r = iset_and(self.range_f(a), iset_norm(ok))
                if not r:
                    return False
                self.rng[a] = r
                return True
            if not m & UN:
                for x in (a, b):
                    if not is_const(x):
                        self.rng[x] = iset_and(self.range_f(x), ((-FINF, FINF),))
        if (b, a) in self.rel:
            self.rel[(b, a)] = flip(m)
        else:
            self.rel[(a, b)] = m
        return True

    # ------------------------------------------------------------ boolean terms
    def decide(self, t):
        o = t.op
        if o == "int":
            return bool(t.a[0])
        if o == "not":
            r = self.decide(t.a[0])
            return None if r is None else not r
        f = self.facts.get(t)
        if f is not None:
            return f
        if o not in ("sle", "lt", "le", "eq", "inset", "and", "or"):
            if indexes(t):
                for cases in self.insts("fact", t):
                    vs = {next((a[2] for a in atoms if a[0] == "fact" and a[1] is t), None) for atoms in cases}
                    if len(vs) == 1 and None not in vs:
                        return vs.pop()
        if o == "sle":
            c, ps = t.a
            lo, hi = self.sumrange(ps)
            if hi <= c:
                return True
            if lo > c:
                return False
            return None
        if o in ("lt", "le", "eq"):
            kind, a, b = t.a
            if kind == "i":
                if o == "eq":
                    ra, rb = self.range(a), self.range(b)
                    if ra and rb and not iset_and(ra, rb):
                        return False
                    if len(ra) == 1 and ra == rb and ra[0][0] == ra[0][1]:
                        return True
                    d = isub(a, b, "i128")
                    if d.op == "int":
                        return d.a[0] == 0
                    lo, hi = self.sumrange(lin_parts(d)[1])
                    k = lin_parts(d)[0]
                    lo, hi = lo + k, hi + k
                    if lo > 0 or hi < 0:
                        return False
                    if lo == hi == 0:
                        return True
                    return None
            m = self.getrel(kind, a, b)
            yes = {"lt": LT, "le": LT | EQ, "eq": EQ}[o]
            if not m & ~yes:
                return True
            if not m & yes:
                return False
            return None
        if o == "inset":
            r = self.range(t.a[0])
            if not iset_and(r, t.a[1]):
                return False
            if not iset_sub(r, t.a[1]):
                return True
            return None
        if o in ("isnan", "isinf", "isfin", "signpos"):
            r = self.range_f(t.a[0])
            w = SETS[o]
            if not iset_and(r, w):
                return False
            if not iset_sub(r, w):
                return True
            return None
        if o == "and":
            x, y = self.decide(t.a[0]), self.decide(t.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if o == "or":
            x, y = self.decide(t.a[0]), self.decide(t.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        return None

    def assume(self, t, b):
        """narrow this state by t == b; False when that is impossible"""
        d = self.decide(t)
        if d is not None:
            return d == b
        o = t.op
        if o == "not":
            return self.assume(t.a[0], not b)
        if o == "sle":
            c, ps = t.a
            if len(ps) == 1:
                x, k = ps[0]
                # k*x <= c
                if b:
                    r = ((-BIG, c // k),) if k > 0 else ((-(c // -k), BIG),)
                else:
                    r = ((c // k + 1, BIG),) if k > 0 else ((-BIG, -(c // -k) - 1),)
                return self.restrict(x, r)
            sgn = 1 if ps[0][1] > 0 else -1
            q = ps if sgn > 0 else tuple((x, -k) for x, k in ps)
            lo, hi = self.lin.get(q, (-BIG, BIG))
            if b:
                if sgn > 0:
                    hi = min(hi, c)
                else:
                    lo = max(lo, -c)
            else:
                if sgn > 0:
                    lo = max(lo, c + 1)
                else:
                    hi = min(hi, -c - 1)
            if lo > hi:
                return False
            self.lin[q] = (lo, hi)
            return True
        if o in ("lt", "le", "eq"):
            kind, x, y = t.a
            if kind == "i" and o == "eq":
                if y.op == "int":
                    x, y = y, x
                if x.op == "int":
                    r = ((x.a[0], x.a[0]),)
                    if y.op == "lin" and len(y.a[2]) == 1 and abs(y.a[2][0][1]) == 1:
                        z, k = y.a[2][0]
                        v = (x.a[0] - y.a[1]) * k
                        r = ((v, v),)
                        y = z
                    return self.restrict(y, r if b else iset_not(r))
                if b:
                    if not (self.assume(cmp_le("i", x, y), True) and self.assume(cmp_le("i", y, x), True)):
                        return False
                self.facts[t] = b
                return True
            yes = {"lt": LT, "le": LT | EQ, "eq": EQ}[o]
            return self.setrel(kind, x, y, yes if b else (15 & ~yes))
        if o == "inset":
            return self.restrict(t.a[0], t.a[1] if b else iset_not(t.a[1]))
        if o in ("isnan", "isinf", "isfin", "signpos"):
            w = SETS[o]
            x = t.a[0]
            if o == "signpos" and x.op not in ("f64",):
                # -0.0 and NaN have either sign
                w = w if b else ((-FINF, 0), (NAN_ORD, NAN_ORD))
                r = iset_and(self.range_f(x), w)
            else:
                r = iset_and(self.range_f(x), w) if b else iset_sub(self.range_f(x), w)
            if not r:
                return False
            self.rng[x] = r
            if o == "signpos":
                self.facts[t] = b
            return True
        if o == "and" and b:
            return self.assume(t.a[0], True) and self.assume(t.a[1], True)
        if o == "or" and not b:
            return self.assume(t.a[0], False) and self.assume(t.a[1], False)
        if o == "and" and not b:
            x, y = self.decide(t.a[0]), self.decide(t.a[1])
            if x:
                return self.assume(t.a[1], False)
            if y:
                return self.assume(t.a[0], False)
        if o == "or" and b:
            x, y = self.decide(t.a[0]), self.decide(t.a[1])
            if x is False:
                return self.assume(t.a[1], True)
            if y is False:
                return self.assume(t.a[0], True)
        self.facts[t] = b
        return True

    def restrict(self, x, r):
        if x.op == "int":
            return bool(iset_and(((x.a[0], x.a[0]),), r))
        if x.op == "lin" and len(x.a[2]) == 1 and abs(x.a[2][0][1]) == 1:
            z, k = x.a[2][0]
            c = x.a[1]
            rr = iset_norm([((lo - c) * k, (hi - c) * k) if k > 0 else ((hi - c) * k, (lo - c) * k) for lo, hi in r])
            return self.restrict(z, rr)
        if x.op == "lin":
            lo, hi = r[0][0], r[-1][1]
            t = cmp_le("i", x, integer(hi, "i128"))
            t2 = cmp_le("i", integer(lo, "i128"), x)
            return self.assume(t, True) and self.assume(t2, True)
        n = iset_and(self.range(x), r)
        if not n:
            return False
        self.rng[x] = n
        return True


SETS = {
    "isnan": ((NAN_ORD, NAN_ORD),),
    "isinf": ((-FINF, -FINF), (FINF, FINF)),
    "isfin": ((-FINF + 1, FINF - 1),),
    "signpos": ((0, FINF), (NAN_ORD, NAN_ORD)),
}


def flip(m):
    return (m & (EQ | UN)) | (GT if m & LT else 0) | (LT if m & GT else 0)


TYOF = {}  # the primitive type of an opaque term, once seen in a typed position


GUARD = [0]
FINV = {}       # opaque field value -> range all constructors of the type establish (see lib.field_invariants)


def set_inv(v, r):
    if r[0] == "len":
        FINV[mk("len", v)] = r[1]
    else:
        FINV[v] = r


FIELDOF = {}    # opaque value -> the field of a local type it was read from
INVTAB = {}     # (type, variant, field) -> range
DERIVED = ("sort", "dedup", "rev", "truncate", "swaprm", "remove", "popfront", "popback", "push", "pushfront", "append", "list", "comp", "insert")
_ix = {}
_mm = {}


def indexes(t):
    """the indices at which sequences are read in t"""
    r = _ix.get(t)
    if r is None:
        r = set()
        x = t
        for x in subterms(t):
            if x.op == "proj" and x.a[1][0] == "i":
                r.add(x.a[1][1])
        r = _ix[t] = tuple(sorted(r, key=lambda y: y.id))
    return r


def patterns(f):
    """[({bv: (bv, lo, hi)}, cases, [(kind, terms)])] of a fact about all elements, facts nested in it included"""
    r = _mm.get(f)
    if r is None:
        r = []

        def go(f, vs):
            lo, hi, cases, bv = f.a
            vs = dict(vs)
            vs[bv] = (bv, lo, hi)
            pats = []
            for c in cases:
                for a in c:
                    if a[0] == "rng" and (a[1] in vs or a[1].op == "lin" and all(x in vs for x, k in a[1].a[2])):
                        continue    # a condition on the index itself would match every index
                    if a[0] in ("rng", "fact") and (a[0] == "rng" or a[1].op != "forall"):
                        pats.append((a[0], (a[1],)))
                    elif a[0] == "rel":
                        pats.append(("rel", (a[2], a[3])))
            pats = list(dict.fromkeys(pats))
            if pats:
                r.append((vs, cases, pats))
            if len(cases) == 1:
                for a in cases[0]:
                    if a[0] == "fact" and a[1].op == "forall" and a[2]:
                        go(a[1], vs)
        go(f, {})
        _mm[f] = r
    return r


def match(p, t, vs, m):
    """one-way matching: m such that p with m is t"""
    if isinstance(p, T):
        if p in vs:
            if not isinstance(t, T):
                return False
            if p in m:
                return m[p] is t
            m[p] = t
            return True
        if p.op == "lin" and isinstance(t, T):
            # an index counted from somewhere else
            for x, k in p.a[2]:
                if x in vs and k == 1:
                    rest = isub(p, x, "i128")
                    if any(contains(rest, lambda y, v=v: y is v) for v in vs):
                        return False
                    y = isub(t, rest, "usize")
                    if x in m:
                        return m[x] is y
                    m[x] = y
                    return True
        if not isinstance(t, T) or p.op != t.op or len(p.a) != len(t.a):
            return False
        if p is t and not any(contains(p, lambda x, v=v: x is v) for v in vs):
            return True
        return all(match(x, y, vs, m) for x, y in zip(p.a, t.a))
    if isinstance(p, tuple):
        return isinstance(t, tuple) and len(p) == len(t) and all(match(x, y, vs, m) for x, y in zip(p, t))
    return p == t


def fends(op, a, b):
    """bounds of a sum, product or quotient of floats that are neither NaN nor give NaN (None: no bounds)"""
    if not a or not b or a[-1][1] == NAN_ORD or b[-1][1] == NAN_ORD:
        return None
    alo, ahi, blo, bhi = (unford(x) for x in (a[0][0], a[-1][1], b[0][0], b[-1][1]))
    inf = float("inf")
    if op == "fadd":
        if alo == -inf and bhi == inf or ahi == inf and blo == -inf:
            return None
        lo, hi = alo + blo, ahi + bhi
    elif op == "fmul":
        if alo < 0 or blo < 0 or inf in (ahi, bhi):
            return None
        lo, hi = alo * blo, ahi * bhi
    else:
        if alo < 0 or blo <= 0 or ahi == inf or bhi == inf:
            return None
        lo, hi = alo / bhi, ahi / blo
    return ((ford(lo), ford(hi)),)


def substa(a, m):
    if a[0] == "rel":
        return ("rel", a[1], subst(a[2], m), subst(a[3], m), a[4])
    return (a[0],) + tuple(subst(x, m) if isinstance(x, T) else x for x in a[1:])


def origins(S, depth=0):
    """[(element, what is known when it is one)] such that every element of S is one of them"""
    o = S.op
    if depth > 12:
        return None
    if o in ("list", "arr"):
        return [(x, ()) for x in S.a]
    if o in ("sort",):
        return origins(S.a[-1], depth + 1)
    if o in ("dedup", "rev"):
        return origins(S.a[-1], depth + 1)
    if o in ("truncate", "swaprm", "remove", "popfront", "popback"):
        return origins(S.a[0], depth + 1)
    if o in ("push", "pushfront"):
        r = origins(S.a[0], depth + 1)
        return None if r is None else r + [(S.a[1], ())]
    if o == "append":
        r, q = origins(S.a[0], depth + 1), origins(S.a[1], depth + 1)
        return None if r is None or q is None else r + q
    if o == "comp":
        lo, hi, init, cases, bv = S.a
        r = origins(init, depth + 1)
        if r is None:
            return None
        r = list(r)
        for c, xs in cases:
            for x in xs:
                if x.op == "seq":
                    q = origins(x.a[0], depth + 1)
                    if q is None:
                        return None
                    r += [(y, (("between", bv, lo, hi),) + tuple(c) + tuple(p)) for y, p in q]
                else:
                    r.append((x, (("between", bv, lo, hi),) + tuple(c)))
        return r
    if o == "insert":
        return None
    # any element of an opaque sequence
    i = mk("anyix", S)
    return [(proj(S, ("i", i)), (("between", i, integer(0, "usize"), seqlen(S)),))]


def default_range(t):
    o = t.op
    ty = TYOF.get(t)
    if ty is not None and ty in INTS and o not in ("proj", "discr", "len", "chars"):
        return (INTS[ty],)
    if o == "len":
        return ((0, 2 ** 63 - 1),)
    if o == "typed":
        lo_hi = INTS.get(t.a[1])
        if lo_hi:
            return (lo_hi,)
    if o == "cast":
        lo_hi = INTS.get(t.a[2])
        if lo_hi:
            return (lo_hi,)
    if o == "proj" and t.a[0].op in ("chars", "bytes") and t.a[0].a[0].op == "str":
        w = t.a[0].a[0].a[0]
        r = iset_norm([(x, x) for x in ([ord(y) for y in w] if t.a[0].op == "chars" else w.encode())])
        if r:
            return r
    if o == "proj" and t.a[0].op == "chars":
        return ((0, 0xD7FF), (0xE000, 0x10FFFF))
    if o == "proj" and t.a[0].op == "bytes":
        return ((0, 255),)
    if o == "discr":
        return ((0, 255),)
    if ty is not None and ty in INTS:
        return (INTS[ty],)
    return ((-BIG, BIG),)
