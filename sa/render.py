"""What a function writes: its event graph as sequences of characters and values with loops, matched against a grammar."""
from .lib import *


def norm(t):
    """forget where values were obtained, and by which call of a function"""
    return subst(t, anywhere, NORMED)


def anywhere(x):
    if x.op == "site":
        return STAR
    if x.op == "fr":
        return mk("fr*", x.a[3] if len(x.a) > 3 else x.a[0])
    if x.op == "loop":
        at = x.a[0]
        if at.op == "site":
            return mk("loop*", at.a[1], *[norm(y) if isinstance(y, T) else y for y in (at.a[0],) + tuple(x.a[1:-1])])
        return mk("loop*", *[norm(y) if isinstance(y, T) else y for y in x.a[:-1]])
    return None


NORMED = {}


STAR = mk("site*")


# ------------------------------------------------------------------------------------------------ what is known on a path
class Know(object):
    def __init__(self, states):
        self.states = list(states)
        self._ix = None

    def __add__(self, other):
        return Know(self.states + other.states)

    def range(self, t):
        r = None
        for s in self.states:
            x = s.range(t)
            y = x if r is None else iset_and(r, x)
            r = y if y else r
        return r

    def bounded(self, t):
        """is anything known of how large a float is?"""
        return any(t in s.rng or any(t in p for p in s.rel) for s in self.states)

    def index(self):
        if self._ix is None:
            self._ix = {}
            for s in self.states:
                for d in (s.rng, s.facts):
                    for k in d:
                        self._ix.setdefault(norm(k), set()).add(k)
        return self._ix

    def instances(self, t):
        return self.index().get(norm(t), set()) | {t}

    def atom1(self, a):
        if a[0] == "rng":
            r = self.range(a[1])
            return True if not iset_sub(r, a[2]) else (None if iset_and(r, a[2]) else False)
        if a[0] == "fact":
            for s in self.states:
                b = s.facts.get(a[1])
                if b is not None:
                    return b == a[2]
            return None
        if a[0] == "rel":
            m = 15
            for s in self.states:
                m &= s.rel.get((a[2], a[3]), 15)
            return True if m & ~a[4] == 0 else (False if m & a[4] == 0 else None)
        return None

    def atom(self, a):
        """is the condition known on this path, for some instance of the values in it?"""
        out = self.atom1(a)
        if a[0] in ("rng", "fact") and out is not True:
            rs = [self.atom1((a[0], t) + tuple(a[2:])) for t in self.instances(a[1])]
            if True in rs:
                return True
            if False in rs and out is None:
                return False
        return out

    def holds(self, atoms):
        rs = [self.atom(a) for a in atoms]
        if False in rs:
            return False
        return True if all(r is True for r in rs) else None


def consistent(states):
    rng, facts = {}, {}
    for s in states:
        for k, r in s.rng.items():
            x = iset_and(rng[k], r) if k in rng else r
            if not x:
                return False
            rng[k] = x
        for k, b in s.facts.items():
            if facts.setdefault(k, b) != b:
                return False
    return True


# ------------------------------------------------------------------------------------------------ items
class Seq(object):
    """one way through (a part of) the function"""

    def __init__(self, items, know, end, nodes):
        self.items, self.know, self.end, self.nodes = items, know, end, nodes


class Loop(object):
    def __init__(self, lo, hi, var, alts, full, li=None, sep=""):
        self.sep = sep
        self.lo, self.hi, self.var, self.alts, self.full, self.li = lo, hi, var, alts, full, li


class Item(object):
    """kind: 'c' a character, 'v' a value, 'loop', 'call'"""
    __slots__ = ("k", "x", "w")

    def __init__(self, k, x, w=""):
        self.k, self.x, self.w = k, x, w

    def __repr__(self):
        return self.x if self.k == "c" else "<%s>" % (show(self.x)[:60] if self.k == "v" else self.k)


def flatten(t, base, w, out):
    if t.op == "str":
        out += [Item("c", c, w) for c in t.a[0]]
    elif t.op == "cat":
        for x in t.a:
            flatten(x, base, w, out)
    elif t.op == "chr" and t.a[0].op == "int":
        out.append(Item("c", chr(t.a[0].a[0]), w))
    elif t.op == "catc":
        lo, hi, init, cases, bv = t.a
        flatten(init, base, w, out)
        alts = []
        for conds, piece in cases:
            st = with_pre(base, [("between", bv, lo, hi)])
            st = with_pre(st, [c for c in conds if c[0] in ("rng", "fact", "rel", "between")]) if st is not None else None
            if st is None:
                continue
            its = []
            flatten(piece, st, w, its)
            alts.append(Seq(its, Know([st]), None, ()))
        out.append(Item("loop", Loop(lo, hi, bv, alts, True), w))
    elif t.op == "join" and t.a[0].op == "comp" and not t.a[0].a[2].a and t.a[1].op == "str":
        lo, hi, init, cases, bv = t.a[0].a
        alts = []
        for conds, xs in cases:
            st = with_pre(base, [("between", bv, lo, hi)])
            st = with_pre(st, [c for c in conds if c[0] in ("rng", "fact", "rel", "between")]) if st is not None else None
            if st is None:
                continue
            its = []
            for x in xs:
                flatten(x, st, w, its)
            # the separator is not written for an element that is left out
            alts.append(Seq(its, Know([st]), None, ()))
        out.append(Item("loop", Loop(lo, hi, bv, alts, all(len(xs) == 1 for c, xs in cases), sep=t.a[1].a[0]), w))
    else:
        out.append(Item("v", t, w))


class TooMany(Exception):
    pass


class Renderer(object):
    def __init__(self, R, sink, limit=6000):
        self.R, self.sink, self.limit = R, sink, limit
        self.heads = {li.head: li for li in live_loops(R)}
        self.memo = {}
        self.flat = {}
        self.steps = 0

    def paths(self):
        ends = {}
        for i, (k, v, s) in enumerate(self.R.outs):
            if k == "ret":
                ends.setdefault(s.node, []).append(i)
        out = []
        for q in self.walk(self.R.entry, set(ends), None):
            for i in ends[q.end]:
                st = self.R.outs[i][2]
                if consistent(q.know.states + [st]):
                    p = Seq(q.items, Know(q.know.states + [st]), i, q.nodes)
                    out.append(p)
        return out

    def alts(self, li):
        if li.head not in self.memo:
            self.memo[li.head] = None
            out = self.walk(li.head, set(li.backnodes), li.head)
            # rounds in which nothing is written leave no trace in the graph
            out += [Seq([], Know([st]), n, frozenset([n])) for n, st in zip(li.backnodes, li.backst) if n == li.head]
            self.memo[li.head] = out
        return self.memo[li.head]

    def walk(self, start, ends, own):
        """every way from start to one of the ends; loops met on the way become one item"""
        R = self.R
        rev = {}
        for n, es in R.G.out.items():
            for e, m in es:
                rev.setdefault(m, []).append(n)
        good = set(ends)
        st = list(ends)
        while st:
            n = st.pop()
            if n == own:
                continue
            for m in rev.get(n, []):
                if m not in good:
                    good.add(m)
                    st.append(m)
        out = []
        stack = [(start, (), (), frozenset(), True)]
        while stack:
            n, items, states, seen, first = stack.pop()
            self.steps += 1
            if self.steps > self.limit * 40 or len(out) > self.limit:
                raise TooMany()
            if n in seen:
                continue
            seen = seen | {n}
            if n in self.heads and n != own:
                items = items + ((n,),)
            if n in ends and not first:
                out.append((n, items, states, seen))
            if n in R.G.at:
                states = states + (R.G.at[n],)
            for e, m in R.G.out.get(n, []):
                if m not in good:
                    continue
                it, ss = items, states
                if e is not None:
                    if e.kind == "out" and e.sink is self.sink:
                        it = items + (e,)
                        ss = states + (e.st,)
                    elif e.kind in ("callret", "sinkerr"):
                        it = items + (e,)
                        ss = states + (e.st,)
                stack.append((m, it, ss, seen, False))
        res = []
        done = set()
        for n, items, states, seen in out:
            key = (n, tuple(id(x) if not isinstance(x, tuple) else x for x in items), tuple(id(s) for s in states))
            if key in done or not consistent(states):
                continue
            done.add(key)
            its = []
            for x in items:
                if isinstance(x, tuple):
                    li = self.heads[x[0]]
                    lp = self.loop(li, seen)
                    if lp is not None:
                        its.append(Item("loop", lp, li.span))
                elif x.kind == "out":
                    if id(x) not in self.flat:
                        fl = []
                        flatten(x.piece, x.st, where(x), fl)
                        self.flat[id(x)] = fl
                    its += self.flat[id(x)]
                else:
                    its.append(Item("call", x, where(x)))
            res.append(Seq(its, Know(states), n, seen))
        return res

    def loop(self, li, seen):
        alts = self.alts(li)
        if alts is None:
            raise TooMany()
        if not any(a.items for a in alts):
            return None
        ds = [d for n, d in li.exitdom if n in seen]
        full = bool(ds) and all(d is not None for d in ds) and len(set(ds)) == 1
        lo, hi = ds[0] if full else (None, None)
        return Loop(lo, hi, li.kind, alts, full, li)


# ------------------------------------------------------------------------------------------------ grammar
class Fail(object):
    def __init__(self):
        self.best = None

    def note(self, pos, cat, msg, w, undecided=False):
        if self.best is None or pos > self.best[0]:
            self.best = (pos, cat, msg, w, undecided)


def opaque(it):
    """is this item something the analysis did not understand?"""
    if it.k == "loop":
        return not it.x.full
    if it.k == "v":
        t = it.x
        if not known(t):
            return True
        if t.op in ("disp", "chr", "replace"):
            return False
        return t.op not in ("proj", "deref") or contains(t, lambda x: x.op == "lv")
    return False


class Spec(object):
    cat = "text"

    def m(self, its, i, k, F, pre):
        raise NotImplementedError

    def fail(self, F, pre, its, i, msg, und=None, cat=None):
        w = its[i].w if i < len(its) else (its[-1].w if its else "")
        if und is None:
            und = i < len(its) and opaque(its[i])
        F.note(pre + (i,), cat or self.cat, msg, w, und)


def silent(x):
    """does this item write nothing?"""
    return x.k == "call" or x.k == "loop" and all(all(silent(y) for y in a.items) for a in x.x.alts)


def skip(its, i):
    while i < len(its) and silent(its[i]):
        i += 1
    return i


def ahead(its, i, n=24):
    return "".join(repr(x) for x in its[i:i + n]) or "nothing"


class Lit(Spec):
    def __init__(self, s, cat=None):
        self.s = s
        if cat:
            self.cat = cat

    def m(self, its, i, k, F, pre):
        for c in self.s:
            i = skip(its, i)
            if i >= len(its) or its[i].k != "c" or its[i].x != c:
                self.fail(F, pre, its, i, "expected %r, got %s" % (self.s, ahead(its, i)))
                return
            i += 1
        yield i


class Cat(Spec):
    def __init__(self, *xs):
        self.xs = xs

    def m(self, its, i, k, F, pre, n=0):
        if n == len(self.xs):
            yield i
            return
        for j in self.xs[n].m(its, i, k, F, pre):
            for r in self.m(its, j, k, F, pre, n + 1):
                yield r


class Val(Spec):
    """a value that the test accepts (True / False / None: cannot tell)"""

    def __init__(self, what, test, cat=None):
        self.what, self.test = what, test
        if cat:
            self.cat = cat

    def m(self, its, i, k, F, pre):
        i = skip(its, i)
        if i < len(its) and its[i].k == "v":
            r = self.test(its[i].x, k)
            if r is True:
                yield i + 1
                return
            self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i, 1)), True if r is None else None)
            return
        self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i)))


WHOLE = {"i64": (-2.0 ** 63, 2.0 ** 63 - 1024), "i128": (-2.0 ** 127, 2.0 ** 126), "u64": (0.0, 2.0 ** 64 - 2048), "i32": (-2.0 ** 31, 2.0 ** 31 - 1), "u32": (0.0, 2.0 ** 32 - 1)}


class Num(Spec):
    """an f64 as the format spells it; X: (description, [possible terms, sites forgotten])"""
    cat = "num"

    def __init__(self, what, X):
        self.what, self.X = what, X

    def m(self, its, i, k, F, pre):
        i = skip(its, i)
        if i < len(its) and its[i].k == "v":
            t = its[i].x
            if t.op == "disp" and t.a[0] == "f64":
                x = t.a[2]
                same = self.same(x, k)
                if not same:
                    self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, show(x)[:80]), None if closed(x) and same is False else True, "text")
                    return
                if t.a[3] is not None:
                    self.fail(F, pre, its, i, "%s is rounded or padded" % self.what, None, "text")
                    return
                r = k.range(x)
                if not iset_sub(r, FINITE):
                    yield i + 1
                    return
                self.fail(F, pre, its, i, "%s is written as Rust spells it although it may not be finite" % self.what, False)
                return
            if t.op == "disp" and t.a[0] in WHOLE and t.a[2].op == "f2i" and self.same(t.a[2].a[0], k):
                # a whole number may be written as an integer if it is one of that type
                x = t.a[2].a[0]
                lo, hi = WHOLE[t.a[0]]
                # how large it is may also be told by a bound on its magnitude
                und = not iset_sub(k.range(x), ((ford(lo), ford(hi)),)) or not closed(x) or k.bounded(frnd("abs", x))
                self.fail(F, pre, its, i, "%s is rounded or padded: it is written as %s" % (self.what, t.a[0]), und, "text")
                return
            if t.op == "disp" and (t.a[0] == "f32" or t.a[0].endswith(":f64") and t.a[3] is not None) and self.same(t.a[2], k):
                self.fail(F, pre, its, i, "%s is rounded or padded: it is written as %s" % (self.what, t.a[0]), None, "text")
                return
            if t.op == "disp" and not t.a[0].startswith("debug"):
                self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, show(t)[:80]), None if known(t) and "::" not in t.a[0] and closed(t) else True, "text")
                return
            self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, show(t)[:80]), True)
            return
        for word, rg in (("NaN", NANR), ("+Inf", PINF), ("-Inf", NINF)):
            j = i
            for c in word:
                if j < len(its) and its[j].k == "c" and its[j].x == c:
                    j += 1
                else:
                    break
            else:
                if any(not iset_sub(k.range(y), rg) for x in self.X for y in k.instances(x)):
                    yield j
                    return
                self.fail(F, pre, its, i, "%s is written as %s although it may be something else" % (self.what, word), False)
                return
        if "".join(x.x if x.k == "c" else "?" for x in its[i:i + 4])[:1] in list("NiInf+-"):
            self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i)))
            return
        self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i)), None, "text")

    def same(self, x, k):
        n = norm(x)
        return any(n is norm(y) for y in self.X)


FINITE = ((-FINF + 1, FINF - 1),)
NANR = ((NAN_ORD, NAN_ORD),)
PINF = ((FINF, FINF),)
NINF = ((-FINF, -FINF),)


class Opt(Spec):
    """present when `some` may hold, left out only when one of the conditions `none` is known to hold"""

    def __init__(self, what, spec, none, some=()):
        self.what, self.spec, self.none, self.some = what, spec, none, some

    def m(self, its, i, k, F, pre):
        F2 = Fail()
        for j in self.spec.m(its, i, k, F2, pre):
            yield j
        if F2.best is not None and F2.best[0] > pre + (skip(its, i),):
            F.note(*F2.best)
        rs = [k.holds(c) for c in self.none]
        if any(r is True for r in rs) or self.some and all(k.holds(c) is False for c in self.some):
            yield i
            return
        self.fail(F, pre, its, i, "%s is left out although it may be there" % self.what, not any(r is False for r in rs) and not self.none)


class Each(Spec):
    """for every element of a sequence, in order; hi: its length, elem(var): the grammar of one element"""

    def __init__(self, what, hi, elem, sep=None):
        self.what, self.hi, self.elem, self.sep = what, hi, elem, sep

    def m(self, its, i, k, F, pre, n=0):
        """from element n on"""
        i = skip(its, i)
        if i < len(its) and its[i].k == "loop" and not (n and its[i].x.full and its[i].x.lo.op == "int" and its[i].x.lo.a[0] != n):
            lp = its[i].x
            if not lp.full:
                self.fail(F, pre, its, i, "%s: not understood how often" % self.what, True)
            elif norm(lp.hi) is not norm(self.hi) or not (lp.lo.op == "int" and lp.lo.a[0] == n):
                self.fail(F, pre, its, i, "%s: %s..%s instead of all of them" % (self.what, show(lp.lo)[:40], show(lp.hi)[:60]), not closed(lp.lo, lp.hi))
            elif all(self.alt(a, lp, k, F, pre + (i,), n) for a in lp.alts):
                yield i + 1
                return
            return
        if k.holds([("rng", self.hi, ((n, n),))]) is True or self.hi.op == "int" and self.hi.a[0] == n:
            yield i
            return
        if n < 3 and i < len(its) and k.holds([("rng", self.hi, ((n + 1, BIG),))]) is True:
            spec = self.elem(mk("int", n, "usize"))
            if self.sep is not None and n:
                spec = Cat(Lit(self.sep), spec)
            for j in spec.m(its, i, k, F, pre):
                for r in self.m(its, j, k, F, pre, n + 1):
                    yield r
            return
        self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i)))

    def alt(self, a, lp, k, F, pre, n=0):
        k2 = k + a.know
        spec = self.elem(lp.var)
        if lp.sep != (self.sep or "") and lp.sep:
            self.fail(F, pre, a.items, 0, "%s: separated by %r" % (self.what, lp.sep), False)
            return False
        if self.sep is not None and not lp.sep:
            r = k2.range(lp.var)
            if r == ((0, 0),):
                pass
            elif r[0][0] > 0 or n:
                spec = Cat(Lit(self.sep), spec)
            else:
                # the first one and the others are treated alike
                self.fail(F, pre, a.items, 0, "%s: no difference between the first and the others" % self.what, True)
                return False
        return full(spec, a.items, k2, F, pre)


def full(spec, its, k, F, pre):
    for j in spec.m(its, 0, k, F, pre):
        j = skip(its, j)
        if j == len(its):
            return True
        spec.fail(F, pre, its, j, "expected the end, got %s" % ahead(its, j))
    return False


class Esc(Spec):
    """the characters of a string with some of them replaced"""
    cat = "esc"

    def __init__(self, what, S, table):
        self.what, self.S, self.table = what, S, table

    def fits(self, its, cs, c):
        """None, or what becomes of which character"""
        if all(x.k == "c" for x in its):
            s = "".join(x.x for x in its)
            if len(cs) != 1 or cs[0][0] != cs[0][1] or self.table.get(chr(cs[0][0]), chr(cs[0][0])) != s:
                return "%s becomes %r" % (iset_show(cs), s)
        elif len(its) == 1 and its[0].k == "v" and its[0].x.op == "chr" and norm(its[0].x.a[0]) is norm(c):
            sp = [ch for ch in self.table if iset_and(cs, ((ord(ch), ord(ch)),))]
            if sp:
                return "%r may be written unescaped" % "".join(sp)
        elif sum(b - a + 1 for a, b in cs) <= 8 and all(x.k == "c" or x.k == "v" and x.x.op == "chr" and norm(x.x.a[0]) is norm(c) for x in its):
            for ch in [chr(x) for a, b in cs for x in range(a, b + 1)]:
                s = "".join(x.x if x.k == "c" else ch for x in its)
                if self.table.get(ch, ch) != s:
                    return "%r becomes %r" % (ch, s)
        else:
            return False
        return None

    def m(self, its, i, k, F, pre, n=0):
        i = skip(its, i)
        C = mk("chars", self.S)
        if n < 2 and i < len(its) and (its[i].k == "c" or its[i].k == "v" and its[i].x.op == "chr"):
            # the first characters on their own
            c = proj(C, ("i", mk("int", n, "usize")))
            cs = k.range(norm_to(c, k, k))
            if k.holds([("rng", seqlen(C), ((n + 1, BIG),))]) is True:
                for m in (1, 2):
                    if self.fits(its[i:i + m], cs, c) is None:
                        for j in self.m(its, i + m, k, F, pre, n + 1):
                            yield j
        if n and k.holds([("rng", seqlen(C), ((n, n),))]) is True:
            yield i
        if i < len(its) and its[i].k == "loop":
            lp = its[i].x
            if not lp.full:
                self.fail(F, pre, its, i, "%s: not understood how often" % self.what, True)
                return
            if norm(lp.hi) is not norm(seqlen(C)) or not (lp.lo.op == "int" and lp.lo.a[0] == n):
                self.fail(F, pre, its, i, "%s: characters %s..%s" % (self.what, show(lp.lo)[:40], show(lp.hi)[:60]), not closed(lp.lo, lp.hi))
                return
            c = proj(C, ("i", lp.var))
            for a in lp.alts:
                cs = (k + a.know).range(norm_to(c, a, k))
                its2 = [x for x in a.items if not silent(x)]
                r = self.fits(its2, cs, c)
                if r is False:
                    self.fail(F, pre + (i,), a.items, 0, "%s: %s becomes %s" % (self.what, iset_show(cs), ahead(its2, 0)), any(opaque(x) for x in its2) or not its2)
                    return
                if r is not None:
                    self.fail(F, pre + (i,), a.items, 0, "%s: %s" % (self.what, r), False)
                    return
            yield i + 1
            return
        if i < len(its) and its[i].k == "v":
            t = its[i].x
            if t.op == "disp" and norm(t.a[2]) is norm(self.S) and t.a[0].startswith("debug"):
                self.fail(F, pre, its, i, "%s is written in Rust's debug notation" % self.what, False)
                return
            tb = chain(t, self.S)
            if tb is None:
                self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, show(t)[:80]))
                return
            bad = sorted(c for c in set(tb) | set(self.table) if tb.get(c, c) != self.table.get(c, c) and not lacks(k, t, c))
            if not bad:
                yield i + 1
                return
            self.fail(F, pre, its, i, "%s: %s" % (self.what, ", ".join("%r becomes %r" % (c, tb.get(c, c)) for c in bad)), False)
            return
        if k.holds([("rng", seqlen(mk("chars", self.S)), ((0, 0),))]) is True or k.holds([("rng", seqlen(mk("bytes", self.S)), ((0, 0),))]) is True:
            yield i
            return
        self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i)))


def norm_to(c, a, k):
    """the instance of c that a case of a loop talks about"""
    for s in (a.states if isinstance(a, Know) else a.know.states) + k.states:
        for d in (s.rng,):
            for t in d:
                if norm(t) is norm(c):
                    return t
    return c


def lacks(k, t, ch):
    """is it known that a character does not occur in the string that t is made from?"""
    while t.op == "replace":
        t = t.a[0]
    want = norm(t)
    here = ((ord(ch), ord(ch)),)
    for s in k.states:
        inst = {t}
        for d in (s.facts, s.rng):
            for f in d:
                for x in subterms(f):
                    if x.op in ("chars", "bytes", "strhas") and norm(x.a[0]) is want:
                        inst.add(x.a[0])
        for f, b in s.facts.items():
            if f.op == "strhas" and not b and f.a[0] in inst and f.a[1].op == "str" and f.a[1].a[0] == ch:
                return True
        for x in inst:
            for X in (mk("chars", x), mk("bytes", x)):
                i = mk("anyix", X)
                s2 = with_pre(s, [("between", i, integer(0, "usize"), mk("len", X))])
                if s2 is None or not iset_and(s2.range(proj(X, ("i", i))), here):
                    return True
    return False


def chain(t, S):
    """replacements of single characters, one after the other: what each character becomes"""
    if norm(t) is norm(S):
        return {}
    if t.op == "replace":
        tb = chain(t.a[0], S)
        p, r = t.a[1], t.a[2]
        if tb is None or r.op != "str":
            return None
        if p.op == "int":
            p = chr(p.a[0])
        elif p.op == "str" and len(p.a[0]) == 1:
            p = p.a[0]
        elif p.op == "chr" and p.a[0].op == "int":
            p = chr(p.a[0].a[0])
        else:
            return None
        tb = {c: x.replace(p, r.a[0]) for c, x in tb.items()}
        tb.setdefault(p, r.a[0])
        return tb
    return None


class Nothing(Spec):
    def m(self, its, i, k, F, pre):
        yield i


class Rounds(Spec):
    """a loop that asks an iterator of the crate for the next element in each repetition until there is none"""

    def __init__(self, what, match, parts, line):
        self.what, self.match, self.parts, self.line = what, match, parts, line
        self.seen = None

    def m(self, its, i, k, F, pre):
        while i < len(its) and its[i].k == "call" and not self.match(its[i].x):
            i += 1
        if i >= len(its) or its[i].k != "loop":
            self.fail(F, pre, its, i, "expected %s, got %s" % (self.what, ahead(its, i)), True if any(x.k == "call" and (self.match(x.x) or x.x.kind == "callret" and is_none(x.x.val)) for x in its[:i + 1]) else None)
            return
        lp = its[i].x
        if silent(its[i]) and any(x.k == "call" and self.match(x.x) for a in lp.alts for x in a.items):
            self.fail(F, pre, its, i, "%s: they are collected before they are written" % self.what, True)
            return
        self.seen = (lp, [])
        froms = set()
        for a in lp.alts:
            cs = [x.x for x in a.items if x.k == "call" and self.match(x.x)]
            if len(cs) != 1 or not is_some(cs[0].val):
                self.fail(F, pre, its, i, "%s: %d elements in one round" % (self.what, len(cs)), True)
                return
            froms.add(cs[0].path)
            ps = self.parts(cs[0])
            if ps is None:
                self.fail(F, pre, its, i, "%s: element not understood" % self.what, True)
                return
            if not full(self.line(ps), a.items, k + a.know, F, pre + (i,)):
                return
            self.seen[1].append((a, ps))
        j = i + 1
        done = None
        while j < len(its) and its[j].k == "call":
            if its[j].x.kind == "callret" and its[j].x.path in froms:
                done = its[j].x
            j += 1
        if done is None:
            self.fail(F, pre, its, i, "%s: how the loop ends was not understood" % self.what, True)
            return
        if not is_none(done.val):
            self.fail(F, pre, its, j, "%s: one may be skipped" % self.what, not is_some(done.val))
            return
        yield i + 1
