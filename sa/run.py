"""Analyse one function from an arbitrary calling context."""
from .term import *
from .state import *
from .interp import Interp, Config


class Result(object):
    """what analysing a root produced"""

    def __init__(self, I, root, args, outs, entry):
        self.I, self.root, self.args, self.outs, self.entry = I, root, args, outs, entry
        self.G = I.G

    def events(self, kind=None):
        out = []
        for n, es in self.G.out.items():
            for e, m in es:
                if e is not None and (kind is None or e.kind == kind):
                    out.append(e)
        return out

    def live_events(self, kind=None):
        """events on paths from the entry (analysis of loops also builds unreachable scratch parts)"""
        seen = {self.entry}
        st = [self.entry]
        out = []
        while st:
            n = st.pop()
            for e, m in self.G.out.get(n, []):
                if e is not None and (kind is None or e.kind == kind):
                    out.append(e)
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        return out


def arg_names(F, r):
    b = F.body(r["inst"])
    return b


def argsym(F, r, i):
    """the i-th argument of a root (arguments of different types are different symbols: what is known of a field must not leak between roots)"""
    ty = F.types[F.body(r["inst"]).locals[i + 1]]
    return mk("sym", "arg%d:%s" % (i, ty["s"] if "s" in ty else ty.get("path", ty["k"])))


def run(F, r, cfg=None, args=None, pre=None):
    I = Interp(F, cfg)
    st = State()
    st.node = I.G.node()
    entry = st.node
    body = F.body(r["inst"])
    if args is None:
        args = []
        for i in range(body.argc):
            ty = F.types[body.locals[i + 1]]
            a = argsym(F, r, i)
            if ty["k"] == "prim" and ty["s"] in INTS:
                TYOF[a] = ty["s"]
            args.append(a)
            if ty["k"] == "ref" and ty.get("mut"):
                spread(F, st, a, F.types[ty["to"]])
    if pre:
        pre(I, st, args)
    outs = [o for o in I.call_body(r["inst"], list(args), st) if o[2].feasible()]
    return Result(I, r, args, outs, entry)


def spread(F, st, p, ty):
    """lay out what a mutable reference points to, field by field"""
    if ty["k"] == "adt" and ty.get("local") and ty.get("akind") == "struct":
        root = mk("D", p)
        whole = mk("deref", p)
        n = len(ty["variants"][0]["f"])
        if n > 1:
            st.mem[root] = adt(ty["path"], 0, *[proj(whole, ("f", i)) for i in range(n)])
