"""Who refers to whom: call graph over the monomorphic bodies of the dumps."""


def mentions(b):
    """(bodies, functions) mentioned anywhere in a body: [body key], [fn object]"""
    bodies, fns = [], []
    stack = [b.blocks, b.promoted if b.promoted else []]
    while stack:
        x = stack.pop()
        if x.__class__ is dict:
            k = x.get("body")
            if k.__class__ is str:
                bodies.append(k)
            f = x.get("fn")
            if f.__class__ is dict and "def" in f:
                fns.append(f)
            stack.extend(x.values())
        elif x.__class__ in (list, tuple):
            stack.extend(x)
        elif hasattr(x, "blocks"):
            stack.append(x.blocks)
    return bodies, fns


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.out = {}
        self.ext = {}
        for (cr, key), b in P.bodies.items():
            bs, fs = mentions(b)
            self.out[(cr, key)] = {(cr, k) for k in bs}
            self.ext[(cr, key)] = fs
        self.into = {}
        for k, os_ in self.out.items():
            for o in os_:
                self.into.setdefault(o, set()).add(k)

    def names(self, k):
        """canonical names of the functions a body mentions, before and after trait resolution"""
        c = self.P.crates[k[0]]
        out = set()
        for f in self.ext.get(k, ()):
            for x in ("def", "rdef"):
                if f.get(x).__class__ is int:
                    out.add(c.defs[f[x]].canon)
        return out

    def reaching(self, pred):
        """bodies from which a body satisfying pred(key) can be reached (itself included)"""
        seen = {k for k in self.out if pred(k)}
        work = list(seen)
        while work:
            k = work.pop()
            for c in self.into.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def reachable(self, start):
        seen = set(start)
        work = list(seen)
        while work:
            k = work.pop()
            for c in self.out.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen


def of(P):
    g = getattr(P, "_cg", None)
    if g is None:
        g = P._cg = CallGraph(P)
    return g
