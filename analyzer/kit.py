"""Obligations over value graphs.

A property module states, for public functions found by name, what every path
of the function must return, store and emit.  Expected behaviour is written as a
small transition system over the same value terms (`@spec`): its steps are
decided by the branch facts of each path, and loops are handled by inferring an
inductive relation between loop-head values and the state of the transition
system (a simulation relation, greatest fixpoint).  Nothing is executed and no
path formula is handed to a solver: facts are combined by linear closure.
"""
import itertools
import re
import time
from terms import *
import load
import interp
import std
from interp import OPT, RES

PANIC = mk("PANIC")
ANY = mk("ANY")


class Need(Exception):
    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a


class Stuck(Exception):
    """the property does not say what happens here"""


# ------------------------------------------------------------------ linear closure
def fm_infeasible(les, limit=220):
    """True when the constraints {L <= 0} over non-negative integer atoms have no solution
    (variable elimination; False when unknown)."""
    cs = []
    seen = set()
    for L in les:
        c, ps = lin_parts(L)
        if not ps:
            if c > 0:
                return True
            continue
        k = (c, tuple(sorted((t.id, v) for t, v in ps.items())))
        if k not in seen:
            seen.add(k)
            cs.append((c, ps))
    vs = {}
    for c, ps in cs:
        for t in ps:
            vs[t] = vs.get(t, 0) + 1
    # atoms are unsigned
    for t in vs:
        cs.append((0, {t: -1}))
    while vs:
        # cheapest variable first
        def cost(t):
            p = sum(1 for c, ps in cs if ps.get(t, 0) > 0)
            n = sum(1 for c, ps in cs if ps.get(t, 0) < 0)
            return p * n - p - n
        t = min(vs, key=lambda t: (cost(t), t.id))
        del vs[t]
        pos = [x for x in cs if x[1].get(t, 0) > 0]
        neg = [x for x in cs if x[1].get(t, 0) < 0]
        cs = [x for x in cs if t not in x[1]]
        for c1, p1 in pos:
            for c2, p2 in neg:
                a, b = p1[t], -p2[t]
                ps = {}
                for k, v in p1.items():
                    ps[k] = ps.get(k, 0) + b * v
                for k, v in p2.items():
                    ps[k] = ps.get(k, 0) + a * v
                ps = {k: v for k, v in ps.items() if v}
                c = b * c1 + a * c2
                if not ps:
                    if c > 0:
                        return True
                    continue
                cs.append((c, ps))
        if len(cs) > limit:
            return False
    return False


def relevant(les, seed):
    """constraints connected to the atoms of `seed`"""
    atoms = set(lin_parts(seed)[1])
    rest = list(les)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for L in rest:
            ps = lin_parts(L)[1]
            if any(t in atoms for t in ps):
                out.append(L)
                atoms.update(ps)
                ch = True
            else:
                nr.append(L)
        rest = nr
    return out


# normalisers of operators a property module adds: f(env, *args) -> term
NORM = {}
# and of sequence operations, where loop summaries are in use
SEQ = {}


class Env:
    """value reasoning under the facts of one state"""

    def __init__(self, ip, st, extra=()):
        self.ip = ip
        self.st = st
        self.cache = {}

    def les(self):
        return self.ip._les(self.st)

    def entails_le0(self, L):
        """facts |= L <= 0"""
        c, ps = lin_parts(L)
        if not ps:
            return c <= 0
        if self.ip._entails(self.st, L):
            return True
        neg = add(scale(L, -1), I(1))      # L >= 1
        return fm_infeasible(relevant(self.les(), neg) + [neg])

    def ask(self, t):
        t = self.norm(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        r = self.ip.ask(self.st, t)
        if r is not None:
            return r
        if t.op == "not":
            r = self.ask(t.a[0])
            return None if r is None else not r
        if t.op == "and":
            a, b = self.ask(t.a[0]), self.ask(t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.op == "le0":
            if self.entails_le0(t.a[0]):
                return True
            if self.entails_le0(add(scale(t.a[0], -1), I(1))):
                return False
        if t.op == "eq0":
            L = t.a[0]
            if self.entails_le0(L) and self.entails_le0(scale(L, -1)):
                return True
            if self.entails_le0(add(L, I(1))) or self.entails_le0(add(scale(L, -1), I(1))):
                return False
        if t.op == "eq":
            f = self.facts_norm()
            if t in f:
                return f[t]
        f = self.facts_norm()
        if t in f:
            return f[t]
        return None

    def facts_norm(self):
        k = "facts"
        n = len(self.st.facts)
        r = self.cache.get(k)
        if r is None or r[0] != n:
            d = {}
            self.cache[k] = (n, d)
            for f, b in list(self.st.facts.items()):
                if f.op in ("le0", "eq0"):
                    continue
                g = self.norm(f, top=False)
                if g.op == "not":
                    g, b = g.a[0], not b
                d[g] = b
            r = self.cache[k]
        return r[1]

    def ask_is(self, v, path, vi):
        v = self.norm(v)
        return self.ip.ask_is(self.st, v, vi)

    def feasible(self):
        les = self.les()
        if les and fm_infeasible(les):
            return False
        return True

    def norm(self, t, top=True):
        c = self.cache.get(t)
        if c is not None:
            return c
        ip, st = self.ip, self.st
        o = t.op
        if o in ("sym", "I", "B", "str", "char", "bytes", "phi", "const", "opq", "static", "fn", "loc", "node", "fid", "fr", "der"):
            self.cache[t] = t
            return t
        self.cache[t] = t      # cut cycles
        na = tuple(self._na(y) for y in t.a)
        if o in SEQ and na[0].op in ("cat", "smap", "push"):
            r = SEQ[o](self, *na)
            if r is not None:
                self.cache[t] = r
                return r
        if o == "fld":
            r = ip.field(st, na[0], na[1], na[2], na[3])
        elif o == "elem":
            r = ip.elem(st, na[0], na[1])
        elif o == "len":
            r = ip.length(st, na[0])
        elif o == "sub":
            r = ip.subseq(st, na[0], na[1], na[2])
        elif o == "mget":
            r = ip.map_get(st, na[0], na[1])
        elif o == "mhas":
            r = ip.map_has(st, na[0], na[1])
        elif o == "minsert" and na[2] is UNIT and ip.map_has(st, na[0], na[1]) is not None and ip.ask(st, ip.map_has(st, na[0], na[1])) is True:
            r = na[0]      # a set that has the element
        elif o == "mremove" and ip.map_has(st, na[0], na[1]) is not None and ip.ask(st, ip.map_has(st, na[0], na[1])) is False:
            r = na[0]
        elif o == "adt":
            r = adt(na[0], na[1], na[2])
            x = na[2][0] if na[2] else None
            if x.__class__ is T and x.op == "fld" and x.a[1] == na[0] and x.a[2] == na[1] and x.a[3] == 0:
                # a value taken apart and put together again
                y = x.a[0]
                if all(z.__class__ is T and z.op == "fld" and z.a == (y, na[0], na[1], i) for i, z in enumerate(na[2])):
                    info = ip.P.adts.get(na[0])
                    if info and (len(info["variants"]) == 1 or ip.ask_is(st, y, na[1]) is True):
                        r = y
        elif o == "store":
            r = ip.store(st, na[0], na[1], na[2])
        elif o == "push" and na[0].op == "arr" and len(na[0].a[0]) < 32:
            r = mk("arr", na[0].a[0] + (na[1],))
        elif o == "push" and na[0].op in ("phi", "fld", "sym", "pop") and self.ask(eq0(ip.length(st, na[0]))) is True:
            r = mk("arr", (na[1],))
        elif o == "pop" and na[0].op == "push":
            r = na[0].a[0]
        elif o == "pop" and na[0].op == "arr" and na[0].a[0]:
            r = mk("arr", na[0].a[0][:-1])
        elif o == "compstr":
            r = std.compstr(ip, st, na[0])
        elif o == "trunc" and UMAX.get(na[1]) is not None and self.entails_le0(sub(na[0], I(UMAX[na[1]]))):
            return na[0]
        elif o == "*" and na[0].op == "ref":
            r = ip.read(st, na[0].a[0])
        elif o == "seq" and na[0].op == "adt" and na[0].a[0] == "mstd::SeqIter":
            r = ip.subseq(st, *na[0].a[2])
        elif o in NORM:
            r = NORM[o](self, *na)
        elif all(p is q for p, q in zip(na, t.a)):
            r = t
        else:
            r = rebuild_term(o, na)
        if r.op in ("le0", "eq0", "eq", "is", "and") and top:
            a = ip.ask(st, r)
            if a is not None and r.op != "and":
                r = B(a)
        self.cache[t] = r
        return r

    def _na(self, y):
        if y.__class__ is T:
            return self.norm(y)
        if y.__class__ is tuple:
            return tuple(self._na(q) for q in y)
        return y

    def same(self, a, b, d=0):
        """True: equal on every run through this path; False: never; None: unknown"""
        if a is b or a is ANY or b is ANY:
            return True
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        ip, st = self.ip, self.st
        if d > 10:
            return None
        if a.op == "PANIC" or b.op == "PANIC":
            return False
        if a.op == "tuple" and b.op == "tuple":
            if len(a.a[0]) != len(b.a[0]):
                return False
            return self._all(self.same(x, y, d + 1) for x, y in zip(a.a[0], b.a[0]))
        if a.op == "arr" and b.op == "arr":
            if len(a.a[0]) != len(b.a[0]):
                return False
            return self._all(self.same(x, y, d + 1) for x, y in zip(a.a[0], b.a[0]))
        for x, y in ((a, b), (b, a)):
            if x.op == "arr" and not x.a[0] and y.op in ("smap", "cat", "sub", "phi", "fld", "pop"):
                return self.ask(eq0(ip.length(st, y)))
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return False
            return self._all(self.same(x, y, d + 1) for x, y in zip(a.a[2], b.a[2]))
        for x, y in ((a, b), (b, a)):
            if x.op == "adt" and y.op != "adt":
                info = ip.P.adts.get(x.a[0])
                if info and info["kind"] == "enum":
                    r = ip.ask_is(st, y, x.a[1])
                    if r is not True:
                        return r
                return self._all(self.same(f, ip.field(st, y, x.a[0], x.a[1], i), d + 1) for i, f in enumerate(x.a[2]))
            if x.op == "tuple" and y.op not in ("tuple", "adt"):
                return self._all(self.same(f, ip.field(st, y, "", 0, i), d + 1) for i, f in enumerate(x.a[0]))
        ints = ("I", "lin", "len", "mul")
        if a.op in ints or b.op in ints or (ip.is_int(a) and ip.is_int(b)):
            e = eq0(sub(a, b))
            return self.ask(e)
        if a.op == "B" or b.op == "B" or a.op in BOOLS or b.op in BOOLS:
            x, y = self.ask(a), self.ask(b)
            if x is not None and y is not None:
                return x == y
            if x is not None and y is None:
                return None
            return None
        if is_const(a) and is_const(b):
            return False
        if a.op in ("scat", "str") and b.op in ("scat", "str"):
            x, y = _pieces(a), _pieces(b)
            if len(x) == len(y):
                return self._all(self.same(p, q, d + 1) for p, q in zip(x, y)) and True or None
            return None
        if a.op == b.op and a.op not in ("phi", "sym", "adt") and len(a.a) == len(b.a):
            # congruence
            rs = []
            for x, y in zip(a.a, b.a):
                rs.append(self._cong(x, y, d))
            if all(r is True for r in rs):
                return True
        return self.ask(ip.eqt(st, a, b))

    def _cong(self, x, y, d):
        if x.__class__ is T and y.__class__ is T:
            return self.same(x, y, d + 1)
        if x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y):
            return self._all(self._cong(p, q, d) for p, q in zip(x, y))
        return True if x == y else None

    @staticmethod
    def _all(it):
        r = True
        for x in it:
            if x is False:
                return False
            if x is None:
                r = None
        return r


BOOLS = ("le0", "eq0", "eq", "is", "and", "not", "mhas")


def _pieces(t):
    return list(t.a[0]) if t.op == "scat" else [t]


# ------------------------------------------------------------------ specifications
SPEC = {}


def spec(name):
    def d(f):
        SPEC[name] = f
        return f
    return d


def sp(name, *a):
    return mk("spec", name, tuple(a))


class Q:
    """what a specification may ask about the state it is run in"""

    def __init__(self, ip, st):
        self.ip = ip
        self.st = st
        self.env = Env(ip, st)
        self.out = []

    def __call__(self, t):
        r = self.env.ask(t)
        if r is None:
            raise Need("b", self.env.norm(t))
        return r

    def is_(self, v, path, vi):
        v = self.env.norm(v)
        r = self.ip.ask_is(self.st, v, vi)
        if r is None:
            raise Need("is", v, path, vi)
        return r

    def some(self, v):
        """payload of an Option, or None"""
        return self.ip.field(self.st, self.env.norm(v), OPT, 1, 0) if self.is_(v, OPT, 1) else None

    def ok(self, v):
        return self.ip.field(self.st, self.env.norm(v), RES, 0, 0) if self.is_(v, RES, 0) else None

    def err(self, v):
        return self.ip.field(self.st, self.env.norm(v), RES, 1, 0)

    def eq(self, a, b):
        r = self.env.same(a, b)
        if r is None:
            t = self.ip.eqt(self.st, self.env.norm(a), self.env.norm(b))
            raise Need("b", self.env.norm(t))
        return r

    def lt(self, a, b):
        return self(lt(a, b))

    def le(self, a, b):
        return self(le(a, b))

    def len(self, v):
        return self.env.norm(mk("len", self.env.norm(v)))

    def elem(self, v, i):
        return self.env.norm(mk("elem", self.env.norm(v), i))

    def fld(self, v, path, i, vi=0):
        return self.ip.field(self.st, self.env.norm(v), path, vi, i)

    def norm(self, t):
        return self.env.norm(t)

    def variant(self, v, path):
        """index of the variant of v"""
        v = self.env.norm(v)
        n = len(self.ip.P.adts[path]["variants"])
        for i in range(n):
            r = self.ip.ask_is(self.st, v, i)
            if r is True:
                return i
        for i in range(n):
            if self.ip.ask_is(self.st, v, i) is None:
                raise Need("is", v, path, i)
        raise Stuck()

    def emit(self, *a):
        self.out.append(a)


def settle(ip, st):
    """the same knowledge, about the values as they are written elsewhere; False if contradictory"""
    env = Env(ip, st)
    for t, b in list(st.facts.items()):
        t2 = env.norm(t, False)
        if t2 is not t and not ip.assume(st, t2, b):
            return False
    for t, vi in list(st.isd.items()):
        t2 = env.norm(t, False)
        if t2 is not t and not ip.assume_is(st, t2, ip.ispath.get(t, ""), vi):
            return False
    for t, no in list(st.nots.items()):
        t2 = env.norm(t, False)
        if t2 is not t:
            for vi in list(no):
                if not ip.assume_isnt(st, t2, ip.ispath.get(t, ""), vi):
                    return False
    return True


def forks(ip, st, need):
    """the feasible refinements of st that decide `need`"""
    r = []
    if need.kind == "b":
        for truth in (True, False):
            s = st.copy()
            if ip.assume(s, need.a[0], truth) and (need.a[0].op not in ("le0", "eq0") or settle(ip, s)) and Env(ip, s).feasible():
                r.append(s)
    else:
        v, path, vi = need.a
        s = st.copy()
        if ip.assume_is(s, v, path, vi) and Env(ip, s).feasible():
            r.append(s)
        s = st.copy()
        if ip.assume_isnt(s, v, path, vi) and Env(ip, s).feasible():
            r.append(s)
    return r


def cases(ip, st, f, limit=256):
    """run f(Q) under every refinement of st it needs: [(state, value, emitted)]"""
    work, out = [st], []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise interp.Limit("cases")
        q = Q(ip, s)
        try:
            v = f(q)
        except Need as e:
            work.extend(forks(ip, s, e))
            continue
        out.append((s, v, q.out))
    return out


class Mismatch(Exception):
    def __init__(self, msg, definite=False):
        Exception.__init__(self, msg)
        self.definite = definite


def node_phis(ip, g, node):
    """[(phi, location)] of a loop head"""
    n = g.nodes[node]
    out = []
    for root, path in g.phi.get(node, ()):
        if any((root, path[:i]) in g.phi[node] for i in range(len(path))):
            continue
        if root not in n.mem and root.op not in ("der", "static"):
            continue
        l = mk("loc", root, path)
        p = ip.read(n, l)
        if p.op == "phi" and p.a[0] is node:
            out.append((p, l))
    return out


def invariants(ip, g):
    """{node: [fact]}: linear facts over loop-carried values that hold at every visit
    (candidates from the branch conditions and the initial values, weakened to the
    greatest inductive subset)"""
    r = getattr(g, "_inv", None)
    if r is not None:
        return r
    ph = {k: node_phis(ip, g, k) for k in g.nodes}
    into = {}
    for s in g.segs:
        if s.kind == "node":
            into.setdefault(s.dst, []).append((s, {p: ip.read(s.st, l) for p, l in ph[s.dst]}))
    cand = {}
    for k in g.nodes:
        own = {p for p, _ in ph[k]}
        c = {}

        def add_(L):
            if lin_parts(L)[1]:
                c[le0(L)] = L
        ints = [p for p in own if any(arr[p].op in ("I", "lin", "len") or ip.is_int(arr[p]) for _, arr in into.get(k, ()))]
        for p in ints:
            cs = [arr[p].a[0] for _, arr in into.get(k, ()) if arr[p].op == "I"]
            if cs and min(cs) > 0:
                add_(sub(I(min(cs)), p))
            if cs:
                add_(sub(p, I(max(cs))))
        if len(ints) <= 5:
            for p in ints:
                for q in ints:
                    if p is not q:
                        add_(sub(p, q))
        for s in g.segs:
            if s.src is not k and not (s.kind == "node" and s.dst is k):
                continue
            for f, b in s.facts.items():
                if f.op in ("le0", "eq0"):
                    L = f.a[0]
                    if not any(x in own for x in phis(L)):
                        continue
                    add_(L)
                    add_(add(L, I(-1)))
                    add_(scale(L, -1))
                    add_(add(scale(L, -1), I(1)))
        # the length of the sequence a loop walks, kept in a variable of its own
        for s, arr in into.get(k, ()):
            if s.src is k:
                continue
            env = Env(ip, s.st)
            for p in ints:
                for q in own:
                    if q is not p and arr[q].op in ("ref", "mseq", "arr", "sub", "vec"):
                        for L in (sub(p, mk("len", mk("*", q) if arr[q].op == "ref" else q)),):
                            if env.norm(subst(L, arr)) is I(0):
                                c = {le0(L): L, le0(scale(L, -1)): scale(L, -1), **c}
        if len(c) > 40:
            c = dict(list(c.items())[:40])
        cand[k] = {(None, f): L for f, L in c.items()}
        # guarded: a branch condition of the loop implies a lower bound
        guards = {}
        for s in g.segs:
            if s.src is k:
                for f, b in s.facts.items():
                    if f.op == "le0" and any(x in own for x in phis(f.a[0])):
                        L = f.a[0] if b else add(scale(f.a[0], -1), I(1))
                        guards[le0(L)] = L
        for p in ints:
            cs = sorted({arr[p].a[0] for _, arr in into.get(k, ()) if arr[p].op == "I"})
            for c0 in cs[1:3]:
                for gd in list(guards.values())[:4]:
                    cand[k][(gd, le0(sub(I(c0), p)))] = sub(I(c0), p)
    if ip.entry is not None:
        further(ip, g, ph, into, cand)
    over = outer(g, {k: {p for p, _ in ph[k]} for k in g.nodes}, cand)
    while True:
        changed = False
        for k in g.nodes:
            if not cand[k]:
                continue
            for s, arr in into.get(k, ()):
                if not cand[k]:
                    break
                st = s.st
                have = [x for x in cand.get(s.src, ())] + [x for o, x in over.get(s.src, ()) if x in cand[o]]
                if have:
                    st = use_invariants(ip, st, have)
                    if st is None:
                        continue
                env = Env(ip, st)
                if not env.feasible():
                    continue
                for (gd, f), L in list(cand[k].items()):
                    if env.entails_le0(env.norm(subst(L, arr))):
                        continue
                    if gd is not None and env.entails_le0(add(scale(env.norm(subst(gd, arr)), -1), I(1))):
                        continue
                    del cand[k][(gd, f)]
                    changed = True
        if not changed:
            break
    g._inv = {k: list(cand[k]) + [x for o, x in over.get(k, ()) if x in cand[o]] for k in g.nodes}
    g._inv = {k: c for k, c in g._inv.items() if c}
    return g._inv


def further(ip, g, ph, into, cand):
    """more candidates: counters that go in step, and what a candidate needs where a loop is entered from another"""
    for k in g.nodes:
        own = {p for p, _ in ph[k]}
        edges = [(Env(ip, s.st), arr) for s, arr in into.get(k, ())]
        ints = [p for p, _ in ph[k] if any(arr[p].op in ("I", "lin", "len") or ip.is_int(arr[p]) for _, arr in edges)]
        ints += [x for s in g.segs if s.src is k for f in s.facts if f.op in ("le0", "eq0")
                 for x in lin_parts(f.a[0])[1] if phis(x) & own and phivar(x)][:8]
        ints = list(dict.fromkeys(ints))
        for p in ints:
            for env, arr in edges:
                d = env.norm(subst(p, arr))
                if not phis(d) & own:
                    for M in (sub(p, d), sub(d, p)):
                        cand[k][(None, le0(M))] = M
        for i, p in enumerate(ints):
            for q in ints[i + 1:]:
                L = sub(p, q)
                ds = [env.norm(subst(L, arr)) for env, arr in edges]
                same = [d is L or env.norm(sub(d, L)) is I(0) for d, (env, _) in zip(ds, edges)]
                if not any(same):
                    continue
                for d, x in zip(ds, same):
                    if not x and not phis(d) & own:
                        for M in (sub(L, d), sub(d, L)):
                            cand[k][(None, le0(M))] = M
    for _ in range(4):
        for k in g.nodes:
            for s, arr in into.get(k, ()):
                if s.src not in g.nodes:
                    continue
                own = {p for p, _ in ph[s.src]}
                env = Env(ip, s.st)
                for (gd, f), L in list(cand[k].items()):
                    if gd is not None or len(cand[s.src]) > 80:
                        continue
                    M = env.norm(subst(L, arr))
                    if lin_parts(M)[1] and phis(M) & own and len(lin_parts(M)[1]) < 5:
                        cand[s.src].setdefault((None, le0(M)), M)


def outer(g, own, cand):
    """{node: [(other node, candidate)]}: what was known at a loop head passed before, about its values that are still around"""
    r = {}
    for k, n in g.nodes.items():
        seen = set()
        for t in list(n.mem.values()) + list(n.facts) + list(n.isd):
            seen |= phis(t)
        for o in g.nodes:
            if o is k or not own[o] & seen:
                continue
            for gd, f in cand[o]:
                ps = phis(f) | (phis(gd) if gd is not None else set())
                if ps & own[o] & seen and (ps <= own[o] or not between(g, o, k) & {x.a[0] for x in ps if x not in own[o]}):
                    r.setdefault(k, []).append((o, (gd, f)))
    return r


def between(g, o, k):
    """loop heads that can be passed after the last visit of o on the way to k"""
    m = g.__dict__.setdefault("_between", {})
    r = m.get((o, k))
    if r is None:
        r, work = {k}, [k]
        while work:
            x = work.pop()
            for s in g.segs:
                if s.kind == "node" and s.dst is x and s.src is not o and s.src not in r:
                    r.add(s.src)
                    work.append(s.src)
        m[(o, k)] = r
    return r


def use_invariants(ip, st, inv):
    """the state with the invariants of its source added, or None when contradictory"""
    st = st.copy()
    later = []
    for gd, f in inv:
        if gd is not None:
            later.append((gd, f))
        elif not ip.assume(st, f, True):
            return None
    if later:
        env = Env(ip, st)
        for gd, f in later:
            if env.entails_le0(gd) and not ip.assume(st, f, True):
                return None
    return st


NOTHING = adt(interp.OPT, 0, ())


def phivar(t):
    """a loop variable or a field of one"""
    while t.op == "fld":
        t = t.a[0]
    return t.op == "phi"


def pairs(a, b):
    """what is equal when a and b are"""
    if a.op == "adt" and b.op == "adt" and a.a[:2] == b.a[:2]:
        for x, y in zip(a.a[2], b.a[2]):
            yield from pairs(x, y)
    elif a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]):
        for x, y in zip(a.a[0], b.a[0]):
            yield from pairs(x, y)
    else:
        yield a, b


class Rel:
    """relation at one node: the specification is in state name(args) where each
    argument equals every expression of its set"""
    __slots__ = ("name", "sets", "first")

    def __init__(self, name, sets):
        self.name, self.sets, self.first = name, sets, None

    def state(self):
        return mk("spec", self.name, tuple(s[0] for s in self.sets))

    def eqmap(self):
        """phis replaced by the representative they are (so far) equal to"""
        m = {}
        for ss in self.sets:
            rep = subst(ss[0], m)
            open_ = bool(phis(ss[0]))
            for e in ss[1:]:
                if open_ and not phis(e) and e is not NOTHING:
                    continue        # kept in the set, but not assumed: it rarely survives
                for e, r in pairs(subst(e, m), rep):
                    e, r = subst(e, m), subst(r, m)
                    if e is r:
                        continue
                    c, ps = lin_parts(e)
                    ph, x = None, None
                    if phivar(e):
                        ph, x = e, r
                    elif e.op == "lin" and len(ps) == 1:
                        (k, v), = ps.items()
                        if phivar(k) and v == 1:
                            ph, x = k, sub(r, I(c))
                    if ph is None and phivar(r):
                        ph, x = r, e
                    if ph is None or ph in walk(x):
                        continue
                    one = {ph: x}
                    m = {k: subst(v, one) for k, v in m.items()}
                    m[ph] = x
                rep = subst(rep, m)
        return m


class View:
    """a path segment under the equalities assumed at its source"""

    def __init__(self, sim, seg, st, m):
        self.seg, self.m = seg, m
        self.ok = True
        ip = sim.ip
        if not m:
            self.st = st
            return
        n = st.copy()
        n.facts, n.isd, n.nots = {}, {}, {}
        for t, b in st.facts.items():
            if not ip.assume(n, subst(t, m), b):
                self.ok = False
                break
        if self.ok:
            for t, vi in st.isd.items():
                if not ip.assume_is(n, subst(t, m), ip.ispath.get(t, ""), vi):
                    self.ok = False
                    break
        if self.ok:
            for t, no in st.nots.items():
                for vi in no:
                    if not ip.assume_isnt(n, subst(t, m), ip.ispath.get(t, ""), vi):
                        self.ok = False
                        break
        if self.ok:
            self.ok = settle(ip, n)
        if self.ok and not Env(ip, n).feasible():
            self.ok = False
        if self.ok:
            ch = {}
            for k, v in n.mem.items():
                w = subst(v, m)
                if w is not v:
                    ch[k] = w
            n.mem.update(ch)
        self.st = n

    def t(self, x):
        return subst(x, self.m) if self.m and x.__class__ is T else x


class Sim:
    """Does the graph behave as the transition system `spec0`?"""
    MAXREL = 6
    MAXSET = 14
    MAXALONE = 100
    MAXWORK = 3000
    MAXTIME = 600       # of the process, in seconds
    MAXWIDE = 200

    def __init__(self, ctx, g, spec0, evmap, retmap, inv=None, panic=PANIC):
        self.ctx, self.ip, self.g = ctx, ctx.ip, g
        self.spec0, self.evmap, self.retmap = spec0, evmap, retmap
        self.panic = panic
        self.bysrc = {}
        self.inv = inv if inv is not None else invariants(self.ip, g)
        for s in g.segs:
            st = use_invariants(self.ip, s.st, self.inv.get(s.src, ()))
            if st is None or not Env(self.ip, st).feasible():
                continue
            self.bysrc.setdefault(s.src, []).append((s, st))
        self.evs = {}
        self.arrc = {}
        self.views = {}
        self.skip = {}

    def events(self, view):
        r = self.evs.get(id(view.seg))
        if r is None:
            r = [x for x in (self.evmap(e) for e in view.seg.events) if x is not None]
            self.evs[id(view.seg)] = r
        if not view.m:
            return r
        return [tuple(view.t(y) for y in x) for x in r]

    def unfold(self, st, t):
        q = Q(self.ip, st)
        v = SPEC[t.a[0]](q, *[q.norm(a) for a in t.a[1]])
        return v, q.out

    def match(self, st, emitted, evs, k):
        env = Env(self.ip, st)
        for e in emitted:
            if k >= len(evs):
                return None
            x = evs[k]
            if len(x) != len(e):
                return None
            for p, q in zip(x, e):
                if p.__class__ is T and q.__class__ is T:
                    if env.same(p, q) is not True:
                        return None
                elif p != q:
                    return None
            k += 1
        return k

    def stuck(self, st, r):
        try:
            self.unfold(st, r)
        except Stuck:
            return True
        except Need:
            pass
        return False

    def to_node(self, view, cand):
        """[(state, [residual...])] for each fork; raises Mismatch"""
        evs = self.events(view)
        out = []
        work = [(view.st, cand, 0, [cand] if not evs else [], 0, (0, 0))]
        n = 0
        while work:
            s, r, k, opts, d, late = work.pop()
            n += 1
            if n > 300:
                raise Mismatch("too many cases")
            while True:
                if r.op != "spec" or d > 40:
                    break
                try:
                    r2, em = self.unfold(s, r)
                except Need as nd:
                    if k < len(evs) or r is self.spec0:
                        for s2 in forks(self.ip, s, nd):
                            work.append((s2, r, k, list(opts), d + 1, late))
                        opts = None
                        break
                    # one way out when the other is unconstrained
                    fs = forks(self.ip, s, nd)
                    live = [s2 for s2 in fs if not self.stuck(s2, r)]
                    if len(live) != 1 or len(fs) < 2:
                        if self.wide and len(fs) > 1 and late[0] < 3:
                            # the code may not ask, where the answer does not matter
                            for s2 in live:
                                work.append((s2, r, k, list(opts), d + 1, (late[0] + 1, late[1] or len(opts))))
                            opts = None
                        break
                    s = live[0]
                    d += 1
                    continue
                except Stuck:
                    opts = None
                    break
                k2 = self.match(s, em, evs, k)
                if k2 is None:
                    break
                r, k = r2, k2
                d += 1
                if k == len(evs):
                    opts.append(r)
            if opts is None:
                continue
            base = len([o for o in opts[:late[1]] if o.op == "spec"])
            opts = [o for o in opts if o.op == "spec"]
            if not opts:
                env = Env(self.ip, s)
                want = ""
                try:
                    want = "; expected " + (sh_ev(self.unfold(s, r)[1], env) if r.op == "spec" else "to end with " + show(r, 6))
                except (Need, Stuck):
                    pass
                raise Mismatch("emits %s%s" % (sh_ev(evs[k:k + 2], env) if k < len(evs) else "nothing more and goes on", want))
            out.append((s, opts, base or len(opts)))
        return out

    def to_exit(self, view, cand):
        evs = self.events(view)
        seg = view.seg
        got = self.panic if seg.kind == "panic" else view.t(self.retmap(seg))
        work = [(view.st, cand, 0, 0)]
        n = 0
        while work:
            s, r, k, d = work.pop()
            n += 1
            if n > 400:
                raise Mismatch("too many cases")
            dead = False
            while r.op == "spec":
                if d > 60:
                    raise Mismatch("expected behaviour does not end: " + show(r, 5))
                try:
                    r2, em = self.unfold(s, r)
                except Need as nd:
                    for s2 in forks(self.ip, s, nd):
                        work.append((s2, r, k, d + 1))
                    dead = True
                    break
                except Stuck:
                    dead = True
                    break
                k2 = self.match(s, em, evs, k)
                if k2 is None:
                    raise Mismatch("expected to emit %s, code emits %s" % (sh_ev(em, Env(self.ip, s)), sh_ev(evs[k:k + 3], Env(self.ip, s))))
                r, k = r2, k2
                d += 1
            if dead:
                continue
            if k < len(evs) and r is not PANIC and got is not PANIC:
                raise Mismatch("code also emits %s" % (sh_ev(evs[k:k + 3], Env(self.ip, s)),))
            env = Env(self.ip, s)
            x = env.same(got, r)
            if x is not True:
                raise Mismatch("result %s, expected %s" % (show(env.norm(got), 9), show(env.norm(r), 9)), x is False)

    # -------------------------------------------------------- generalisation
    def arrivals(self, view):
        """{phi: value on arrival} at the node reached by seg"""
        seg = view.seg
        d = self.arrc.get(id(seg))
        if d is None:
            node = seg.dst
            n = self.g.nodes[node]
            d = {}
            for root, path in self.g.phi.get(node, ()):
                l = mk("loc", root, path)
                if any((root, path[:i]) in self.g.phi[node] for i in range(len(path))):
                    continue
                if root not in n.mem and root.op not in ("der", "static"):
                    continue
                p = self.ip.read(n, l)
                if p.op == "phi" and p.a[0] is node:
                    d[p] = self.ip.read(seg.st, l)
            self.arrc[id(seg)] = d
        if not view.m:
            return d
        return {p: view.t(v) for p, v in d.items()}

    def alts(self, t, arrn, env, node, depth, memo):
        k = (t, depth)
        if k in memo:
            return memo[k]
        t2 = env.norm(t)
        out = []
        for p, v in arrn.items():
            if v is t2:
                out.append(p)
        if t2.op not in ("I", "lin", "adt", "tuple"):
            for p, v in arrn.items():
                if v.op in ("ref", "phi", "sym", "fld", "elem", "mget") and p.op == "phi":
                    w = mk("*", v)
                    if w is t2 or (v.op == "ref" and env.norm(w) is t2):
                        out.append(mk("*", p))
        if depth <= 1 and t2.op in ("sub", "mseq", "arr", "seq"):
            for p, v in arrn.items():
                for x, y in interp.seqiters(p, v):
                    w = mk("seq", x)
                    if w is t2 or env.norm(mk("seq", y)) is t2:
                        out.append(w)
        if t2.op in ("I", "lin") or self.ip.is_int(t2):
            near = []
            for p, v in arrn.items():
                if v is not t2 and (v.op in ("I", "lin") or self.ip.is_int(v)):
                    d = sub(t2, v)
                    if d.op == "I" and abs(d.a[0]) <= 2:
                        near.append(add(p, d))
            for p, v in self.outer:
                d = sub(t2, v)
                if d.op == "I" and abs(d.a[0]) <= 2:
                    near.append(add(p, d))
            out += near
        if t2.op == "lin" and depth < 3:
            c, ps = lin_parts(t2)
            for p, v in arrn.items():
                if v is not t2:
                    for w, co in ps.items():
                        if w is v:
                            out.append(add(t2, scale(sub(p, v), co)))
        if not any(x.a[0] is node for x in phis(t2)):
            out.append(t2)
        if depth < 3 and t2.op in ("adt", "tuple", "fld", "seq", "sub", "scat", "push", "arr", "elem", "mget"):
            parts = []
            for y in t2.a:
                if y.__class__ is T:
                    parts.append(self.alts(y, arrn, env, node, depth + 1, memo)[:4])
                elif y.__class__ is tuple and all(z.__class__ is T for z in y):
                    parts.append(list(itertools.islice(itertools.product(*[self.alts(z, arrn, env, node, depth + 1, memo)[:4] for z in y]), 12)))
                else:
                    parts.append([y])
            for co in itertools.islice(itertools.product(*parts), 24):
                x = rebuild_term(t2.op, co) if t2.op != "adt" else adt(*co)
                if x not in out and x is not t2:
                    out.append(x)
        if self.wide and depth == 0 and (t2.op in ("I", "lin") or self.ip.is_int(t2)):
            # counters that run beside it, either way
            for p, v in arrn.items():
                if p.op == "phi" and (v.op in ("I", "lin") or self.ip.is_int(v)):
                    for x in (add(t2, sub(p, v)), add(t2, sub(v, p))):
                        if x not in out and len(out) < self.MAXSET:
                            out.append(x)
        if phis(t2) and len(out) > 1:
            # speak of this loop's own variables where possible
            out.sort(key=lambda x: not any(y.a[0] is node for y in phis(x)))
        memo[k] = out
        return out

    def generalise(self, r, arr, st, node, m=None):
        env = Env(self.ip, st)
        arrn = {p: env.norm(v) for p, v in arr.items()}
        memo = {}
        out = []
        back = {}
        # counters of earlier loops that have not moved so far
        self.outer = [(k, v) for k, v in (m or {}).items() if v.op == "I" and phivar(k) and not any(p.a[0] is node or p in arrn for p in phis(k))]
        for k, v in (m or {}).items():
            if k.op == "phi" and k.a[0] is not node and k not in arrn:
                c, ps = lin_parts(v)
                if len(ps) == 1:
                    (p, co), = ps.items()
                    if co == 1 and p.op == "phi" and p.a[0] is not k.a[0]:
                        back.setdefault(p, sub(k, I(c)))
        for a in r.a[1]:
            ss = self.alts(a, arrn, env, node, 0, memo)[:self.MAXSET]
            # the variables of earlier loops keep their values
            for k, v in (m or {}).items():
                if v is a and k.op == "phi" and k.a[0] is not node and k not in arrn and k not in ss:
                    ss.append(k)
            if back:
                b = env.norm(subst(a, back))
                if b not in ss and not any(p.a[0] is node for p in phis(b)):
                    ss.append(b)
            out.append(ss)
        return out

    def filter(self, rel, r, arr, st, m=None):
        """the sets of rel that still hold with residual r, or None"""
        if rel.name != r.a[0]:
            return None
        frozen = {**{k: v for k, v in m.items() if not any(p in arr for p in phis(k))}, **arr} if m else None
        env = Env(self.ip, st)
        out = []
        for ss, x in zip(rel.sets, r.a[1]):
            keep = [e for e in ss if env.same(subst(e, arr), x) is True or m and self.frozen and env.same(subst(e, frozen), x) is True]
            if not keep:
                return None
            out.append(keep)
        return out

    # -------------------------------------------------------- driver
    MODES = ((False, False), (True, False), (False, True))

    def run(self, modes=MODES):
        best = lim = None
        for self.frozen, self.wide in modes:
            if self.wide and best and self.ctx.violated():
                break       # the verdict of the check is known: no need for the slow mode
            self.skip = {}
            try:
                why = self.attempts()
            except interp.Limit as e:
                lim = e
                continue
            if why is None:
                return None
            best = best or why
        if lim and not (self.wide and best):
            raise lim
        return self.explain(best)

    def attempts(self):
        steps = 0
        best = None
        done = set()
        alone = []          # alignments of one loop head only, after those that move one head after the other
        moving = 12
        while True:
            key = frozenset((n, i) for n, i in self.skip.items() if i)
            if key not in done:
                done.add(key)
                self.rels = {"entry": [Rel(self.spec0.a[0], [[a] for a in self.spec0.a[1]])]}
                self.work = [("entry", self.rels["entry"][0])]
                self.first = {}
                n = 0
                while self.work:
                    n += 1
                    steps += 1
                    if n > self.MAXWORK or self.wide and steps > self.MAXWIDE or time.process_time() > self.MAXTIME:
                        raise interp.Limit("simulation")
                    node, rel = self.work.pop(0)
                    if rel not in self.rels.get(node, ()):
                        continue
                    self.step(node, rel, False)
                # only what is reached through relations that hold matters
                why = []
                self.todo = [("entry", self.rels["entry"][0])]
                seen = []
                while self.todo:
                    node, rel = self.todo.pop()
                    if any(r is rel for r in seen):
                        continue
                    seen.append(rel)
                    w = self.step(node, rel, True)
                    if w is not None:
                        why.append((node, rel, w))
                if not why:
                    return None
                best = best or why
            if moving:
                moving -= 1
                # other alignments of the specification with a loop head
                for node, (i, cnt) in sorted(self.first.items(), key=lambda kv: kv[0].id):
                    for j in range(1, cnt):
                        if (node, j) not in alone:
                            alone.append((node, j))
                    if i + 1 < cnt and self.skip.get(node, 0) == i:
                        self.skip[node] = i + 1
                        break
                else:
                    moving = 0
            if not moving:
                if not alone or time.process_time() > self.MAXALONE:
                    break
                self.skip = dict([alone.pop(0)])
        return best

    def step(self, node, rel, final):
        self.cur = rel
        m = rel.eqmap()
        cand = subst(rel.state(), m) if m else rel.state()
        for seg, st in self.bysrc.get(node, ()):
            view = View(self, seg, st, m)
            if not view.ok:
                continue
            try:
                if seg.kind != "node":
                    if final:
                        self.to_exit(view, cand)
                    continue
                for s, opts, base in self.to_node(view, cand):
                    if not final and not any(r is rel for r in self.rels.get(node, ())):
                        return None
                    if not self.arrive(view, s, opts, final, base):
                        raise Mismatch("loop: nothing relates the loop state to %s" % show(opts[-1], 6))
            except Mismatch as e:
                if final:
                    return (seg, str(e), e.definite)
        return None

    def arrive(self, view, s, opts, final, base):
        node = view.seg.dst
        arr = self.arrivals(view)
        rs = self.rels.setdefault(node, [])
        best = None
        for rel in rs:
            for r in reversed(opts):
                f = self.filter(rel, r, arr, s, view.m)
                if f is None:
                    continue
                # what mentions values of the loop itself is worth more than what stays the same in it
                lost = sum(sum(1000 if any(p in arr for p in phis(x)) else 1 for x in a if x not in b) for a, b in zip(rel.sets, f))
                if best is None or lost < best[0]:
                    best = (lost, rel, f)
        if best is not None and (best[0] == 0 or final is False):
            if best[0]:
                best[1].sets = best[2]
                self.work.append((node, best[1]))
                self.forget(best[1])
            elif final:
                self.todo.append((node, best[1]))
            return True
        if final:
            return False
        if len(rs) >= self.MAXREL:
            return True
        i = 0
        opts = opts[:base]
        if not rs:
            i = min(self.skip.get(node, 0), len(opts) - 1)
            self.first[node] = (i, len(opts))
        r = opts[len(opts) - 1 - i]
        rel = Rel(r.a[0], self.generalise(r, arr, s, node, view.m))
        if any(not x for x in rel.sets):
            return True
        rel.first = self.cur
        rs.append(rel)
        self.work.append((node, rel))
        return True

    def forget(self, rel):
        """relations first found from one that has since been weakened"""
        kids = {id(rel)}
        more = True
        while more:
            more = False
            for node, rs in self.rels.items():
                for r in rs:
                    if r is not rel and r.first is not None and id(r.first) in kids and id(r) not in kids:
                        kids.add(id(r))
                        more = True
        for node, rs in self.rels.items():
            rs[:] = [r for r in rs if r is rel or id(r) not in kids]

    def explain(self, why):
        best = None
        for node, rel, (seg, msg, definite) in why:
            rank = (0 if seg.kind != "node" else (2 if msg.startswith("loop:") else 1), 0 if definite else 1, 0 if node == "entry" else 1)
            if best is None or rank < best[0]:
                best = (rank, seg, msg)
        return best[1], best[2]


def sh_ev(evs, env=None):
    return "[" + "; ".join("%s" % " ".join(show(env.norm(y) if env else y, 6) if y.__class__ is T else str(y) for y in x) for x in evs) + "]"


# ------------------------------------------------------------------ a graph as a specification
_gs = itertools.count()


def choose(ip, segs, q, m):
    """the path the state of q takes among segs (with the substitution m)"""
    need = None
    for s in segs:
        hit, nd = True, None
        for t, b in s.facts.items():
            t2 = q.env.norm(subst(t, m))
            r = q.env.ask(t2)
            if r is None:
                nd = nd or Need("b", t2)
            elif r is not b:
                hit = False
                break
        if hit:
            for t, vi in s.isd.items():
                v = q.env.norm(subst(t, m))
                r = ip.ask_is(q.st, v, vi)
                if r is None:
                    nd = nd or Need("is", v, ip.ispath.get(t) or ip.ispath.get(v, ""), vi)
                elif r is False:
                    hit = False
                    break
        if hit:
            for t, no in s.nots.items():
                v = q.env.norm(subst(t, m))
                for vi in no:
                    r = ip.ask_is(q.st, v, vi)
                    if r is None:
                        nd = nd or Need("is", v, ip.ispath.get(t) or ip.ispath.get(v, ""), vi)
                    elif r is True:
                        hit = False
                        break
        if not hit:
            continue
        if nd is not None:
            need = need or nd
            continue
        return s
    if need is not None:
        raise need
    raise Stuck()


def inline(ip, g, q, args, retmap=None):
    """what a loop-free function returns on other arguments (Stuck when it panics)"""
    m = dict(zip(g.args, args))
    s = choose(ip, [x for x in g.segs if x.src == "entry"], q, m)
    if s.kind != "return":
        raise Stuck()
    return q.env.norm(subst((retmap or (lambda z: z.val))(s), m))


def graph_spec(ip, g, evmap, retmap, panic=None, inv=None):
    """The behaviour of a graph as a transition system: one spec per node, with the
    node's loop-carried values as parameters.  `panic`: what panicking paths amount
    to (None: unspecified)."""
    base = "g%d" % next(_gs)
    bysrc = {}
    for s in g.segs:
        bysrc.setdefault(s.src, []).append(s)
    names = {k: "%s/%d" % (base, i) for i, k in enumerate(g.nodes)}
    params = {}
    for key, n in g.nodes.items():
        ps = []
        done = set()
        for root, path in sorted(g.phi.get(key, ()), key=lambda rp: (len(rp[1]), rp[0].id, str(rp[1]))):
            if any((root, path[:i]) in done for i in range(len(path))):
                continue
            if root not in n.mem and root.op not in ("der", "static"):
                continue
            done.add((root, path))
            v = ip.read(n, mk("loc", root, path))
            if v.op == "phi" and v.a[0] is key:
                ps.append((v, mk("loc", root, path)))
        params[key] = ps

    def make(src):
        pl = params.get(src, ())

        def f(q, *vals):
            m = {p: v for (p, _), v in zip(pl, vals)}
            s = choose(ip, bysrc.get(src, ()), q, m)
            for e in s.events:
                x = evmap(e)
                if x is not None:
                    q.emit(*[subst(y, m) if y.__class__ is T else y for y in x])
            if s.kind == "panic":
                if panic is None:
                    raise Stuck()
                return panic
            if s.kind == "node":
                return mk("spec", names[s.dst], tuple(subst(ip.read(s.st, l), m) for _, l in params[s.dst]))
            return subst(retmap(s), m)
        return f
    for key, nm in names.items():
        SPEC[nm] = make(key)
    SPEC[base + "/entry"] = make("entry")
    return mk("spec", base + "/entry", ())
