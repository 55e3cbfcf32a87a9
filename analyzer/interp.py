"""Path-partitioned dataflow over MIR with value numbering.

A function root is analysed with its workspace callees and closures inlined;
loop heads are join points where every location that can differ is widened to a
phi value.  The result is a graph: nodes (entry, loop heads) and segments
(acyclic paths between nodes or to an exit), each with the branch facts, the
ordered opaque calls and the abstract end state.  Nothing is executed, no path
is handed to a solver and no loop is unrolled.
"""
from terms import *
import load
import re


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("fid", "body", "bb", "ret", "parent")

    def __init__(self, fid, body, bb, ret, parent):
        self.fid = fid      # interned T
        self.body = body
        self.bb = bb
        self.ret = ret      # (dest loc, target bb or None) in the parent frame, or ("k", fn)
        self.parent = parent


class State:
    __slots__ = ("mem", "facts", "isd", "nots", "ev", "frame", "seg")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.isd = dict(self.isd)
        s.nots = dict(self.nots)
        s.ev = self.ev
        s.frame = self.frame
        s.seg = self.seg
        return s

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Event:
    __slots__ = ("name", "args", "res", "line", "fid", "facts", "kind", "tys", "file", "isd", "raw")

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(show(a, 6) for a in self.args))


class Seg:
    __slots__ = ("src", "kind", "dst", "facts", "isd", "nots", "events", "mem", "val", "line", "st", "phimap", "where")

    def __repr__(self):
        return "<%s -> %s %s>" % (self.src, self.kind, self.dst if self.kind == "node" else (show(self.val, 6) if self.val is not None else ""))


class Graph:
    _inv = None
    def __init__(self):
        self.nodes = {}     # key -> State at head
        self.segs = []
        self.status = "ok"
        self.phi = {}


OPT = "std::Option"
RES = "std::Result"


class Interp:
    MAXSEG = 6000
    SHAPE = 4
    MAXPART = 6
    MAXSTEP = 400000

    def __init__(self, prog, natives, models, hooks=None):
        self.P = prog
        self.nat = natives
        self.models = models      # canonical name -> model root canonical name
        self.opaque = set()       # canonical names forced opaque
        self.opaque_bodies = frozenset()
        self.same_bodies = frozenset()     # hand-written clones known to give the value cloned
        self.erase = lambda name: ()
        self.constcache = {}
        self.traitcalls = {}
        for nm, a in prog.adts.items():
            if a["kind"] == "struct":
                from terms import _ETA_SINGLE
                _ETA_SINGLE.add(nm)
        self.model_m = {}
        if "mstd" in prog.crates:
            for nm, rs in prog.crates["mstd"].fns.items():
                self.model_m[nm] = rs[0]["B"]

    # ---------------------------------------------------------------- types
    def ty_of_place(self, body, p):
        t = body.locals[p[0]]
        vi = None
        for e in p[1:]:
            if e[0] == "d":
                t = t.el if t.el is not None else (t.args[0] if t.args else t)
            elif e[0] == "f":
                t = body.crate.types[e[3]]
            elif e[0] in ("i", "ci"):
                t = t.el or t
        return t

    def nfields(self, t, vi):
        if t is None:
            return None
        if t.k == "adt":
            a = self.P.adts.get(t.adt)
            if a and a["variants"] and vi < len(a["variants"]):
                return len(a["variants"][vi][2])
            return None
        if t.k == "tuple":
            return len(t.els)
        if t.k == "closure":
            return len(t.upvars)
        return None

    # ---------------------------------------------------------------- memory
    def root_read(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root.op == "cval":
            return root.a[0]
        if root.op == "der":
            return mk("*", root.a[0])
        if root.op == "static":
            return mk("sym", "static " + root.a[0])
        return mk("uninit", root)

    def project(self, st, v, e):
        k = e[0]
        if k == "f":
            return self.field(st, v, e[1], e[2], e[3])
        if k == "e":
            return self.elem(st, v, e[1])
        if k == "sub":
            return self.subseq(st, v, e[1], e[2])
        if k == "k":
            return self.map_get(st, v, e[1])
        if k == "b":
            return v
        if k == "mv":
            return mk("mval", v, e[1])
        raise Unsupported("project " + k)

    def field(self, st, v, path, vi, i):
        o = v.op
        if o == "adt":
            if v.a[1] == vi and i < len(v.a[2]):
                return v.a[2][i]
            if v.a[0] != path and path in self.TRANSPARENT:
                return v
            return mk("undef", v, vi, i)
        if o == "tuple":
            if i < len(v.a[0]):
                return v.a[0][i]
        if o == "clo":
            return v.a[1][i]
        if path in self.TRANSPARENT:
            return v
        if o == "upd" and v.a[1] == (vi, i):
            return v.a[2]
        if o == "upd":
            return self.field(st, v.a[0], path, vi, i)
        if path == "mstd::SeqIter" and o in ("call", "sym", "*", "fld", "elem", "post"):
            # an iterator of unknown type, seen as the sequence of its elements
            b = v
            while b.op in ("fld", "elem"):
                b = b.a[0]
            if b.op in ("call", "sym", "*", "post"):
                s = mk("seq", v)
                return (s, I(0), mk("len", s))[i]
        r = mk("fld", v, path, vi, i)
        if path and r not in self.intterms:
            d = self.P.adts.get(path)
            if d:
                try:
                    if d["variants"][vi][2][i][1].k in ("uint", "int"):
                        self.intterms.add(r)
                except (IndexError, KeyError):
                    pass
        return r

    TRANSPARENT = {"std::MaybeUninit", "std::ManuallyDrop", "std::Box", "std::Unique", "std::NonNull", "std::BoxRaw"}

    def length(self, st, v):
        o = v.op
        if o == "arr":
            return I(len(v.a[0]))
        if o == "bytes":
            return I(len(v.a[0]))
        if o == "str":
            return I(len(v.a[0].encode()))
        if o == "push":
            return add(self.length(st, v.a[0]), I(1))
        if o in ("store",):
            return self.length(st, v.a[0])
        if o == "rev":
            return self.length(st, v.a[0])
        if o in ("sorted",):
            return self.length(st, v.a[0])
        if o == "sub":
            return sub(v.a[2], v.a[1])
        if o == "cat":
            r = I(0)
            for x in v.a[0]:
                r = add(r, self.length(st, x))
            return r
        if o == "pop":
            return sub(self.length(st, v.a[0]), I(1))
        if o == "repeat":
            return v.a[1]
        if o == "smap":
            return v.a[0]
        if o in ("crefs",):
            return self.length(st, v.a[0])
        if o == "mseq":
            return self.length(st, v.a[0])
        if o == "cidx":
            return mk("len", mk("chars", v.a[0]))
        if o == "mnew":
            return I(0)
        if o == "splice":
            return add(sub(add(v.a[1], sub(self.length(st, v.a[0]), v.a[2])), I(0)), self.length(st, v.a[3]))
        return mk("len", v)

    def elem(self, st, v, i):
        o = v.op
        if o == "arr":
            if i.op == "I" and 0 <= i.a[0] < len(v.a[0]):
                return v.a[0][i.a[0]]
        elif o == "bytes":
            if i.op == "I" and i.a[0] < len(v.a[0]):
                return I(v.a[0][i.a[0]])
        elif o == "push":
            n = self.length(st, v.a[0])
            if i is n:
                return v.a[1]
            if self.ask(st, lt(i, n)) is True:
                return self.elem(st, v.a[0], i)
        elif o == "store":
            if i is v.a[1]:
                return v.a[2]
            same = self.ask(st, eq0(sub(i, v.a[1])))
            if same is False:
                return self.elem(st, v.a[0], i)
            if same is True:
                return v.a[2]
        elif o == "sub":
            return self.elem(st, v.a[0], add(v.a[1], i))
        elif o == "pop":
            return self.elem(st, v.a[0], i)
        elif o == "rev":
            return self.elem(st, v.a[0], sub(sub(self.length(st, v.a[0]), I(1)), i))
        elif o == "repeat":
            return v.a[0]
        elif o == "smap":
            return subst(v.a[2], {v.a[1]: i})
        elif o == "cat":
            off = i
            for x in v.a[0]:
                n = self.length(st, x)
                if self.ask(st, lt(off, n)) is True:
                    return self.elem(st, x, off)
                if self.ask(st, le(n, off)) is True:
                    off = sub(off, n)
                    continue
                break
        elif o == "str":
            b = v.a[0].encode()
            if i.op == "I" and 0 <= i.a[0] < len(b):
                return I(b[i.a[0]])
        elif o == "crefs":
            return self.cref(self.elem(st, v.a[0], i))
        elif o == "cidx":
            return tup(mk("coff", v.a[0], i), self.elem(st, mk("chars", v.a[0]), i))
        elif o == "mseq":
            m, k = v.a
            kk, vv = mk("mkey", m, i), mk("mval", m, i)
            if k == "iter":
                return tup(self.cref(kk), self.cref(vv))
            if k == "into":
                return tup(kk, vv)
            if k == "keys":
                return self.cref(kk)
            if k == "values":
                return self.cref(vv)
            return kk if k in ("intokeys", "into_keys") else vv
        return mk("elem", v, self.constant(st, i))

    def constant(self, st, i):
        """i, or the constant the facts say it is"""
        if i.op == "lin":
            for f, b in st.facts.items():
                if b and f.op == "eq0":
                    for s in (1, -1):
                        d = sub(i, scale(f.a[0], s))
                        if d.op == "I":
                            return d
        return i

    def subseq(self, st, v, a, b):
        """v[a..b]; b may be None for the end"""
        n = self.length(st, v)
        if b is None:
            b = n
        if a is I(0) and b is n:
            return v
        if v.op == "arr" and a.op == "I" and b.op == "I" and 0 <= a.a[0] <= b.a[0] <= len(v.a[0]):
            return mk("arr", v.a[0][a.a[0]:b.a[0]])
        if v.op == "sub":
            return self.subseq(st, v.a[0], add(v.a[1], a), add(v.a[1], b))
        if a is b:
            return mk("arr", ())
        if v.op == "push" and self.ask(st, le(b, self.length(st, v.a[0]))) is True:
            return self.subseq(st, v.a[0], a, b)
        if v.op == "smap":
            return mk("smap", sub(b, a), v.a[1], subst(v.a[2], {v.a[1]: add(v.a[1], a)}))
        if v.op == "store" and (self.ask(st, lt(v.a[1], a)) is True or self.ask(st, le(b, v.a[1])) is True):
            return self.subseq(st, v.a[0], a, b)
        return mk("sub", v, a, b)

    def map_get(self, st, m, k):
        o = m.op
        if o == "minsert":
            if m.a[1] is k:
                return m.a[2]
            if self.ask(st, self.eqt(st, m.a[1], k)) is False:
                return self.map_get(st, m.a[0], k)
        if o == "mremove":
            if self.ask(st, self.eqt(st, m.a[1], k)) is False:
                return self.map_get(st, m.a[0], k)
        return mk("mget", m, k)

    def map_has(self, st, m, k):
        o = m.op
        if o == "mnew":
            return FALSE
        if o == "minsert":
            e = self.eqt(st, m.a[1], k)
            r = self.ask(st, e)
            if r is True:
                return TRUE
            if r is False:
                return self.map_has(st, m.a[0], k)
        if o == "mremove":
            e = self.eqt(st, m.a[1], k)
            r = self.ask(st, e)
            if r is True:
                return FALSE
            if r is False:
                return self.map_has(st, m.a[0], k)
        return mk("mhas", m, k)

    def update(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        old = self.project(st, v, e)
        new = self.update(st, old, path[1:], val)
        if new is old:
            return v
        k = e[0]
        if k == "f":
            _, p, vi, i, n = e
            if p in self.TRANSPARENT:
                return new
            if v.op == "tuple":
                fs = list(v.a[0])
                fs[i] = new
                return mk("tuple", tuple(fs))
            if v.op == "clo":
                fs = list(v.a[1])
                fs[i] = new
                return mk("clo", v.a[0], tuple(fs))
            if v.op == "adt" and v.a[1] == vi:
                fs = list(v.a[2])
                fs[i] = new
                return adt(v.a[0], vi, fs)
            if n is None:
                return mk("upd", v, (vi, i), new)
            fs = [self.field(st, v, p, vi, j) for j in range(n)]
            fs[i] = new
            if p == "":
                return mk("tuple", tuple(fs))
            return adt(p, vi, fs)
        if k == "e":
            return self.store(st, v, e[1], new)
        if k == "sub":
            return mk("splice", v, e[1], e[2] or mk("end"), new)
        if k == "k":
            return mk("minsert", v, e[1], new)
        if k == "b":
            return new
        if k == "mv":
            return mk("mstore", v, e[1], new)
        raise Unsupported("update " + k)

    def store(self, st, v, i, x):
        if v.op == "arr" and i.op == "I" and i.a[0] < len(v.a[0]):
            l = list(v.a[0])
            l[i.a[0]] = x
            return mk("arr", tuple(l))
        if v.op == "store" and v.a[1] is i:
            return self.store(st, v.a[0], i, x)
        if v.op == "push":
            n = self.length(st, v.a[0])
            if i is n:
                return mk("push", v.a[0], x)
            if self.ask(st, lt(i, n)) is True:
                return mk("push", self.store(st, v.a[0], i, x), v.a[1])
        if self.elem(st, v, i) is x:
            return v
        return mk("store", v, self.constant(st, i), x)

    def read(self, st, loc):
        root, path = loc.a
        v = self.root_read(st, root)
        for e in path:
            v = self.project(st, v, e)
        return v

    def write(self, st, loc, val):
        root, path = loc.a
        if not path:
            st.mem[root] = val
            return
        v = self.root_read(st, root)
        st.mem[root] = self.update(st, v, path, val)

    def loc(self, root, path=()):
        return mk("loc", root, tuple(path))

    def ref(self, loc):
        # &*p is p
        if loc.a[0].op == "der" and not loc.a[1]:
            return loc.a[0].a[0]
        return mk("ref", loc)

    def cref(self, v):
        """reference to an immutable computed value"""
        if v.op == "*":
            return v.a[0]
        return mk("ref", mk("loc", mk("cval", v), ()))

    def deref_loc(self, v):
        """location a pointer value points to"""
        if v.op == "ref":
            return v.a[0]
        return mk("loc", mk("der", v), ())

    def ext(self, loc, e):
        return mk("loc", loc.a[0], loc.a[1] + (e,))

    def deep(self, st, v, d=0):
        """value with every reference layer replaced by the value referred to"""
        if d > 12:
            return v
        o = v.op
        if o == "ref":
            return self.deep(st, self.read(st, v.a[0]), d + 1)
        if o == "tuple":
            return mk("tuple", tuple(self.deep(st, x, d + 1) for x in v.a[0]))
        if o == "adt":
            return adt(v.a[0], v.a[1], tuple(self.deep(st, x, d + 1) for x in v.a[2]))
        if o == "clo":
            return mk("clo", v.a[0], tuple(self.deep(st, x, d + 1) for x in v.a[1]))
        if o == "arr":
            return mk("arr", tuple(self.deep(st, x, d + 1) for x in v.a[0]))
        if o == "push":
            x = self.deep(st, v.a[1], d + 1)
            y = self.deep(st, v.a[0], d + 1) if v.a[0].op in ("push", "arr") else v.a[0]
            return mk("push", y, x)
        return v

    def strip(self, st, v, t=None):
        """like deep, and opaque pointers become their pointees when the type says so"""
        n = 0
        while t is not None and t.k in ("ref",) and n < 8:
            l = self.deref_loc(v)
            v = self.read(st, l)
            t = t.el
            n += 1
        return self.deep(st, v)

    # ---------------------------------------------------------------- facts
    def ask(self, st, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "not":
            r = self.ask(st, t.a[0])
            return None if r is None else (not r)
        r = st.facts.get(t)
        if r is not None:
            return r
        if t.op == "and":
            a, b = self.ask(st, t.a[0]), self.ask(st, t.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if t.op == "is":
            return self.ask_is(st, t.a[0], t.a[2])
        if t.op == "le0":
            if self._entails(st, t.a[0]):
                return True
            if self._entails(st, add(scale(t.a[0], -1), I(1))):
                return False
        if t.op == "eq0":
            if self._entails(st, t.a[0]) and self._entails(st, scale(t.a[0], -1)):
                return True
            if self._entails(st, add(t.a[0], I(1))) or self._entails(st, add(scale(t.a[0], -1), I(1))):
                return False
        if t.op == "eq":
            # congruence through known constants
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if is_const(y):
                    for f, b in st.facts.items():
                        if b and f.op == "eq" and x in f.a:
                            z = f.a[0] if f.a[1] is x else f.a[1]
                            if is_const(z) and z is not y:
                                return False
        return None

    def _les(self, st):
        out, ne = [], []
        for f, b in st.facts.items():
            o = f.op
            if o == "le0":
                out.append(f.a[0] if b else add(scale(f.a[0], -1), I(1)))
            elif o == "eq0":
                if b:
                    out.append(f.a[0])
                    out.append(scale(f.a[0], -1))
                elif f.a[0].op != "lin":
                    out.append(add(scale(f.a[0], -1), I(1)))   # unsigned and non-zero
                else:
                    ne.append(f.a[0])
        for L in ne:
            for M in (L, scale(L, -1)):
                if M in out:
                    out.append(add(M, I(1)))
        return out

    def _entails(self, st, L):
        """facts |= L <= 0, by at most two-step combination"""
        c, ps = lin_parts(L)
        if not ps:
            return c <= 0
        if c <= 0 and all(v < 0 for v in ps.values()):
            return True
        fs = self._les(st)
        for F in fs:
            d = sub(L, F)
            dc, dp = lin_parts(d)
            if dc <= 0 and all(v < 0 for v in dp.values()):
                return True
        keys = set(ps)
        rel = [F for F in fs if keys & set(lin_parts(F)[1])]
        for i, F in enumerate(rel):
            d1 = sub(L, F)
            for G in fs:
                if G is F:
                    continue
                d = sub(d1, G)
                dc, dp = lin_parts(d)
                if dc <= 0 and all(v < 0 for v in dp.values()):
                    return True
        return False

    def assume(self, st, t, truth):
        r = self.ask(st, t)
        if r is not None:
            return r == truth
        if t.op == "not":
            return self.assume(st, t.a[0], not truth)
        if t.op == "and" and truth:
            return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
        if t.op == "and":
            a, b = self.ask(st, t.a[0]), self.ask(st, t.a[1])
            if a is True:
                return self.assume(st, t.a[1], False)
            if b is True:
                return self.assume(st, t.a[0], False)
        if t.op == "is":
            if truth:
                return self.assume_is(st, t.a[0], t.a[1], t.a[2])
            return self.assume_isnt(st, t.a[0], t.a[1], t.a[2])
        st.facts[t] = truth
        if truth and t.op == "isabs":
            # an absolute path has at least the root component
            return self.assume(st, le0(sub(I(1), mk("len", mk("comps", t.a[0])))), True)
        return True

    def ask_is(self, st, t, vi):
        if t.op == "adt":
            return t.a[1] == vi
        k = st.isd.get(t)
        if k is not None:
            return k == vi
        if vi in st.nots.get(t, ()):
            return False
        if t.op == "ord":
            return self.ask(st, self._ordterm(t, vi))
        return None

    def _ordterm(self, t, vi):
        a, b = t.a
        return lt(a, b) if vi == 0 else (eq0(sub(a, b)) if vi == 1 else lt(b, a))

    def assume_is(self, st, t, path, vi):
        r = self.ask_is(st, t, vi)
        if r is not None:
            return r
        st.isd[t] = vi
        if path:
            self.ispath[t] = path
        if t.op == "ord":
            return self.assume(st, self._ordterm(t, vi), True)
        return True

    def assume_isnt(self, st, t, path, vi):
        r = self.ask_is(st, t, vi)
        if r is not None:
            return not r
        s = set(st.nots.get(t, ()))
        s.add(vi)
        a = self.P.adts.get(path)
        if a and a["variants"]:
            rest = [i for i in range(len(a["variants"])) if i not in s]
            if not rest:
                return False
            if len(rest) == 1:
                return self.assume_is(st, t, path, rest[0])
        if path:
            self.ispath[t] = path
        st.nots[t] = frozenset(s)
        return True

    # ---------------------------------------------------------------- equality
    def eqt(self, st, a, b):
        if a is b:
            return TRUE
        if a.op == "cref":
            pass
        ints = ("I", "lin", "len", "mul")
        if a.op in ints or b.op in ints:
            return eq0(sub(a, b))
        if is_const(a) and is_const(b):
            return FALSE
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2], b.a[2]):
                r = mk_and(r, self.eqt(st, x, y))
            return r
        if a.op == "adt" or b.op == "adt":
            if b.op == "adt":
                a, b = b, a
            # a is the constructor
            if a.a[0] in self.P.adts and self.P.adts[a.a[0]]["kind"] == "enum":
                r = self.isv(st, b, a.a[0], a.a[1])
            else:
                r = TRUE
            for i, x in enumerate(a.a[2]):
                r = mk_and(r, self.eqt(st, x, self.field(st, b, a.a[0], a.a[1], i)))
            return r
        if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]):
            r = TRUE
            for x, y in zip(a.a[0], b.a[0]):
                r = mk_and(r, self.eqt(st, x, y))
            return r
        if a.op == "B":
            return b if a is TRUE else mk_not(b)
        if b.op == "B":
            return a if b is TRUE else mk_not(a)
        if self.is_int(a) and self.is_int(b):
            return eq0(sub(a, b))
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("eq", x, y)

    def is_int(self, t):
        return t.op in ("I", "lin", "len", "mul") or t in self.intterms

    def isv(self, st, t, path, vi):
        if t.op == "adt":
            return B(t.a[1] == vi)
        return mk("is", t, path, vi)

    intterms = set()
    casts = {}          # (function, from, to) -> every such cast met keeps the number
    mutably = set()     # places borrowed for writing somewhere
    MUTREF = load.Ty()
    MUTREF.k, MUTREF.mut, MUTREF.el, MUTREF.d, MUTREF.adt = "ref", True, None, "&mut _", None
    ispath = {}     # term -> enum path it was matched at

    # ---------------------------------------------------------------- consts
    def const(self, st, frame, c):
        body = frame.body
        t = body.crate.types[c["ty"]]
        if "promoted" in c:
            pb = body.promoted[c["promoted"]] if "promoted_of" not in c else None
            if pb is None:
                return mk("opq", "promoted")
            v = self.const_body(pb)
        else:
            v = self.constj(st, body, c, t)
        if frame.parent is None and frame.fid.a[0] == "root":
            # the length parameter of an array argument
            for x in walk(v):
                m = x.op == "opq" and re.search(r"Ty\(usize, (\w+)/#", x.a[0])
                for i in range(1, body.argc + 1) if m else ():
                    at = body.locals[i]
                    if at.k == "array" and at.d.endswith("; %s]" % m.group(1)):
                        v = subst(v, {x: mk("len", sym(body.names.get(i, "arg%d" % i)))})
        return v

    def constj(self, st, body, c, t):
        if "v" in c:
            if isinstance(c["v"], bool):
                return B(c["v"])
            return I(c["v"])
        if "ch" in c:
            return mk("char", c["ch"])
        if "str" in c:
            return self.cref(S(c["str"]))
        if "bytes" in c:
            return self.cref(mk("bytes", tuple(c["bytes"])))
        if "fn" in c:
            return self.fnval(body, c["fn"])
        if "refto" in c:
            ic = c["refto"]
            return self.cref(self.constj(st, body, ic, body.crate.types[ic["ty"]]))
        if "fields" in c:
            fs = tuple(self.constj(st, body, f, body.crate.types[f["ty"]]) for f in c["fields"])
            if t.k == "adt":
                return adt(t.adt, c.get("vi", 0), fs)
            if t.k == "tuple":
                return mk("tuple", fs)
            return mk("arr", fs)
        if "static" in c:
            return mk("ref", mk("loc", mk("static", body.crate.defs[c["static"]].canon), ()))
        if "clo" in c:
            return mk("clo", (body.crate.name, c["clo"]), ())
        if "zst" in c:
            if t.k == "tuple":
                return UNIT
            if t.k == "adt":
                return adt(t.adt, 0, ())
            if t.k == "fndef":
                return mk("fn", t.d)
            return mk("zst", t.d)
        if "body" in c:
            b = self.P.bodies.get((body.crate.name, c["body"]))
            if b is not None:
                return self.const_body(b)
        if "ritem" in c or "item" in c:
            return mk("const", body.crate.defs[c.get("ritem", c.get("item"))].canon)
        return mk("opq", "const " + t.d + " " + str(c.get("unk", c.get("raw", ""))))

    def const_body(self, body):
        r = self.constcache.get(id(body))
        if r is None:
            r = self._const_body(body)
            self.constcache[id(body)] = r
        return r

    def _const_body(self, body):
        st = self.new_state()
        fid = mk("fid", "const", body.key, id(body))
        st.frame = Frame(fid, body, 0, ("end", None), None)
        out = []
        sub_ = _Run(self, None)
        try:
            sub_.explore(st, out)
        except (Unsupported, Limit):
            return mk("opq", "constbody " + str(body.key))
        if len(out) == 1 and out[0][0] == "return":
            s = out[0][1]
            return self.freeze(s, out[0][2])
        return mk("opq", "constbody " + str(body.key))

    def freeze(self, st, v):
        if v.op == "ref":
            return self.cref(self.freeze(st, self.read(st, v.a[0])))
        if v.op in ("adt",):
            return adt(v.a[0], v.a[1], tuple(self.freeze(st, x) for x in v.a[2]))
        if v.op in ("tuple", "arr"):
            return mk(v.op, tuple(self.freeze(st, x) for x in v.a[0]))
        return v

    def fnval(self, body, f):
        return mk("fn", FnRef.of(self, body.crate, f))

    def new_state(self):
        st = State()
        st.mem = {}
        st.facts = {}
        st.isd = {}
        st.nots = {}
        st.ev = None
        st.frame = None
        st.seg = "entry"
        return st

    entry = None            # facts that hold when a root is entered (established separately)

    # ---------------------------------------------------------------- root
    def analyse(self, root, argnames=None):
        """root: dict from Program.fn"""
        body = root["B"]
        st = self.new_state()
        fid = mk("fid", "root", body.key)
        args = []
        for i in range(1, body.argc + 1):
            nm = body.names.get(i, "arg%d" % i)
            v = sym(nm)
            if body.locals[i].k in ("uint", "int"):
                self.intterms.add(v)
            st.mem[mk("fr", fid, i)] = v
            args.append(v)
        if self.entry is not None:
            self.entry(self, st, body, args)
        st.frame = Frame(fid, body, 0, ("end", None), None)
        run = _Run(self, root)
        g = run.fixpoint(st)
        g.args = args
        g.body = body
        g.root = root
        return g


def fn_path(key):
    """crate::module::name of a body key"""
    return key.split("@")[0].replace("::::", "::", 1).split("<")[0]


class FnRef:
    """A resolved function item (hashable, interned)."""
    _t = {}

    @staticmethod
    def of(ip, crate, f):
        d = crate.defs[f["def"]]
        args = tuple(crate.types[x] if isinstance(x, int) else x for x in f.get("args", ()))
        key = (id(crate), f["def"], tuple(a.idx if hasattr(a, "idx") else a for a in args), f.get("body"), f.get("ctor"))
        r = FnRef._t.get(key)
        if r is None:
            r = FnRef()
            r.d = d
            r.name = d.canon
            r.args = args
            r.body = f.get("body")
            r.crate = crate
            r.ctor = (crate.adtmap.get(f["adt"], f["adt"]), f["vi"]) if f.get("ctor") else None
            r.rdef = crate.defs[f["rdef"]] if "rdef" in f else None
            r.rk = f.get("rk")
            r.rargs = tuple(crate.types[x] if isinstance(x, int) else x for x in f.get("rargs", ()))
            FnRef._t[key] = r
        return r

    def __repr__(self):
        return self.name


def seqiters(p, v, d=0):
    """(term over p, value) of the iterators kept inside the value v of p"""
    if v.op == "adt":
        if v.a[0] == "mstd::SeqIter":
            yield p, v
        elif d < 4:
            for i, x in enumerate(v.a[2]):
                yield from seqiters(mk("fld", p, v.a[0], v.a[1], i), x, d + 1)


class _Run:
    """One fixpoint analysis of a root."""

    def __init__(self, ip, root):
        self.ip = ip
        self.root = root
        self.steps = 0

    # -------------------------------------------------------- fixpoint driver
    def fixpoint(self, st0):
        g = Graph()
        self.parts = {}
        self.phi = {}          # node key -> set of locpaths that are phis
        self.drop = {}         # node key -> facts dropped
        self.dead = {}         # node key -> roots dropped
        for rnd in range(40):
            self.changed = False
            self.nodes = {}
            self.segs = []
            self.pending = []
            try:
                self.run_from(st0.copy(), "entry")
                while self.pending:
                    key = self.pending.pop(0)
                    s = self.nodes[key].copy()
                    s.ev = None
                    s.seg = key
                    self.run_from(s, key)
            except Limit as e:
                g.status = "limit: %s" % e
                g.segs = self.segs
                g.nodes = self.nodes
                return g
            except Unsupported as e:
                g.status = "unsupported: %s" % e
                g.segs = self.segs
                g.nodes = self.nodes
                return g
            if not self.changed:
                g.segs = self.segs
                g.nodes = self.nodes
                g.entry = st0
                g.phi = self.phi
                g.rounds = rnd + 1
                return g
        g.status = "limit: no fixpoint"
        g.segs = self.segs
        g.nodes = self.nodes
        return g

    def run_from(self, st, key):
        out = []
        self.explore(st, out)
        for kind, s, val, where in out:
            sg = Seg()
            sg.src = key
            sg.kind = kind
            sg.dst = val if kind == "node" else None
            sg.val = None if kind == "node" else val
            sg.facts = s.facts
            sg.isd = s.isd
            sg.nots = s.nots
            sg.events = s.events()
            sg.mem = s.mem
            sg.st = s
            sg.where = where
            self.segs.append(sg)
            if len(self.segs) > self.ip.MAXSEG:
                raise Limit("segments")

    def explore(self, st, out):
        """Depth-first over acyclic paths up to nodes and exits."""
        work = [st]
        first = True
        while work:
            s = work.pop()
            self.path(s, work, out, first)
            first = False
            if len(out) > self.ip.MAXSEG:
                raise Limit("segments")

    # -------------------------------------------------------- node arrival
    def prune(self, st, fr):
        """forget locals that are dead at this point, in this frame and its callers"""
        f, bb = fr, fr.bb
        ok = {}
        while f is not None:
            live, bor = load.liveness(f.body)
            ok[f.fid] = live[bb] | bor if bb is not None else frozenset(range(len(f.body.locals)))
            p = f.parent
            if p is not None:
                bb = p.body.blocks[p.bb][1].get("t")
            f = p
        for r in [r for r in st.mem if r.op == "fr" and r.a[0] in ok and r.a[1] not in ok[r.a[0]]]:
            del st.mem[r]

    def shape(self, st):
        """enum variants and constant flags held by the live locals: states with different shapes are not merged"""
        out = []
        for r in sorted((r for r in st.mem if r.op in ("fr", "der", "tmp")), key=lambda r: r.id):
            self._shape(st.mem[r], r, (), out, 0)
        return tuple(out)

    def _shape(self, v, r, path, out, d):
        o = v.op
        if o == "B":
            out.append((r.id, path, v.a[0]))
        elif o == "adt" and d < self.ip.SHAPE:
            a = self.ip.P.adts.get(v.a[0])
            if a and a["kind"] == "enum":
                out.append((r.id, path, v.a[1]))
            for i, x in enumerate(v.a[2]):
                self._shape(x, r, path + (i,), out, d + 1)
        elif o == "tuple" and d < self.ip.SHAPE:
            for i, x in enumerate(v.a[0]):
                self._shape(x, r, path + (i,), out, d + 1)
        elif o == "ref" and v.a[0].op == "loc" and v.a[0].a[0].op == "cval" and v.a[0].a[0].a[0] is S(""):
            # nothing yet where there is a separator later
            out.append((r.id, path, ""))

    def arrive(self, st, fr):
        self.prune(st, fr)
        base = (fr.fid, fr.bb)
        sh = self.shape(st)
        ps_ = self.parts.setdefault(base, {})
        pi = ps_.get(sh)
        if pi is None:
            pi = ps_[sh] = len(ps_) if len(ps_) < self.ip.MAXPART else -1
        key = mk("node", fr.fid, fr.bb, pi)
        node = self.nodes.get(key)
        if node is None:
            n = st.copy()
            n.ev = None
            n.frame = fr
            drop = self.drop.get(key, ())
            for r in self.dead.get(key, ()):
                n.mem.pop(r, None)
            done = set()
            for root, path in sorted(self.phi.get(key, ()), key=lambda rp: (len(rp[1]), rp[0].id, str(rp[1]))):
                if root not in n.mem and root.op not in ("der", "static"):
                    continue
                if any((root, path[:i]) in done for i in range(len(path))):
                    continue
                done.add((root, path))
                p = mk("phi", key, mk("loc", root, path), "%s" % show(mk("loc", root, path), 5))
                self.ip.write(n, mk("loc", root, path), p)
            ph = lambda t: any(x.a[0] is key for x in phis(t))
            n.facts = {f: b for f, b in n.facts.items() if ("f", f) not in drop and not ph(f)}
            n.isd = {f: b for f, b in n.isd.items() if ("i", f) not in drop and not ph(f)}
            n.nots = {f: b for f, b in n.nots.items() if ("n", f) not in drop and not ph(f)}
            self.nodes[key] = n
            self.pending.append(key)
            return key
        # join
        ps = self.phi.setdefault(key, set())
        dd = self.dead.setdefault(key, set())
        for root in list(node.mem):
            if root not in st.mem:
                if root.op in ("der", "static"):
                    if not self.same(node, st, root, (), node.mem[root], self.ip.root_read(st, root), key, ps):
                        pass
                    continue
                if root not in dd:
                    dd.add(root)
                    self.changed = True
                continue
            self.same(node, st, root, (), node.mem[root], st.mem[root], key, ps)
        for root in list(st.mem):
            if root not in node.mem and root.op in ("der", "static"):
                self.same(node, st, root, (), self.ip.root_read(node, root), st.mem[root], key, ps)
        dr = self.drop.setdefault(key, set())
        for f, b in node.facts.items():
            if ("f", f) not in dr and self.ip.ask(st, f) is not b:
                dr.add(("f", f))
                self.changed = True
        for f, b in node.isd.items():
            if ("i", f) not in dr and self.ip.ask_is(st, f, b) is not True:
                dr.add(("i", f))
                self.changed = True
        for f, b in node.nots.items():
            if ("n", f) not in dr and not all(self.ip.ask_is(st, f, v) is False for v in b):
                dr.add(("n", f))
                self.changed = True
        return key

    UNROLL = 4

    def unroll(self, st, fr):
        """the loop headed here goes through a short sequence of known length: no generalisation needed"""
        body, bb = fr.body, fr.bb
        for _ in range(4):
            blk = body.blocks[bb]
            for s in blk[0]:
                if s[0] == "=" and s[2]["k"] == "ref" and s[2]["m"] and all(e[0] == "f" for e in s[2]["p"][1:]):
                    v = self.ip.read(st, self.place(st, fr, s[2]["p"]))
                    if self.short(v):
                        self.prune(st, fr)
                        return True
            if blk[1]["k"] != "goto":
                return False
            bb = blk[1]["t"]
        return False

    def short(self, v):
        its = list(seqiters(v, v)) if v.op == "adt" else ()
        for _, it in its:
            xs, i, n = it.a[2]
            if xs.op != "arr" or i.op != "I" or n.op != "I" or n.a[0] - i.a[0] > self.UNROLL:
                return False
        return bool(its)

    def same(self, node, st, root, path, a, b, key, ps):
        if a is b:
            return True
        if (root, path) in ps:
            if a.op == "phi" and a.a[0] is key:
                return True
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and a.a[2]:
            n = len(a.a[2])
            for i in range(n):
                self.same(node, st, root, path + (("f", a.a[0], a.a[1], i, n),), a.a[2][i], b.a[2][i], key, ps)
            return True
        if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]) and a.a[0]:
            n = len(a.a[0])
            for i in range(n):
                self.same(node, st, root, path + (("f", "", 0, i, n),), a.a[0][i], b.a[0][i], key, ps)
            return True
        if a.op == "clo" and b.op == "clo" and a.a[0] == b.a[0]:
            n = len(a.a[1])
            for i in range(n):
                self.same(node, st, root, path + (("f", "", 0, i, n),), a.a[1][i], b.a[1][i], key, ps)
            return True
        # a struct against an opaque value of the same struct: compare by field
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.op == "adt" and y.op not in ("adt", "phi") and x.a[2] and self.ip.P.adts.get(x.a[0], {}).get("kind") == "struct":
                n = len(x.a[2])
                for i in range(n):
                    z = self.ip.field(st, y, x.a[0], x.a[1], i)
                    p, q = (x.a[2][i], z) if not flip else (z, x.a[2][i])
                    self.same(node, st, root, path + (("f", x.a[0], x.a[1], i, n),), p, q, key, ps)
                return True
        # prefix already a phi: nothing below it to add
        if (root, path) not in ps:
            ps.add((root, path))
            self.changed = True
        return False

    # -------------------------------------------------------- path execution
    def path(self, st, work, out, first):
        ip = self.ip
        while True:
            self.steps += 1
            if self.steps > ip.MAXSTEP:
                raise Limit("steps")
            fr = st.frame
            body = fr.body
            if fr.bb in body.heads and not first and not self.unroll(st, fr):
                key = self.arrive(st, fr)
                out.append(("node", st, key, fr))
                return
            first = False
            blk = body.blocks[fr.bb]
            for s in blk[0]:
                self.stmt(st, fr, s)
            t = blk[1]
            k = t["k"]
            if k == "goto":
                st.frame = Frame(fr.fid, body, t["t"], fr.ret, fr.parent)
                continue
            if k == "switch":
                self.switch(st, fr, t, work)
                return
            if k == "ret":
                v = st.mem.get(mk("fr", fr.fid, 0), UNIT)
                if self.ret(st, fr, v, out):
                    return
                continue
            if k == "drop":
                self.drop_glue(st, fr, t, blk[2])
                st.frame = Frame(fr.fid, body, t["t"], fr.ret, fr.parent)
                continue
            if k == "assert":
                c = self.oper(st, fr, t["a"])
                m = t["m"]
                if not m.startswith("Overflow"):
                    self.event(st, "assert", (c if t["e"] else mk_not(c),), UNIT, blk[2], fr, kind="assert", raw=m)
                    if not ip.assume(st, c, t["e"]):
                        out.append(("panic", st, S(m.split("(")[0].split(" ")[0]), fr))
                        return
                else:
                    self.event(st, "ovf", (c,), UNIT, blk[2], fr, kind="ovf", raw=m)
                st.frame = Frame(fr.fid, body, t["t"], fr.ret, fr.parent)
                continue
            if k == "call":
                r = self.call(st, fr, t, blk[2], out)
                if r is None:
                    continue
                work.extend(reversed(r))
                return
            if k == "unreachable":
                return
            if k == "unwind":
                return
            raise Unsupported("terminator " + k)

    def ret(self, st, fr, v, out):
        """returns True when the path ends"""
        ip = self.ip
        dest, target = fr.ret
        if dest == "end":
            out.append(("return", st, v, fr))
            return True
        # free the frame
        fid = fr.fid
        v = self.rescue(st, fid, v)
        for r in [r for r in st.mem if r.op == "fr" and r.a[0] is fid]:
            del st.mem[r]
        p = fr.parent
        if dest == "k":
            v = target[1](st, v)
            dest, target = target[0]
        ip.write(st, dest, v)
        if target is None:
            out.append(("panic", st, S("diverge"), fr))
            return True
        st.frame = Frame(p.fid, p.body, target, p.ret, p.parent)
        return False

    def rescue(self, st, fid, v):
        """references into the dying frame (only possible for model bodies) become values"""
        if v.op == "ref" and v.a[0].a[0].op == "fr" and v.a[0].a[0].a[0] is fid:
            return self.ip.cref(self.ip.read(st, v.a[0]))
        return v

    # -------------------------------------------------------- statements
    def place(self, st, fr, p):
        ip = self.ip
        body = fr.body
        root = mk("fr", fr.fid, p[0])
        path = []
        t = body.locals[p[0]]
        vi = 0
        i = 1
        n = len(p)
        while i < n:
            e = p[i]
            k = e[0]
            if k == "d":
                l = ip.deref_loc(ip.read(st, mk("loc", root, tuple(path)))) if (t.k != "adt") else mk("loc", root, tuple(path) + (("b",),))
                root, path = l.a[0], list(l.a[1])
                t = t.el if t.el is not None else (t.args[0] if t.args else t)
                vi = 0
            elif k == "v":
                vi = e[1]
            elif k == "f":
                ad = t.adt if t.k == "adt" else ""
                path.append(("f", ad, vi, e[1], ip.nfields(t, vi)))
                t = body.crate.types[e[3]]
                vi = 0
            elif k == "i":
                idx = ip.read(st, mk("loc", mk("fr", fr.fid, e[1]), ()))
                path.append(("e", idx))
                t = t.el or t
            elif k == "ci":
                off = I(e[1])
                if e[3]:
                    off = sub(ip.length(st, ip.read(st, mk("loc", root, tuple(path)))), off)
                path.append(("e", off))
                t = t.el or t
            elif k == "ss":
                v = ip.read(st, mk("loc", root, tuple(path)))
                b = sub(ip.length(st, v), I(e[2])) if e[3] else I(e[2])
                path.append(("sub", I(e[1]), b))
            i += 1
        return mk("loc", root, tuple(path))

    def oper(self, st, fr, o):
        k = o["k"]
        if k == "cp":
            return self.ip.read(st, self.place(st, fr, o["p"]))
        if k == "mv":
            l = self.place(st, fr, o["p"])
            v = self.ip.read(st, l)
            if len(o["p"]) == 1:
                st.mem.pop(l.a[0], None)
            return v
        if k == "c":
            return self.ip.const(st, fr, o)
        if k == "rtc":
            return FALSE if "Ub" in o["v"] or "Contract" in o["v"] else TRUE
        raise Unsupported("operand " + k)

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "dead":
            st.mem.pop(mk("fr", fr.fid, s[1]), None)
            return
        if k == "=":
            v = self.rvalue(st, fr, s[2])
            self.ip.write(st, self.place(st, fr, s[1]), v)
            return
        if k == "sd":
            t = self.ip.ty_of_place(fr.body, s[1])
            l = self.place(st, fr, s[1])
            v = self.ip.read(st, l)
            n = self.ip.nfields(t, s[2]) or 0
            fs = tuple(self.ip.field(st, v, t.adt, s[2], i) for i in range(n))
            self.ip.write(st, l, adt(t.adt, s[2], fs))
            return
        if k == "intr":
            return

    def rvalue(self, st, fr, r):
        ip = self.ip
        k = r["k"]
        if k == "use":
            return self.oper(st, fr, r["a"])
        if k == "ref":
            l = self.place(st, fr, r["p"])
            if r["m"]:
                ip.mutably.add(l)
            return ip.ref(l)
        if k == "rawptr":
            return ip.ref(self.place(st, fr, r["p"]))
        if k == "agg":
            ops = tuple(self.oper(st, fr, o) for o in r["ops"])
            ak = r["ak"]
            if ak == "tuple":
                return mk("tuple", ops)
            if ak == "array":
                return mk("arr", ops)
            if ak == "closure":
                return mk("clo", (fr.body.crate.name, r["body"]), ops)
            if ak == "adt":
                nm = fr.body.crate.adtmap.get(r["adt"], r["adt"])
                if "union" in r or nm in ip.TRANSPARENT:
                    return ops[0] if ops else UNIT
                return adt(nm, r["vi"], ops)
            return mk("opq", r.get("dbg", "agg"))
        if k == "bin":
            a = self.oper(st, fr, r["a"])
            b = self.oper(st, fr, r["b"])
            return self.binop(st, r["op"], a, b, fr.body.crate.types[r["ty"]])
        if k == "un":
            a = self.oper(st, fr, r["a"])
            if r["op"] == "Not":
                if a.op in ("B", "not", "and", "le0", "eq0", "eq", "is") or True:
                    return mk_not(a)
            if r["op"] == "PtrMetadata":
                return ip.length(st, ip.read(st, ip.deref_loc(a)))
            return mk("un", r["op"], a)
        if k == "discr":
            l = self.place(st, fr, r["p"])
            v = ip.read(st, l)
            t = fr.body.crate.types[r["ty"]]
            return mk("discr", v, t.adt or t.d)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "repeat":
            v = self.oper(st, fr, r["a"])
            try:
                n = I(int(r["n"].split("_")[0]))
            except ValueError:
                n = mk("const", r["n"])
            if n.op == "I" and n.a[0] <= 64:
                return mk("arr", (v,) * n.a[0])
            return mk("repeat", v, n)
        if k == "tls":
            return mk("opq", "tls")
        raise Unsupported("rvalue " + k)

    WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}

    def cast(self, st, fr, r):
        ip = self.ip
        ck = r["ck"]
        if ck.startswith("BoxDeref"):
            p = r["a"]["p"]
            return ip.ref(self.place(st, fr, p[:-1] + [["d"]])) if False else mk("ref", ip.ext(self.place(st, fr, p[:-1]), ("b",)))
        v = self.oper(st, fr, r["a"])
        f = fr.body.crate.types[r["from"]]
        t = fr.body.crate.types[r["ty"]]
        if ck == "IntToInt":
            ip.casts.setdefault((fr.body.key.split("@")[0].split("<")[0], f.d, t.d), True)
            if f.k == "bool":
                return I(int(v.a[0])) if v.op == "B" else mk("b2i", v)
            if f.k == "char":
                return I(ord(v.a[0])) if v.op == "char" else mk("c2i", v)
            if t.k == "char":
                return mk("i2c", v)
            if f.k == "adt" or v.op == "discr":
                return v
            w1, w2 = self.WIDTH.get(f.name, 64), self.WIDTH.get(t.name, 64)
            if v.op == "I":
                n = v.a[0]
                m = n & ((1 << w2) - 1)
                if t.k == "int" and m >> (w2 - 1):
                    m -= 1 << w2
                return I(m)
            if f.k == "uint" and (w1 < w2 or (w1 == w2 and t.k == "uint")):
                return v
            if f.k == "int" and t.k == "int" and w1 <= w2:
                return v
            if f.k == "uint" and t.k == "uint" and ip.ask(st, fits(v, t.name)) is True:
                return v
            ip.casts[fr.body.key.split("@")[0].split("<")[0], f.d, t.d] = False
            return mk("trunc", v, t.name)
        if ck.startswith("PointerCoercion"):
            if "ReifyFn" in ck or "ClosureFn" in ck:
                return v
            return v
        if ck in ("PtrToPtr", "Transmute", "FnPtrToPtr", "Subtype"):
            return v
        return mk("cast", ck, v, t.d)

    CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}

    def binop(self, st, op, a, b, t):
        ip = self.ip
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ovf = op.endswith("WithOverflow")
        if op == "Cmp":
            return self.ordering(st, a, b)
        if base in self.CMP:
            if t.k == "bool":
                e = ip.eqt(st, a, b)
                return e if base == "Eq" else mk_not(e)
            if t.k in ("uint",) or (t.k == "int" and True) or t.k == "ptr":
                if a.op == "discr" or b.op == "discr":
                    e = mk("eq", *sorted((a, b), key=lambda x: x.id))
                    if a.op == "discr" and b.op == "discr" and a.a[1] == b.a[1]:
                        e = self.discr_eq(st, a, b)
                    return e if base == "Eq" else mk_not(e)
                if base == "Eq":
                    return eq0(sub(a, b))
                if base == "Ne":
                    return mk_not(eq0(sub(a, b)))
                if base == "Lt":
                    return lt(a, b)
                if base == "Le":
                    return le(a, b)
                if base == "Gt":
                    return lt(b, a)
                return le(b, a)
            if t.k == "char":
                if a.op == "char" and b.op == "char":
                    x, y = ord(a.a[0]), ord(b.a[0])
                    return B({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[base])
                if base in ("Eq", "Ne"):
                    e = ip.eqt(st, a, b)
                    return e if base == "Eq" else mk_not(e)
                a = I(ord(a.a[0])) if a.op == "char" else mk("c2i", a)
                b = I(ord(b.a[0])) if b.op == "char" else mk("c2i", b)
                return {"Lt": lt(a, b), "Le": le(a, b), "Gt": lt(b, a), "Ge": le(b, a)}[base]
            if base in ("Eq", "Ne"):
                e = ip.eqt(st, a, b)
                return e if base == "Eq" else mk_not(e)
            return mk("cmp", base, a, b)
        if t.k == "bool":
            if base == "BitAnd":
                return mk_and(a, b)
            if base == "BitOr":
                return mk_or(a, b)
            if base == "BitXor":
                return mk_not(ip.eqt(st, a, b))
        r = None
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif a.op == "I" and b.op == "I":
            x, y = a.a[0], b.a[0]
            w = self.WIDTH.get(t.name, 64)
            f = {"Div": lambda: x // y if y else None, "Rem": lambda: x % y if y else None, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                 "BitXor": lambda: x ^ y, "Shl": lambda: (x << y) & ((1 << w) - 1), "Shr": lambda: x >> y}.get(base)
            if f and f() is not None:
                r = I(f())
        if r is None:
            r = mk("bin", base, a, b)
        if ovf:
            return tup(r, mk("ovf", base, a, b, t.name or t.d))
        return r

    def discr_eq(self, st, a, b):
        ip = self.ip
        x, y = a.a[0], b.a[0]
        if x is y:
            return TRUE
        if x.op == "adt" and y.op == "adt":
            return B(x.a[1] == y.a[1])
        if x.op == "adt":
            return ip.isv(st, y, x.a[0], x.a[1])
        if y.op == "adt":
            return ip.isv(st, x, y.a[0], y.a[1])
        return mk("eq", *sorted((a, b), key=lambda q: q.id))

    def ordering(self, st, a, b):
        if a.op == "I" and b.op == "I":
            x, y = a.a[0], b.a[0]
            return adt("std::Ordering", 0 if x < y else (1 if x == y else 2), ())
        if a is b:
            return adt("std::Ordering", 1, ())
        return mk("ord", a, b)

    # -------------------------------------------------------- branches
    def switch(self, st, fr, t, work):
        ip = self.ip
        v = self.oper(st, fr, t["a"])
        ty = fr.body.crate.types[t["ty"]]
        ts = t["ts"]

        def goto(s, bb):
            s.frame = Frame(fr.fid, fr.body, bb, fr.ret, fr.parent)
            return s
        if v.op == "discr":
            val, path = v.a
            a = ip.P.adts.get(path)
            if a is None or not a["variants"]:
                raise Unsupported("discriminant of " + path)
            dv = {d & ((1 << 128) - 1): i for i, (_, d, _) in enumerate(a["variants"])}
            # several widths of negative discriminants
            m = {}
            for tv, bb in ts:
                vi = dv.get(tv)
                if vi is None:
                    for d, i in dv.items():
                        if d & 0xff == tv or d & 0xffffffffffffffff == tv:
                            vi = i
                m[vi] = bb
            if val.op == "adt":
                goto(st, m.get(val.a[1], t["o"]))
                work.append(st)
                return
            outs = []
            others = []
            for i in range(len(a["variants"])):
                if ip.ask_is(st, val, i) is False:
                    continue
                if i in m:
                    s = st.copy()
                    if ip.assume_is(s, val, path, i):
                        outs.append(goto(s, m[i]))
                else:
                    others.append(i)
            if others:
                s = st.copy()
                okk = True
                for i in m:
                    if i is not None and ip.ask_is(s, val, i) is not False:
                        okk = okk and ip.assume_isnt(s, val, path, i)
                if okk:
                    outs.append(goto(s, t["o"]))
            work.extend(reversed(outs))
            return
        if ty.k == "bool":
            # ts is [[0, bbfalse]]
            fb = ts[0][1] if ts and ts[0][0] == 0 else t["o"]
            tb = t["o"] if ts and ts[0][0] == 0 else ts[0][1]
            r = ip.ask(st, v)
            if r is not None:
                goto(st, tb if r else fb)
                work.append(st)
                return
            s2 = st.copy()
            outs = []
            if ip.assume(st, v, True):
                outs.append(goto(st, tb))
            if ip.assume(s2, v, False):
                outs.append(goto(s2, fb))
            work.extend(reversed(outs))
            return
        # integers and chars
        outs = []
        rest = st
        for tv, bb in ts:
            c = mk("char", chr(tv)) if ty.k == "char" else I(tv)
            if ty.k == "int":
                w = self.WIDTH.get(ty.name, 64)
                n = tv & ((1 << w) - 1)
                c = I(n - (1 << w) if n >> (w - 1) else n)
            e = ip.eqt(st, v, c) if ty.k == "char" else eq0(sub(v, c))
            s = rest.copy()
            if ip.assume(s, e, True):
                outs.append(goto(s, bb))
            if not ip.assume(rest, e, False):
                rest = None
                break
        if rest is not None:
            outs.append(goto(rest, t["o"]))
        work.extend(reversed(outs))

    def drop_glue(self, st, fr, t, line):
        l = self.place(st, fr, t["p"])
        ty = fr.body.crate.types[t["ty"]]
        v = st.mem.get(l.a[0])
        if v is not None:
            if ty.k == "adt" and not ty.adt.startswith("mstd::") and (ty.adt.split("::")[0] in self.ip.P.crates or ty.adt.startswith("drop_bomb")):
                self.event(st, "drop", (self.ip.deep(st, self.ip.read(st, l)),), UNIT, line, fr, kind="drop", tys=(ty,))
            if len(t["p"]) == 1:
                st.mem.pop(l.a[0], None)

    def event(self, st, name, args, res, line, fr, kind="call", tys=(), raw=None):
        e = Event()
        e.name = name
        e.args = tuple(args)
        e.res = res
        e.line = line
        f = fr
        while f is not None and f.body.crate.name == "mstd" and f.parent is not None:
            f = f.parent
        if f is not fr:
            # report the workspace call site
            pass
        e.file = f.body.loc
        e.fid = fr.fid
        e.kind = kind
        e.tys = tys
        e.facts = dict(st.facts)
        e.isd = dict(st.isd)
        e.raw = raw
        st.ev = (st.ev, e)
        return e

    # -------------------------------------------------------- calls
    def call(self, st, fr, t, line, out):
        """None: state was advanced in place; else list of successor states"""
        ip = self.ip
        args = [self.oper(st, fr, a) for a in t["args"]]
        tys = [fr.body.crate.types[x] for x in t["atys"]]
        fo = t["f"]
        if "fn" in fo:
            f = FnRef.of(ip, fr.body.crate, fo["fn"])
        else:
            fv = self.oper(st, fr, fo)
            f = fv
        dest = self.place(st, fr, t["dest"])
        dty = fr.body.crate.types[t["dty"]]
        return self.invoke(st, fr, f, args, tys, dest, t["t"], dty, line, out)

    def finish(self, st, fr, dest, target, v, out):
        if target is None:
            out.append(("panic", st, S("diverge"), fr))
            return []
        self.ip.write(st, dest, v)
        st.frame = Frame(fr.fid, fr.body, target, fr.ret, fr.parent)
        return [st]

    def enter(self, st, fr, body, args, dest, target, post=None):
        ip = self.ip
        fid = mk("fid", fr.fid, fr.bb, body.key)
        for r in [r for r in st.mem if r.op == "fr" and r.a[0] is fid]:
            del st.mem[r]
        if body.spread is not None:
            # rust-call ABI: last declared argument is a tuple
            pass
        for i, a in enumerate(args):
            st.mem[mk("fr", fid, i + 1)] = a
        ret = (dest, target) if post is None else ("k", ((dest, target), post))
        st.frame = Frame(fid, body, 0, ret, fr)
        return [st]

    def recursive(self, fr, body):
        f = fr
        n = 0
        while f is not None:
            if f.body is body:
                return True
            n += 1
            f = f.parent
        return n > 40

    def invoke(self, st, fr, f, args, tys, dest, target, dty, line, out):
        ip = self.ip
        if isinstance(f, T):
            # a function value
            if f.op == "fn":
                f = f.a[0]
            elif f.op == "clo":
                return self.call_closure(st, fr, f, None, args, dest, target, dty, line, out)
            else:
                return self.opaque(st, fr, "fnptr", [f] + args, [None] + tys, dest, target, dty, line, out)
        if isinstance(f, FnRef):
            if f.ctor:
                v = adt(f.ctor[0], f.ctor[1], args)
                return self.finish(st, fr, dest, target, v, out)
            nm = f.name
            if nm in ("std::FnOnce::call_once", "std::FnMut::call_mut", "std::Fn::call"):
                return self.call_fnvalue(st, fr, f, args, tys, dest, target, dty, line, out)
            if f.body is not None and nm not in ip.opaque and not nm.startswith("mstd::prim_"):
                b = ip.P.bodies.get((f.crate.name, f.body))
                if b is not None and ip.opaque_bodies and (f.crate.name, f.body) in ip.opaque_bodies:
                    return self.opaque(st, fr, fn_path(f.body), args, tys, dest, target, dty, line, out, f)
                if b is not None and (not ip.same_bodies or fn_path(f.body) not in ip.same_bodies) and not (f.rdef and f.rdef.derived and f.rdef.trait in DERIVED_STRUCTURAL):
                    if not self.recursive(fr, b):
                        return self.enter(st, fr, b, self.spread(b, args), dest, target)
                    return self.opaque(st, fr, f.rdef.canon if f.rdef else nm, args, tys, dest, target, dty, line, out, f)
            h = ip.nat.get(nm)
            if h is None and f.rdef is not None:
                h = ip.nat.get(f.rdef.canon)
            if h is not None:
                r = h(self, st, fr, f, args, tys, dest, target, dty, line, out)
                if r is not NotImplemented:
                    return r
            m = ip.models.get(nm)
            if m is not None:
                b = ip.model_m.get(m)
                if b is None:
                    raise Unsupported("model " + m)
                if not self.recursive2(fr, b):
                    return self.enter(st, fr, b, args, dest, target)
            return self.opaque(st, fr, nm, args, tys, dest, target, dty, line, out, f)
        raise Unsupported("call of %r" % (f,))

    def recursive2(self, fr, b):
        n = 0
        f = fr
        while f is not None:
            if f.body is b:
                n += 1
            f = f.parent
        return n > 6

    def spread(self, body, args):
        return args

    def call_fnvalue(self, st, fr, f, args, tys, dest, target, dty, line, out):
        ip = self.ip
        fv = args[0]
        tupv = args[1]
        byref = f.name != "std::FnOnce::call_once"
        loc = None
        cur = fv
        # peel references down to the callable value
        n = 0
        while cur.op not in ("clo", "fn") and n < 4:
            if cur.op == "ref":
                loc = cur.a[0]
                cur = ip.read(st, loc)
            else:
                break
            n += 1
        if tupv.op == "tuple":
            inner = list(tupv.a[0])
        else:
            inner = [tupv]
        if cur.op == "fn":
            itys = [None] * len(inner)
            if len(tys) > 1 and tys[1].k == "tuple":
                itys = list(tys[1].els)
            return self.invoke(st, fr, cur.a[0], inner, itys, dest, target, dty, line, out)
        if cur.op == "clo":
            return self.call_closure(st, fr, cur, loc, inner, dest, target, dty, line, out)
        # unknown callable: an event; mutable state inside unknown
        args2 = [fv] + inner
        t0 = tys[0]
        if loc is not None and (t0 is None or t0.k != "ref") and loc in ip.mutably:
            t0 = ip.MUTREF
        itys = [t0] + (list(tys[1].els) if len(tys) > 1 and tys[1].k == "tuple" else [None] * len(inner))
        return self.opaque(st, fr, "callback", args2, itys, dest, target, dty, line, out, f)

    def call_closure(self, st, fr, clo, loc, inner, dest, target, dty, line, out):
        ip = self.ip
        cr, key = clo.a[0]
        b = ip.P.bodies.get((cr, key))
        if b is None:
            raise Unsupported("closure body " + key)
        if self.recursive(fr, b):
            raise Unsupported("recursive closure")
        selfty = b.locals[1]
        if selfty.k == "ref":
            if loc is None:
                # FnOnce call of a by-ref closure: give it a home
                fid = mk("fid", fr.fid, fr.bb, key)
                root = mk("tmp", fid, "clo")
                st.mem[root] = clo
                loc = mk("loc", root, ())
            selfv = ip.ref(loc)
        else:
            selfv = clo
        if b.spread is not None:
            a = [selfv, mk("tuple", tuple(inner))]
        else:
            a = [selfv] + inner
        if len(a) != b.argc:
            a = [selfv, mk("tuple", tuple(inner))]
            if len(a) != b.argc:
                raise Unsupported("closure arity")
        return self.enter(st, fr, b, a, dest, target)

    WORLD = ("std::fs::", "std::Instant::", "std::SystemTime::", "std::env::", "std::Path::is_file", "std::Path::exists", "std::Path::is_dir", "std::Path::canonicalize", "std::DirEntry::", "std::io::")

    def opaque(self, st, fr, name, args, tys, dest, target, dty, line, out, f=None):
        """Unknown function: its result and everything it can write is a function of its inputs."""
        ip = self.ip
        if f is not None and f.rdef is not None and not f.d.ws and f.name.startswith("std::") and f.rk == "item":
            pass
        dargs = []
        for a, t in zip(args, tys):
            dargs.append(ip.strip(st, a, t) if t is not None else ip.deep(st, a))
        extra = ()
        if dty is not None and f is not None and name in RET_TY_MATTERS:
            extra = (S(dty.d),)
        res = mk("call", name, tuple(d for i, d in enumerate(dargs) if i not in ip.erase(name)) + extra)
        if dty is not None and dty.k in ("uint", "int"):
            ip.intterms.add(res)
        self.event(st, name, dargs, res, line, fr, tys=tys)
        if name.startswith(self.WORLD) and not name.startswith(("std::DirEntry::path", "std::DirEntry::file_name")) or name == "callback":
            w = mk("loc", mk("static", "world"), ())
            old = ip.read(st, w)
            res = mk("call", name, tuple(dargs) + (old,))
            st.mem[w.a[0]] = mk("post", "w", res)
            st.ev[1].res = res
        # havoc what is reachable mutably
        for i, (a, t) in enumerate(zip(args, tys)):
            self.havoc(st, a, t, res, i, 0)
        # a reference result points into fresh or argument storage: opaque pointer
        if dty is not None and dty.k == "tuple" and not dty.els:
            res = UNIT
        return self.finish_list(st, fr, dest, target, res, out)

    def finish_list(self, st, fr, dest, target, v, out):
        return self.finish(st, fr, dest, target, v, out)

    def havoc(self, st, a, t, res, i, d):
        ip = self.ip
        if t is None or d > 3:
            return
        if t.k == "ref" and t.mut:
            l = ip.deref_loc(a)
            root, path = l.a
            if root.op == "cval":
                return
            ip.write(st, l, mk("post", i, res))
        elif t.k == "ref":
            if t.el.k == "ref":
                pass
        elif t.k == "closure" and a.op == "clo":
            for j, (u, ut) in enumerate(zip(a.a[1], t.upvars)):
                self.havoc(st, u, ut, mk("up", res, j), i, d + 1)
        elif t.k == "tuple" and a.op == "tuple":
            for j, (u, ut) in enumerate(zip(a.a[0], t.els)):
                self.havoc(st, u, ut, mk("up", res, j), i, d + 1)
        elif t.k in ("adt", "param", "alias") and a.op in ("adt", "clo"):
            # an aggregate that may carry &mut references
            subs = a.a[2] if a.op == "adt" else a.a[1]
            for j, u in enumerate(subs):
                if u.op == "ref" and u.a[0].a[0].op != "cval":
                    # writable only if created mutable; be conservative for model iterators only
                    pass


DERIVED_STRUCTURAL = {"std::cmp::PartialEq", "core::cmp::PartialEq", "std::clone::Clone", "core::clone::Clone"}
RET_TY_MATTERS = {"std::str::parse", "std::FromStr::from_str", "std::Default::default", "std::Into::into", "std::From::from", "std::TryFrom::try_from", "std::TryInto::try_into"}
