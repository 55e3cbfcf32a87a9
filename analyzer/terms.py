"""Hash-consed value terms (value numbering): equal terms are the same object."""

class T:
    __slots__ = ("op", "a", "id", "_fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_tab = {}


def mk(op, *a):
    k = (op,) + tuple((x.__class__, x) if x.__class__ in (bool, int) else x for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._fv = None
        _tab[k] = t
    return t


def I(n):
    return mk("I", int(n))


TRUE = mk("B", True)
FALSE = mk("B", False)
UNIT = mk("tuple", ())


def B(b):
    return TRUE if b else FALSE


def S(s):
    return mk("str", s)


def tup(*xs):
    return mk("tuple", tuple(xs))


def sym(name):
    return mk("sym", name)


def is_const(t):
    return t.op in ("I", "B", "str", "char", "bytes")


# ---- linear integer terms -------------------------------------------------

def lin_parts(t):
    """(const, {term: coef})"""
    if t.op == "I":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b, s=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(c1 + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def mul(a, b):
    if a.op == "I":
        return scale(b, a.a[0])
    if b.op == "I":
        return scale(a, b.a[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("mul", x, y)


def le0(t):
    """t <= 0"""
    if t.op == "I":
        return B(t.a[0] <= 0)
    # over non-negative atoms: x <= 0 is x == 0, and 1 <= x is not (x == 0)
    if t.op != "lin":
        return eq0(t)
    c, ps = t.a
    if all(v > 0 for _, v in ps) and c > 0:
        return FALSE
    if all(v < 0 for _, v in ps) and c <= 0:
        return TRUE
    if len(ps) == 1 and ps[0][1] == -1 and c == 1:
        return mk_not(eq0(ps[0][0]))
    if len(ps) == 1 and ps[0][1] == 1 and c == 0:
        return eq0(ps[0][0])
    return mk("le0", t)


UMAX = {"u8": (1 << 8) - 1, "u16": (1 << 16) - 1, "u32": (1 << 32) - 1, "u64": (1 << 64) - 1, "usize": (1 << 64) - 1, "u128": (1 << 128) - 1}


def fits(v, w):
    """the number v (not negative) is one of the type w"""
    m = UMAX.get(w)
    return mk("fits", v, w) if m is None else le0(sub(v, I(m)))


def eq0(t):
    if t.op == "I":
        return B(t.a[0] == 0)
    if t.op == "lin":
        c, ps = t.a
        if c == 0 and len(ps) == 2 and ps[0][1] + ps[1][1] == 0 and abs(ps[0][1]) == 1:
            for (x, _), (y, _) in (ps, ps[::-1]):
                if x.op == "trunc" and x.a[0] is y:
                    return fits(y, x.a[1])
        if all(v > 0 for _, v in ps) and c > 0:
            return FALSE
        if all(v < 0 for _, v in ps) and c < 0:
            return FALSE
        if ps[0][1] < 0:
            t = scale(t, -1)
    return mk("eq0", t)


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def le(a, b):
    return le0(sub(a, b))


def mk_not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "le0":
        return le0(add(scale(t.a[0], -1), I(1)))
    return mk("not", t)


def mk_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("and", x, y)


def mk_or(a, b):
    return mk_not(mk_and(mk_not(a), mk_not(b)))


# ---- structure ------------------------------------------------------------

def adt(path, vi, fields):
    fields = tuple(fields)
    # eta: Some(field(t, Some, 0)) is t
    if fields:
        f0 = fields[0]
        if f0.op == "fld" and f0.a[1] == path and f0.a[2] == vi:
            base = f0.a[0]
            n = len(fields)
            if all(f.op == "fld" and f.a[0] is base and f.a[1] == path and f.a[2] == vi and f.a[3] == i for i, f in enumerate(fields)):
                return mk("as", base, path, vi) if False else _eta(base, path, vi, fields)
    return mk("adt", path, vi, fields)


_ETA_SINGLE = set()  # adt paths that are structs (one variant)


def _eta(base, path, vi, fields):
    if path in _ETA_SINGLE:
        return base
    return mk("adt", path, vi, fields)


NONE = mk("adt", "std::Option", 0, ())


def some(x):
    return mk("adt", "std::Option", 1, (x,))


def ok(x):
    return mk("adt", "std::Result", 0, (x,))


def err(x):
    return mk("adt", "std::Result", 1, (x,))


def walk(t, seen=None):
    """All subterms of t (each once)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        _push(x.a, st)
    return seen


def _push(a, st):
    for y in a:
        if y.__class__ is T:
            st.append(y)
        elif y.__class__ is tuple:
            _push(y, st)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def has(t, sub_):
    return sub_ in walk(t)


def phis(t):
    if t._fv is None:
        t._fv = frozenset(x for x in walk(t) if x.op == "phi")
    return t._fv


def subst(t, m, rebuild=None):
    """Replace subterms by identity, rebuilding with the smart constructors."""
    cache = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = cache.get(x)
        if r is not None:
            return r
        na = tuple(ga(y) for y in x.a)
        if all(p is q for p, q in zip(na, x.a)):
            r = x
        else:
            r = rebuild_term(x.op, na)
        cache[x] = r
        return r

    def ga(y):
        if y.__class__ is T:
            return go(y)
        if y.__class__ is tuple:
            z = tuple(ga(q) for q in y)
            return y if all(p is q for p, q in zip(z, y)) else z
        return y

    return go(t)


_REB = {}


def rebuild_term(op, a):
    if op == "lin":
        r = I(a[0])
        for k, v in a[1]:
            r = add(r, scale(k, v))
        return r
    if op == "le0":
        return le0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return mk_not(a[0])
    if op == "and":
        return mk_and(a[0], a[1])
    if op == "mul":
        return mul(a[0], a[1])
    f = _REB.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


# ---- printing -------------------------------------------------------------

def show(t, d=12):
    if t.__class__ is tuple:
        return "(" + ", ".join(show(x, d) if x.__class__ in (T, tuple) else str(x) for x in t) + ")"
    if t.__class__ is not T:
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    if o == "I":
        return str(a[0])
    if o == "B":
        return "true" if a[0] else "false"
    if o in ("str", "char"):
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "phi":
        return "φ%s" % (a[2],)
    if o == "lin":
        s = []
        for k, v in a[1]:
            if v == 1:
                s.append("+" + show(k, d - 1))
            elif v == -1:
                s.append("-" + show(k, d - 1))
            else:
                s.append("%+d*%s" % (v, show(k, d - 1)))
        if a[0]:
            s.append("%+d" % a[0])
        r = "".join(s)
        return "(" + (r[1:] if r.startswith("+") else r) + ")"
    if o == "tuple":
        return "(" + ",".join(show(x, d - 1) for x in a[0]) + ")"
    if o == "arr":
        return "[" + ",".join(show(x, d - 1) for x in a[0]) + "]"
    if o == "adt":
        nm = a[0].split("::")[-1]
        if a[0] == "std::Option":
            return "None" if a[1] == 0 else "Some(" + show(a[2][0], d - 1) + ")"
        if a[0] == "std::Result":
            return ("Ok(" if a[1] == 0 else "Err(") + show(a[2][0], d - 1) + ")"
        return nm + "#%d{" % a[1] + ",".join(show(x, d - 1) for x in a[2]) + "}"
    if o == "fld":
        nm = a[1].split("::")[-1] if a[1] else ""
        return show(a[0], d - 1) + "." + ("%s#%d." % (nm, a[2]) if a[2] or nm in ("Option", "Result") else "") + str(a[3])
    if o == "*":
        return "*" + show(a[0], d - 1)
    if o == "elem":
        return show(a[0], d - 1) + "[" + show(a[1], d - 1) + "]"
    if o == "len":
        return "len(" + show(a[0], d - 1) + ")"
    if o == "ref":
        return "&" + show(a[0], d - 1)
    if o == "loc":
        return show(a[0], d - 1) + "".join("." + ("%s" % (e[3] if e[0] == "f" else show(e, d - 1))) for e in a[1])
    if o == "cval":
        return "{" + show(a[0], d - 1) + "}"
    if o == "call":
        return a[0].split("::")[-1] + "(" + ",".join(show(x, d - 1) for x in a[1]) + ")"
    if o == "clo":
        return "closure(" + str(a[0])[-40:] + ")"
    return o + "(" + ",".join(show(x, d - 1) if x.__class__ in (T, tuple) else str(x) for x in a) + ")"
