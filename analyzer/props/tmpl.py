"""Token templates: what a function that generates code emits, as a tree read off the term of its result."""
from terms import *
import accel
import kit

OPEN = {0: "(", 1: "{", 2: "[", 3: "", 9: "?"}
CLOSE = {0: ")", 1: "}", 2: "]", 3: "", 9: "?"}


class W:
    """a fixed token"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


class V:
    """a token made of a value: tok (an identifier or so), lit, bytelit, inl (a stream)"""
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return "<%s %s>" % (self.kind, show(self.t, 9))


class G:
    """a group"""
    __slots__ = ("d", "xs")

    def __init__(self, d, xs):
        self.d, self.xs = d, xs

    def __repr__(self):
        return OPEN[self.d] + " ".join(map(repr, self.xs)) + CLOSE[self.d]


class R:
    """n times, v = 0, 1, ..."""
    __slots__ = ("n", "v", "xs")

    def __init__(self, n, v, xs):
        self.n, self.v, self.xs = n, v, xs

    def __repr__(self):
        return "REP(%s < %s: %s)" % (show(self.v), show(self.n, 5), " ".join(map(repr, self.xs)))


class C:
    """the first of the cases whose conditions hold"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "CASE(" + " | ".join("%s -> %s" % (show(c, 7), " ".join(map(repr, x))) for c, x in self.alts) + ")"


class Odd(Exception):
    """a form of template that is not recognised"""


def tree(env, t):
    t = env.norm(t)
    if t.op != "toks":
        raise Odd("tokens not in closed form: " + show(t, 3)[:200])
    out = []
    for x in t.a[0]:
        out += item(env, x)
    return out


def item(env, x):
    if x.op == "P":
        return [W(x.a[0])]
    if x.op == "group":
        return [G(x.a[0], tree(env, x.a[1]))]
    if x.op == "trep":
        return expand(env, x.a[0], x.a[1], x.a[2])
    if x.op == "tcase":
        return [C([(c, tree(env, y)) for c, y in x.a[0]])]
    if x.op == "inl":
        v = env.norm(x.a[0])
        if v.op == "toks":
            return tree(env, v)
        return [V("inl", v)]
    if x.op in ("tok", "lit", "bytelit"):
        v = env.norm(x.a[0])
        if x.op == "tok" and v.op == "bytelit":
            return [V("bytelit", v.a[0])]
        if x.op == "tok" and v.op == "ident" and v.a[0].op == "str":
            return [W(v.a[0].a[0])]
        return [V(x.op, v)]
    raise Odd("token not recognised: " + show(x, 4)[:200])


def expand(env, n, v, body):
    """a repetition over a concatenation is one over each piece"""
    for x in walk(body):
        if x.op == "elem" and x.a[1] is v and x.a[0].op in ("cat", "push") and not has(x.a[0], v):
            ps = list(x.a[0].a[0]) if x.a[0].op == "cat" else [x.a[0].a[0], mk("arr", (x.a[0].a[1],))]
            tot = I(0)
            for p in ps:
                tot = add(tot, env.ip.length(env.st, p))
            if env.ask(eq0(sub(tot, n))) is not True:
                raise Odd("repetition over part of a concatenation: %s of %s" % (show(n, 5), show(tot, 5)))
            out = []
            for p in ps:
                ln = env.ip.length(env.st, p)
                if p.op == "arr":
                    for k in range(len(p.a[0])):
                        out += tree(env, env.norm(subst(body, {x: p.a[0][k]})))
                    continue
                if env.ask(eq0(ln)) is True:
                    continue
                b = env.norm(subst(body, {x: env.ip.elem(env.st, p, v)}))
                out += expand(env, ln, v, b)
            return out
    return [R(n, v, tree(env, body))]


def unsort(t):
    """the term with elements of sorted sequences taken for those of the sequence (what is said of every element does not depend on the order)"""
    m = {}
    for x in walk(t):
        if x.op == "elem" and x.a[0].op == "sorted":
            m[x] = x
    return m


# ---- naming the values in a template ----------------------------------------------------------------------------------

def plain(env, t):
    """t with elements of sorted and mapped sequences taken for those of what they are made of: what is said of every
    element does not depend on the order"""
    for _ in range(8):
        m = {}
        for x in walk(t):
            if x.op == "elem" and x.a[0].op == "sorted":
                m[x] = env.ip.elem(env.st, x.a[0].a[0], x.a[1])
            elif x.op == "elem" and x.a[0].op == "mseq":
                k = x.a[0].a[1]
                mm = x.a[0].a[0]
                if "value" in k:
                    m[x] = mk("mval", mm, x.a[1])
                elif "key" in k:
                    m[x] = mk("mkey", mm, x.a[1])
                else:
                    m[x] = tup(mk("mkey", mm, x.a[1]), mk("mval", mm, x.a[1]))
            elif x.op == "fld" and x.a[0].op == "tuple" and x.a[0].a[0].__class__ is tuple and x.a[3] < len(x.a[0].a[0]):
                m[x] = x.a[0].a[0][x.a[3]]
        # innermost first: only what holds nothing else to replace
        inner = {x: y for x, y in m.items() if not any(z is not x and z in m for z in walk(x))}
        if not inner:
            return t
        t = env.norm(subst(t, inner))
    return t


def s(t):
    """a name for a value, whatever the references on the way to it"""
    if t.__class__ is tuple:
        return "(" + ",".join(s(x) for x in t) + ")"
    if t.__class__ is not T:
        return str(t)
    o, a = t.op, t.a
    if o in ("*", "ref", "der", "cval"):
        return s(a[0])
    if o == "loc":
        r = s(a[0])
        for e in a[1]:
            r += step(e[2], e[3]) if e[0] == "f" else "" if e[0] == "d" else "[%s]" % ",".join(s(x) for x in e[1:])
        return r
    if o == "fld":
        return s(a[0]) + step(a[2], a[3])
    if o == "elem":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "ident":
        return "id(" + idof(t) + ")"
    if o == "call":
        return a[0] + "(" + ",".join(s(x) for x in a[1]) + ")"
    if o == "disp":
        return s(a[1])
    if o == "adt" and a[0].startswith("quote::") and len(a[2]) == 1:
        return s(a[2][0])
    if o == "bv":
        return "v"
    if o == "mget":
        return s(a[0]) + "{" + s(a[1]) + "}"
    return o + "(" + ",".join(s(x) for x in a) + ")"


def step(vi, i):
    return "#%d.%d" % (vi, i) if vi else ".%d" % i


def idof(t):
    """what text an identifier has"""
    while t.op in ("*", "ref", "der", "cval"):
        t = t.a[0]
    if t.op == "ident":
        x = t.a[0]
        while x.op in ("*", "ref", "der", "disp"):
            x = x.a[1] if x.op == "disp" else x.a[0]
        if x.op == "str":
            return repr(x.a[0])
        return s(x)
    return s(t)


def words(xs):
    """the tokens as one string"""
    out = []
    for x in xs:
        if isinstance(x, W):
            out.append(x.s)
        elif isinstance(x, G):
            out.append(OPEN[x.d])
            w = words(x.xs)
            if w:
                out.append(w)
            out.append(CLOSE[x.d])
        elif isinstance(x, V):
            out.append("‹%s %s›" % (x.kind, idof(x.t) if x.kind == "tok" else s(x.t)))
        elif isinstance(x, R):
            out.append("⟨%s × %s⟩" % (s(x.n), words(x.xs)))
        else:
            out.append("⟨" + " | ".join(words(y) for _, y in x.alts) + "⟩")
    return " ".join(out)


def is_w(x, *ss):
    return isinstance(x, W) and x.s in ss


def find(xs, *ws):
    """position after the first place where these fixed tokens stand, or None"""
    for i in range(len(xs) - len(ws) + 1):
        if all(is_w(xs[i + k], w) for k, w in enumerate(ws)):
            return i + len(ws)
    return None


def groups(xs):
    """every list of tokens in the tree, outermost first"""
    yield xs
    for x in xs:
        if isinstance(x, G):
            yield from groups(x.xs)
        elif isinstance(x, R):
            yield from groups(x.xs)
        elif isinstance(x, C):
            for _, y in x.alts:
                yield from groups(y)


def function(xs, name):
    """(return type, body) of the function of that name"""
    for ys in groups(xs):
        i = find(ys, "fn", name)
        if i is None:
            continue
        for k in range(i, len(ys)):
            if isinstance(ys[k], G) and ys[k].d == 1:
                j = i
                while j < k and not is_w(ys[j], "->"):
                    j += 1
                return ys[j + 1:k], ys[k].xs
    return None


class Block:
    """entries of a list: one, or one for each v < n; alternatives of (conditions, tokens)"""
    __slots__ = ("n", "v", "alts")

    def __init__(self, n, v, alts):
        self.n, self.v, self.alts = n, v, alts


def strip(xs, sep):
    if xs and is_w(xs[-1], sep):
        xs = xs[:-1]
    if xs and is_w(xs[0], sep):
        xs = xs[1:]
    return xs


def entries(xs, sep):
    """the entries of a list with separators"""
    out = []
    cur = []

    def flush():
        if cur:
            out.append(Block(None, None, [((), list(cur))]))
            cur.clear()
    for x in xs:
        if is_w(x, sep):
            flush()
        elif isinstance(x, R):
            flush()
            out += rep(x, sep)
        elif isinstance(x, C):
            flush()
            out.append(Block(None, None, [(c, strip(y, sep)) for c, y in x.alts]))
        else:
            cur.append(x)
    flush()
    return out


def rep(x, sep):
    body = strip(x.xs, sep)
    if len(body) == 1 and isinstance(body[0], C):
        alts = [(c, strip(y, sep)) for c, y in body[0].alts]
    else:
        alts = [((), strip(body, sep))]
    for _, y in alts:
        if any(isinstance(z, (R, C)) for z in y):
            raise Odd("nested repetition in a list")
    out = []
    if len(alts) == 1 and any(is_w(z, sep) for z in alts[0][1]):
        for b in entries(alts[0][1], sep):
            out.append(Block(x.n, x.v, b.alts))
        return out
    if any(is_w(z, sep) for _, y in alts for z in y):
        raise Odd("several entries in one case of a list")
    return [Block(x.n, x.v, alts)]


def fold(env, bs):
    """a block from 1 on and the entry 0 before it as one block"""
    out = []
    for b in bs:
        if b.n is not None and out and out[-1].n is None:
            prev = out[-1].alts
            if len(b.alts) == 1 and len(prev) == 1:
                y0 = [at(env, z, b.v, I(-1)) for z in b.alts[0][1]]
                if words(y0) == words(prev[0][1]):
                    out.pop()
                    w = add(b.v, I(-1))
                    b = Block(add(b.n, I(1)), b.v, [((), [at(env, z, b.v, w) for z in b.alts[0][1]])])
        out.append(b)
    return out


def at(env, x, v, w):
    if isinstance(x, V):
        return V(x.kind, env.norm(subst(x.t, {v: w})))
    if isinstance(x, G):
        return G(x.d, [at(env, y, v, w) for y in x.xs])
    return x
