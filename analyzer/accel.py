"""Loop summaries: a loop that only builds sequences element by element is replaced by its effect.

A loop head qualifies when every way round it changes each loop-carried value by a
constant, by pushing one element computed from the position, or not at all, does nothing
else observable, and is left when a linear bound is reached.  The value after the loop is
then a term (`smap`), so code that builds the same sequence in another way gives the same
term.  Everything else is left alone."""
from terms import *
import itertools
import interp
import kit
from std import tokcat


COUNT = itertools.count()


KNOWN = False
BIND = ("smap", "trep")


def bv(level):
    return mk("bv", level)


def level(*ts):
    r = 0
    for t in ts:
        for x in walk(t):
            if x.op == "bv":
                r = max(r, x.a[0] + 1)
    return r


# ------------------------------------------------------------------ sequences
def smap(env, n, v, body):
    """[body with v := 0, ..., body with v := n-1]"""
    ip, st = env.ip, env.st
    n = known(env, n)
    if n is I(0):
        return mk("arr", ())
    if n is I(1):
        return mk("arr", (env.norm(subst(body, {v: I(0)})),))
    if body.op == "elem" and not has(body.a[0], v):
        d = sub(body.a[1], v)
        if not has(d, v):
            r = ip.subseq(st, body.a[0], d, add(d, n))
            if r.op != "sub" or env.ask(eq0(sub(r.a[2], ip.length(st, r.a[0])))) is not True or r.a[1] is not I(0):
                return r
            return r.a[0]
    # a map over pieces is pieces of maps
    for x in walk(body):
        if x.op == "elem" and x.a[0].op in ("cat", "push") and not has(x.a[0], v):
            r = pieces(env, n, v, body, x)
            if r is not None:
                return r
    # the position variable: one more than the highest inside
    body = relevel(body)
    w = bv(height(body))
    if w is not v:
        body = rename(body, v, w)
    return mk("smap", n, w, body)


def choose(env, t):
    """the tokens, with the cases that are decided"""
    out = []
    for x in t.a[0]:
        if x.op == "tcase":
            for conds, y in x.a[0]:
                if all(holds(env, c) for c in conds):
                    out += choose(env, y)
                    break
            else:
                out.append(x)
        else:
            out.append(x)
    return out


def holds(env, c):
    t = env.norm(c.a[0])
    if c.op == "is?":
        return env.ask_is(t, c.a[1], c.a[2]) is True
    if c.op == "isnt?":
        return env.ask_is(t, c.a[1], c.a[2]) is False
    return env.ask(t) is c.a[1]


def absorb(env, t):
    """tokens in which what continues a repetition downwards is part of it"""
    if t.op == "tokcat":
        b = absorb(env, t.a[1])
        return t if b is t.a[1] else tokcat(t.a[0], b)
    if t.op != "toks" or not any(x.op == "trep" for x in t.a[0]):
        return t
    out = []
    for x in t.a[0]:
        while x.op == "trep":
            b = choose(env, env.norm(subst(x.a[2], {x.a[1]: I(-1)})))
            if len(b) > len(out) or not b and not x.a[2].a[0] or any(env.norm(p) is not env.norm(q) for p, q in zip(b, out[len(out) - len(b):])):
                break
            del out[len(out) - len(b):]
            x = trep(env, add(x.a[0], I(1)), x.a[1], env.norm(subst(x.a[2], {x.a[1]: sub(x.a[1], I(1))})))
        out.append(x)
    return mk("toks", tuple(out))


def flat(env, xs):
    out = []
    for x in xs:
        if x.op == "toks":
            out += x.a[0]
        else:
            out.append(x)
    return mk("toks", tuple(out))


def known(env, n):
    """n without the lengths known to be zero"""
    if not KNOWN:
        return n
    c, ps = lin_parts(n)
    for t, co in ps.items():
        if t.op == "len" and env.ask(eq0(t)) is True:
            n = sub(n, scale(t, co))
    return n


def trep(env, n, v, body):
    """the tokens of body with v := 0, ..., then with v := n-1"""
    n = known(env, n)
    if n is I(0):
        return mk("toks", ())
    body = relevel(env.norm(body))
    w = bv(height(body))
    if w is not v:
        body = rename(body, v, w)
    return mk("trep", n, w, body)


def pieces(env, n, v, body, x):
    """the map split where x, an element of a concatenation, goes from one piece to the next; None when that is not known"""
    ip, st = env.ip, env.st
    c, ps = lin_parts(x.a[1])
    co = ps.get(v)
    if co not in (1, -1):
        return None
    d = sub(x.a[1], scale(v, co))
    if has(d, v):
        return None
    cuts = []
    at = I(0)
    for p in parts(x.a[0]):
        m = ip.length(st, p)
        cuts.append((p, sub(at, d) if co == 1 else sub(add(d, I(1)), add(at, m)), at, m))
        at = add(at, m)
    if co == -1:
        cuts.reverse()
    out = []
    for i, (p, lo, off, m) in enumerate(cuts):
        hi = cuts[i + 1][1] if i + 1 < len(cuts) else add(lo, m)
        if i == 0:
            if not env.entails_le0(lo):
                return None
            lo = I(0)
        elif not env.entails_le0(scale(lo, -1)):
            return None
        if i + 1 == len(cuts):
            if not env.entails_le0(sub(n, hi)):
                return None
            hi = n
        elif not env.entails_le0(sub(hi, n)):
            return None
        k = sub(hi, lo)
        b = subst(body, {x: ip.elem(st, p, sub(x.a[1], off))})
        b = env.norm(subst(b, {v: add(v, lo)}))
        if p.op == "arr":
            if k.op != "I":
                return None
            out.append(mk("arr", tuple(env.norm(subst(b, {v: I(q)})) for q in range(k.a[0]))))
        else:
            out.append(smap(env, k, v, b))
    return cat(env, out)


def height(t):
    r = 0
    for x in walk(t):
        if x.op in BIND and x.a[1].a[0].__class__ is int:
            r = max(r, x.a[1].a[0] + 1)
    return r


def rename(t, v, w):
    """the free v of t replaced"""
    cache = {}

    def go(x):
        if x is v:
            return w
        r = cache.get(x)
        if r is None:
            if x.op in BIND and x.a[1] is v:
                n = go(x.a[0])
                r = x if n is x.a[0] else mk(x.op, n, v, x.a[2])
            else:
                na = tuple(ga(y) for y in x.a)
                r = x if all(p is q for p, q in zip(na, x.a)) else rebuild_term(x.op, na)
            cache[x] = r
        return r

    def ga(y):
        if y.__class__ is T:
            return go(y)
        if y.__class__ is tuple:
            return tuple(ga(q) for q in y)
        return y
    return go(t)


def relevel(t):
    """after a replacement under a map: every map has its own position variable again"""
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is None:
            na = tuple(ga(y) for y in x.a)
            if x.op in BIND:
                b = na[2]
                w = bv(height(b))
                r = mk(x.op, na[0], w, b if w is na[1] else rename(b, na[1], w))
            else:
                r = x if all(p is q for p, q in zip(na, x.a)) else rebuild_term(x.op, na)
            cache[x] = r
        return r

    def ga(y):
        if y.__class__ is T:
            return go(y)
        if y.__class__ is tuple:
            return tuple(ga(q) for q in y)
        return y
    return go(t)


def put(t, m):
    """t with loop values replaced"""
    r = subst(t, m)
    return r if r is t else relevel(r)


def parts(t):
    if t.op == "cat":
        return [p for x in t.a[0] for p in parts(x)]
    if t.op == "push":
        return parts(t.a[0]) + [mk("arr", (t.a[1],))]
    if t.op == "arr" and not t.a[0]:
        return []
    return [t]


def cat(env, xs):
    l = []
    for x in xs:
        for p in parts(x):
            q = l[-1] if l else None
            if q is not None and q.op == "arr" and p.op == "arr":
                l[-1] = mk("arr", q.a[0] + p.a[0])
            elif q is not None and q.op == "arr" and p.op == "sub" and q.a[0][-1].op == "elem" and q.a[0][-1].a[0] is p.a[0] and add(q.a[0][-1].a[1], I(1)) is p.a[1]:
                z = env.norm(env.ip.subseq(env.st, p.a[0], q.a[0][-1].a[1], p.a[2]))
                if len(q.a[0]) > 1:
                    l[-1] = mk("arr", q.a[0][:-1])
                else:
                    l.pop()
                l.append(z)
            elif q is not None and q.op == "arr" and p.op == "smap":
                # absorb what continues the map downwards
                q = list(q.a[0])
                while q and env.norm(subst(p.a[2], {p.a[1]: I(-1)})) is q[-1]:
                    p = mk("smap", add(p.a[0], I(1)), p.a[1], env.norm(subst(p.a[2], {p.a[1]: sub(p.a[1], I(1))})))
                    q.pop()
                if q:
                    l[-1] = mk("arr", tuple(q))
                else:
                    l.pop()
                l.append(p)
            elif q is not None and q.op == "smap" and p.op == "smap" and q.a[1] is p.a[1] and env.norm(subst(q.a[2], {q.a[1]: add(q.a[1], q.a[0])})) is p.a[2]:
                l[-1] = mk("smap", add(q.a[0], p.a[0]), q.a[1], q.a[2])
            elif q is not None and q.op == "smap" and p.op == "arr" and p.a[0] and env.norm(subst(q.a[2], {q.a[1]: q.a[0]})) is p.a[0][0]:
                l[-1] = mk("smap", add(q.a[0], I(1)), q.a[1], q.a[2])
                if len(p.a[0]) > 1:
                    l.append(mk("arr", p.a[0][1:]))
            else:
                l.append(p)
    if len(l) > 1:
        z = [p for p in l if p.op == "arr" or env.ask(eq0(env.ip.length(env.st, p))) is not True]
        if z and len(z) < len(l):
            return cat(env, z)
    if not l:
        return mk("arr", ())
    tail = ()
    if len(l) > 1 and l[-1].op == "arr":
        tail = l.pop().a[0]
    r = l[0] if len(l) == 1 else mk("cat", tuple(l))
    for x in tail:
        r = mk("push", r, x)
    return r


def rev(env, t):
    if t.op == "rev":
        return t.a[0]
    ps = parts(t)
    if len(ps) != 1:
        return cat(env, [rev(env, p) for p in reversed(ps)])
    p = ps[0]
    if p.op == "arr":
        return mk("arr", tuple(reversed(p.a[0])))
    if p.op == "smap":
        return smap(env, p.a[0], p.a[1], env.norm(subst(p.a[2], {p.a[1]: sub(sub(p.a[0], I(1)), p.a[1])})))
    n = env.ip.length(env.st, p)
    v = mk("bv", "r%d" % next(COUNT))
    return smap(env, n, v, env.ip.elem(env.st, p, sub(sub(n, I(1)), v)))


def drop_last(env, t):
    ps = parts(t)
    if ps and ps[-1].op == "arr":
        return cat(env, ps[:-1] + [mk("arr", ps[-1].a[0][:-1])])
    return mk("pop", t)


def sub_(env, t, a, b):
    """t[a..b] of a concatenation, where the cut falls between pieces"""
    ps = parts(t)
    if len(ps) < 2:
        return None
    off = I(0)
    lo = hi = None
    for i, p in enumerate(ps + [None]):
        if lo is None and env.ask(eq0(sub(off, a))) is True:
            lo = i
        if env.ask(eq0(sub(off, b))) is True:
            hi = i
        if p is not None:
            off = add(off, env.ip.length(env.st, p))
    if lo is None or hi is None or hi < lo:
        return None
    return cat(env, ps[lo:hi])


def install():
    kit.NORM["smap"] = smap
    kit.NORM["cat"] = lambda env, xs: cat(env, list(xs))
    kit.NORM["rev"] = rev
    kit.NORM["trep"] = trep
    kit.NORM["toks"] = flat
    kit.SEQ.update(push=lambda env, s, x: cat(env, [s, mk("arr", (x,))]), pop=drop_last, sub=sub_)


# ------------------------------------------------------------------ graphs
def accelerate(ip, g, pure=lambda e: False, skip=lambda s: False, byval=(), cases=False):
    """a graph with the same behaviour in which the loops that can be summarised are gone"""
    install()
    h = interp.Graph()
    h.status, h.args = g.status, g.args
    h.nodes, h.segs, h.phi = dict(g.nodes), [s for s in g.segs if not skip(s)], dict(g.phi)
    for k in ("entry", "rounds", "root"):
        if hasattr(g, k):
            setattr(h, k, getattr(g, k))
    h.summarised = 0
    left = list(h.nodes)
    more = True
    while more:
        more = False
        for k in list(left):
            r = one(ip, h, k, pure, cases)
            if r is None and cases:
                r = contract(ip, h, k)
            if r is not None:
                h.segs = r
                del h.nodes[k]
                left.remove(k)
                h.summarised += 1
                more = True
    # what can no longer be reached
    reach, work = {"entry"}, ["entry"]
    while work:
        x = work.pop()
        for s in h.segs:
            if s.src is x and s.kind == "node" and s.dst not in reach:
                reach.add(s.dst)
                work.append(s.dst)
    h.segs = [s for s in h.segs if s.src in reach]
    h.nodes = {k: v for k, v in h.nodes.items() if k in reach}
    for n in h.nodes.values():
        kit.settle(ip, n)
    m = {}
    for s in h.segs:
        for e in s.events:
            if e.name in byval:
                for x in [e.res] + list(e.args):
                    if x.__class__ is T:
                        for y in walk(x):
                            if y.op == "smap" and y not in m:
                                z = unref(ip, s.st, y)
                                if z is not y:
                                    m[y] = z
    out = []
    for s in h.segs:
        s = reseg(ip, s, m)
        if s is not None:
            out.append(s)
    h.segs = out
    if m:
        h.nodes = {k: place(ip, n, m) for k, n in h.nodes.items()}
    return h


def unref(ip, st, t):
    """a sequence of references as the sequence of what they refer to"""
    b = t.a[2]
    if b.op == "ref":
        v = ip.read(st, b.a[0])
        if v is not None and v.op != "undef":
            return mk("smap", t.a[0], t.a[1], kit.Env(ip, st).norm(v))
    return t


def carried(ip, g, seg, key):
    n = g.nodes[key]
    d = {}
    for root, path in g.phi.get(key, ()):
        if any((root, path[:i]) in g.phi[key] for i in range(len(path))):
            continue
        if root not in n.mem and root.op not in ("der", "static"):
            continue
        l = mk("loc", root, path)
        p = ip.read(n, l)
        if p.op == "phi" and p.a[0] is key:
            d[p] = ip.read(seg.st, l)
    return d


def contract(ip, g, key):
    """the segments of a graph without a node that is no loop head: every way in joined to every way out"""
    mine = [s for s in g.segs if s.src is key]
    ins = [s for s in g.segs if s.kind == "node" and s.dst is key]
    if any(s.src is key for s in ins) or len(mine) * len(ins) > len(mine) + len(ins) + 8:
        return None
    out, leak = [], {}
    gen = kit.Env(ip, g.nodes[key])
    for s in ins:
        arr = carried(ip, g, s, key)
        if not kit.Env(ip, s.st).feasible():
            continue
        for p, v in arr.items():
            leak.setdefault(p, []).append((s.st, v, gen.norm(v)))
        for e in mine:
            x = join(ip, s, e, s.st.copy(), dict(arr))
            if x is not None:
                out.append(x)
    rest = [s for s in g.segs if s not in mine and s not in ins]
    # a value that the one node that follows takes over as it is becomes a loop value there
    nxt = {s.dst for s in mine if s.kind == "node"}
    give = {}
    if len(nxt) == 1:
        x = nxt.pop()
        for p in leak:
            loc = p.a[1]
            if ip.read(g.nodes[x], loc) is p and common(ip, leak[p]) is None:
                give[p] = mk("phi", x, loc, p.a[2])
    if give:
        out = [z for z in (reseg(ip, s, give) for s in out) if z is not None]
    r = later(ip, g, key, rest, leak, out, give)
    if r is not None:
        for p in give:
            g.phi[x] = set(g.phi.get(x, ())) | {tuple(p.a[1].a)}
    return r


def common(ip, vs):
    """one term that every way in gives the loop value"""
    for _, _, x in vs:
        for st, v, w in vs:
            if w is x:
                continue
            env = kit.Env(ip, st)
            a, b = env.norm(x), env.norm(v)
            if a is not b and not place_eq(env, a, b) and env.ask(eq0(sub(a, b))) is not True:
                break
        else:
            return x
    return None


def place_eq(env, a, b):
    """references to one place"""
    if a.op != "ref" or b.op != "ref" or a.a[0].op != "loc" or b.a[0].op != "loc" or a.a[0].a[0] is not b.a[0].a[0]:
        return False
    p, q = a.a[0].a[1], b.a[0].a[1]
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if x == y:
            continue
        if x[0] != "e" or y[0] != "e" or env.ask(eq0(env.norm(sub(x[1], y[1])))) is not True:
            return False
    return True


def later(ip, g, key, rest, leak, out, give={}, cases=True):
    """rest + out, with the values of the node that is gone replaced where they are used later on; None when they are not known"""
    mentioned = set()
    for k, n in g.nodes.items():
        if k is not key:
            for t in list(n.mem.values()) + list(n.facts) + list(n.isd) + list(n.nots):
                mentioned |= phis(t)
    for s in rest:
        for t in list(s.st.mem.values()) + list(s.st.facts) + list(s.st.isd):
            mentioned |= phis(t)
    use = {}
    for p, vs in leak.items():
        if p in mentioned:
            if cases:
                use[p] = give.get(p) or common(ip, vs)
            else:
                use[p] = vs[0][2] if all(v[2] is vs[0][2] for v in vs) else None
            if use[p] is None:
                return None
    if use:
        if any(x in use for v in use.values() for x in phis(v)):
            return None
        nodes = {}
        for k, n in g.nodes.items():
            if k is not key:
                n2 = place(ip, n, use)
                if n2 is None:
                    return None
                nodes[k] = n2
            else:
                nodes[k] = n
        r2 = []
        for s in rest:
            z = reseg(ip, s, use)
            if z is not None:
                r2.append(z)
        rest = r2
        g.nodes = nodes
    return rest + out


# iter(x, f, n): f applied n times, to x, ...; in f the value is FP and the number of times before FI
FP, FI = mk("bv", "fold"), mk("bv", "times")


def one(ip, g, key, pure, cases=False):
    mine = [s for s in g.segs if s.src is key]
    selfs = [s for s in mine if s.kind == "node" and s.dst is key]
    exits = [s for s in mine if not (s.kind == "node" and s.dst is key)]
    ins = [s for s in g.segs if s.kind == "node" and s.dst is key and s.src is not key]
    if not selfs:
        return None
    head = g.nodes[key]
    upd = None
    each = []
    for s in selfs:
        if any(not (e.kind in ("ovf", "drop") or pure(e)) for e in s.events):
            return None
        u = {}
        for p, v in carried(ip, g, s, key).items():
            if v is p:
                u[p] = ("same",)
                continue
            d = sub(v, p)
            if d.op == "I":
                u[p] = ("step", d.a[0])
            elif v.op == "push" and v.a[0] is p:
                u[p] = ("push", v.a[1])
            elif v.op == "store" and v.a[0] is p:
                u[p] = ("store", v.a[1], v.a[2])
            elif v.op == "tokcat" and v.a[0] is p and v.a[1].op == "toks":
                u[p] = ("toks", v.a[1])
            elif cases and not has(v, FP):
                u[p] = ("fold", v)
            else:
                return None
        if upd is None:
            upd = u
        elif upd != u:
            # the tokens may depend on the element
            if not cases or set(upd) != set(u) or any(upd[p] != u[p] and (upd[p][0] not in ("toks", "same") or u[p][0] not in ("toks", "same")) and not (upd[p][0] == u[p][0] == "push" and upd[p][1].op == u[p][1].op == "toks") for p in u):
                return None
            for p in u:
                if upd[p][0] == "same" and u[p][0] == "toks":
                    upd[p] = ("toks", mk("toks", ()))
        each.append(u)
    steps = {p: u[1] for p, u in upd.items() if u[0] == "step"}
    pushes = {p: u[1] for p, u in upd.items() if u[0] == "push"}
    toks = {p: u[1] for p, u in upd.items() if u[0] == "toks"}
    folds = {p: u[1] for p, u in upd.items() if u[0] == "fold"}
    if not steps and not pushes:
        return None
    for b in list(pushes.values()) + list(toks.values()) + list(folds.values()):
        if any(x in pushes or x in toks for x in phis(b)):
            return None
    for p, b in folds.items():
        if any(x in folds and x is not p for x in phis(b)):
            return None
    stores = {}
    for p, x in upd.items():
        if x[0] == "store":
            i = x[1]
            if steps.get(i) != 1:
                return None
            w = mk("bv", "old")
            b = subst(x[2], {mk("elem", p, i): w})
            if p in phis(b) or any(y in pushes or y in toks or y in upd and upd[y][0] == "store" for y in phis(b)):
                return None
            stores[p] = (i, b, w)
    own = set(steps) | set(pushes) | set(stores) | set(toks) | set(folds)
    # what holds on every way round, and the bounds among it
    guards = []
    if len(selfs) > 1:
        if not cases:
            return None
        vary = {p: b for p, b in pushes.items() if any(u[p] != each[0][p] for u in each)}
        for u in each:
            for p in vary:
                if any(x in pushes or x in toks for x in phis(u[p][1])):
                    return None
        return_ = split(ip, head, selfs, each, list(toks) + list(vary), own)
        if return_ is None:
            return None
        s0, merged = return_
        toks = {p: merged[p] for p in toks}
        pushes.update({p: merged[p] for p in vary})
    else:
        s0 = selfs[0]
    for t, vi in s0.isd.items():
        if any(x in own for x in phis(t)) and any(e.isd.get(t, vi) != vi or t in e.nots for e in exits):
            return None
    for t, no in s0.nots.items():
        if any(x in own for x in phis(t)):
            return None
    for f, b in s0.facts.items():
        if not any(x in own for x in phis(f)) or f in head.facts:
            continue
        if f.op not in ("le0", "eq0"):
            return None
        c, ps = lin_parts(f.a[0])
        k = 0
        for t, co in ps.items():
            if t in steps:
                k += co * steps[t]
            elif t.op == "len" and t.a[0] in pushes:
                k += co
            elif t.op == "len" and t.a[0] in stores:
                pass
            elif any(x in own for x in phis(t)):
                return None
        guards.append((f, b, k))
    if not guards:
        return None
    out = []
    leak = {}
    for s in ins:
        arr = {p: v for p, v in carried(ip, g, s, key).items()}
        env0 = kit.Env(ip, s.st)
        if not env0.feasible():
            continue
        for e in exits:
            # the bound whose failing lets this way out be taken
            T0 = None
            for f, b, k in guards:
                if e.facts.get(f) is (not b):
                    L = subst(f.a[0], arr)
                    if f.op == "le0" and b and k == 1:
                        T0 = sub(I(1), L)
                    elif f.op == "le0" and not b and k == -1:
                        T0 = L
                    elif f.op == "eq0" and not b and abs(k) == 1:
                        T0 = scale(L, -k)
                    else:
                        return None
                    break
            if T0 is None:
                return None
            Tg = kit.Env(ip, head).norm(T0)
            T0 = env0.norm(T0)
            if not env0.entails_le0(scale(T0, -1)):
                return None
            st = s.st.copy()
            okay = True
            for f, b, k in guards:
                L = subst(f.a[0], arr)
                if f.op == "le0" and b and k == 1:
                    last = add(L, sub(T0, I(1)))
                    if env0.entails_le0(sub(L, I(1))) and not ip.assume(st, le0(last), True):
                        okay = False
            if not okay:
                continue
            env = kit.Env(ip, st)
            m = dict(arr)
            for p, c in steps.items():
                m[p] = env.norm(add(arr[p], scale(T0, c)))
            v = mk("bv", "i%d" % next(COUNT))
            it = {p: (add(arr[p], scale(v, steps[p])) if p in steps else arr[p]) for p in arr if p not in pushes and p not in toks}
            for p, b in folds.items():
                bi = {x: (add(arr[x], scale(FI, steps[x])) if x in steps else arr[x]) for x in arr if x not in pushes and x not in toks}
                bi[p] = FP
                b = env.norm(subst(b, bi))
                it[p] = mk("iter", env.norm(arr[p]), b, v)
                m[p] = mk("iter", env.norm(arr[p]), b, T0)
            for p, (i, b, w) in stores.items():
                a = env.norm(arr[p])
                if arr[i] is not I(0) or env.ask(eq0(sub(T0, ip.length(st, a)))) is not True:
                    okay = False
                    break
                m[p] = smap(env, T0, v, env.norm(subst(subst(b, it), {w: ip.elem(st, a, v)})))
            if not okay:
                return None
            for p, body in pushes.items():
                m[p] = cat(env, [env.norm(arr[p]), smap(env, T0, v, env.norm(subst(body, it)))])
            for p, body in toks.items():
                m[p] = absorb(env, tokcat(env.norm(arr[p]), trep(env, T0, v, env.norm(subst(body, it)))))
            x = join(ip, s, e, st, m)
            if x is None:
                continue
            out.append(x)
            # the same, by what holds on every way in
            gen = kit.Env(ip, head)
            for p, c in steps.items():
                leak.setdefault(p, []).append((st, m[p], gen.norm(add(arr[p], scale(Tg, c)))))
            for p in list(stores) + list(folds):
                leak.setdefault(p, []).append((st, m[p], m[p]))
            for p in arr:
                if cases and p not in own:
                    leak.setdefault(p, []).append((st, arr[p], gen.norm(arr[p])))
            for p, body in pushes.items():
                leak.setdefault(p, []).append((st, m[p], cat(gen, [gen.norm(arr[p]), smap(gen, Tg, v, gen.norm(subst(body, it)))])))
            for p, body in toks.items():
                leak.setdefault(p, []).append((st, m[p], absorb(kit.Env(ip, st), tokcat(gen.norm(arr[p]), trep(gen, Tg, v, gen.norm(subst(body, it)))))))
    rest = [s for s in g.segs if s not in mine and s not in ins]
    return later(ip, g, key, rest, leak, out, cases=cases)


class Common:
    pass


def split(ip, head, selfs, each, toks, own):
    """what all the ways round have in common, and the tokens they add as cases"""
    c = Common()
    c.facts = {f: b for f, b in selfs[0].facts.items() if all(s.facts.get(f) is b for s in selfs)}
    c.isd = {t: v for t, v in selfs[0].isd.items() if all(s.isd.get(t) == v for s in selfs)}
    c.nots = {t: v for t, v in selfs[0].nots.items() if all(s.nots.get(t) == v for s in selfs)}
    alts = []
    for s in selfs:
        conds = []
        for t, v in s.isd.items():
            if t not in c.isd:
                conds.append(mk("is?", t, ip.ispath.get(t, ""), v))
        for t, vs in s.nots.items():
            if t not in c.nots:
                conds += [mk("isnt?", t, ip.ispath.get(t, ""), v) for v in sorted(vs)]
        for f, b in s.facts.items():
            if f not in c.facts:
                conds.append(mk("cond", f, b))
        alts.append(tuple(sorted(conds, key=lambda x: x.id)))
    out = {}
    for p in toks:
        out[p] = mk("toks", (mk("tcase", tuple((k, u[p][1] if u[p][0] in ("toks", "push") else mk("toks", ())) for k, u in zip(alts, each))),))
    return c, out


def place(ip, st, m):
    """a state with loop values replaced, or None when contradictory"""
    n = st.copy()
    n.facts, n.isd, n.nots = {}, {}, {}
    if not move(ip, n, st, m):
        return None
    n.mem = {k: put(v, m) for k, v in st.mem.items()}
    return n


def move(ip, n, st, m):
    for t, b in st.facts.items():
        if not ip.assume(n, kit.Env(ip, n).norm(put(t, m)) if put(t, m) is not t else t, b):
            return False
    for t, vi in st.isd.items():
        if not ip.assume_is(n, put(t, m), ip.ispath.get(t, ""), vi):
            return False
    for t, no in st.nots.items():
        for vi in no:
            if not ip.assume_isnt(n, put(t, m), ip.ispath.get(t, ""), vi):
                return False
    return kit.settle(ip, n)


def event(e, m):
    x = interp.Event()
    for k in interp.Event.__slots__:
        if hasattr(e, k):
            setattr(x, k, getattr(e, k))
    x.args = [put(a, m) if a.__class__ is T else a for a in e.args]
    if getattr(e, "res", None).__class__ is T:
        x.res = put(e.res, m)
    return x


def reseg(ip, s, m, st=None, src=None, events=()):
    x = interp.Seg()
    for k in interp.Seg.__slots__:
        if hasattr(s, k):
            setattr(x, k, getattr(s, k))
    if st is None:
        st = place(ip, s.st, m)
        if st is None:
            return None
    x.st = st
    if src is not None:
        x.src = src
    x.facts, x.isd, x.nots, x.mem = st.facts, st.isd, st.nots, st.mem
    x.events = list(events) + [event(e, m) for e in s.events]
    if x.val.__class__ is T:
        x.val = put(x.val, m)
    return x


def join(ip, s, e, st, m):
    """the path through s, the whole loop, and e"""
    n = st.copy()
    if not move(ip, n, e.st, m):
        return None
    if not kit.Env(ip, n).feasible():
        return None
    mem = dict(s.st.mem)
    for k, v in e.st.mem.items():
        mem[k] = put(v, m)
    n.mem = mem
    return reseg(ip, e, m, n, s.src, s.events)
