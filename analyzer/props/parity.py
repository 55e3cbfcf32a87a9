"""C25: what only one of the debug and release builds compiles."""
from .common import *
import callgraph
import load

LOG = ("log::",)


def same_text(P, c, j):
    """JSON of a body with its type and function numbers replaced by what they stand for"""
    ty = lambda i: c.types[i].d if i.__class__ is int and 0 <= i < len(c.types) else i
    df = lambda i: (c.defs[i].crate, c.defs[i].path) if i.__class__ is int and 0 <= i < len(c.defs) else i

    def go(x, key=None):
        if x.__class__ is dict:
            return tuple(sorted((k, go(v, k)) for k, v in x.items()))
        if x.__class__ in (list, tuple):
            if key in ("args", "rargs", "atys"):
                return tuple(ty(v) if v.__class__ is int else go(v) for v in x)
            if len(x) == 4 and x[0] == "f":
                return ("f", x[1], x[2], ty(x[3]))
            return tuple(go(v) for v in x)
        if x.__class__ is int:
            if key in ("ty", "fty", "dty", "from"):
                return ty(x)
            if key in ("def", "rdef"):
                return df(x)
        return (x.__class__.__name__, x)
    return go(j)


def text(P, b):
    c = b.crate
    return (b.argc, tuple(t.d for t in b.locals), same_text(P, c, b.blocks), tuple(text(P, p) for p in b.promoted))


def as_root(b):
    return {"B": b, "d": b.defn, "ins": b.locals[1:b.argc + 1], "out": b.locals[0], "reach": True}


def logging(name):
    return name.startswith("log::") or name.startswith("<log::") or "log::Level" in name


LOCAL = ("log", "ovf", "drop", "set.insert", "set.remove")


def evmap(e):
    return None if e.name in LOCAL or logging(e.name) else (e.name,) + tuple(e.args)


def observed(ctx, r, g):
    """what a caller can tell: the result, and what the exclusive references among the arguments lead to"""
    ps = [a for a, t in zip(g.args, r["ins"]) if t.k == "ref" and t.mut]
    return lambda s: tup(s.val, *[ctx.final(s, p) for p in ps])


def c25(ctx):
    rule = "bodies of the two builds are the same, or a loop relation of the release body with the debug body wherever that does not panic"
    P = {}
    for k in ("A", "C"):
        ctx.cfg = k
        P[k] = ctx.P
    names = sorted({b.crate.name for b in P["A"].bodies.values() if not b.crate.name.startswith("w_")} - {"mstd"})
    per = {n: [0, []] for n in names}
    for k, b in P["A"].bodies.items():
        n = k[0]
        if n not in per:
            continue
        o = P["C"].bodies.get(k)
        if o is None:
            continue        # found where it is called
        if text(P["A"], b) == text(P["C"], o):
            per[n][0] += 1
        else:
            per[n][1].append(k)
    for n in names:
        same, diff = per[n]
        ctx.ob("%s: %d bodies compiled alike" % (n, same), True, "%d others" % len(diff), "crate " + n, rule)
        for k in sorted(diff):
            compare(ctx, P, k, rule)
    adts(ctx, P, rule)
    ctx.cfg = "A"
    assertion(ctx)


def adts(ctx, P, rule):
    """types made of the same parts"""
    bad = []
    for n, a in P["A"].adts.items():
        b = P["C"].adts.get(n)
        if a["ws"] and b and [(v[0], v[1], [(f[0], f[1].d) for f in v[2]]) for v in a["variants"]] != [(v[0], v[1], [(f[0], f[1].d) for f in v[2]]) for v in b["variants"]]:
            bad.append(n)
    if bad:
        ctx.undecided("types are made of the same parts", "%s differ: values are not compared" % ", ".join(sorted(bad)))
    else:
        ctx.ob("types are made of the same parts", True, "%d types" % len([1 for a in P["A"].adts.values() if a["ws"]]), "", rule)


def relate(ctx, P, k, name, rule, ob):
    """one body of the release build against the same of the debug build"""
    r = {c: as_root(P[c].bodies[k]) for c in P}
    ctx.cfg = "A"
    gA = ctx.graph(r["A"], name)
    if gA is None:
        return None
    ctx.cfg = "C"
    gC = ctx.graph(r["C"], name)
    if gC is None:
        return None
    if [a for a in gA.args] != [a for a in gC.args]:
        ctx.undecided(name, "arguments differ")
        return None
    n = len(ctx.obs)
    v = None
    # what only the debug build does may take steps of its own, so it is related to the release build first
    for cfg, g, other in (("A", only(gA, lambda s: s.kind != "panic"), gC), ("C", gC, gA)):
        ctx.cfg = cfg
        o = "C" if cfg == "A" else "A"
        spec0 = kit.graph_spec(ctx.ip, other, evmap, observed(ctx, r[o], other), PANIC if o == "C" else None)
        w = ctx.sim(name, r[cfg], spec0, evmap, observed(ctx, r[cfg], g), rule, g=g)
        if w is True:
            del ctx.obs[n:-1]
            return True
        v = w if v is None else v
    # the later direction reports a construct of the release build
    bad = [x for x in ctx.obs[n:] if x["verdict"] is False]
    ctx.obs[n:] = bad[-1:] or ctx.obs[n:n + 1]
    return v


def compare(ctx, P, k, rule):
    name = "%s does in release what it does in debug" % interp.fn_path(k[1])
    n = len(ctx.obs)
    if relate(ctx, P, k, name, rule, True) is not False:
        return
    # where it is called from, what differs may not matter
    d = P["C"].bodies[k].defn
    cg = callgraph.of(P["C"])
    for c in sorted(P["C"].crates):
        for root in P["C"].crates[c].roots:
            b = root["B"]
            if b is not None and root["reach"] and (c, b.key) == k:
                return          # callable from outside as it is
    callers = []
    into = cg.reaching(lambda x: x == k)
    for c in sorted(P["C"].crates):
        for root in P["C"].crates[c].roots:
            b = root["B"]
            if b is not None and root["reach"] and (c, b.key) in into and (c, b.key) in P["A"].bodies:
                callers.append((c, b.key))
    if not callers:
        return
    m = len(ctx.obs)
    for c in callers:
        if relate(ctx, P, c, "%s, through %s" % (name, interp.fn_path(c[1])), rule, True) is not True:
            del ctx.obs[m:]
            return
    del ctx.obs[n:m]


def assertion(ctx):
    rule = "values and calls on every path of a function using the macro"
    for cfg, what in (("A", "debug"), ("B", "release"), ("C", "release with default features")):
        ctx.cfg = cfg
        if "w_always" not in ctx.P.crates:
            ctx.undecided("the soft assertion [%s]" % what, "its consumer does not compile")
            continue
        for fn in ("plain", "message", "message_args"):
            r = ctx.root("w_always", "w_always::" + fn)
            g = ctx.graph(r)
            if g is None:
                continue
            name = "always! (%s) evaluates its condition once, returns it, and when it fails %s" % (fn, "panics" if cfg == "A" else "logs once")
            n = bad = None
            for s in g.segs:
                cb = [e for e in s.events if e.name == "callback"]
                lg = [e for e in s.events if evlog(e)]
                env = kit.Env(ctx.ip, s.st)
                if not env.feasible():
                    continue
                if len(cb) != 1:
                    bad = "evaluates the condition %d times" % len(cb)
                    break
                v = env.ask(cb[0].res)
                if v is None:
                    n = "a path on which the condition is not known"
                    continue
                if v is True:
                    good = s.kind == "return" and env.same(s.val, B(True)) is True and not lg
                elif cfg == "A":
                    good = s.kind == "panic"
                else:
                    good = s.kind == "return" and env.same(s.val, B(False)) is True and len(lg) == 1
                if not good:
                    bad = "when the condition is %s it %s%s" % ("true" if v else "false", "panics" if s.kind == "panic" else "returns " + show(s.val, 5), ", logging %d times" % len(lg))
                    break
            ctx.ob(name, False if bad else None if n else True, bad or n or "%d paths" % len(g.segs), ctx.where(r), rule)


def evlog(e):
    return e.name == "log"
