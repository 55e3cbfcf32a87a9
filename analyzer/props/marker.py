"""Markers that must be handed back: constructs being parsed, positions in a processed string."""
from terms import *
import kit
from props.common import *
from props.event import Repr, P, EN

BOMBS = ("drop_bomb::DropBomb", "drop_bomb::DebugDropBomb")
ARMED = {b: adt(b, 0, (TRUE,)) for b in BOMBS}
SAFE = {b: adt(b, 0, (FALSE,)) for b in BOMBS}
ST = "str_process::St"
# crate -> (type that hands markers out, operations that do, armed in release too)
WHO = {"event_parse": (P, ("enter", "precede"), True), "str_process": (ST, ("mark",), False)}


def inside(ctx, ty, names, d=0):
    """does a value of the type hold one of the named types?"""
    if ty.k in ("ref", "ptr") or d > 6:
        return False
    if ty.k == "adt":
        if ty.adt in names:
            return True
        if any(inside(ctx, a, names, d + 1) for a in ty.args or () if hasattr(a, "k")):
            return True
        a = ctx.P.adts.get(ty.adt)
        return bool(a and a["ws"] and any(inside(ctx, f[1], names, d + 1) for v in a["variants"] for f in v[2]))
    return any(inside(ctx, e, names, d + 1) for e in (ty.els or ())) or (ty.k in ("array", "slice") and inside(ctx, ty.el, names, d + 1))


def bombs(ctx, st, v, out, M):
    """the bombs inside a value: [(holder or None, bomb value)]"""
    if v.op == "adt":
        if v.a[0] in BOMBS:
            out.append((None, v))
        elif v.a[0] in M:
            out.append((v, ctx.ip.deep(st, v.a[2][M[v.a[0]]])))
        else:
            for x in v.a[2]:
                bombs(ctx, st, x, out, M)
    elif v.op in ("tuple", "arr"):
        for x in v.a[0]:
            bombs(ctx, st, x, out, M)


def c07(ctx):
    rule = "type rules on marker types, and the state of the bomb on every path of every operation"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        for cr, (owner, ops, always) in WHO.items():
            c = ctx.P.crates.get(cr)
            if c is None:
                continue
            M = {}
            for op in ops:
                r = ctx.root(cr, owner + "::" + op)
                if r is None:
                    continue
                t = r["out"]
                name = t.adt if t.k == "adt" else t.d
                if t.k != "adt" or ctx.P.adts.get(name) is None or not ctx.P.adts[name]["ws"]:
                    ctx.undecided(owner + "::" + op, "returns %s" % t.d)
                    continue
                fs = ctx.fields(name)
                b = [i for i, f in enumerate(fs) if f[1].k == "adt" and f[1].adt in BOMBS]
                ok_ = len(b) == 1 and (not always or fs[b[0]][1].adt == BOMBS[0])
                ctx.ob("%s holds a bomb%s" % (name, tag), ok_, "fields %s" % [f[1].d for f in fs], ctx.P.adts[name]["loc"], rule)
                if len(b) == 1:
                    M[name] = b[0]
                ctx.ob("%s has no public field%s" % (name, tag), not any(f[2] for f in fs), "public: %s" % [f[0] for f in fs if f[2]], ctx.P.adts[name]["loc"], rule)
                bad = [i for i in ctx.impls(cr, name) if i.get("trait") in ("std::Clone", "std::Copy", "std::Default")]
                ctx.ob("%s cannot be copied%s" % (name, tag), not bad, "implements %s" % [i["trait"] for i in bad], bad[0]["loc"] if bad else ctx.P.adts[name]["loc"], rule)
            if not M:
                continue
            makes = set()
            for r in c.roots:
                if r["B"] is None:
                    continue
                ins, out = r.get("ins") or (), r.get("out")
                takes = any(inside(ctx, t, M) for t in ins)
                gives = out is not None and inside(ctx, out, M)
                muts = [k for k, t in enumerate(ins) if t.k == "ref" and t.mut and inside(ctx, t.el, M)]
                if not (takes or gives or muts) or not (r["reach"] or r["d"].trait):
                    continue
                g = ctx.graph(r)
                if g is None:
                    continue
                nm = r["d"].canon
                if takes:
                    ctx.each("%s does not drop an armed marker%s" % (nm, tag), r, lambda s, env: armed_drop(ctx, s, M), rule, g=g)
                if gives:
                    ctx.each("%s gives only armed markers it has just made or was given%s" % (nm, tag), r, lambda s, env, g=g: fresh(ctx, s, M, g), rule, g=g)
                    if nm not in tuple(owner + "::" + o for o in ops) and not takes:
                        ctx.ob("%s opens what it gives a marker for%s" % (nm, tag), any(t.k == "ref" and t.el.k == "adt" and t.el.adt == owner for t in ins),
                               "a marker from nothing", ctx.where(r), rule)
                for k in muts:
                    if ins[k].el.k == "adt" and ins[k].el.adt in M:
                        ctx.each("%s leaves the marker armed%s" % (nm, tag), r, lambda s, env, g=g, k=k: still(ctx, s, env, g.args[k], M, ins[k].el.adt), rule, g=g)
        ctx.cfg = cfg
        rp = Repr(ctx)
        if not rp.bad:
            for op in ("enter", "precede"):
                r = ctx.root("event_parse", P + "::" + op)
                g = ctx.graph(r)
                if g is None or "ev" not in rp.en:
                    continue

                def opened(s, env, g=g):
                    n = mk("len", rp.of(ctx.init(g.args[0]), rp.evs))
                    i = ctx.ip.field(s.st, s.val, EN, 0, rp.en["ev"])
                    m = mk("len", ctx.ip.field(s.st, ctx.final(s, g.args[0]), P, 0, rp.evs))
                    if env.same(i, n) is True and env.same(m, add(n, I(1))) is True:
                        return None
                    return "marker for event %s of %s" % (show(env.norm(i), 5), show(env.norm(m), 5))
                ctx.each("%s opens a new construct%s" % (op, tag), r, opened, rule, g=g)
    ctx.cfg = "A"


def armed_drop(ctx, s, M):
    if s.kind != "return":
        return None
    for e in s.events:
        if e.name != "drop":
            continue
        v = e.args[0]
        t = e.tys[0] if e.tys else None
        if v.op == "adt" or t is None:
            out = []
            bombs(ctx, s.st, v, out, M)
        elif t.k == "adt" and (t.adt in M or t.adt in BOMBS):
            out = [(None, v)]
        else:
            continue
        for _, b in out:
            if b not in SAFE.values():
                return "drops %s with its bomb %s" % (show(v, 4), show(b, 4))
    return None


def fresh(ctx, s, M, g):
    out = []
    v = ctx.ip.deep(s.st, s.val)
    bombs(ctx, s.st, v, out, M)
    made = sum(1 for e in s.events if e.name == "bomb.new")
    given = [ctx.init(a) if a.op == "ref" else a for a in g.args]
    n = 0
    for holder, b in out:
        if b in ARMED.values():
            n += 1
        elif not (b.op == "fld" and b.a[0] in given) or sum(1 for _, x in out if x is b) > 1:
            return "gives a marker whose bomb is %s" % show(b, 4)
    if n > made:
        return "gives %d markers but arms %d" % (n, made)
    return None


def still(ctx, s, env, p, M, name):
    i = M[name]
    b0 = ctx.ip.field(s.st, ctx.init(p), name, 0, i)
    b1 = ctx.ip.field(s.st, ctx.final(s, p), name, 0, i)
    return None if env.same(b0, b1) is True else "the bomb becomes %s" % show(env.norm(b1), 4)
