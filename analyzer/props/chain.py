"""chain-map."""
from terms import *
import interp
import kit
import mir
from kit import PANIC, ANY, spec, sp
from props.common import *

CMAP = "chain_map::ChainMap"
SEQ = "mstd::SeqIter"


def mext(env, a, m):
    """the entries of m added to a"""
    if m.op == "mnew":
        return a
    if a.op == "mnew":
        return m
    if m.op == "minsert":
        return mk("minsert", mext(env, a, m.a[0]), m.a[1], m.a[2])
    return mk("mext", a, m)


def cmap(env, s):
    """the map a stack of layers stands for"""
    ip, st = env.ip, env.st
    if s.op == "arr":
        r = mk("mnew")
        for x in s.a[0]:
            r = mext(env, r, env.norm(x))
        return r
    if s.op == "push":
        return mext(env, cmap(env, s.a[0]), s.a[1])
    if s.op == "cat":
        r = mk("mnew")
        for x in s.a[0]:
            r = mext(env, r, cmap(env, x))
        return r
    n = ip.length(st, s)
    if ip.ask(st, eq0(n)) is True:
        return mk("mnew")
    if ip.ask(st, eq0(sub(n, I(1)))) is True:
        return env.norm(mk("elem", s, I(0)))
    if s.op == "store" and env.same(s.a[1], sub(n, I(1))) is True and s.a[2].op == "minsert" and env.same(s.a[2].a[0], mk("elem", s.a[0], s.a[1])) is True:
        return mk("minsert", cmap(env, s.a[0]), s.a[2].a[1], s.a[2].a[2])
    return mk("cmap", s)


kit.NORM["mext"] = mext
kit.NORM["cmap"] = cmap


def layers(ctx):
    fs = ctx.fields(CMAP)
    for i, f in enumerate(fs):
        t = f[1]
        if t.k == "adt" and t.adt == "std::Vec" and len(fs) == 1:
            e = t.args[0]
            if e.k == "adt" and e.adt in ("std::Rc", "std::Arc") and e.args[0].k == "adt" and e.args[0].adt == "std::HashMap":
                return i
    ctx.undecided(CMAP, "representation not recognised: %s" % [f[1].d for f in fs])
    return None


def deref(e):
    return e


# ------------------------------------------------------------------ C21
def c21(ctx):
    r1 = "types: what is reachable through the map's fields has no interior mutability and no raw pointer, so that shared storage can only be read"
    r2 = "operations of every function of the crate: nothing is written through a raw pointer, no unsafe function is called"
    r3 = "no mutable static"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        fs = ctx.fields(CMAP)
        if not fs:
            ctx.undecided(CMAP, "type not found")
            continue
        bad = []
        for name, t in (f[:2] for f in fs):
            for x in mir.inside(ctx.P, t):
                if mir.is_cell(x):
                    bad.append("field %s holds %s, which is changed through shared references" % (name, x.d))
                elif x.k == "ptr":
                    bad.append("field %s holds a raw pointer" % name)
        ctx.ob("shared storage is immutable" + tag, not bad, "; ".join(bad) or "%d fields" % len(fs), CMAP, r1)
        bodies = [(k, b) for k, b in ctx.P.bodies.items() if k[0] == "chain_map"]
        for k, b in bodies:
            us = sorted(set(mir.unsafe_ops(b)), key=lambda x: x[1])
            ctx.ob("%s has no unsafe operation%s" % (interp.fn_path(k[1]), tag), not us, "; ".join("%s at line %d" % u for u in us[:4]), b.loc, r2)
        st = [i["d"].canon for i in ctx.P.crates["chain_map"].items if i["kind"].startswith("Static") and (i.get("mut") or not i.get("freeze"))]
        ctx.ob("no mutable static" + tag, not st, ", ".join(st), "", r3)
    ctx.cfg = "A"
    # a clone has its own list of layers: the field is owned, and an operation changes nothing but its receiver
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        for r in ctx.api("chain_map", derived=True):
            if not r["ins"] or r["ins"][0].k != "ref" or r["ins"][0].mut:
                continue
            muts = [t for t in r["ins"][1:] if t.k == "ref" and t.mut and any(x.k == "adt" and x.adt == CMAP for x in mir.inside(ctx.P, t))]
            ctx.ob("%s takes no other map to change%s" % (r["d"].canon, tag), not muts, "", r["B"].loc, "signatures: a reading operation gets shared references to maps only")
    ctx.cfg = "A"


# ------------------------------------------------------------------ C22
def c22(ctx):
    rule = "loop relation with the reference operation over the layers, newest first"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        li = layers(ctx)
        if li is None:
            continue
        P = "c22%s/" % cfg
        stack = lambda q, v: q.norm(ctx.ip.field(q.st, v, CMAP, 0, li))

        def more(q, i, xs):
            return q(le0(add(sub(i, q.len(xs)), I(1))))

        # whether some layer has the key / an entry: forwards and backwards
        @spec(P + "fhas")
        def _(q, i, k, s, y, n):
            if not more(q, i, s):
                return n
            if q(q.norm(mk("mhas", q.elem(s, i), k))):
                return y
            return sp(P + "fhas", add(i, I(1)), k, s, y, n)

        @spec(P + "bhas")
        def _(q, n, k, s, y, no):
            if q(eq0(n)):
                return no
            if q(q.norm(mk("mhas", q.elem(s, sub(n, I(1))), k))):
                return y
            return sp(P + "bhas", sub(n, I(1)), k, s, y, no)

        @spec(P + "fempty")
        def _(q, i, s):
            if not more(q, i, s):
                return B(True)
            if not q(eq0(q.len(q.elem(s, i)))):
                return B(False)
            return sp(P + "fempty", add(i, I(1)), s)

        @spec(P + "bempty")
        def _(q, n, s):
            if q(eq0(n)):
                return B(True)
            if not q(eq0(q.len(q.elem(s, sub(n, I(1)))))):
                return B(False)
            return sp(P + "bempty", sub(n, I(1)), s)

        @spec(P + "bget")
        def _(q, n, k, s):
            if q(eq0(n)):
                return NONE
            m = q.elem(s, sub(n, I(1)))
            if q(q.norm(mk("mhas", m, k))):
                return some(q.norm(mk("mget", m, k)))
            return sp(P + "bget", sub(n, I(1)), k, s)

        @spec(P + "fget")
        def _(q, i, k, s, r):
            if not more(q, i, s):
                return r
            m = q.elem(s, i)
            if q(q.norm(mk("mhas", m, k))):
                return sp(P + "fget", add(i, I(1)), k, s, some(q.norm(mk("mget", m, k))))
            return sp(P + "fget", add(i, I(1)), k, s, r)

        # entries, newest layer first, each key once
        def it(opt, whole):
            nm = P + ("it1" if opt else "it2") + ("w" if whole else "")

            @spec(nm)
            def _(q, front, n, seen, s):
                # front: what is left of the layer being read
                if not q.is_(front, OPT, 1):
                    if q(eq0(n)):
                        return UNIT
                    m = q.elem(s, sub(n, I(1)))
                    return sp(nm, some(adt(SEQ, 0, (mk("mseq", m, "iter"), I(0), q.len(m)))), sub(n, I(1)), seen, s)
                r = q.norm(ctx.ip.field(q.st, front, OPT, 1, 0))
                xs = q.norm(mk("seq", r))
                if q(eq0(q.len(xs))):
                    return sp(nm, NONE, n, seen, s)
                e = q.elem(xs, I(0))
                k, v = q.norm(mk("*", q.fld(e, "", 0))), q.norm(mk("*", q.fld(e, "", 1)))
                at = [xs, I(0), q.len(xs)] if whole else [q.norm(ctx.ip.field(q.st, r, SEQ, 0, i)) for i in range(3)]
                rest = some(adt(SEQ, 0, (at[0], add(at[1], I(1)), at[2])))
                if opt and q(eq0(sub(q.len(s), I(1)))):
                    q.emit("entry", k, v)
                    return sp(nm, rest, n, seen, s)
                if q(q.norm(mk("mhas", seen, k))):
                    return sp(nm, rest, n, seen, s)
                q.emit("entry", k, v)
                return sp(nm, rest, n, q.norm(mk("minsert", seen, k, UNIT)), s)
            return nm

        # all layers merged, oldest first, then what the operation does
        def merge(then):
            nm = P + "merge/" + then

            @spec(nm)
            def _(q, i, acc, s, *a):
                if not more(q, i, s):
                    return sp(P + then, acc, *a)
                return sp(nm + "1", i, I(0), acc, s, *a)

            @spec(nm + "1")
            def _(q, i, j, acc, s, *a):
                m = q.elem(s, i)
                if q(le0(add(sub(j, q.len(m)), I(1)))):
                    return sp(nm + "1", i, add(j, I(1)), q.norm(mk("minsert", acc, mk("mkey", m, j), mk("mval", m, j))), s, *a)
                return sp(nm, add(i, I(1)), acc, s, *a)

            @spec(nm + "0")
            def _(q, s, *a):
                if q(eq0(sub(q.len(s), I(1)))):
                    return sp(P + then, q.elem(s, I(0)), *a)
                return sp(nm, I(0), mk("mnew"), s, *a)
            return nm + "0"

        # the same, newest first, an entry being kept when it is there: over the layers, or taking them off
        def older(then, taking):
            nm = P + ("taken/" if taking else "older/") + then

            @spec(nm)
            def _(q, n, acc, s, *a):
                if q(eq0(q.len(s) if taking else n)):
                    return sp(P + then, acc, *a)
                m = q.elem(s, sub(q.len(s) if taking else n, I(1)))
                if taking:
                    return sp(nm + "1", n, m, I(0), acc, q.norm(mk("pop", s)), *a)
                return sp(nm + "1", sub(n, I(1)), m, I(0), acc, s, *a)

            @spec(nm + "1")
            def _(q, n, m, j, acc, s, *a):
                if q(le0(add(sub(j, q.len(m)), I(1)))):
                    k = mk("mkey", m, j)
                    if not q(q.norm(mk("mhas", acc, k))):
                        acc = q.norm(mk("minsert", acc, k, mk("mval", m, j)))
                    return sp(nm + "1", n, m, add(j, I(1)), acc, s, *a)
                return sp(nm, n, acc, s, *a)

            @spec(nm + "0")
            def _(q, s, *a):
                if q(eq0(sub(q.len(s), I(1)))):
                    return sp(P + then, q.elem(s, I(0)), *a)
                return sp(nm, UNIT if taking else q.len(s), mk("mnew"), s, *a)
            return nm + "0"

        def merges(then):
            return [merge(then), older(then, True), older(then, False)]

        @spec(P + "done")
        def _(q, acc):
            return tup(UNIT, acc)

        @spec(P + "emptied")
        def _(q, acc):
            return mk("mnew")

        @spec(P + "remove")
        def _(q, acc, k):
            if q(q.norm(mk("mhas", acc, k))):
                return tup(some(q.norm(mk("mget", acc, k))), q.norm(mk("mremove", acc, k)))
            return tup(NONE, acc)

        @spec(P + "set")
        def _(q, acc, k, v):
            if q(q.norm(mk("mhas", acc, k))):
                return tup(UNIT, q.norm(mk("minsert", acc, k, v)))
            return tup(UNIT, acc)

        @spec(P + "getmut")
        def _(q, acc, k):
            if q(q.norm(mk("mhas", acc, k))):
                return some(q.norm(mk("mget", acc, k)))
            return NONE

        def out(kind):
            @spec(P + kind)
            def _(q, acc):
                return sp(P + kind + "1", I(0), mk("mseq", acc, kind))

            @spec(P + kind + "1")
            def _(q, j, xs):
                if not more(q, j, xs):
                    return UNIT
                e = q.elem(xs, j)
                k, v = q.fld(e, "", 0), q.fld(e, "", 1)
                q.emit("entry", k, v)
                return sp(P + kind + "1", add(j, I(1)), xs)
            return kind
        out("into")

        @spec(P + "mut")
        def _(q, acc):
            return tup(mk("mseq", acc, "mut"), acc)

        root = lambda n: ctx.root("chain_map", CMAP + "::" + n)
        wit = lambda n: ctx.root("w_chain_map", "w_chain_map::" + n) if ctx.P.crates.get("w_chain_map") else ctx.undecided(n, "the consumer of this operation does not compile against the crate")

        def entry(nm, f):
            kit.SPEC[P + nm] = f
            return sp(P + nm)
        cb = lambda e: ("entry",) + tuple(e.args[1:]) if e.name == "callback" else None
        val = lambda s: ctx.ip.deep(s.st, s.val)
        fin = lambda s, p: mk("cmap", ctx.ip.field(s.st, ctx.final(s, p), CMAP, 0, li))

        def do(name, r, specs, ev, ret):
            g = ctx.graph(r)
            if g is None:
                return
            st = lambda q: stack(q, ctx.init(g.args[0]))
            sps = [entry("%s/%d" % (name, i), lambda q, f=f: f(q, st(q), *g.args[1:])) for i, f in enumerate(specs)]
            ctx.sim_any(name + tag, r, sps, ev, lambda s: ret(s, g), rule, g=g)

        do("is_empty finds no entry in any layer", root("is_empty"),
           [lambda q, s: sp(P + "fempty", I(0), s), lambda q, s: sp(P + "bempty", q.len(s), s)], quiet, lambda s, g: s.val)
        ins = lambda y: lambda q, s, k, v: tup(y, q.norm(mk("minsert", mk("cmap", s), k, v)))

        def fill(q, s, k, v, y):
            return tup(y, q.norm(mk("minsert", mk("cmap", s), k, v)))

        @spec(P + "ins")
        def _(q, y, s, k, v):
            return sp(P + "ins1", I(0), mk("mnew"), y, s, k, v)

        @spec(P + "ins1")
        def _(q, i, m, y, s, k, v):
            # the new layer is built, then added on top
            return sp(P + "ins2", I(1), mk("minsert", mk("mnew"), k, v), y, s, k, v)

        @spec(P + "ins2")
        def _(q, i, m, y, s, k, v):
            return tup(y, q.norm(mk("mext", mk("cmap", s), m)))

        @spec(P + "insf")
        def _(q, i, s, k, v):
            if not more(q, i, s):
                return sp(P + "ins", B(True), s, k, v)
            if q(q.norm(mk("mhas", q.elem(s, i), k))):
                return sp(P + "ins", B(False), s, k, v)
            return sp(P + "insf", add(i, I(1)), s, k, v)

        @spec(P + "insb")
        def _(q, n, s, k, v):
            if q(eq0(n)):
                return sp(P + "ins", B(True), s, k, v)
            if q(q.norm(mk("mhas", q.elem(s, sub(n, I(1))), k))):
                return sp(P + "ins", B(False), s, k, v)
            return sp(P + "insb", sub(n, I(1)), s, k, v)
        do("insert says whether the key is new and adds it on top", root("insert"),
           [lambda q, s, k, v: sp(P + "insf", I(0), s, k, v), lambda q, s, k, v: sp(P + "insb", q.len(s), s, k, v)],
           quiet, lambda s, g: tup(s.val, fin(s, g.args[0])))
        do("get finds the newest value", root("get"),
           [lambda q, s, k: sp(P + "bget", q.len(s), q.norm(ctx.init(k)), s), lambda q, s, k: sp(P + "fget", I(0), q.norm(ctx.init(k)), s, NONE)],
           quiet, lambda s, g: val(s))
        do("iter gives each key once, with its newest value", wit("visit"),
           [lambda q, s, f, o=o, w=w: sp(it(o, w), NONE, q.len(s), mk("mnew"), s) for w in (True, False) for o in (True, False)],
           cb, lambda s, g: s.val)
        do("get_mut finds the merged value", root("get_mut"),
           [lambda q, s, k, m=m: sp(m, s, q.norm(ctx.init(k))) for m in merges("getmut")], quiet, lambda s, g: val(s))
        do("get_mut changes the stored value", wit("set"),
           [lambda q, s, k, v, m=m: sp(m, s, q.norm(ctx.init(k)), v) for m in merges("set")], quiet, lambda s, g: tup(s.val, fin(s, g.args[0])))
        do("remove removes the key from the merged map", root("remove"),
           [lambda q, s, k, m=m: sp(m, s, q.norm(ctx.init(k))) for m in merges("remove")], quiet, lambda s, g: tup(val(s), fin(s, g.args[0])))
        do("consolidate keeps every entry", root("consolidate"), [lambda q, s, m=m: sp(m, s) for m in merges("done")], quiet, lambda s, g: tup(s.val, fin(s, g.args[0])))

        def whole(s, g):
            """the map an iterator over mutable entries goes through, from its start"""
            v = s.val
            if v.op == "adt" and v.a[0] == "mstd::MapIterMut" and v.a[2][1] is I(0) and v.a[2][0].op == "ref":
                return tup(mk("mseq", ctx.ip.read(s.st, v.a[2][0].a[0]), "mut"), fin(s, g.args[0]))
            return tup(v, fin(s, g.args[0]))
        r = root("iter_mut")
        g = ctx.graph(r)
        if g is not None and not any(s.kind == "return" and s.val.op == "adt" and s.val.a[0] == "mstd::MapIterMut" for s in g.segs):
            ctx.undecided("iter_mut" + tag, "returns another kind of iterator")
        else:
            do("iter_mut gives every stored entry of the merged map", r, [lambda q, s, m=m: sp(m, s) for m in merges("mut")], quiet, whole)
        do("drain gives each key once, with its newest value", wit("visit_drain"), [lambda q, s, f, m=m: sp(m, s) for m in merges("into")], cb, lambda s, g: s.val)
        r = wit("visit_into")
        g = ctx.graph(r)
        if g is not None:
            ctx.sim_any("into_iter gives each key once, with its newest value" + tag, r,
                        [entry("into0/%d" % i, lambda q, m=m: sp(m, stack(q, g.args[0]))) for i, m in enumerate(merges("into"))], cb, lambda s: s.val, rule, g=g)
        # a sequence of entries, collected
        def coll(then):
            nm = P + "coll/" + then

            @spec(nm)
            def _(q, i, acc, xs, *a):
                if not more(q, i, xs):
                    return sp(P + then, acc, *a)
                e = q.elem(xs, i)
                return sp(nm, add(i, I(1)), q.norm(mk("minsert", acc, q.fld(e, "", 0), q.fld(e, "", 1))), xs, *a)
            return nm

        @spec(P + "onto")
        def _(q, acc, base):
            return tup(UNIT, q.norm(mk("mext", base, acc)))

        @spec(P + "just")
        def _(q, acc):
            return q.norm(mk("mext", mk("mnew"), acc))
        whole1 = lambda s: mk("cmap", ctx.ip.field(s.st, s.val, CMAP, 0, li))
        do("append adds the other map's entries on top and empties it", root("append"),
           [lambda q, s, o: tup(UNIT, mk("mext", mk("cmap", s), mk("cmap", stack(q, ctx.init(o)))), mk("mnew"))], quiet,
           lambda s, g: tup(s.val, fin(s, g.args[0]), fin(s, g.args[1])))
        do("extend adds the entries on top, in order", ctx.root("chain_map", "<chain_map::ChainMap as std::Extend>::extend"),
           [lambda q, s, xs: sp(coll("onto"), I(0), mk("mnew"), q.norm(mk("seq", xs)), mk("cmap", s)),
            lambda q, s, xs: sp(coll("done"), I(0), mk("cmap", s), q.norm(mk("seq", xs)))],
           quiet, lambda s, g: tup(s.val, fin(s, g.args[0])))
        for what, path in (("from_iter", "<chain_map::ChainMap as std::FromIterator>::from_iter"), ("from", "<chain_map::ChainMap as std::From>::from")):
            r = ctx.root("chain_map", path)
            g = ctx.graph(r)
            if g is not None:
                ctx.sim_any("%s collects the entries in order%s" % (what, tag), r,
                            [entry("c" + what, lambda q: sp(coll("just"), I(0), mk("mnew"), q.norm(mk("seq", g.args[0]) if what == "from_iter" else g.args[0])))],
                            quiet, whole1, rule, g=g)
        r = ctx.root("chain_map", "<chain_map::ChainMap as std::Default>::default")
        g = ctx.graph(r)
        if g is not None:
            ctx.sim_any("a default map is empty" + tag, r, [entry("default", lambda q: mk("mnew"))], quiet, whole1, rule, g=g)
        r = wit("clone")
        g = ctx.graph(r)
        if g is not None:
            ctx.sim_any("a clone has the same entries" + tag, r, [entry("clone", lambda q: mk("cmap", stack(q, ctx.init(g.args[0]))))], quiet, whole1, rule, g=g)
        do("drain leaves the map empty", root("drain"), [lambda q, s, m=m: sp(m, s) for m in merges("emptied")], quiet, lambda s, g: fin(s, g.args[0]))
    ctx.cfg = "A"
