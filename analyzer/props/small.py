"""uniq, idx, text-size-util, always, fast-hash, elapsed."""
from terms import *
import kit
import callgraph
from props import cross
from kit import PANIC, ANY, cases

U32 = 1 << 32


def made(t, path):
    """fresh values of a struct in t"""
    return [x for x in walk(t) if x.op == "adt" and x.a[0] == path]


def int_bits(t):
    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
    return w.get(t.name, 0) if t.k == "uint" else 0


# ------------------------------------------------------------------ C34
def c34(ctx):
    rule = "the counter strictly grows by a constant with each id and the id is the counter plus a constant; no other function writes the counter or makes an id"
    mk_ = ctx.root("uniq", "uniq::UniqMk::mk")
    if mk_ is None:
        return
    U, M = "uniq::Uniq", "uniq::UniqMk"
    steps = set()

    def pred(s, env):
        g = ctx.graph(mk_)
        old = ctx.ip.field(s.st, ctx.init(g.args[0]), M, 0, 0)
        new = ctx.ip.field(s.st, ctx.final(s, g.args[0]), M, 0, 0)
        rid = ctx.ip.field(s.st, s.val, U, 0, 0)
        k = env.norm(sub(new, old))
        c = env.norm(sub(rid, old))
        steps.add((k, c))
        if k.op != "I" or k.a[0] < 1:
            return "the counter goes from %s to %s, so a later id can repeat" % (show(old), show(new))
        if c.op != "I":
            return "the id is %s, not a fixed distance from the counter %s" % (show(rid), show(old))
    ctx.each("UniqMk::mk steps the counter", mk_, pred, rule)
    if len(steps) > 1 and len({c for k, c in steps}) > 1:
        ctx.ob("UniqMk::mk same offset on every path", False, "ids are at different distances from the counter on different paths", ctx.where(mk_), rule)
    for nm in (U, M):
        fs = ctx.fields(nm)
        ctx.ob(nm + " has one private counter of at least 32 bits", len(fs) == 1 and not fs[0][2] and int_bits(fs[0][1]) >= 32, str([(f[0], f[1].d, f[2]) for f in fs]), nm, "type-level")
    bad = [i["trait"] for i in ctx.impls("uniq", M) if i.get("trait", "").split("::")[-1] in ("Clone", "Copy", "ToOwned", "DerefMut", "BorrowMut", "AsMut")]
    ctx.ob("UniqMk cannot be copied", not bad, "implements %s" % bad, M, "type-level")
    # who can make an id or move the counter
    for r in ctx.api("uniq", derived=True):
        if r is mk_:
            continue
        g = ctx.graph(r)
        if g is None:
            continue
        nm = r["d"].canon

        def other(s, env, r=r, g=g):
            for x in made(s.val, U):
                return "makes the id %s without going through the maker" % show(x)
            for x in made(s.val, M):
                v = x.a[2][0]
                if v.op != "I":
                    return "makes a maker starting at %s" % show(v)
            for a, t in zip(g.args, r["ins"]):
                if t.k == "ref" and t.mut and t.el.k == "adt" and t.el.adt in (M, U):
                    if env.same(ctx.final(s, a), ctx.init(a)) is not True:
                        return "changes %s" % show(a)
        ctx.each("%s neither makes ids nor moves a counter" % nm, r, other, rule)


# ------------------------------------------------------------------ C35
def keeps(ctx, cr, b, f, t):
    """whether a narrowing cast in the function is only reached with numbers that fit (None: cannot tell)"""
    base = cross.base_of(b.key)
    P = ctx.P
    if cr == "syntax_gen" or f.k == "char":
        return None
    api = {(n, r["B"].key): r for n, c in P.crates.items() if n != "mstd" and not n.startswith("w_") for r in c.roots if r["B"] is not None and (r["reach"] or r["d"].trait)}
    own = [r for k, r in api.items() if cross.base_of(k[1]) == base]
    if not own:
        cg = callgraph.of(P)
        own = [api[x] for x in sorted(cg.reaching(lambda y: cross.base_of(y[1]) == base)) if x in api]
        own = [r for r in own if cross.nearest(cg, (r["B"].crate.name, r["B"].key), base, api)]
    if not own:
        return None
    for r in own:
        if ctx.graph(r, quiet=True) is None:
            return None
    return ctx.ip.casts.get((base, f.d, t.d))


def c35(ctx):
    same_or_panic = "the result is the argument itself, or the path panics"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")

        def exact(crate, name, obs):
            r = ctx.root(crate, name)
            if r is None:
                return

            def pred(s, env):
                g = ctx.graph(r)
                v = obs(s, env)
                if env.same(v, g.args[0]) is not True:
                    return "returns %s for %s" % (show(env.norm(v)), show(g.args[0]))
            ctx.each(name + " keeps the number" + tag, r, pred, same_or_panic)

            def pan(s, env):
                w = fits(ctx.graph(r).args[0], "u32")
                if env.ask(w) is not False:
                    return "panics although the number fits"
            ctx.each(name + " panics only when it does not fit" + tag, r, pan, same_or_panic, kinds=("panic",))
        fld = lambda p: (lambda s, env: ctx.ip.field(s.st, s.val, p, 0, 0))
        exact("idx", "idx::Idx::new", fld("idx::Idx"))
        exact("idx", "idx::Idx::new_u32", fld("idx::Idx"))
        exact("text_size_util", "text_size_util::mk_text_size", lambda s, e: s.val)
        r = ctx.root("idx", "idx::Idx::to_usize")

        def tou(s, env):
            g = ctx.graph(r)
            want = ctx.ip.field(s.st, g.args[0], "idx::Idx", 0, 0)
            if env.same(s.val, want) is not True:
                return "returns %s, the index is %s" % (show(s.val), show(want))
        ctx.each("Idx::to_usize gives the number back" + tag, r, tou, same_or_panic)
        ctx.each("Idx::to_usize never panics" + tag, r, lambda s, e: "panics", same_or_panic, kinds=("panic",))
        for name, top, w in (("always::usize_to_u32", U32 - 1, "u32"), ("always::u32_to_usize", (1 << 64) - 1, "usize")):
            r = ctx.root("always", name)
            if r is None:
                continue
            g = ctx.graph(r)

            def conv(s, env):
                n = g.args[0]
                f = env.ask(fits(n, w)) if w == "u32" else True
                if f is True or (f is None and env.same(s.val, n) is True):
                    return None if env.same(s.val, n) is True else "returns %s for %s that fits" % (show(s.val), show(n))
                if f is None:
                    return "returns %s whether or not it fits" % show(s.val)
                return None if env.same(s.val, I(top)) is True else "returns %s for a number that does not fit, not the maximum" % show(s.val)
            ctx.each(name + " exact or saturated" + tag, r, conv, "same number, or the maximum when it does not fit")

            def pan(s, env):
                f = env.ask(fits(g.args[0], w)) if w == "u32" else True
                if cfg == "B":
                    return "panics in release"
                if f is not False:
                    return "panics although the number fits"
            ctx.each(name + " panics only in debug and only when it does not fit" + tag, r, pan, "", kinds=("panic",))
    # every crate, every body: no narrowing or sign-changing cast, no wrapping arithmetic
    narrowing(ctx)
    ctx.cfg = "A"


WRAP = ("wrapping_", "overflowing_", "unchecked_")


def narrowing(ctx):
    import interp
    W = interp._Run.WIDTH
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        n = 0
        for (cr, key), b in sorted(ctx.P.bodies.items()):
            if cr == "mstd":
                continue
            for blk in b.blocks:
                if blk is None:
                    continue
                for st in blk[0]:
                    if st[0] != "=" or st[2]["k"] != "cast" or st[2]["ck"] != "IntToInt":
                        continue
                    n += 1
                    f, t = b.crate.types[st[2]["from"]], b.crate.types[st[2]["ty"]]
                    if f.k in ("bool", "adt"):
                        continue
                    bits = lambda t: 32 if t.k == "char" else W.get(t.name, 64)
                    lossy = bits(f) > bits(t) or (f.k != t.k and f.k == "int") or (t.k == "int" and f.k == "uint" and bits(f) >= bits(t)) or (t.k == "char" and f.name != "u8")
                    if lossy:
                        c = st[2].get("a", {})
                        const = c.get("v") if c.get("k") == "c" else None
                        if isinstance(const, int) and not isinstance(const, bool) and 0 <= const < (1 << (bits(t) - 1)):
                            continue
                        if bits(f) == bits(t) == 64:
                            continue
                        ctx.ob("no lossy cast in %s::%s" % (cr, fn_of(b)), keeps(ctx, cr, b, f, t), "casts %s to %s" % (f.d, t.d), "%s:%s" % (b.loc, key), "no narrowing integer cast of a number not known to fit")
                t = blk[1]
                if t["k"] == "call" and "fn" in t["f"]:
                    d = b.crate.defs[t["f"]["fn"]["def"]]
                    if d.crate in ("core", "std") and d.name.startswith(WRAP) and not d.name.startswith("wrapping_sh"):
                        ctx.ob("no wrapping arithmetic in %s::%s" % (cr, fn_of(b)), False, "calls " + d.name, b.loc, "no wrapping arithmetic in any body")
        ctx.ob("no lossy integer cast in any crate [%s]" % cfg, True, "%d integer casts in %d bodies" % (n, len(ctx.P.bodies)), "", "no narrowing integer cast or wrapping arithmetic in any body")


def fn_of(b):
    return b.key.split("@")[0].split("<")[0]


# ------------------------------------------------------------------ C44
def c44(ctx):
    rule = "the result holds the given value and the receiver's location"
    r = ctx.root("text_size_util", "text_size_util::WithRange::wrap")
    both(ctx, r, "text_size_util::WithRange", "text_size_util::WithRange", rule, lambda t: t.k == "adt" and t.adt.endswith("TextRange"))
    r = ctx.root("paths", "paths::PathId::wrap")
    if r is not None:
        W = "paths::WithPath"
        fs = ctx.fields(W)
        loc = [i for i, f in enumerate(fs) if f[1].k == "adt" and f[1].adt == "paths::PathId"]

        def f(q, self_, val):
            return tup(self_, val)

        def obs(s):
            o = [ctx.ip.field(s.st, s.val, W, 0, i) for i in range(len(fs))]
            return tup(o[loc[0]], *[x for i, x in enumerate(o) if i != loc[0]])
        if r["ins"][0].k == "ref":
            f2 = lambda q, s_, v: tup(ctx.init(s_), v)
        else:
            f2 = f
        ctx.fn("PathId::wrap", r, f2, obs, rule=rule)


def both(ctx, r, P, W, rule, isloc):
    if r is None:
        return
    fs = ctx.fields(W)
    loc = [i for i, f in enumerate(fs) if isloc(f[1])][0]
    val = [i for i in range(len(fs)) if i != loc][0]

    def f(q, self_, v):
        me = ctx.init(self_) if r["ins"][0].k == "ref" else self_
        return tup(q.fld(me, P, loc), v)

    def obs(s):
        return tup(ctx.ip.field(s.st, s.val, W, 0, loc), ctx.ip.field(s.st, s.val, W, 0, val))
    ctx.fn("WithRange::wrap", r, f, obs, rule=rule)
