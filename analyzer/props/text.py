"""str-process, identifier-case, char-name, code-h2-md-map, fmt-util, diagnostics, names."""
from terms import *
import kit
from kit import PANIC, ANY, Stuck, spec, sp
from props.common import *


# ------------------------------------------------------------------ C31
def c31(ctx):
    rule = "loop relation with the reference transducer over the characters"
    US = mk("char", "_")

    def s2p(q, s):
        return sp("c31/s2p", I(0), TRUE, S(""), call_chars(ctx, s))

    @spec("c31/s2p")
    def _(q, i, cap, out, cs):
        if not q(le0(add(sub(i, q.len(cs)), I(1)))):
            return out
        c = q.elem(cs, i)
        if q.eq(c, US):
            return sp("c31/s2p", add(i, I(1)), TRUE, out, cs)
        return sp("c31/s2p", add(i, I(1)), FALSE, scat([out, s1(mk("up", c) if q(cap) else mk("low", c))]), cs)

    def p2s(q, s):
        return sp("c31/p2s", I(0), S(""), call_chars(ctx, s))

    @spec("c31/p2s")
    def _(q, i, out, cs):
        if not q(le0(add(sub(i, q.len(cs)), I(1)))):
            return out
        c = q.elem(cs, i)
        if not q.eq(i, I(0)) and q(mk("cp", "is_ascii_uppercase", c)):
            out = scat([out, S("_")])
        return sp("c31/p2s", add(i, I(1)), scat([out, s1(mk("low", c))]), cs)

    # the same, by the character before
    @spec("c31/s2p/prev")
    def _(q, i, prev, out, cs):
        if not q(le0(add(sub(i, q.len(cs)), I(1)))):
            return out
        c = q.elem(cs, i)
        if q.eq(c, US):
            return sp("c31/s2p/prev", add(i, I(1)), c, out, cs)
        return sp("c31/s2p/prev", add(i, I(1)), c, scat([out, s1(mk("up", c) if q.eq(prev, US) else mk("low", c))]), cs)

    # the same: nothing has been written exactly when this is the first character
    @spec("c31/p2s/empty")
    def _(q, i, out, cs):
        if not q(le0(add(sub(i, q.len(cs)), I(1)))):
            return out
        c = q.elem(cs, i)
        if not q(eq0(q.len(out))) and q(mk("cp", "is_ascii_uppercase", c)):
            out = scat([out, S("_")])
        return sp("c31/p2s/empty", add(i, I(1)), scat([out, s1(mk("low", c))]), cs)
    for n, f, more in (("snake_to_pascal", s2p, lambda s: sp("c31/s2p/prev", I(0), US, S(""), call_chars(ctx, s))),
                       ("pascal_to_snake", p2s, lambda s: sp("c31/p2s/empty", I(0), S(""), call_chars(ctx, s)))):
        r = ctx.root("identifier_case", "identifier_case::" + n)
        g = ctx.graph(r)
        if g is None:
            continue
        kit.SPEC["c31/a/" + n] = lambda q, g=g, f=f: f(q, *g.args)
        kit.SPEC["c31/b/" + n] = lambda q, g=g, more=more: more(*g.args)
        ctx.sim_any(n + " is the reference transducer", r, [sp("c31/a/" + n), sp("c31/b/" + n)], lambda e: None, lambda s: s.val, rule, g=g)


def s1(c):
    import std
    return std.s1(c)


def call_chars(ctx, s):
    return mk("chars", ctx.init(s))


# ------------------------------------------------------------------ C32
def c32(ctx):
    rule = "final position and result equal the reference cursor's on every path"
    St, Mk = "str_process::St", "str_process::Marker"
    si = field_of(ctx, St, is_str, "the text")
    pi = field_of(ctx, St, is_uint, "the position")
    mi = field_of(ctx, Mk, is_uint, "the position")
    if None in (si, pi, mi):
        return
    n = len(ctx.fields(St))
    root = lambda nm: ctx.root("str_process", "str_process::St::" + nm)
    P = lambda st, v: ctx.ip.field(st, v, St, 0, pi)
    W = lambda st, v: ctx.ip.field(st, v, St, 0, si)

    def me(q, self_):
        v = ctx.init(self_)
        return q.fld(v, St, si), q.fld(v, St, pi)

    def text(q, s):
        return q.norm(mk("*", s))

    def obs(r):
        byref = r["ins"] and r["ins"][0].k == "ref" and r["ins"][0].mut

        def f(s):
            a = ctx.graph(r).args[0]
            v = ctx.final(s, a) if byref else ctx.init(a)
            x = ctx.ip.deep(s.st, s.val) if s.val is not None else UNIT
            return tup(x, W(s.st, v), P(s.st, v))
        return f
    inb = lambda q, i, t: q(le0(add(sub(i, q.len(t)), I(1))))

    def fn(nm, f):
        r = root(nm)
        if r is not None:
            ctx.fn("St::" + nm, r, f, obs(r), ev=lambda e: ("callback",) + tuple(e.args) if e.name == "callback" else None, rule=rule)

    def cur(q, self_):
        s, i = me(q, self_)
        t = text(q, s)
        return tup(some(q.elem(t, i)) if inb(q, i, t) else NONE, s, i)
    fn("cur", cur)
    fn("cur_idx", lambda q, a: tup(me(q, a)[1], *me(q, a)))
    fn("bump", lambda q, a: tup(UNIT, me(q, a)[0], add(me(q, a)[1], I(1))))

    def bump_while(q, a, cond):
        s, i = me(q, a)
        return sp("c32/bw", s, i, cond, WORLD)

    @spec("c32/bw")
    def _(q, s, i, f, w):
        t = text(q, s)
        if not inb(q, i, t):
            return tup(UNIT, s, i)
        b = q.elem(t, i)
        q.emit("callback", f, b)
        r = call("callback", f, b, w)
        if q(r):
            return sp("c32/bw", s, add(i, I(1)), mk("post", 0, r), mk("post", "w", r))
        return tup(UNIT, s, i)
    fn("bump_while", bump_while)

    def eat_prefix(q, a, p):
        s, i = me(q, a)
        t = text(q, s)
        p = ctx.init(p)
        e = add(i, q.len(p))
        if not q(le0(sub(e, q.len(t)))):
            return tup(FALSE, s, i)
        if q.eq(mk("sub", t, i, e), p):
            return tup(TRUE, s, e)
        return tup(FALSE, s, i)
    fn("eat_prefix", eat_prefix)

    def next_str(q, a):
        s, i = me(q, a)
        return sp("c32/ns", s, add(i, I(1)))

    @spec("c32/ns")
    def _(q, s, i):
        t = text(q, s)
        if q(mk("cb", t, i)):
            return tup(UNIT, s, i)
        if not inb(q, i, t):
            raise Stuck()
        return sp("c32/ns", s, add(i, I(1)))
    fn("next_str", next_str)
    mpos = lambda q, m: q.fld(m, Mk, mi)

    def did(q, a, m):
        s, i = me(q, a)
        return tup(TRUE if q(le0(add(sub(mpos(q, m), i), I(1)))) else FALSE, s, i)
    fn("did_bump_since", did)

    def since(q, a, m):
        s, i = me(q, a)
        t = text(q, s)
        if not q(le0(sub(mpos(q, m), i))) or not q(le0(sub(i, q.len(t)))):
            raise Stuck()
        return tup(mk("sub", t, mpos(q, m), i), s, i)
    fn("since", since)

    def nonempty(q, a, m):
        s, i = me(q, a)
        t = text(q, s)
        if not q(le0(add(sub(mpos(q, m), i), I(1)))):
            return PANIC
        if not q(le0(sub(i, q.len(t)))):
            raise Stuck()
        return tup(mk("sub", t, mpos(q, m), i), s, i)
    fn("non_empty_since", nonempty)
    r = root("mark")
    if r is not None:
        ctx.fn("St::mark", r, lambda q, a: me(q, a)[1], lambda s: ctx.ip.field(s.st, s.val, Mk, 0, mi), rule=rule)
    r = root("new")
    if r is not None:
        ctx.fn("St::new", r, lambda q, s: tup(s, I(0)), lambda s: tup(W(s.st, s.val), P(s.st, s.val)), rule=rule)
    # nothing else moves the position back
    known = {"cur", "cur_idx", "bump", "bump_while", "eat_prefix", "next_str", "did_bump_since", "since", "non_empty_since", "mark", "new"}
    for r in ctx.api("str_process"):
        nm = r["d"].canon
        if nm.split("::")[-1] in known or not r["ins"]:
            continue
        t = r["ins"][0]
        if t.k == "ref" and t.mut and t.el.k == "adt" and t.el.adt == St:
            def fwd(s, env, r=r):
                a = ctx.graph(r).args[0]
                if env.entails_le0(env.norm(sub(P(s.st, ctx.init(a)), P(s.st, ctx.final(s, a))))):
                    return None
                return "may move the position from %s to %s" % (show(P(s.st, ctx.init(a))), show(P(s.st, ctx.final(s, a))))
            ctx.each(nm + " does not move back", r, fwd, rule)


# ------------------------------------------------------------------ C33
def c33(ctx):
    rule = "a name is built from its argument exactly when that is not empty; accessors return the stored text"
    N = "str_util::Name"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release, all features")
        fs = ctx.fields(N)
        if not fs:
            ctx.undecided(N, "type not found")
            return
        ctx.ob("Name holds one private immutable string" + tag, len(fs) == 1 and not fs[0][2] and fs[0][1].k == "adt" and fs[0][1].adt == "smol_str::SmolStr",
               str([(f[1].d, f[2]) for f in fs]), N, "type-level")
        txt = lambda st, v: ctx.ip.field(st, v, N, 0, 0)
        empty = lambda q, s: q(eq0(q.len(s)))
        made_ = lambda s: adt(N, 0, (s,))
        ctx.fn("Name::try_new" + tag, ctx.root("str_util", "str_util::Name::try_new"), lambda q, s: NONE if empty(q, s) else some(made_(s)), rule=rule)
        ctx.fn("Name::new" + tag, ctx.root("str_util", "str_util::Name::new"), lambda q, s: PANIC if empty(q, s) else made_(s), rule=rule)
        deep = lambda s: ctx.ip.deep(s.st, s.val)
        self_text = lambda q, a: q.fld(ctx.init(a), N, 0)
        ctx.fn("Name::as_str" + tag, ctx.root("str_util", "str_util::Name::as_str"), self_text, deep, rule=rule)
        for r in ctx.P.crates["str_util"].roots:
            if r["B"] is None:
                continue
            nm, tr = r["d"].canon, (r["d"].trait or "")
            if not nm.startswith("<str_util::Name as "):
                continue
            t = tr.split("::")[-1].split("<")[0]
            if t in ("Borrow", "AsRef", "Deref"):
                ctx.fn("Name: %s gives the text%s" % (t, tag), r, self_text, deep, rule=rule)
            elif nm.endswith("std::fmt::Display>::fmt"):
                rendering(ctx, "Name: Display" + tag, r, lambda q, a, f: [self_text(q, a)], rule)
        bad = [i.get("trait", "") for i in ctx.impls("str_util", N) if i.get("trait", "").split("<")[0].split("::")[-1] in
               ("DerefMut", "BorrowMut", "AsMut", "Default", "IndexMut")]
        ctx.ob("no mutable view and no default of a name" + tag, not bad, "implements %s" % bad, N, "type-level")
        for r in ctx.api("str_util", derived=True):
            nm = r["d"].canon
            g = ctx.graph(r)
            if g is None or nm in ("str_util::Name::try_new", "str_util::Name::new"):
                continue

            def other(s, env, g=g, r=r):
                if s.val is not None:
                    for x in walk(s.val):
                        if x.op == "adt" and x.a[0] == N:
                            if env.ask(eq0(env.norm(mk("len", x.a[2][0])))) is not False:
                                return "makes a name from %s that may be empty" % show(x.a[2][0])
                for a, t in zip(g.args, r["ins"]):
                    if t.k == "ref" and t.mut and t.el.k == "adt" and t.el.adt == N and env.same(ctx.final(s, a), ctx.init(a)) is not True:
                        return "changes the name %s" % show(a)
                return None
            ctx.each("%s neither makes an empty name nor changes one%s" % (nm, tag), r, other, rule)
    ctx.cfg = "A"


# ------------------------------------------------------------------ C36
def c36(ctx):
    rule = "loop relation with the reference fold over the lines"
    r = ctx.root("code_h2_md_map", "code_h2_md_map::get")
    PRE, SUF = S("## `"), S("`")

    def get(q, md, f):
        return sp("c36/at", I(0), mk("mnew"), f, WORLD, mk("lines", ctx.init(md)), NONE, S(""))

    def pairs(q, md, f):
        return sp("c36/pair", I(0), mk("mnew"), f, WORLD, mk("lines", ctx.init(md)), NONE)

    # the text before the first heading does not matter
    @spec("c36/pair")
    def _(q, i, m, f, w, ls, cur):
        return at(q, i, m, f, w, ls, cur, None)

    @spec("c36/at")
    def _(q, i, m, f, w, ls, key, val):
        return at(q, i, m, f, w, ls, key, val)

    def at(q, i, m, f, w, ls, key, val):
        def opened():
            x = q.some(key)
            if x is None or val is not None:
                return x, val
            return q.fld(x, "", 0), q.fld(x, "", 1)

        def close():
            k, t = opened()
            if k is None:
                return m
            if q(q.norm(mk("mhas", m, k))):
                return PANIC
            return q.norm(mk("minsert", m, k, t))
        if not q(le0(add(sub(i, q.len(ls)), I(1)))):
            return close()
        line = q.elem(ls, i)
        h = None
        if q(mk("starts", line, PRE)):
            x = mk("strip_prefix", line, PRE)
            if q(mk("ends", x, SUF)):
                h = mk("strip_suffix", x, SUF)
        if h is None and val is None:
            k, t = opened()
            return sp("c36/pair", add(i, I(1)), m, f, w, ls, NONE if k is None else some(tup(k, scat([t, S("\n"), line]))))
        if h is None:
            return sp("c36/at", add(i, I(1)), m, f, w, ls, key, scat([val, S("\n"), line]))
        if q.eq(h, S("` ` `")):
            h = SUF
        m2 = close()
        if m2 is PANIC:
            return PANIC
        q.emit("callback", f, h)
        v = call("callback", f, h, w)
        if val is None:
            return sp("c36/pair", add(i, I(1)), m2, mk("post", 0, v), mk("post", "w", v), ls, some(tup(h, v)))
        return sp("c36/at", add(i, I(1)), m2, mk("post", 0, v), mk("post", "w", v), ls, some(h), v)
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        r = ctx.root("code_h2_md_map", "code_h2_md_map::get")
        g = ctx.graph(r)
        if g is None:
            continue
        kit.SPEC["c36/start"] = lambda q, g=g: get(q, *g.args)
        kit.SPEC["c36/start/pair"] = lambda q, g=g: pairs(q, *g.args)
        ctx.sim_any("get is the reference fold [%s]" % cfg, r, [sp("c36/start"), sp("c36/start/pair")],
                    lambda e: ("callback",) + tuple(e.args) if e.name == "callback" else None, lambda s: ctx.ip.deep(s.st, s.val), rule, g=g)
    ctx.cfg = "A"


# ------------------------------------------------------------------ C37
def c37(ctx):
    rule = "the text written is the concatenation of the parts, and a failed write is returned"
    sep = "fmt_util::sep_seq"

    def seq(q, sepv, it, item_ty):
        pass

    def loop(q, f0, sepv, its, ty):
        return sp("c37/seq", I(0), f0, sepv, its, S(ty))

    @spec("c37/seq")
    def _(q, i, f, sepv, its, ty):
        if not q(le0(add(sub(i, q.len(its)), I(1)))):
            return tup(ok(UNIT), f)
        if not q.eq(i, I(0)):
            f = fout(f, sepv)
        return sp("c37/seq", add(i, I(1)), fout(f, disp(q.elem(its, i), ty.a[0])), sepv, its, ty)
    r = ctx.root("fmt_util", sep)
    if r is not None:
        rendering(ctx, "sep_seq", r, lambda q, f, s, it: loop(q, ctx.init(f), ctx.init(s), mk("seq", it), "T"), rule, fi=0)
    r = ctx.root("fmt_util", "fmt_util::comma_seq")
    if r is not None:
        rendering(ctx, "comma_seq", r, lambda q, f, it: loop(q, ctx.init(f), S(", "), mk("seq", it), "T"), rule, fi=0)
    # positions and ranges
    PO, RA, DI, SE, CO = "text_pos::PositionUtf16", "text_pos::RangeUtf16", "diagnostic::Diagnostic", "diagnostic::Severity", "diagnostic::Code"

    def fi(a, name):
        for i, f in enumerate(ctx.fields(a)):
            if f[0] == name:
                return i
        ctx.undecided(a + "." + name, "field not found")
        return None

    def droot(crate, ty):
        return ctx.root(crate, "<%s as std::fmt::Display>::fmt" % ty)
    ln, co, st, en = fi(PO, "line"), fi(PO, "col"), fi(RA, "start"), fi(RA, "end")
    if None not in (ln, co, st, en):
        u = lambda v: disp(add(v, I(1)), "u32")
        rendering(ctx, "position", droot("text_pos", PO),
                  lambda q, a, f: [u(q.fld(ctx.init(a), PO, ln)), S(":"), u(q.fld(ctx.init(a), PO, co))], rule)

        def rng(q, a, f):
            s, e = q.fld(ctx.init(a), RA, st), q.fld(ctx.init(a), RA, en)
            if q.eq(q.fld(s, PO, ln), q.fld(e, PO, ln)):
                return [disp(s, PO), S("-"), u(q.fld(e, PO, co))]
            return [disp(s, PO), S("-"), disp(e, PO)]
        rendering(ctx, "range", droot("text_pos", RA), rng, rule)
        z = ctx.root("text_pos", "text_pos::RangeUtf16::zero")
        if z is not None:
            ctx.fn("RangeUtf16::zero starts and ends at the position", z, lambda q, p: tup(p, p),
                   lambda s: tup(ctx.ip.field(s.st, s.val, RA, 0, st), ctx.ip.field(s.st, s.val, RA, 0, en)), rule="both ends are the position")
    ra, me, se = fi(DI, "range"), fi(DI, "message"), fi(DI, "severity")
    if None not in (ra, me, se):
        def diag(q, a, f):
            v = ctx.init(a)
            return [disp(q.fld(v, DI, ra), RA), S(": "), disp(q.fld(v, DI, se), SE), S(": "), q.fld(v, DI, me)]
        rendering(ctx, "diagnostic", droot("diagnostic", DI), diag, rule)
    a = ctx.adt(SE)
    if a:
        names = [v[0] for v in a["variants"]]
        if "Warning" in names and "Error" in names:
            wi, ei = names.index("Warning"), names.index("Error")

            def sev(q, a, f):
                i = q.variant(ctx.init(a), SE)
                if i == wi:
                    return [S("warning")]
                if i == ei:
                    return [S("error")]
                raise Stuck()
            rendering(ctx, "severity", droot("diagnostic", SE), sev, rule)
            order(ctx, SE, wi, ei)
    code(ctx, CO, rule)


def order(ctx, SE, wi, ei):
    """Warning < Error under cmp and partial_cmp"""
    rule = "comparison of the two variants, with the variants assumed, is Less"
    ORD = "std::cmp::Ordering"
    for m, wrap in (("Ord>::cmp", False), ("PartialOrd>::partial_cmp", True)):
        r = ctx.root("diagnostic", "<%s as std::%s" % (SE, m))
        g = ctx.graph(r)
        if g is None:
            continue
        a, b = g.args
        good, why = True, ""
        for s in g.segs:
            st = s.st.copy()
            if not ctx.ip.assume_is(st, ctx.init(a), SE, wi) or not ctx.ip.assume_is(st, ctx.init(b), SE, ei):
                continue
            env = kit.Env(ctx.ip, st)
            if not env.feasible():
                continue
            v = s.val
            if wrap and v.op == "adt":
                v = v.a[2][0]
            v = env.norm(v)
            lessv = None
            if v.op == "ord":
                x, y = v.a
                d = lambda t: wi if t.a[0] is ctx.init(a) else ei if t.a[0] is ctx.init(b) else None
                if x.op == "discr" and y.op == "discr":
                    lessv = d(x) is not None and d(y) is not None and discr_of(ctx, SE, d(x)) < discr_of(ctx, SE, d(y))
            elif v.op == "adt":
                lessv = v.a[1] == 0
            if lessv is None:
                ctx.undecided("severity order", "comparison not recognised: " + show(v, 6))
                return
            if not lessv:
                good, why = False, "comparing a warning with an error gives " + show(v, 6)
        ctx.ob("a warning orders below an error (%s)" % m.split("::")[-1], good, why, ctx.where(r), rule)


def discr_of(ctx, a, vi):
    v = ctx.adt(a)["variants"][vi]
    return v[1] if len(v) > 1 and isinstance(v[1], int) else vi


def code(ctx, CO, rule):
    fs = ctx.fields(CO)
    if len(fs) != 1:
        ctx.undecided(CO, "representation not recognised")
        return
    num = lambda q, a: q.fld(ctx.init(a), CO, 0)
    keep = "the number is the stored one"
    ctx.fn("Code::n keeps the number", ctx.root("diagnostic", "diagnostic::Code::n"), lambda q, n: n, lambda s: ctx.ip.field(s.st, s.val, CO, 0, 0), rule=keep)
    ctx.fn("Code::as_i32 keeps the number", ctx.root("diagnostic", "diagnostic::Code::as_i32"), num, rule=keep)
    rendering(ctx, "code", ctx.root("diagnostic", "<%s as std::fmt::Display>::fmt" % CO), lambda q, a, f: [disp(num(q, a), "u16")], rule)
    r = ctx.root("diagnostic", "<%s as std::FromStr>::from_str" % CO)
    g = ctx.graph(r)
    if g is not None:
        def parsed(s, env):
            # the parsed number is u16's own parse of the whole argument
            ps = [e for e in s.events if e.name.endswith(("::parse", "::from_str"))]
            if len(ps) != 1 or env.same(ps[0].args[0], ctx.init(g.args[0])) is not True:
                return "does not parse exactly the argument"
            res = ps[0].res
            isok = env.ask_is(res, RES, 0)
            got = env.ask_is(s.val, RES, 0)
            if isok is None or got is None or isok is not got:
                return "returns %s when parsing gives %s" % (show(s.val, 6), show(res, 6))
            if isok:
                n = ctx.ip.field(s.st, ctx.ip.field(s.st, s.val, RES, 0, 0), CO, 0, 0)
                if env.same(n, ctx.ip.field(s.st, res, RES, 0, 0)) is not True:
                    return "the code holds %s, not the parsed number" % show(n, 6)
        ctx.each("Code parses to the number parsed", r, parsed, keep)
        ctx.each("parsing a Code does not panic", r, lambda s, e: "panics", keep, kinds=("panic",))


# ------------------------------------------------------------------ C27
def c27(ctx):
    import re
    r = ctx.root("char_name", "char_name::get_opt")
    g = ctx.graph(r)
    if g is None:
        return
    c = g.args[0]
    table = {}
    rule = "finite table read off the decision paths; injectivity and Sardinas-Patterson unique decodability of its names"
    for s in g.segs:
        if s.kind != "return":
            ctx.ob("get_opt always answers", False, "a path ends in " + s.kind, ctx.where(r), rule)
            return
        env = kit.Env(ctx.ip, s.st)
        if not env.feasible():
            continue
        k = env.ask_is(s.val, OPT, 1)
        if k is False:
            continue
        ch = [x for f, b in s.facts.items() if b and f.op == "eq" and c in f.a for x in f.a if x.op == "char"]
        v = ctx.ip.deep(s.st, ctx.ip.field(s.st, s.val, OPT, 1, 0)) if k else None
        if k is None or v.op != "str" or len(ch) != 1:
            ctx.undecided("the table of names", "a path returns %s for %s" % (show(s.val, 6), [show(x) for x in ch]))
            return
        table[ch[0].a[0]] = v.a[0]
    byname = {}
    dup = None
    for k, v in table.items():
        if v in byname:
            dup = (byname[v], k, v)
        byname[v] = k
    ctx.ob("different characters have different names", dup is None, dup and "%r and %r are both named %s" % dup or "%d names" % len(table), ctx.where(r), rule)
    bad = [(k, v) for k, v in table.items() if not re.fullmatch("[A-Z][A-Za-z0-9]*", v)]
    ctx.ob("every name is a capitalised ASCII identifier", not bad, "%s" % bad, ctx.where(r), rule)
    amb = sardinas_patterson(sorted(byname))
    ctx.ob("concatenated names are uniquely decodable", amb is None, amb and "ambiguous: %s" % amb or "%d code words" % len(byname), ctx.where(r), rule)
    rg = ctx.root("char_name", "char_name::get")

    def get(q, x):
        for ch, nm in table.items():
            if q.eq(x, mk("char", ch)):
                return S(nm)
        return PANIC
    ctx.fn("get agrees with get_opt and panics exactly when it gives nothing", rg, get, lambda s: ctx.ip.deep(s.st, s.val), rule="decision tree equality")


def sardinas_patterson(words):
    ws = set(words)
    if "" in ws:
        return "the empty name"
    cur = {b[len(a):] for a in ws for b in ws if a != b and b.startswith(a)}
    seen = set()
    while cur:
        hit = cur & ws
        if hit:
            return "dangling suffix %s is itself a name" % sorted(hit)[0]
        seen |= cur
        nxt = set()
        for d in cur:
            for w in ws:
                if w.startswith(d):
                    nxt.add(w[len(d):])
                if d.startswith(w):
                    nxt.add(d[len(w):])
        cur = nxt - seen
    return None
