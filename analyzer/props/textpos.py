"""text-pos, apply-changes."""
from terms import *
import kit
import std
import callgraph
import interp
from kit import PANIC, ANY, Stuck, spec, sp
from props.common import *

DB, P16, R16 = "text_pos::PositionDb", "text_pos::PositionUtf16", "text_pos::RangeUtf16"
LI = "line_index::LineIndex::"
LC, WLC, ENC = "line_index::LineCol", "line_index::WideLineCol", "line_index::WideEncoding"
UTF16 = adt(ENC, 0, ())


def index(ctx):
    return field_of(ctx, DB, lambda t: t.k == "adt" and t.adt == "line_index::LineIndex", "the line index")


def range_ends(ctx, st, r):
    return ctx.ip.field(st, r, "text_size::TextRange", 0, 0), ctx.ip.field(st, r, "text_size::TextRange", 0, 1)


def pos16(ctx, q, ix, ts):
    """position of an offset, or None"""
    a = call(LI + "try_line_col", ix, ts)
    lc = q.some(a)
    if lc is None:
        return None
    w = q.some(call(LI + "to_wide", ix, UTF16, lc))
    if w is None:
        return None
    return adt(P16, 0, (ctx.ip.field(q.st, w, WLC, 0, 0), ctx.ip.field(q.st, w, WLC, 0, 1)))


def c18(ctx):
    rule = "result of every path equals the componentwise conversion over the line index"
    i = index(ctx)
    if i is None:
        return
    for n, k in ((P16, 2), (R16, 2)):
        if len(ctx.fields(n)) != k:
            return ctx.undecided(n, "representation not recognised")
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        ix = lambda q, a: q.norm(ctx.ip.field(q.st, ctx.init(a), DB, 0, i))

        def opt(x):
            return NONE if x is None else some(x)

        def rt(n):
            return ctx.root("text_pos", "%s::%s" % (DB, n))

        def F(n, f, name, **k):
            r = rt(n)
            if r is not None:
                ctx.fn(name + tag, r, f, rule=rule, **k)
        F("new", lambda q, t: adt(DB, 0, (call(LI + "new", q.norm(ctx.init(t))),)), "PositionDb::new indexes the text")
        F("len", lambda q, a: call(LI + "len", ix(q, a)), "PositionDb::len is the text's")
        F("lines", lambda q, a, r: call(LI + "lines", ix(q, a), q.norm(r)), "PositionDb::lines are the index's")
        F("position_utf16", lambda q, a, ts: opt(pos16(ctx, q, ix(q, a), q.norm(ts))), "position_utf16 is the wide column of the offset's line")

        def rng(q, a, r):
            s, e = range_ends(ctx, q.st, q.norm(r))
            x = pos16(ctx, q, ix(q, a), s)
            if x is None:
                return NONE
            y = pos16(ctx, q, ix(q, a), e)
            return opt(None if y is None else adt(R16, 0, (x, y)))
        F("range_utf16", rng, "range_utf16 converts both ends, in order")

        def end(q, a):
            x = pos16(ctx, q, ix(q, a), call(LI + "len", ix(q, a)))
            if x is None:
                raise Stuck()          # the length is an offset of the text
            return x
        F("end_position_utf16", end, "end_position_utf16 is the position of the length")
        r = ctx.root("text_pos", R16 + "::zero")
        if r is not None:
            ctx.fn("RangeUtf16::zero is empty at the position" + tag, r, lambda q, p: adt(R16, 0, (q.norm(p), q.norm(p))), rule=rule)
        # back: the range is the pair of what text_size_utf16 gives
        r1, r2 = rt("text_size_utf16"), rt("text_range_utf16")
        g1 = ctx.graph(r1)
        if g1 is None or r2 is None:
            continue
        if g1.nodes:
            ctx.undecided("text_range_utf16", "text_size_utf16 has a loop")
            continue

        def back(q, a, r):
            ends = []
            for j in (0, 1):
                v = kit.inline(ctx.ip, g1, q, [a, q.norm(ctx.ip.field(q.st, r, R16, 0, j))])
                x = q.some(v)
                if x is None:
                    return NONE
                ends.append(q.norm(x))
            if not q.le(ends[0], ends[1]):
                return NONE
            return some(adt("text_size::TextRange", 0, tuple(ends)))
        ctx.fn("text_range_utf16 converts both ends, in order" + tag, r2, back, rule=rule)

        def enc(s, env):
            for t in walk(ctx.ip.deep(s.st, s.val)):
                if t.op == "call" and t.a[0].startswith(LI) and any(x.op == "adt" and x.a[0] == ENC and x.a[1] != 0 for x in t.a[1] if x.__class__ is T):
                    return "uses another wide encoding"
            for e in s.events:
                if e.name.startswith(LI) and any(x.__class__ is T and x.op == "adt" and x.a[0] == ENC and x.a[1] != 0 for x in e.args):
                    return "uses another wide encoding"
        ctx.each("text_size_utf16 reads UTF-16 columns" + tag, r1, enc, rule)
    ctx.cfg = "A"


# ------------------------------------------------------------------ C19
def converts(ctx, env, s, ix, pos, x):
    """complaint unless the facts of the path make x the place the position denotes"""
    u = env.norm(call(LI + "to_utf8", ix, UTF16, adt(WLC, 0, pos)))
    if env.ask_is(u, OPT, 1) is not True:
        return "an offset is returned without a UTF-8 column for the position"
    lc = ctx.ip.field(s.st, u, OPT, 1, 0)
    t = env.norm(call(LI + "try_line_col", ix, x))
    if env.ask_is(t, OPT, 1) is not True:
        return "the offset %s is returned without checking that it is in the text" % show(x, 5)
    back = ctx.ip.field(s.st, t, OPT, 1, 0)
    if env.same(back, lc) is True:
        return None
    f = lambda v, j: ctx.ip.field(s.st, v, LC, 0, j)
    for j in (0, 1):
        if env.same(f(back, j), f(lc, j)) is not True:
            # the offset was computed from the line's start: the column is on that line
            return "the offset %s is returned without checking that it has the position's %s" % (show(x, 5), ("line", "column")[j])
    return None


def denied(ctx, env, s, ix, pos):
    """the facts of the path show the position denotes no place (None: cannot tell)"""
    u = env.norm(call(LI + "to_utf8", ix, UTF16, adt(WLC, 0, pos)))
    k = env.ask_is(u, OPT, 1)
    if k is False:
        return True
    lc = ctx.ip.field(s.st, u, OPT, 1, 0)
    mine = lambda t: any(x is u or x is pos[1] or x is pos[0] for x in walk(t))
    for t, vi in s.isd.items():
        t = env.norm(t)
        if vi == 0 and t.op == "call" and t.a[0] in (LI + "line", LI + "try_line_col", LI + "offset") and mine(t):
            return True
    for f, b in s.facts.items():
        n = env.norm(f, top=False)
        if n.op == "le0" and lin_parts(n.a[0])[0] <= -UMAX["u32"] and mine(n):
            if not b:
                return True
            continue
        if n.op in ("eq", "eq0") and not b and mine(n) and any(x.op == "call" and x.a[0] == LI + "try_line_col" for x in walk(n)):
            return True
        # any other comparison with the line's or the text's end is taken for a bound check
        if n.op in ("le0", "lt") and mine(n) and any(x.op == "call" and x.a[0] in (LI + "line", LI + "len", LI + "offset") for x in walk(n)):
            return None
    return False


def c19(ctx):
    rule = "every path that returns an offset has checked that the offset lies in the text and has the position's line and column; every path that returns nothing has found that it does not"
    i = index(ctx)
    if i is None:
        return
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        for n, ends in (("text_size_utf16", 1), ("text_range_utf16", 2)):
            r = ctx.root("text_pos", "%s::%s" % (DB, n))
            g = ctx.graph(r)
            if g is None:
                continue
            if g.nodes:
                ctx.undecided(n, "has a loop")
                continue
            if any(s.kind == "return" and kit.Env(ctx.ip, s.st).ask_is(s.val, OPT, 1) is None and kit.Env(ctx.ip, s.st).feasible() for s in g.segs):
                # an Option handed on from elsewhere
                pass

            def places(s, env):
                a, p = g.args
                ix = env.norm(ctx.ip.field(s.st, ctx.init(a), DB, 0, i))
                ps = []
                for j in range(ends):
                    x = p if ends == 1 else ctx.ip.field(s.st, p, R16, 0, j)
                    ps.append(tuple(env.norm(ctx.ip.field(s.st, x, P16, 0, c)) for c in (0, 1)))
                return ix, ps

            def go(s, env, n=n, ends=ends):
                for e in s.events:
                    if e.name == "ovf":
                        return "arithmetic may overflow"
                if s.kind == "panic":
                    return "may panic (%s)" % show(s.val)
                ix, ps = places(s, env)
                k = env.ask_is(s.val, OPT, 1)
                if k is None:
                    return "returns %s, not established to be in the text" % show(env.norm(s.val), 6)
                if not k:
                    ds = [denied(ctx, env, s, ix, p) for p in ps]
                    if True in ds or None in ds:
                        return None
                    if ends == 2 and inverted(s, env):
                        return None
                    return "returns nothing for positions not shown to be outside the text"
                v = ctx.ip.field(s.st, s.val, OPT, 1, 0)
                xs = [v] if ends == 1 else list(range_ends(ctx, s.st, v))
                for p, x in zip(ps, xs):
                    m = converts(ctx, env, s, ix, p, env.norm(x))
                    if m:
                        return m
                if ends == 2 and env.ask(env.norm(le(xs[0], xs[1]))) is not True:
                    return "an inverted range is returned"
            ctx.each("%s converts exactly the positions in the text%s" % (n, tag), r, go, rule, kinds=("return", "panic"))
        for n in ("position_utf16", "range_utf16"):
            r = ctx.root("text_pos", "%s::%s" % (DB, n))
            if r is not None:
                ctx.each("%s does not panic%s" % (n, tag), r, lambda s, env: "may panic (%s)" % show(s.val), rule, kinds=("panic",))
    ctx.cfg = "A"


def inverted(s, env):
    """a comparison of the two ends decided the path"""
    for f, b in s.facts.items():
        n = env.norm(f, top=False)
        if n.op == "le0" and sum(1 for x in walk(n) if x.op == "call" and x.a[0] in (LI + "line", LI + "offset")) >= 1:
            return True
    return False


# ------------------------------------------------------------------ C20
CH = "apply_changes::Change"


def c20(ctx):
    rule = "loop relation with the sequential fold over the changes; typestate of the position index: every range is looked up in an index that agrees with the text on the lines it mentions"
    ri = field_of(ctx, CH, lambda t: t.k == "adt" and t.adt == OPT, "the range")
    ti = field_of(ctx, CH, lambda t: t.k == "adt" and t.adt.endswith("String"), "the text")
    if None in (ri, ti):
        return
    opaque = lambda p: p.startswith("text_pos::")
    isq = lambda n: n.startswith("text_pos::") and n.endswith("::text_range_utf16")
    isnew = lambda n: n.startswith("text_pos::") and n.endswith("::new")
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        r = ctx.root("apply_changes", "apply_changes::get")
        if r is None:
            continue
        g = ctx.opaque_graph(r, opaque, erase=lambda n: (0,) if isq(n) else ())
        if g is None:
            continue
        qn = [e.name for s in g.segs for e in s.events if isq(e.name)]
        if not qn:
            ctx.undecided("apply_changes::get", "resolves ranges in an unknown way")
            continue
        qn = qn[0]
        rng = lambda q, c: ctx.ip.field(q.st, c, CH, 0, ri)
        txt = lambda q, c: ctx.ip.field(q.st, c, CH, 0, ti)

        def step(q, c, ch):
            """the text after one change, or None"""
            o = rng(q, ch)
            if not q.is_(o, OPT, 1):
                return q.norm(txt(q, ch))
            x = call(qn, q.norm(ctx.ip.field(q.st, o, OPT, 1, 0)))
            if not q.is_(x, OPT, 1):
                return c
            a, b = range_ends(ctx, q.st, ctx.ip.field(q.st, x, OPT, 1, 0))
            return q.norm(mk("splice", c, a, b, txt(q, ch)))

        @spec("c20/apply")
        def _(q, i, c, xs):
            if not q(le0(add(sub(i, q.len(xs)), I(1)))):
                return tup(UNIT, c)
            return sp("c20/apply", add(i, I(1)), step(q, c, q.elem(xs, i)), xs)

        # after the last whole-text change every change has a range
        @spec("c20/rest")
        def _(q, i, c, xs):
            if not q(le0(add(sub(i, q.len(xs)), I(1)))):
                return tup(UNIT, c)
            ch = q.elem(xs, i)
            o = rng(q, ch)
            if not q.is_(o, OPT, 1):
                raise Stuck()
            return sp("c20/rest", add(i, I(1)), step(q, c, ch), xs)

        def tail(q, xs, k):
            return q.norm(mk("sub", xs, k, q.len(xs)))

        @spec("c20/back")
        def _(q, n, c, xs):
            if q(eq0(n)):
                return sp("c20/rest", I(0), c, tail(q, xs, I(0)))
            ch = q.elem(xs, sub(n, I(1)))
            if q.is_(rng(q, ch), OPT, 1):
                return sp("c20/back", sub(n, I(1)), c, xs)
            return sp("c20/rest", I(0), q.norm(txt(q, ch)), tail(q, xs, n))

        @spec("c20/forth")
        def _(q, i, k, c, xs):
            if not q(le0(add(sub(i, q.len(xs)), I(1)))):
                return sp("c20/rest", I(0), c, tail(q, xs, k))
            ch = q.elem(xs, i)
            if q.is_(rng(q, ch), OPT, 1):
                return sp("c20/forth", add(i, I(1)), k, c, xs)
            return sp("c20/forth", add(i, I(1)), add(i, I(1)), q.norm(txt(q, ch)), xs)
        c0, xs = ctx.init(g.args[0]), g.args[1]
        kit.SPEC["c20/a"] = lambda q: sp("c20/back", q.len(xs), c0, xs)
        kit.SPEC["c20/b"] = lambda q: sp("c20/forth", I(0), I(0), c0, xs)
        kit.SPEC["c20/c"] = lambda q: sp("c20/apply", I(0), c0, xs)
        ctx.sim_any("apply_changes::get is the sequential fold" + tag, r, [sp("c20/a"), sp("c20/b"), sp("c20/c")], quiet,
                    lambda s: tup(s.val, ctx.final(s, g.args[0])), rule, g=g)
        g2 = ctx.opaque_graph(r, opaque)
        if g2 is not None:
            bad, n = stale(ctx, g2, isq, isnew)
            ctx.ob("every range is looked up in a valid index" + tag, bad is None, bad or "%d look-ups" % n, ctx.where(r), rule)
    ctx.cfg = "A"


def stale(ctx, g, isq, isnew):
    """Claims at a loop head: ('fresh', db): the index is the text's; ('below', db, x): it agrees with the
    text on all lines before x.  Greatest fixpoint over the loop heads, then every look-up is checked."""
    con = g.args[0]
    views = {}
    sim = kit.Sim(ctx, g, sp("c20/a"), quiet, lambda s: s.val)

    def arrive(s):
        d = {}
        n = g.nodes[s.dst]
        for root, path in g.phi.get(s.dst, ()):
            if root not in n.mem and root.op not in ("der", "static"):
                continue
            l = mk("loc", root, path)
            p = ctx.ip.read(n, l)
            if p.op == "phi":
                d[p] = ctx.ip.read(s.st, l)
        return d

    def through(s, claims):
        """(claims at the end, complaint, look-ups)"""
        env = kit.Env(ctx.ip, s.st)
        if not env.feasible():
            return None, None, 0
        P = lambda x, i: ctx.ip.field(s.st, x, P16, 0, i)
        line = lambda r, j: env.norm(P(ctx.ip.field(s.st, r, R16, 0, j), 0))
        cl = set(claims)
        fresh = {}
        bad, looked = None, 0
        cur = None if s.src == "entry" else ctx.ip.root_read(g.nodes[s.src], mk("der", con))
        if s.src == "entry":
            cur = ctx.init(con)
        evs = list(s.events)
        last = {}
        for j, e in enumerate(evs):
            if isnew(e.name):
                cl.add(("fresh", env.norm(e.res), env.norm(e.args[0])))
            elif isq(e.name):
                looked += 1
                at = next((env.norm(x.args[0]) for x in evs[j + 1:] if x.name == "std::String::replace_range"), None)
                if at is None:
                    at = env.norm(ctx.final(s, con))
                db, r = env.norm(e.args[0]), e.args[1]
                ok_ = False
                for c in cl:
                    if env.same(c[1], db) is not True:
                        continue
                    if c[0] == "fresh" and env.same(c[2], at) is True:
                        ok_ = True
                    if c[0] == "below" and env.same(c[3], at) is True and env.ask(env.norm(lt(line(r, 1), c[2]))) is True:
                        ok_ = True
                if not ok_ and bad is None:
                    bad = "looks up %s in an index not known to agree with the text; on the path where %s" % (show(r, 5), ctx.facts(s))
                last[env.norm(e.res)] = (db, r)
            elif e.name == "std::String::replace_range":
                before, a, b, x = (env.norm(v) for v in e.args)
                src = None
                for res_, (db, r) in last.items():
                    p = ctx.ip.field(s.st, res_, OPT, 1, 0)
                    u, v = range_ends(ctx, s.st, p)
                    if env.same(u, a) is True and env.same(v, b) is True:
                        src = (db, r)
                after = env.norm(mk("splice", before, a, b, x))
                nc = set()
                if src is None:
                    if bad is None:
                        bad = "replaces %s..%s, which no look-up gave" % (show(a, 5), show(b, 5))
                else:
                    for c in cl:
                        if c[0] == "fresh" and env.same(c[2], before) is True:
                            nc.add(("below", c[1], line(src[1], 0), after))
                        if c[0] == "below" and env.same(c[3], before) is True and env.ask(env.norm(lt(line(src[1], 1), c[2]))) is True:
                            nc.add(("below", c[1], line(src[1], 0), after))
                cl = nc
        return cl, bad, looked

    def at_end(s, cl):
        env = kit.Env(ctx.ip, s.st)
        fin = env.norm(ctx.final(s, con))
        return [c for c in cl if env.same(c[2] if c[0] == "fresh" else c[3], fin) is True], env

    # candidate claims at each loop head
    cand = {}
    for k, n in g.nodes.items():
        ps = []
        for root, path in g.phi.get(k, ()):
            if root in n.mem:
                p = ctx.ip.read(n, mk("loc", root, path))
                if p.op == "phi" and p.a[0] is k:
                    ps.append(p)
        me = ctx.ip.root_read(n, mk("der", con))
        cand[k] = {("fresh", p, me) for p in ps} | {("below", p, x, me) for p in ps for x in ps if p is not x}
    while True:
        changed = False
        for s in g.segs:
            if s.kind != "node":
                continue
            cl, _, _ = through(s, cand[s.src] if s.src != "entry" else ())
            if cl is None:
                continue
            cl, env = at_end(s, cl)
            m = arrive(s)
            for c in list(cand[s.dst]):
                db = m.get(c[1], c[1])
                good = False
                for h in cl:
                    if env.same(h[1], db) is not True:
                        continue
                    if h[0] == "fresh":
                        good = True
                    elif c[0] == "below":
                        x = m.get(c[2], c[2])
                        if env.same(x, h[2]) is True or is_num(ctx, x) and env.ask(env.norm(le(x, h[2]))) is True:
                            good = True
                if not good:
                    cand[s.dst].discard(c)
                    changed = True
        if not changed:
            break
    n = 0
    for s in g.segs:
        _, bad, k = through(s, cand[s.src] if s.src != "entry" else ())
        n += k
        if bad:
            return bad, n
    return None, n


def is_num(ctx, x):
    return x.op in ("I", "lin") or x in ctx.ip.intterms
