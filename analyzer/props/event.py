"""event-parse: the parser's operations and what finishing hands to the sink."""
from terms import *
import time
import interp
import kit
from kit import PANIC, ANY, Stuck, spec, sp
from props.common import *

CR = "event_parse"
P, EN, EX, SV = CR + "::Parser", CR + "::Entered", CR + "::Exited", CR + "::Save"
EV = CR + "::Event"
BOMB = "drop_bomb::DropBomb"
TOK = "token::Token"


class Repr:
    """the roles of the private fields and of the event variants, read off the operations themselves"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = None
        try:
            self.find()
        except (IndexError, ValueError, KeyError, AttributeError) as e:
            self.bad = self.bad or "%s" % e
        if self.bad:
            ctx.undecided(P, "representation not recognised: " + self.bad)

    def need(self, c, what):
        if not c:
            self.bad = what
            raise ValueError(what)

    def g(self, name):
        r = self.ctx.root(CR, name)
        g = self.ctx.graph(r)
        self.need(g is not None, "no " + name)
        return g

    def rets(self, g):
        return [s for s in g.segs if s.kind == "return"]

    def fld(self, s, v, ad, i):
        return kit.Env(self.ctx.ip, s.st).norm(self.ctx.ip.field(s.st, v, ad, 0, i))

    def find(self):
        ctx = self.ctx
        fs = ctx.fields(P)
        self.n = len(fs)
        vec = [i for i, f in enumerate(fs) if f[1].d.startswith(("std::vec::Vec<", "alloc::vec::Vec<", "Vec<"))]
        sl = [i for i, f in enumerate(fs) if f[1].k == "ref" and f[1].el.k == "slice"]
        ints = [i for i, f in enumerate(fs) if is_uint(f[1])]
        self.need(len(vec) == 1 and len(sl) == 1, "fields of %s: %s" % (P, [f[1].d for f in fs]))
        self.evs, self.toks = vec[0], sl[0]
        # the position is what ends up behind the token bumped, or at the token peeked
        idx = set()
        for name, off in (("::bump", 1), ("::peek", 0)):
            g = self.g(P + name)
            for s in self.rets(g):
                env = kit.Env(ctx.ip, s.st)
                v = env.norm(s.val)
                if off == 0 and v.op == "adt" and v.a[0] == OPT and v.a[1] == 1:
                    v = v.a[2][0]
                if v.op == "elem":
                    idx |= {i for i in ints if env.same(self.fld(s, ctx.final(s, g.args[0]), P, i), add(v.a[1], I(off))) is True}
            if idx:
                break
        self.need(len(idx) == 1, "the position is %s of %s" % (idx, ints))
        self.pos = idx.pop()
        rest = [i for i in ints if i != self.pos]
        self.need(len(rest) <= 1, "more counters")
        self.cons = rest[0] if rest else None
        # event variants
        def pushed(name):
            g = self.g(name)
            out = []
            for s in self.rets(g):
                v = self.fld(s, ctx.final(s, g.args[0]), P, self.evs)
                if v.op == "push" and v.a[1].op == "adt" and v.a[1].a[0] == OPT and v.a[1].a[1] == 1:
                    e = v.a[1].a[2][0]
                    if e.op == "adt" and e.a[0] == EV:
                        out.append((s, g, v.a[0], e))
            self.need(len({x[3].a[1] for x in out}) == 1, "what %s records" % name)
            return out
        self.Token = pushed(P + "::bump")[0][3].a[1]
        self.Error = pushed(P + "::error")[0][3].a[1]
        xs = pushed(P + "::exit")
        self.Exit = xs[0][3].a[1]
        xs = [x for x in xs if x[2].op == "store" and x[2].a[2].op == "adt" and x[2].a[2].a[0] == OPT and x[2].a[2].a[1] == 1]
        self.need(xs, "exit records no start")
        s, g, base, e = xs[0]
        en = base.a[2].a[2][0]
        self.Enter = en.a[1]
        ks = [i for i, x in enumerate(en.a[2]) if x is g.args[2]]
        self.need(len(ks) == 1 and len(en.a[2]) == 2, "exit stores %s" % show(en, 5))
        self.kind, self.parent = ks[0], 1 - ks[0]
        self.need(len({self.Token, self.Error, self.Exit, self.Enter}) == 4, "event variants are not distinct")
        # markers
        fs = ctx.fields(EN)
        b = [i for i, f in enumerate(fs) if f[1].k == "adt" and f[1].adt == BOMB]
        self.need(len(b) == 1, "no bomb in %s" % EN)
        self.bomb = b[0]
        count = ("cons",) if self.cons is not None else ()
        g = self.g(P + "::enter")
        s = self.rets(g)[0]
        self.en = self.roles(s, g, s.val, EN, ("ev", "child") + count, skip=(self.bomb,))
        g = self.g(P + "::save")
        s = self.rets(g)[0]
        self.sv = self.roles(s, g, s.val, SV, ("pos", "ev") + count)
        g = self.g(P + "::exit")
        s = self.rets(g)[0]
        ex = {}
        left = []
        for i, f in enumerate(ctx.fields(EX)):
            v = self.fld(s, s.val, EX, i)
            if f[1].k == "bool":
                ex["empty"] = i
                continue
            for role, j in self.en.items():
                if v is mk("fld", g.args[1], EN, 0, j):
                    ex[role] = i
                    break
            else:
                left.append(i)
        self.ex = self.rest(EX, ex, left, ("ev",) + count)
        self.need("ev" in self.ex and "empty" in self.ex, "fields of %s: %s" % (EX, self.ex))

    def rest(self, ad, out, left, want):
        """the role nobody has is the field without one"""
        miss = [r for r in want if r not in out]
        fs = self.ctx.fields(ad)
        left = [i for i in left if is_uint(fs[i][1]) or "child" in miss]
        if len(miss) == 1 and len(left) == 1:
            out[miss[0]] = left[0]
        return out

    def roles(self, s, g, v, ad, want, skip=()):
        out = {}
        w = self.ctx.init(g.args[0])
        left = []
        for i, f in enumerate(self.ctx.fields(ad)):
            if i in skip:
                continue
            x = self.fld(s, v, ad, i)
            role = None
            if x is mk("len", self.of(w, self.evs)):
                role = "ev"
            elif self.cons is not None and x is self.of(w, self.cons):
                role = "cons"
            elif x is self.of(w, self.pos):
                role = "pos"
            elif x is NONE:
                role = "child"
            if role is None or role in out:
                left.append(i)
            else:
                out[role] = i
        return self.rest(ad, out, left, want)

    # terms
    def of(self, p, i):
        return mk("fld", p, P, 0, i)

    def parts(self, q, p):
        f = lambda i: q.norm(self.ctx.ip.field(q.st, p, P, 0, i)) if i is not None else I(0)
        return f(self.toks), f(self.pos), f(self.cons), f(self.evs)

    def toklist(self, q, toks):
        return q.norm(self.ctx.ip.read(q.st, toks.a[0])) if toks.op == "ref" else mk("*", toks)

    def event(self, v, *a):
        return adt(EV, v, a)

    def enter(self, kind, parent):
        a = [None, None]
        a[self.kind], a[self.parent] = kind, parent
        return adt(EV, self.Enter, tuple(a))

    def obs(self, s, p, pos=True):
        """observable state of the parser behind p at the end of a path"""
        w = self.ctx.final(s, p)
        f = lambda i: self.ctx.ip.field(s.st, w, P, 0, i) if i is not None else I(0)
        return tup(f(self.toks), f(self.pos) if pos else UNIT, f(self.cons), f(self.evs))

    def marker(self, s, v, ad, roles):
        return tup(*[self.ctx.ip.field(s.st, v, ad, 0, roles[k]) if k in roles else UNIT for k in ("ev", "cons", "pos", "child")])


def repr_(ctx):
    r = Repr(ctx)
    return None if r.bad else r


def at_most(p, toks, pos):
    return le0(sub(pos, mk("len", mk("*", toks))))


def parser_args(body, args):
    """(the parser, whether it is behind a reference) among the arguments"""
    for i, v in enumerate(args):
        t = body.locals[i + 1]
        if t.k == "adt" and t.adt == P:
            return v, False
        if t.k == "ref" and t.el.k == "adt" and t.el.adt == P:
            return mk("*", v), True
    return None, False


def establish(ctx):
    """Assume that the position is not past the end of the tokens, if every operation keeps it so
    (a save being used with the parser it was made from)."""
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        rp = Repr(ctx)
        if rp.bad:
            return False

        def entry(ip, st, body, args, rp=rp):
            p, _ = parser_args(body, args)
            if p is None:
                return
            st.facts[at_most(p, rp.of(p, rp.toks), rp.of(p, rp.pos))] = True
            for i, v in enumerate(args):
                if body.locals[i + 1].k == "adt" and body.locals[i + 1].adt == SV and "pos" in rp.sv:
                    st.facts[at_most(p, rp.of(p, rp.toks), mk("fld", v, SV, 0, rp.sv["pos"]))] = True
        ctx.ip.entry = entry
        ctx.graphs = {k: g for k, g in ctx.graphs.items() if k[0] != cfg}
        for r in ctx.api(CR):
            body = r["B"]
            args = [sym(body.names.get(i, "arg%d" % i)) for i in range(1, body.argc + 1)]
            p, behind = parser_args(body, args)
            makes = body.locals[0].k == "adt" and body.locals[0].adt == P
            if not makes and not behind:
                continue
            g = ctx.graph(r, quiet=True)
            if g is None:
                return False
            inv = kit.invariants(ctx.ip, g)
            for s in g.segs:
                if s.kind == "node":
                    continue
                st = kit.use_invariants(ctx.ip, s.st, inv.get(s.src, ()))
                if st is None:
                    continue
                env = kit.Env(ctx.ip, st)
                if not env.feasible() or s.kind != "return":
                    continue
                q = s.val if makes else ctx.final(s, g.args[0])
                f = lambda i: env.norm(ctx.ip.field(st, q, P, 0, i))
                toks = f(rp.toks)
                n = env.norm(mk("len", env.norm(ctx.ip.read(st, toks.a[0])) if toks.op == "ref" else mk("*", toks)))
                if not env.entails_le0(env.norm(sub(f(rp.pos), n))):
                    return False
    return True


def bounded(f):
    """run again with what is known about the position, if the check does not go through without"""
    def run(ctx):
        n = len(ctx.obs)
        info = f(ctx)
        first = ctx.obs[n:]
        if all(o["verdict"] is True for o in first) or time.process_time() > 120:
            return info
        try:
            if not establish(ctx):
                return info
            ctx.graphs = {}
            del ctx.obs[n:]
            info = f(ctx)
            if not all(o["verdict"] is True for o in ctx.obs[n:]):
                ctx.obs[n:] = first
        except (interp.Limit, interp.Unsupported):
            ctx.obs[n:] = first
        finally:
            for ip in ctx.ips.values():
                ip.entry = None
            ctx.cfg = "A"
        return info
    return run


def trivia(t):
    return call("Triviable::is_trivia", mk("fld", t, TOK, 0, 0))


def kind_of(ctx):
    fs = [f[0] for f in ctx.fields(TOK)]
    return fs.index("kind") if "kind" in fs else None


def cfgs(ctx):
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        rp = repr_(ctx)
        if rp is not None:
            yield rp, " [%s]" % ("debug" if cfg == "A" else "release"), cfg
    ctx.cfg = "A"


class Look:
    """reference for looking ahead, ending in finish(q, token or None, i, first, xs, end)"""

    def __init__(self, ctx, rp, N, finish, up=True, early=False, again=False):
        ki = kind_of(ctx)
        self.ctx, self.rp, self.N = ctx, rp, N

        def triv(q, toks, i):
            return q(q.norm(call("Triviable::is_trivia", q.norm(ctx.ip.field(q.st, q.elem(toks, i), TOK, 0, ki)))))

        def inb(q, i, xs):
            return q(q.norm(le0(add(sub(i, q.len(xs)), I(1)))))

        def at(q, i, k, n, toks, first, end):
            if inb(q, i, toks):
                return sp(N + "tok", q.elem(toks, i), i, k, n, toks, first, end)
            return sp(N + "none", i, k, n, toks, first, end)

        def count(k, n):
            return (add(k, I(1)), n) if up else (k, sub(n, I(1)))

        def more(q, k, n):
            return k is not n and q(q.norm(le0(add(sub(k, n), I(1)))))

        @spec(N + "first")
        def _(q, i, n, toks, end):
            if inb(q, i, toks) and triv(q, toks, i):
                return sp(N + "first", add(i, I(1)), n, toks, end)
            if again:
                return sp(N + "skip", i, I(0), n, toks, i, end)
            return at(q, i, I(0), n, toks, i, end)

        @spec(N + "tok")
        def _(q, t, i, k, n, toks, first, end):
            if more(q, k, n):
                return sp(N + "skip", add(i, I(1)), *count(k, n), toks, first, end)
            return finish(q, t, i, first, toks, end)

        @spec(N + "none")
        def _(q, i, k, n, toks, first, end):
            if not early and more(q, k, n):
                return sp(N + "skip", add(i, I(1)), *count(k, n), toks, first, end)
            return finish(q, None, i, first, toks, end)

        @spec(N + "skip")
        def _(q, i, k, n, toks, first, end):
            if inb(q, i, toks) and triv(q, toks, i):
                return sp(N + "skip", add(i, I(1)), k, n, toks, first, end)
            return at(q, i, k, n, toks, first, end)

    def start(self, q, p, n, *x):
        t, pos, c, e = self.rp.parts(q, p)
        return sp(self.N + "first", pos, n, self.rp.toklist(q, t), tup(t, pos, c, e, *x))


def looks(ctx, rp, name, root, n, finish, obs, rule, *extra):
    """the operation behaves as looking ahead by n(g) and then finish(q, tok, i, pos, xs, end); the position left
    when nothing is consumed is either where it was or at the current token"""
    g = ctx.graph(root)
    if g is None:
        return
    specs = []
    # with early, nothing is counted past the end; with again, the search starts over at the current token
    for (early, again), stay, up in ((e, s, u) for e in ((False, False), (True, False), (True, True)) for u in (True, False) for s in (False, True)):
        if n(g) is I(0) and (early and not again or not up):
            continue
        N = "%s/%s/%d/" % (ctx.pid, name, len(kit.SPEC))
        L = Look(ctx, rp, N, lambda q, tok, i, first, xs, end, stay=stay: finish(q, g, tok, i, end.a[0][1] if stay else first, xs, end), up, early, again)
        kit.SPEC[N + "entry"] = lambda q, L=L: L.start(q, ctx.init(g.args[0]), n(g))
        specs.append(sp(N + "entry"))
    ctx.sim_any(name, root, specs, quiet, lambda s: obs(s, g), rule, g=g)


# ------------------------------------------------------------------ C04
@bounded
def c04(ctx):
    rule = "loop relation with the reference: skip trivia, then step over one token and the trivia after it, as often as asked"
    for rp, tag, cfg in cfgs(ctx):
        ki = kind_of(ctx)

        def same(q, tok, pos, end):
            t, p, c, e = end.a[0]
            return tup(t, pos, c, e)
        both = lambda s, g: tup(s.val, rp.obs(s, g.args[0]))
        tok_ = lambda q, g, tok, i, pos, xs, end: tup(NONE if tok is None else some(tok), same(q, tok, pos, end))

        def at(k):
            def f(q, g, tok, i, pos, xs, end):
                r = tok is not None and q.eq(q.norm(ctx.ip.field(q.st, tok, TOK, 0, ki)), g.args[k])
                return tup(B(bool(r)), same(q, tok, pos, end))
            return f
        looks(ctx, rp, "peek gives the current token and changes nothing else" + tag, ctx.root(CR, P + "::peek"), lambda g: I(0), tok_, both, rule)
        looks(ctx, rp, "peek_n gives the token that many significant tokens ahead and changes nothing else" + tag, ctx.root(CR, P + "::peek_n"), lambda g: g.args[1], tok_, both, rule)
        looks(ctx, rp, "at compares the current token's kind and changes nothing else" + tag, ctx.root(CR, P + "::at"), lambda g: I(0), at(1), both, rule)
        looks(ctx, rp, "at_n compares the kind of the token ahead and changes nothing else" + tag, ctx.root(CR, P + "::at_n"), lambda g: g.args[1], at(2), both, rule)


# ------------------------------------------------------------------ C05
@bounded
def c05(ctx):
    rule = "loop relation with the reference: skip trivia, then consume the token there or record one error"
    for rp, tag, cfg in cfgs(ctx):
        ki = kind_of(ctx)
        both = lambda s, g: tup(s.val, rp.obs(s, g.args[0]))

        def consumed(q, i, end):
            t, p, c, e = end.a[0]
            return tup(t, add(i, I(1)), add(c, I(1)) if rp.cons is not None else I(0), q.norm(mk("push", e, some(rp.event(rp.Token)))))

        def failed_(q, pos, end, x):
            t, p, c, e = end.a[0]
            return tup(t, pos, c, q.norm(mk("push", e, some(rp.event(rp.Error, x)))))

        def bump(q, g, tok, i, pos, xs, end):
            if tok is None:
                return PANIC
            return tup(tok, consumed(q, i, end))

        def eat(q, g, tok, i, pos, xs, end):
            k = g.args[1]
            if tok is not None and q.eq(q.norm(ctx.ip.field(q.st, tok, TOK, 0, ki)), k):
                return tup(some(tok), consumed(q, i, end))
            return tup(NONE, failed_(q, pos, end, q.norm(call("Expected::expected", k))))
        looks(ctx, rp, "bump takes exactly the current token" + tag, ctx.root(CR, P + "::bump"), lambda g: I(0), bump, both, rule)
        looks(ctx, rp, "eat takes the current token when it is of the kind, else records one error" + tag, ctx.root(CR, P + "::eat"), lambda g: I(0), eat, both, rule)
        r = ctx.root(CR, P + "::error")

        def err_(q, p, x):
            t, pos, c, e = rp.parts(q, ctx.init(p))
            return tup(UNIT, failed_(q, pos, tup(t, pos, c, e), x))
        ctx.fn("error records one error" + tag, r, err_, lambda s, r=r: both(s, ctx.graph(r)), rule="values")


# ------------------------------------------------------------------ C06
@bounded
def c06(ctx):
    rule = "loop relation with the reference: search the events since the save for an error"
    for rp, tag, cfg in cfgs(ctx):
        N = "c06%s/" % cfg
        r = ctx.root(CR, P + "::ok_since")
        g = ctx.graph(r)
        if g is None:
            continue
        for k in ("pos", "ev") + (("cons",) if rp.cons is not None else ()):
            ctx.ob("a save holds the %s%s" % ({"pos": "position", "ev": "number of events", "cons": "number of consumed tokens"}[k], tag),
                   k in rp.sv, "fields of %s: %s" % (SV, rp.sv), ctx.where(ctx.root(CR, P + "::save")), "values stored by save")
        if not {"pos", "ev"} <= set(rp.sv):
            continue

        @spec(N + "scan")
        def _(q, i, save, end):
            t, p, c, e = end.a[0]
            if not q(q.norm(le0(add(sub(i, q.len(e)), I(1))))):
                return tup(B(True), end)
            x = q.elem(e, i)
            if q.is_(x, OPT, 1):
                v = q.norm(ctx.ip.field(q.st, x, OPT, 1, 0))
                if q.is_(v, EV, rp.Error):
                    f = lambda k: q.norm(ctx.ip.field(q.st, save, SV, 0, rp.sv[k])) if k in rp.sv else c
                    n = f("ev")
                    e2 = q.norm(mk("sub", e, I(0), n)) if q(q.norm(le0(sub(n, q.len(e))))) else e
                    return tup(B(False), tup(t, f("pos"), f("cons"), e2))
            return sp(N + "scan", add(i, I(1)), save, end)

        def entry(q):
            n = q.norm(ctx.ip.field(q.st, g.args[1], SV, 0, rp.sv["ev"]))
            end = tup(*rp.parts(q, ctx.init(g.args[0])))
            m = q.len(end.a[0][3])
            return sp(N + "scan", n if q(q.norm(le0(sub(n, m)))) else m, g.args[1], end)
        kit.SPEC[N + "entry"] = entry
        ctx.sim("ok_since answers no and restores exactly when an error was recorded since the save" + tag, r, sp(N + "entry"), quiet,
                lambda s: tup(s.val, rp.obs(s, g.args[0])), rule, g=g)
        r = ctx.root(CR, P + "::save")
        g2 = ctx.graph(r)
        ctx.fn("save changes nothing" + tag, r, lambda q, p: ctx.init(p), lambda s: ctx.final(s, g2.args[0]), rule=rule)


# ------------------------------------------------------------------ C08
@bounded
def c08(ctx):
    rule = "values: the count of consumed tokens is carried from the start of a construct to its end"
    for rp, tag, cfg in cfgs(ctx):
        if rp.cons is None:
            ctx.undecided("count of consumed tokens" + tag, "representation not recognised: no counter")
            continue
        c_of = lambda q, p: q.norm(rp.of(ctx.init(p), rp.cons))
        f = lambda s, v, ad, i: ctx.ip.field(s.st, v, ad, 0, i)
        ok_ = "cons" in rp.en and "cons" in rp.ex
        ctx.ob("markers carry the count of consumed tokens" + tag, ok_, "%s %s, %s %s" % (EN, rp.en, EX, rp.ex), ctx.where(ctx.root(CR, P + "::enter")), rule)
        if not ok_:
            continue
        cen, cex, emp = rp.en["cons"], rp.ex["cons"], rp.ex["empty"]
        keep = lambda s, p: f(s, ctx.final(s, p), P, rp.cons)
        r = ctx.root(CR, P + "::new")
        ctx.fn("a new parser has consumed nothing" + tag, r, lambda q, t: tup(I(0), mk("arr", ())), lambda s: tup(f(s, s.val, P, rp.cons), f(s, s.val, P, rp.evs)), rule=rule)
        for name in ("enter", "exit", "precede", "abandon", "error", "save"):
            r = ctx.root(CR, P + "::" + name)
            g = ctx.graph(r)
            if g is None:
                continue
            if name == "enter":
                ctx.fn("enter remembers the count" + tag, r, lambda q, p: tup(c_of(q, p), c_of(q, p)), lambda s, g=g: tup(f(s, s.val, EN, cen), keep(s, g.args[0])), rule=rule)
            elif name == "exit":
                def ex(q, p, en, k):
                    ev = q.norm(ctx.ip.field(q.st, en, EN, 0, rp.en["ev"]))
                    evs = q.norm(rp.of(ctx.init(p), rp.evs))
                    if not q(q.norm(le0(add(sub(ev, q.len(evs)), I(1))))) or q.is_(q.elem(evs, ev), OPT, 1):
                        raise Stuck()
                    c0 = q.norm(ctx.ip.field(q.st, en, EN, 0, cen))
                    return tup(q.norm(eq0(sub(c0, c_of(q, p)))), c0, c_of(q, p))
                ctx.fn("exit is empty when the count is the one at the start, and remembers it" + tag, r, ex,
                       lambda s, g=g: tup(f(s, s.val, EX, emp), f(s, s.val, EX, cex), keep(s, g.args[0])), rule=rule)
            elif name == "precede":
                ctx.each("a construct that precedes one starts with its count" + tag, r,
                         lambda s, env, g=g: None if env.same(f(s, s.val, EN, cen), mk("fld", g.args[1], EX, 0, cex)) is True and env.same(keep(s, g.args[0]), rp.of(ctx.init(g.args[0]), rp.cons)) is True
                         else "starts with %s" % show(env.norm(f(s, s.val, EN, cen)), 6), rule, g=g)
            elif name == "save":
                ctx.fn("save remembers the count" + tag, r, lambda q, p: c_of(q, p), lambda s: f(s, s.val, SV, rp.sv["cons"]) if "cons" in rp.sv else I(-1), rule=rule)
            else:
                ctx.each("%s consumes nothing%s" % (name, tag), r,
                         lambda s, env, g=g: None if env.same(keep(s, g.args[0]), rp.of(ctx.init(g.args[0]), rp.cons)) is True
                         else "the count becomes %s" % show(env.norm(keep(s, g.args[0])), 6), rule, g=g)
        ctx.fn("is_empty answers what exit found" + tag, ctx.root(CR, EX + "::is_empty"),
               lambda q, x: q.norm(mk("fld", ctx.init(x), EX, 0, emp)), rule=rule)
    counts(ctx)


def counts(ctx):
    """looking ahead, consuming and backtracking change the count as they say"""
    rule = "values: what each operation adds to the count of consumed tokens"
    for rp, tag, cfg in cfgs(ctx):
        if rp.cons is None:
            continue
        of = lambda s, g: ctx.ip.field(s.st, ctx.final(s, g.args[0]), P, 0, rp.cons)
        for name in ("peek", "peek_n", "at", "at_n", "bump", "eat", "ok_since"):
            r = ctx.root(CR, P + "::" + name)
            g = ctx.graph(r)
            if g is None:
                continue

            def check(s, env, g=g, name=name):
                old, new = rp.of(ctx.init(g.args[0]), rp.cons), of(s, g)
                v = env.norm(s.val)
                want = old
                if name == "bump" or (name == "eat" and v.op == "adt" and v.a[1] == 1):
                    want = add(old, I(1))
                if name == "ok_since" and v is B(False):
                    want = mk("fld", g.args[1], SV, 0, rp.sv["cons"]) if "cons" in rp.sv else UNIT
                if env.same(new, want) is True:
                    return None
                return "the count becomes %s, expected %s" % (show(env.norm(new), 6), show(want, 6))
            ctx.each("%s counts what it consumes%s" % (name, tag), r, check, rule, g=g)


# ------------------------------------------------------------------ C01, C02, C03
def machine(ctx, rp, N, show_, popping):
    """what finishing a parse does, as a transition system over the recorded events; show_ selects what is observed;
    what is pending to be entered is counted down, or taken off its end (popping)"""
    ki = kind_of(ctx)
    evp = lambda q, *a: q.emit(*a) if a[0] in show_ else None

    def inb(q, i, xs):
        return q(q.norm(le0(add(sub(i, q.len(xs)), I(1)))))

    def triv(q, toks, i):
        return q(q.norm(call("Triviable::is_trivia", q.norm(ctx.ip.field(q.st, q.elem(toks, i), TOK, 0, ki)))))
    fe = lambda q, e, v, i: q.norm(ctx.ip.field(q.st, e, EV, v, i))

    # common state of every place: the next event, the events, what is still to be entered, the first kind, how many
    # constructs are open, the position, and (never changing) the number of events and the tokens
    @spec(N + "main")
    def _(q, idx, evs, ten, fst, lev, pos, n, toks):
        if not q(q.norm(le0(add(sub(idx, n), I(1))))):
            if not q(eq0(lev)):
                raise Stuck()
            if q(q.norm(eq0(pos))) and q.is_(fst, OPT, 1):
                evp(q, "enter", q.norm(ctx.ip.field(q.st, fst, OPT, 1, 0)))
                evp(q, "exit")
            return UNIT
        if not inb(q, idx, evs):
            raise Stuck()
        x = q.elem(evs, idx)
        nxt = add(idx, I(1))
        evs1 = q.norm(mk("store", evs, idx, NONE))
        if not q.is_(x, OPT, 1):
            return sp(N + "main", nxt, evs1, ten, fst, lev, pos, n, toks)
        e = q.norm(ctx.ip.field(q.st, x, OPT, 1, 0))
        k = q.variant(e, EV)
        if k == rp.Error:
            evp(q, "error", fe(q, e, k, 0))
            return sp(N + "main", nxt, evs1, ten, fst, lev, pos, n, toks)
        if k == rp.Token:
            return sp(N + "eatT", nxt, evs1, ten, fst, lev, pos, n, toks)
        if k == rp.Exit:
            if q(eq0(lev)):
                raise Stuck()
            m = q.len(ten)
            if q(q.norm(eq0(m))):
                evp(q, "exit")
            else:
                ten = q.norm(mk("pop", ten))
            l2 = sub(lev, I(1))
            if q(q.norm(eq0(sub(l2, I(1))))):
                return sp(N + "eatX", nxt, evs1, ten, fst, l2, pos, n, toks)
            return sp(N + "main", nxt, evs1, ten, fst, l2, pos, n, toks)
        kd = fe(q, e, k, rp.kind)
        if not q.is_(fst, OPT, 1):
            fst = some(kd)
        return sp(N + "chase", fe(q, e, k, rp.parent), q.norm(mk("push", mk("arr", ()), kd)), nxt, evs1, ten, fst, lev, pos, n, toks)

    @spec(N + "chase")
    def _(q, par, kinds, nxt, evs, ten, fst, lev, pos, n, toks):
        if q.is_(par, OPT, 1):
            p = q.norm(ctx.ip.field(q.st, par, OPT, 1, 0))
            if not inb(q, p, evs):
                raise Stuck()
            x = q.elem(evs, p)
            evs1 = q.norm(mk("store", evs, p, NONE))
            if not q.is_(x, OPT, 1):
                return sp(N + "drain", UNIT if popping else q.len(kinds), kinds, nxt, evs1, ten, fst, lev, pos, n, toks)
            e = q.norm(ctx.ip.field(q.st, x, OPT, 1, 0))
            if q.variant(e, EV) != rp.Enter:
                raise Stuck()
            return sp(N + "chase", fe(q, e, rp.Enter, rp.parent), q.norm(mk("push", kinds, fe(q, e, rp.Enter, rp.kind))), nxt, evs1, ten, fst, lev, pos, n, toks)
        return sp(N + "drain", UNIT if popping else q.len(kinds), kinds, nxt, evs, ten, fst, lev, pos, n, toks)

    def more(q, j):
        return not q(q.norm(eq0(j)))

    @spec(N + "drain")
    def _(q, j, kinds, nxt, evs, ten, fst, lev, pos, n, toks):
        if not more(q, q.len(kinds) if popping else j):
            return sp(N + "main", nxt, evs, ten, fst, lev, pos, n, toks)
        if q(q.norm(eq0(lev))):
            return push(q, j, kinds, nxt, evs, ten, fst, lev, pos, n, toks)
        return sp(N + "eatE", j, kinds, nxt, evs, ten, fst, lev, pos, n, toks)

    def push(q, j, kinds, nxt, evs, ten, fst, lev, pos, n, toks):
        kd = q.elem(kinds, sub(q.len(kinds) if popping else j, I(1)))
        j, kinds = (j, q.norm(mk("pop", kinds))) if popping else (sub(j, I(1)), kinds)
        return sp(N + "drain", j, kinds, nxt, evs, q.norm(mk("push", ten, kd)), fst, add(lev, I(1)), pos, n, toks)

    def eating(c, after):
        """skip trivia, delivering it, then after"""
        @spec(N + "eat" + c)
        def _(q, *a):
            *pre, nxt, evs, ten, fst, lev, pos, n, toks = a
            if inb(q, pos, toks) and triv(q, toks, pos):
                return sp(N + "give" + c, I(0), *a)
            return after(q, *a)

        @spec(N + "give" + c)
        def _(q, j, *a):
            *pre, nxt, evs, ten, fst, lev, pos, n, toks = a
            if inb(q, j, ten):
                evp(q, "enter", q.elem(ten, j))
                return sp(N + "give" + c, add(j, I(1)), *a)
            evp(q, "token", q.elem(toks, pos))
            return sp(N + "eat" + c, *pre, nxt, evs, mk("arr", ()), fst, lev, add(pos, I(1)), n, toks)
    eating("E", push)
    eating("X", lambda q, *a: sp(N + "main", *a))

    def tok(q, nxt, evs, ten, fst, lev, pos, n, toks):
        if not inb(q, pos, toks):
            raise Stuck()
        return sp(N + "last", I(0), nxt, evs, ten, fst, lev, pos, n, toks)
    eating("T", tok)

    @spec(N + "last")
    def _(q, j, nxt, evs, ten, fst, lev, pos, n, toks):
        if inb(q, j, ten):
            evp(q, "enter", q.elem(ten, j))
            return sp(N + "last", add(j, I(1)), nxt, evs, ten, fst, lev, pos, n, toks)
        evp(q, "token", q.elem(toks, pos))
        return sp(N + "main", nxt, evs, mk("arr", ()), fst, lev, add(pos, I(1)), n, toks)


SINK = {"Sink::enter": "enter", "Sink::token": "token", "Sink::exit": "exit", "Sink::error": "error"}


def finishing(ctx, what, show_):
    rule = "loop relation with the reference machine over the recorded events, observing %s" % ", ".join(sorted(show_))
    for rp, tag, cfg in cfgs(ctx):
        N = "%s%s/" % (ctx.pid, cfg)
        r = ctx.root(CR, P + "::finish")
        g = ctx.graph(r)
        if g is None:
            continue

        def evmap(e):
            k = SINK.get(e.name)
            if k in show_:
                return (k,) + tuple(e.args[1:])

        specs = []
        for M in (N, N + "p"):
            machine(ctx, rp, M, show_, M != N)

            def entry(q, M=M):
                w = g.args[0]
                f = lambda i: q.norm(mk("fld", w, P, 0, i))
                e = f(rp.evs)
                return sp(M + "main", I(0), e, mk("arr", ()), NONE, I(0), I(0), q.len(e), q.norm(mk("*", f(rp.toks))))
            kit.SPEC[M + "entry"] = entry
            specs.append(sp(M + "entry"))
        ctx.sim_any(what + tag, r, specs, evmap, lambda s: s.val, rule, g=g)


def recording(ctx, which):
    """what the operations record, for finish to find"""
    rule = "values recorded on every path"
    for rp, tag, cfg in cfgs(ctx):
        ip = ctx.ip
        fl = lambda q, v, ad, i: q.norm(ip.field(q.st, v, ad, 0, i))
        inb = lambda q, i, xs: q(q.norm(le0(add(sub(i, q.len(xs)), I(1)))))

        def state(q, p, evs):
            t, pos, c, e = rp.parts(q, ctx.init(p))
            return tup(t, pos, c, q.norm(evs(e)))

        def root(name):
            r = ctx.root(CR, P + "::" + name)
            return r, ctx.graph(r)

        def new(q, t):
            return tup(t, mk("arr", ()))
        if "new" in which:
            r, g = root("new")
            ctx.fn("a new parser has the tokens and no events" + tag, r, new, lambda s: tup(ip.field(s.st, s.val, P, 0, rp.toks), ip.field(s.st, s.val, P, 0, rp.evs)), rule=rule)
        if "error" in which:
            r, g = root("error")
            ctx.fn("error records the error" + tag, r, lambda q, p, x: state(q, p, lambda e: mk("push", e, some(rp.event(rp.Error, x)))), lambda s, g=g: rp.obs(s, g.args[0]), rule=rule)
        if "enter" not in which:
            continue
        ctx.ob("an open construct remembers where it started%s" % tag, "ev" in rp.en and "ev" in rp.ex, "%s %s, %s %s" % (EN, rp.en, EX, rp.ex), ctx.where(root("enter")[0]), rule)
        if "child" not in rp.en:
            ctx.undecided("precede and abandon" + tag, "representation not recognised: what a construct precedes is not remembered in it")
            continue
        ev, ch, xe = rp.en["ev"], rp.en["child"], rp.ex["ev"]
        r, g = root("enter")

        def enter(q, p):
            n = q.len(q.norm(rp.of(ctx.init(p), rp.evs)))
            return tup(n, NONE, state(q, p, lambda e: mk("push", e, NONE)))
        ctx.fn("enter leaves a place for the start" + tag, r, enter, lambda s, g=g: tup(ip.field(s.st, s.val, EN, 0, ev), ip.field(s.st, s.val, EN, 0, ch), rp.obs(s, g.args[0])), rule=rule)
        r, g = root("exit")

        def exit_(q, p, en, k):
            i = fl(q, en, EN, ev)
            e = q.norm(rp.of(ctx.init(p), rp.evs))
            if not inb(q, i, e) or q.is_(q.elem(e, i), OPT, 1):
                raise Stuck()
            return tup(i, state(q, p, lambda e: mk("push", mk("store", e, i, some(rp.enter(k, NONE))), some(rp.event(rp.Exit)))))
        ctx.fn("exit records the start where the construct was entered, and the end" + tag, r, exit_, lambda s, g=g: tup(ip.field(s.st, s.val, EX, 0, xe), rp.obs(s, g.args[0])), rule=rule)
        r, g = root("precede")

        def precede(q, p, ex):
            i = fl(q, ex, EX, xe)
            e = q.norm(rp.of(ctx.init(p), rp.evs))
            if not inb(q, i, e):
                raise Stuck()
            x = q.elem(e, i)
            if not q.is_(x, OPT, 1):
                raise Stuck()
            y = q.norm(ip.field(q.st, x, OPT, 1, 0))
            if q.variant(y, EV) != rp.Enter or q.is_(q.norm(ip.field(q.st, y, EV, rp.Enter, rp.parent)), OPT, 1):
                raise Stuck()
            k = q.norm(ip.field(q.st, y, EV, rp.Enter, rp.kind))
            n = q.len(e)
            return tup(n, some(i), state(q, p, lambda e: mk("push", mk("store", e, i, some(rp.enter(k, some(n)))), NONE)))
        ctx.fn("precede makes the new construct the parent of the finished one" + tag, r, precede, lambda s, g=g: tup(ip.field(s.st, s.val, EN, 0, ev), ip.field(s.st, s.val, EN, 0, ch), rp.obs(s, g.args[0])), rule=rule)
        r, g = root("abandon")

        def abandon(q, p, en):
            i = fl(q, en, EN, ev)
            e = q.norm(rp.of(ctx.init(p), rp.evs))
            if not inb(q, i, e) or q.is_(q.elem(e, i), OPT, 1):
                raise Stuck()
            c = fl(q, en, EN, ch)
            same = state(q, p, lambda e: e)
            if not q.is_(c, OPT, 1):
                return same
            c = q.norm(ip.field(q.st, c, OPT, 1, 0))
            if not inb(q, c, e):
                raise Stuck()
            x = q.elem(e, c)
            if not q.is_(x, OPT, 1):
                raise Stuck()
            y = q.norm(ip.field(q.st, x, OPT, 1, 0))
            if q.variant(y, EV) != rp.Enter:
                raise Stuck()
            k = q.norm(ip.field(q.st, y, EV, rp.Enter, rp.kind))
            return state(q, p, lambda e: mk("store", e, c, some(rp.enter(k, NONE))))
        ctx.fn("abandon forgets the construct, and that it was to precede one" + tag, r, abandon, lambda s, g=g: rp.obs(s, g.args[0]), rule=rule)


@bounded
def c01(ctx):
    recording(ctx, {"new"})
    finishing(ctx, "finish hands over the tokens like the reference", {"token"})


@bounded
def c02(ctx):
    recording(ctx, {"new", "enter"})
    finishing(ctx, "finish enters and exits like the reference", {"enter", "exit", "token"})


@bounded
def c03(ctx):
    recording(ctx, {"new", "error"})
    finishing(ctx, "finish reports the errors like the reference", {"error"})
    sink(ctx, "errors")


# ------------------------------------------------------------------ C09
RS, RE = CR + "::RowanSink", CR + "::Error"
GNB, RANGE = "rowan::GreenNodeBuilder", "text_size::TextRange"


class SinkRepr:
    """where the tree sink keeps its builder, the range and kind of the last token, the finished errors and the pending ones"""

    def __init__(self, ctx):
        self.ctx, self.bad = ctx, None
        r = ctx.root(CR, "<%s as std::Default>::default" % RS)
        g = ctx.graph(r)
        fs = ctx.fields(RS)
        ss = [s for s in g.segs if s.kind == "return"] if g else []
        if len(ss) != 1 or not fs:
            self.bad = "no default"
            return
        p = {}

        def walk_(v, path):
            k = None
            if v.op == "call":
                k = "builder"
            elif v.op == "adt" and v.a[0].endswith("TextRange"):
                k = "range"
            elif v is NONE:
                k = "kind"
            elif v.op == "arr" and not v.a[0]:
                if len(path) == 1:
                    k = "errors" if "Error<" in fs[path[0][2]][1].d else "pending"
            elif v.op == "tuple":
                for i, x in enumerate(v.a[0]):
                    walk_(x, path + (("", 0, i),))
                return
            elif v.op == "adt":
                for i, x in enumerate(v.a[2]):
                    walk_(x, path + ((v.a[0], v.a[1], i),))
                return
            if k is None or k in p:
                self.bad = "field at %s" % (path,)
            p[k] = path
        walk_(ctx.ip.deep(ss[0].st, ss[0].val), ())
        if set(p) != {"builder", "range", "kind", "errors", "pending"}:
            self.bad = "fields %s" % sorted(map(str, p))
        self.p = p
        en = [f[0] for f in ctx.fields(RE)]
        if sorted(en) != ["inner", "kind", "range"]:
            self.bad = "fields of %s: %s" % (RE, en)
        self.en = en

    def get(self, st, v, k):
        for ad, vi, i in self.p[k]:
            v = self.ctx.ip.field(st, v, ad, vi, i)
        return v

    def all(self, st, v):
        return tup(*[self.get(st, v, k) for k in ("builder", "range", "kind", "errors", "pending")])

    def error(self, rng, kind, inner):
        d = {"range": rng, "kind": kind, "inner": inner}
        return adt(RE, 0, tuple(d[n] for n in self.en))


def sink(ctx, what):
    rule = "values, and a loop relation with the reference: every pending error becomes an error at the current range, in order"
    ip = ctx.ip
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        if not ctx.roots(CR, RS + "::finish"):
            if cfg == "B":
                ctx.undecided(RS, "no tree sink")
            continue
        rp = SinkRepr(ctx)
        if rp.bad:
            ctx.undecided(RS, "representation not recognised: " + rp.bad)
            continue
        N = "%ssink%s/" % (ctx.pid, cfg)
        errors_only = what == "errors"
        tree = (lambda b: UNIT) if errors_only else (lambda b: b)

        def pack(q, b, rng, kind, errs, pend):
            return tup(tree(b), rng, kind, errs, pend)

        def obs(st, v):
            b, rng, kind, errs, pend = rp.all(st, v).a[0]
            return tup(tree(b), rng, kind, errs, pend)

        def start(q, p):
            v = ctx.init(p)
            return [q.norm(x) for x in rp.all(q.st, v).a[0]]

        @spec(N + "flush")
        def _(q, j, b, rng, kind, errs, pend, fin):
            if q(q.norm(le0(add(sub(j, q.len(pend)), I(1))))):
                e = rp.error(rng, kind, q.elem(pend, j))
                return sp(N + "flush", add(j, I(1)), b, rng, kind, q.norm(mk("push", errs, e)), pend, fin)
            if fin is TRUE:
                return tup(UNIT if errors_only else call("rowan::SyntaxNode::new_root", call(GNB + "::finish", b)), errs)
            return pack(q, b, rng, kind, errs, mk("arr", ()))

        def post(name, b, *a):
            return mk("post", 0, call(GNB + "::" + name, b, *a))
        r = ctx.root(CR, "<%s as Sink>::token" % RS)
        g = ctx.graph(r)
        if g is not None:
            ki = kind_of(ctx)
            tfs = [f[0] for f in ctx.fields(TOK)]

            def token(q):
                b, rng, kind, errs, pend = start(q, g.args[0])
                t = g.args[1]
                k, text = q.norm(mk("fld", t, TOK, 0, ki)), q.norm(mk("*", mk("fld", t, TOK, 0, tfs.index("text"))))
                end = q.norm(ip.field(q.st, rng, RANGE, 0, 1))
                rng2 = adt(RANGE, 0, (end, add(end, q.len(text))))
                b2 = post("token", b, mk("call", "std::Into::into", (k, mk("str", "rowan::SyntaxKind"))), text)
                if q(q.norm(call("Triviable::is_trivia", k))):
                    return pack(q, b2, rng2, some(k), errs, pend)
                return sp(N + "flush", I(0), b2, rng2, some(k), errs, pend, B(False))
            kit.SPEC[N + "token"] = token
            ctx.sim("a token is added once, moves the range, and takes the pending errors if significant" + tag, r, sp(N + "token"), quiet,
                    lambda s, g=g: obs(s.st, ctx.final(s, g.args[0])), rule, g=g)
        r = ctx.root(CR, RS + "::finish")
        g2 = ctx.graph(r)
        if g2 is not None:
            def fin(q):
                b, rng, kind, errs, pend = [q.norm(x) for x in rp.all(q.st, g2.args[0]).a[0]]
                return sp(N + "flush", I(0), b, rng, kind, errs, pend, B(True))
            kit.SPEC[N + "finish"] = fin
            ctx.sim("finishing gives the tree and all errors" + tag, r, sp(N + "finish"), quiet,
                    lambda s: tup(UNIT if errors_only else ip.field(s.st, s.val, "", 0, 0), ip.field(s.st, s.val, "", 0, 1)), rule, g=g2)
        for name in ("enter", "exit", "error"):
            r = ctx.root(CR, "<%s as Sink>::%s" % (RS, name))
            g3 = ctx.graph(r)
            if g3 is None:
                continue

            def op(q, p, x=None, name=name):
                b, rng, kind, errs, pend = start(q, p)
                if name == "error":
                    pend = q.norm(mk("push", pend, x))
                elif name == "enter":
                    b = post("start_node", b, mk("call", "std::Into::into", (x, mk("str", "rowan::SyntaxKind"))))
                else:
                    b = post("finish_node", b)
                return pack(q, b, rng, kind, errs, pend)
            ctx.fn({"error": "an error waits for the next significant token", "enter": "a node is started", "exit": "a node is finished"}[name] + tag,
                   r, op, lambda s, g3=g3: obs(s.st, ctx.final(s, g3.args[0])), rule=rule)
        r = ctx.root(CR, "<%s as std::Default>::default" % RS)
        z = adt(RANGE, 0, (I(0), I(0)))
        ctx.fn("a new sink is at the start, with no errors" + tag, r, lambda q: tup(z, NONE, mk("arr", ()), mk("arr", ())),
               lambda s: tup(*[rp.get(s.st, s.val, k) for k in ("range", "kind", "errors", "pending")]), rule=rule)
    ctx.cfg = "A"


def c09(ctx):
    sink(ctx, "tree")
