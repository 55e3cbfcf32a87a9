"""pattern-match."""
from terms import *
import interp
import kit
import accel
import callgraph
from kit import PANIC, ANY, Stuck, spec, sp
from props.common import *

CR = "pattern_match"
LANG, PAT, RAW, CON, CHECK, CERR = [CR + "::" + x for x in ("Lang", "Pat", "RawPat", "ConPat", "Check", "CheckError")]


def un(t):
    while t.k == "ref":
        t = t.el
    return t


def is_vec(t, el=None):
    return t.k == "adt" and t.adt == "std::Vec" and (el is None or el(t.args[0]))


def is_set(t):
    return t.k == "adt" and t.adt.endswith("HashSet")


class Roles:
    """the crate's own functions and types, by their signatures"""

    def __init__(self, ctx):
        self.ctx = ctx
        c = ctx.P.crates[CR]
        self.rs = [r for r in c.roots if r["B"] is not None]
        pat = is_adt(PAT)
        typed = lambda t: is_vec(t, lambda e: e.k == "tuple" and len(e.els) == 2 and pat(e.els[0]))
        rows = [n for n, a in ctx.P.adts.items() if n.startswith(CR + "::") and len(a["variants"]) == 1 and len(a["variants"][0][2]) == 1
                and is_vec(a["variants"][0][2][0][1], lambda e: e.k == "adt" and e.adt.startswith(CR + "::") and e.adt != PAT)]
        self.matrix = rows[0] if len(rows) == 1 else None
        mtx = is_adt(self.matrix)
        self.row = ctx.fields(self.matrix)[0][1].args[0].adt if self.matrix else None
        self.collect = self.one("collecting indices", lambda i, o: len(i) == 2 and is_set(un(i[0])) and pat(un(i[1])))
        self.expand = self.one("expanding or-patterns", lambda i, o: len(i) == 2 and i[0].k == "ref" and is_vec(un(i[0]), is_adt(CON)) and pat(i[1]))
        self.push = self.one("adding a row", lambda i, o: len(i) == 2 and i[0].k == "ref" and mtx(un(i[0])) and is_vec(i[1], pat))
        self.special = self.one("specialisation", lambda i, o: len(i) == 4 and is_adt(CON)(un(i[2])) and o.k == "adt" and o.adt.endswith("Result")
                                and o.args[0].k == "adt" and o.args[0].adt == OPT and typed(o.args[0].args[0]))
        self.useful = self.one("usefulness", lambda i, o: len(i) == 5 and is_set(un(i[1])) and mtx(un(i[3])) and typed(i[4]))

    def one(self, what, p):
        out = []
        for r in self.rs:
            try:
                if p(r["ins"], r["out"]):
                    out.append(r)
            except (AttributeError, IndexError, TypeError):
                pass
        return out[0] if len(out) == 1 else None

    def name(self, r):
        return interp.fn_path(r["B"].key) if r else None

    def graph(self, r, opaque):
        names = {self.name(x) for x in opaque if x is not None}
        return self.ctx.opaque_graph(r, lambda p: p in names)


# what of the arguments (cx, ac, depth, mtx, val) and (cx, ty, pat, con) a property looks at
KEEP = {
    "C10": ((0,), (0,)),
    "C11": ((0, 1), (0,)),
    "C12": ((0, 2, 3, 4), (0, 1, 2, 3)),
    "C13": ((0,), (0,)),
}
SEE = {"C10": ((), ()), "C11": ((1,), ()), "C12": ((2, 3, 4), (1, 2, 3)), "C13": ((), ())}


def is_clone(r):
    c = r["d"].canon
    return c.startswith("<" + CR + "::") and c.endswith(" as std::Clone>::clone")


class Model:
    """the reference: the matrix algorithm, one function at a time, the others by name"""

    def __init__(self, ctx, pid):
        self.ctx, self.pid = ctx, pid
        self.ok = False
        R = self.R = Roles(ctx)
        for k in ("matrix", "row", "collect", "expand", "push", "special", "useful"):
            if getattr(R, k) is None:
                ctx.undecided("pattern_match: " + k, "the parts of the algorithm are not recognised")
                return
        row = ctx.adt(R.row)
        self.empty = [i for i, v in enumerate(row["variants"]) if not v[2]]
        self.full = [i for i, v in enumerate(row["variants"]) if v[2]]
        if len(self.empty) != 1 or len(self.full) != 1:
            ctx.undecided(R.row, "representation not recognised")
            return
        self.empty, self.full = self.empty[0], self.full[0]
        fs = row["variants"][self.full][2]
        self.nonempty = None
        if len(fs) == 1 and fs[0][1].k == "adt":
            self.nonempty = fs[0][1].adt
            fs = ctx.fields(self.nonempty)
        a = [i for i, f in enumerate(fs) if is_vec(f[1], is_adt(PAT))]
        b = [i for i, f in enumerate(fs) if is_adt(CON)(f[1])]
        if len(fs) != 2 or len(a) != 1 or len(b) != 1:
            ctx.undecided(R.row, "representation not recognised")
            return
        self.rpats, self.rcon = a[0], b[0]
        pat = [f[0] for f in ctx.fields(PAT)]
        con = [f[0] for f in ctx.fields(CON)]
        raw = [v[0] for v in ctx.adt(RAW)["variants"]]
        try:
            self.praw, self.pidx = pat.index("raw"), pat.index("idx")
            self.con, self.args = con.index("con"), con.index("args")
            self.vcon, self.vor = raw.index("Con"), raw.index("Or")
        except ValueError:
            ctx.undecided(PAT, "representation not recognised")
            return
        o = R.useful["out"]
        self.use = None
        if o.k == "adt" and o.adt == RES and o.args[0].k == "adt":
            w = o.args[0]
            if w.adt == "std::Vec":
                self.ok = True
            elif len(ctx.fields(w.adt)) == 1 and is_vec(ctx.fields(w.adt)[0][1]):
                self.use = w.adt
                self.ok = True
        if not self.ok:
            ctx.undecided("pattern_match: usefulness", "the result is not recognised: %s" % o.d)
        self.names = {}
        for k in ("collect", "expand", "push", "special", "useful"):
            r = getattr(R, k)
            self.names[R.name(r)] = k
            self.names[r["d"].canon] = k
        self.same = self.clones()
        self.called = {k: R.name(getattr(R, k)) for k in ("collect", "expand", "push", "special", "useful")}
        self.keepu, self.keeps = KEEP[pid]
        self.seeu, self.sees = SEE[pid]

    def clones(self):
        """the hand-written clones, if every one of them gives the value cloned"""
        ctx, out = self.ctx, set()
        for r in self.R.rs:
            if is_clone(r):
                g = ctx.graph(r)
                if g is None:
                    return frozenset()
                for s in g.segs:
                    if s.kind != "return" or kit.Env(ctx.ip, s.st).same(s.val, ctx.init(g.args[0])) is not True:
                        return frozenset()
                out.add(interp.fn_path(r["B"].key))
        return frozenset(out)

    def erase(self, name):
        k = self.names.get(name)
        if k == "useful":
            return tuple(i for i in range(5) if i not in self.keepu)
        if k == "special":
            return tuple(i for i in range(4) if i not in self.keeps)
        return ()

    def graph(self, r, opaque, me=None):
        """the graph, loops summarised where possible; `me` is the recursive function itself"""
        names = {self.called[x] for x in opaque}
        ip = self.ctx.ip
        ip.same_bodies = self.same
        try:
            g = self.ctx.opaque_graph(r, lambda p: p in names, erase=self.erase)
        finally:
            ip.same_bodies = frozenset()
        if g is None:
            return None
        self.term = dict(self.called)
        for s in g.segs:
            for e in s.events:
                k = self.names.get(e.name)
                if k is not None:
                    self.term[k] = e.name
        pure = lambda e: e.kind == "assert" or e.name in ("Lang::any", "Lang::covers")
        skip = lambda s: s.kind == "panic" and any(b == self.empty and ip.ispath.get(t) == self.R.row for t, b in s.isd.items())
        return accel.accelerate(ip, g, pure, skip, ("Lang::split",))

    # ---- the types
    def rows(self, q, m):
        return q.fld(m, self.R.matrix, 0)

    def matrix(self, rows):
        return adt(self.R.matrix, 0, (rows,))

    def row_full(self, pats, con):
        xs = [None, None]
        xs[self.rpats], xs[self.rcon] = pats, con
        if self.nonempty:
            return adt(self.R.row, self.full, (adt(self.nonempty, 0, tuple(xs)),))
        return adt(self.R.row, self.full, tuple(xs))

    def row_parts(self, q, row):
        if self.nonempty:
            n = q.fld(row, self.R.row, 0, self.full)
            return q.fld(n, self.nonempty, self.rpats), q.fld(n, self.nonempty, self.rcon)
        return q.fld(row, self.R.row, self.rpats, self.full), q.fld(row, self.R.row, self.rcon, self.full)

    def pat(self, raw, idx):
        xs = [None, None]
        xs[self.praw], xs[self.pidx] = raw, idx
        return adt(PAT, 0, tuple(xs))

    def conpat(self, con, args):
        xs = [None, None]
        xs[self.con], xs[self.args] = con, args
        return adt(CON, 0, tuple(xs))

    def pcon(self, con, args, idx):
        return self.pat(adt(RAW, self.vcon, (self.conpat(con, args),)), idx)

    def wild(self):
        return self.pcon(call("Lang::any"), mk("arr", ()), NONE)

    def W(self, q, r):
        w = q.ok(r)
        return q.fld(w, self.use, 0) if self.use else w

    # ---- the calls
    def U(self, q, *a):
        q.emit("useful", *[a[i] for i in self.seeu])
        c = mk("call", self.term["useful"], tuple(a[i] for i in self.keepu))
        return q.norm(c), q.norm(mk("post", 0, c)), q.norm(mk("post", 1, c))

    def S(self, q, *a):
        q.emit("special", *[a[i] for i in self.sees])
        c = mk("call", self.term["special"], tuple(a[i] for i in self.keeps))
        return q.norm(c), q.norm(mk("post", 0, c))

    def P(self, q, m, row):
        return q.norm(mk("post", 0, mk("call", self.term["push"], (m, row))))

    def evmap(self, e):
        k = self.names.get(e.name)
        if k == "useful":
            return ("useful",) + tuple(e.args[i] for i in self.seeu)
        if k == "special":
            return ("special",) + tuple(e.args[i] for i in self.sees)
        if e.name in ("Lang::split", "Lang::get_arg_tys"):
            return (e.name,) + (tuple(e.args) if self.pid == "C12" else ())

    def hook(self, q, name, *a):
        q.emit("Lang::" + name, *(a if self.pid == "C12" else ()))
        c = mk("call", "Lang::" + name, a)
        return q.norm(c), q.norm(mk("post", 0, c))


def smap(q, n, f):
    v = mk("bv", "s%d" % next(accel.COUNT))
    return accel.smap(q.env, q.norm(n), v, q.norm(f(v)))


TOK = S("done")
RULE = "loop relation with the reference matrix algorithm; the crate's own functions stand for themselves"


def result(m, q_or_env, kind, good, bad):
    """what a property sees of a result: kind is OK/ERR"""
    if kind == 1:
        return err(bad if m.pid == "C10" else TOK)
    return ok(TOK if m.pid == "C10" else good)


def res_map(m, see):
    """the result of a path, as the property sees it"""
    ip = m.ctx.ip

    def f(s):
        v = s.val
        vi = v.a[1] if v.op == "adt" else s.isd.get(v)
        if vi == 1:
            return result(m, None, 1, None, ip.field(s.st, v, RES, 1, 0))
        if vi == 0:
            return result(m, None, 0, see(s, ip.field(s.st, v, RES, 0, 0)), None)
        return v
    return f


def special(m):
    ctx, r = m.ctx, m.R.special
    g = m.graph(r, ())
    if g is None:
        return
    P = m.pid + "/special/"

    @spec(P + "entry")
    def _(q):
        cx, ty, pat, vc = [ctx.init(a) for a in g.args]
        con, args = q.fld(pat, CON, m.con), q.fld(pat, CON, m.args)
        n = q.len(args)
        if q(q.norm(call("Lang::covers", con, call("Lang::any")))):
            if not q(eq0(n)):
                # the message is free
                return err(TOK)
            tys, _ = m.hook(q, "get_arg_tys", cx, ty, vc)
            if q.is_(tys, RES, 1):
                return result(m, q, 1, None, q.err(tys))
            tys = q.ok(tys)
            k = q.len(tys)
            return result(m, q, 0, some(smap(q, k, lambda v: tup(m.wild(), q.elem(tys, sub(sub(k, I(1)), v))))), None)
        if q(q.norm(call("Lang::covers", con, vc))):
            tys, _ = m.hook(q, "get_arg_tys", cx, ty, vc)
            if q.is_(tys, RES, 1):
                return result(m, q, 1, None, q.err(tys))
            tys = q.ok(tys)
            k = q.len(tys)
            if q.lt(k, n):
                return err(TOK)
            given = smap(q, n, lambda v: tup(q.elem(args, v), q.elem(tys, v)))
            if not q.lt(n, k):
                return result(m, q, 0, some(q.norm(mk("rev", given))), None)
            pad = smap(q, sub(k, n), lambda v: tup(m.wild(), q.elem(tys, add(n, v))))
            return result(m, q, 0, some(q.norm(mk("rev", q.norm(mk("cat", (given, pad)))))), None)
        return result(m, q, 0, NONE, None)

    def obs(s):
        x = res_map(m, lambda s, v: v)(s)
        # a malformed pattern: an error of the crate's own
        if x.op == "adt" and x.a[1] == 1 and x.a[2][0].op == "adt":
            return err(TOK)
        return x
    ctx.sim("specialisation", r, sp(P + "entry"), m.evmap, obs, RULE, g=g)


def expand(m):
    ctx, r = m.ctx, m.R.expand
    g = m.graph(r, ())
    if g is None:
        return
    P = m.pid + "/expand/"
    pat = g.args[1]

    @spec(P + "entry")
    def _(q):
        raw = q.fld(pat, PAT, m.praw)
        ac = ctx.init(g.args[0])
        if q.variant(raw, RAW) == m.vcon:
            return q.norm(mk("push", ac, q.fld(raw, RAW, 0, m.vcon)))
        return sp(P + "or", q.fld(raw, RAW, 0, m.vor), I(0), ac)

    @spec(P + "or")
    def _(q, ps, i, ac):
        if not q.lt(i, q.len(ps)):
            return ac
        return sp(P + "or", ps, add(i, I(1)), q.norm(mk("post", 0, mk("call", m.term["expand"], (ac, q.elem(ps, i))))))
    ctx.sim("or-patterns stand for their alternatives", r, sp(P + "entry"), quiet, lambda s: ctx.final(s, g.args[0]), RULE, g=g)


def push(m):
    ctx, r = m.ctx, m.R.push
    g = m.graph(r, ("expand",))
    if g is None:
        return
    P = m.pid + "/push/"
    row = g.args[1]

    @spec(P + "entry")
    def _(q):
        rows = m.rows(q, ctx.init(g.args[0]))
        n = q.len(row)
        if not q(eq0(q.len(rows))):
            r0 = q.elem(rows, I(0))
            cols = I(0) if q.variant(r0, m.R.row) == m.empty else add(q.len(m.row_parts(q, r0)[0]), I(1))
            if not q.eq(cols, n):
                raise Stuck()
        if q(eq0(n)):
            return m.matrix(q.norm(mk("push", rows, adt(m.R.row, m.empty, ()))))
        last, rest = q.elem(row, sub(n, I(1))), q.norm(mk("pop", row))
        cps = q.norm(mk("post", 0, mk("call", m.term["expand"], (mk("arr", ()), last))))
        return m.matrix(q.norm(mk("cat", (rows, smap(q, q.len(cps), lambda v: m.row_full(rest, q.elem(cps, v)))))))
    ctx.sim("adding a row", r, sp(P + "entry"), quiet, lambda s: ctx.final(s, g.args[0]), RULE, g=g)


def collect(m):
    ctx, r = m.ctx, m.R.collect
    g = m.graph(r, ())
    if g is None:
        return
    P = m.pid + "/collect/"

    @spec(P + "entry")
    def _(q):
        ac, pat = ctx.init(g.args[0]), ctx.init(g.args[1])
        idx, raw = q.fld(pat, PAT, m.pidx), q.fld(pat, PAT, m.praw)
        if q.is_(idx, OPT, 1):
            ac = q.norm(mk("minsert", ac, q.some(idx), UNIT))
        if q.variant(raw, RAW) == m.vcon:
            ps = q.fld(q.fld(raw, RAW, 0, m.vcon), CON, m.args)
        else:
            ps = q.fld(raw, RAW, 0, m.vor)
        return sp(P + "each", ps, I(0), ac)

    @spec(P + "each")
    def _(q, ps, i, ac):
        if not q.lt(i, q.len(ps)):
            return ac
        return sp(P + "each", ps, add(i, I(1)), q.norm(mk("post", 0, mk("call", m.term["collect"], (ac, q.elem(ps, i))))))
    ctx.sim("every index of a pattern is collected", r, sp(P + "entry"), quiet, lambda s: ctx.final(s, g.args[0]), RULE, g=g)


def useful(m):
    ctx, r = m.ctx, m.R.useful
    g = m.graph(r, ("push", "special", "expand"))
    if g is None:
        return
    P = m.pid + "/useful/"
    depth, val0 = g.args[2], g.args[4]
    nil = mk("arr", ())

    def out(q, ac, W):
        return ok({"C10": TOK, "C11": ac, "C12": q.len(W), "C13": W}[m.pid])

    @spec(P + "entry")
    def _(q):
        cx, ac, mtx = ctx.init(g.args[0]), ctx.init(g.args[1]), ctx.init(g.args[3])
        rows, n = m.rows(q, mtx), q.len(val0)
        if not q(eq0(q.len(rows))):
            r0 = q.elem(rows, I(0))
            cols = I(0) if q.variant(r0, m.R.row) == m.empty else add(q.len(m.row_parts(q, r0)[0]), I(1))
            if not q.eq(cols, n):
                raise Stuck()
        if q(eq0(n)):
            return out(q, ac, mk("arr", (nil,)) if q(eq0(q.len(rows))) else nil)
        last, rest = q.elem(val0, sub(n, I(1))), q.norm(mk("pop", val0))
        pat, ty = q.fld(last, "", 0), q.fld(last, "", 1)
        raw, idx = q.fld(pat, PAT, m.praw), q.fld(pat, PAT, m.pidx)
        if q.variant(raw, RAW) == m.vor:
            return sp(P + "or", q.fld(raw, RAW, 0, m.vor), I(0), cx, ac, mtx, nil, rest, ty, idx)
        cp = q.fld(raw, RAW, 0, m.vcon)
        heads = smap(q, q.len(rows), lambda v: q.fld(m.row_parts(q, q.elem(rows, v))[1], CON, m.con))
        c, cx2 = m.hook(q, "split", cx, ty, q.fld(cp, CON, m.con), heads, depth)
        if q.is_(c, RES, 1):
            return result(m, q, 1, None, q.err(c))
        return sp(P + "con", q.ok(c), I(0), cx2, ac, nil, rows, rest, ty, idx, cp)

    @spec(P + "or")
    def _(q, ps, i, cx, ac, mtx, W, rest, ty, idx):
        if not q.lt(i, q.len(ps)):
            return sp(P + "end", idx, ac, W)
        p = q.elem(ps, i)
        u, cx2, ac2 = m.U(q, cx, ac, add(depth, I(1)), mtx, q.norm(mk("push", rest, tup(p, ty))))
        if q.is_(u, RES, 1):
            return result(m, q, 1, None, q.err(u))
        row = q.norm(mk("push", smap(q, q.len(rest), lambda v: q.fld(q.elem(rest, v), "", 0)), p))
        return sp(P + "or", ps, add(i, I(1)), cx2, ac2, m.P(q, mtx, row), q.norm(mk("cat", (W, m.W(q, u)))), rest, ty, idx)

    @spec(P + "con")
    def _(q, cons, j, cx, ac, W, rows, rest, ty, idx, cp):
        if not q.lt(j, q.len(cons)):
            return sp(P + "end", idx, ac, W)
        return sp(P + "rows", cons, j, cx, ac, W, rows, rest, ty, idx, cp, I(0), m.matrix(nil))

    @spec(P + "rows")
    def _(q, cons, j, cx, ac, W, rows, rest, ty, idx, cp, k, mtx):
        con = q.elem(cons, j)
        if q.lt(k, q.len(rows)):
            pats, rc = m.row_parts(q, q.elem(rows, k))
            s, cx2 = m.S(q, cx, ty, rc, con)
            if q.is_(s, RES, 1):
                return result(m, q, 1, None, q.err(s))
            s = q.ok(s)
            if q.is_(s, OPT, 1):
                new = q.some(s)
                firsts = smap(q, q.len(new), lambda v: q.fld(q.elem(new, v), "", 0))
                mtx = m.P(q, mtx, q.norm(mk("cat", (pats, firsts))))
            return sp(P + "rows", cons, j, cx2, ac, W, rows, rest, ty, idx, cp, add(k, I(1)), mtx)
        s, cx2 = m.S(q, cx, ty, cp, con)
        if q.is_(s, RES, 1):
            return result(m, q, 1, None, q.err(s))
        s = q.ok(s)
        if not q.is_(s, OPT, 1):
            # a constructor not covered by the one it was split from
            raise Stuck()
        new = q.some(s)
        u, cx3, ac3 = m.U(q, cx2, ac, add(depth, I(1)), mtx, q.norm(mk("cat", (rest, new))))
        if q.is_(u, RES, 1):
            return result(m, q, 1, None, q.err(u))
        uw, n = m.W(q, u), q.len(new)

        def witness(v):
            w = q.elem(uw, v)
            z = sub(q.len(w), n)
            args = q.norm(mk("rev", q.norm(mk("sub", w, z, q.len(w)))))
            return q.norm(mk("push", q.norm(mk("sub", w, I(0), z)), m.pcon(con, args, idx)))
        return sp(P + "con", cons, add(j, I(1)), cx3, ac3, q.norm(mk("cat", (W, smap(q, q.len(uw), witness)))), rows, rest, ty, idx, cp)

    @spec(P + "end")
    def _(q, idx, ac, W):
        if q.is_(idx, OPT, 1) and not q(eq0(q.len(W))):
            ac = q.norm(mk("mremove", ac, q.some(idx)))
        return out(q, ac, W)

    def see(s, v):
        ip = ctx.ip
        if m.pid == "C11":
            return ctx.final(s, g.args[1])
        if m.pid == "C10":
            return TOK
        w = ip.field(s.st, v, m.use, 0, 0) if m.use else v
        return ip.length(s.st, w) if m.pid == "C12" else w
    ctx.sim("usefulness", r, sp(P + "entry"), m.evmap, res_map(m, see), RULE, g=g)


def check(m):
    ctx = m.ctx
    r = ctx.root(CR, CR + "::check")
    if r is None:
        return
    g = m.graph(r, ("push", "special", "expand", "useful", "collect"))
    if g is None:
        return
    P = m.pid + "/check/"
    pats, ty = g.args[1], g.args[2]
    nil = mk("arr", ())
    fs = [f[0] for f in ctx.fields(CHECK)]
    if "unreachable" not in fs or "missing" not in fs:
        ctx.undecided(CHECK, "fields not recognised: %s" % fs)
        return
    un, mi = fs.index("unreachable"), fs.index("missing")

    @spec(P + "entry")
    def _(q):
        return sp(P + "ids", I(0), mk("mnew"))

    @spec(P + "ids")
    def _(q, i, ac):
        if not q.lt(i, q.len(pats)):
            return sp(P + "pats", I(0), ctx.init(g.args[0]), ac, m.matrix(nil))
        return sp(P + "ids", add(i, I(1)), q.norm(mk("post", 0, mk("call", m.term["collect"], (ac, q.elem(pats, i))))))

    @spec(P + "pats")
    def _(q, i, cx, ac, mtx):
        if q.lt(i, q.len(pats)):
            p = q.elem(pats, i)
            u, cx2, ac2 = m.U(q, cx, ac, I(0), mtx, mk("arr", (tup(p, ty),)))
            if q.is_(u, RES, 1):
                return result(m, q, 1, None, q.err(u))
            return sp(P + "pats", add(i, I(1)), cx2, ac2, m.P(q, mtx, mk("arr", (p,))))
        u, cx2, ac2 = m.U(q, cx, ac, I(0), mtx, mk("arr", (tup(m.wild(), ty),)))
        if q.is_(u, RES, 1):
            return result(m, q, 1, None, q.err(u))
        return sp(P + "miss", ac2, m.W(q, u), I(0), nil)

    @spec(P + "miss")
    def _(q, ac, uw, i, out):
        if not q.lt(i, q.len(uw)):
            return ok({"C10": TOK, "C11": ac, "C12": q.len(out), "C13": out}[m.pid])
        w = q.elem(uw, i)
        if not q.eq(q.len(w), I(1)):
            raise Stuck()
        return sp(P + "miss", ac, uw, add(i, I(1)), q.norm(mk("push", out, q.elem(w, I(0)))))

    def see(s, v):
        ip = ctx.ip
        if m.pid == "C10":
            return TOK
        if m.pid == "C11":
            return ip.field(s.st, v, CHECK, 0, un)
        w = ip.field(s.st, v, CHECK, 0, mi)
        return ip.length(s.st, w) if m.pid == "C12" else w
    ctx.sim("the check", r, sp(P + "entry"), m.evmap, res_map(m, see), RULE, g=g)


def clones(m):
    ctx = m.ctx
    n = 0
    for r in m.R.rs:
        if is_clone(r):
            n += 1
            ctx.fn("a clone is the same: " + r["d"].canon[1:].split(" ")[0], r, lambda q, a: ctx.init(a), rule="the result is the value cloned")
    if not n:
        ctx.undecided("clones", "no hand-written clone found")


def constructors(m):
    ctx = m.ctx
    rule = "the pattern has the parts given"
    for name, f in (("con", lambda q, con, args, idx: m.pcon(con, args, some(idx))),
                    ("zero", lambda q, con, idx: m.pcon(con, mk("arr", ()), some(idx))),
                    ("or", lambda q, ps, idx: m.pat(adt(RAW, m.vor, (ps,)), some(idx))),
                    ("any_no_idx", lambda q: m.wild())):
        r = ctx.root(CR, PAT + "::" + name)
        if r is not None:
            ctx.fn("Pat::" + name, r, f, rule=rule)


PARTS = {
    "C10": (special, useful, check),
    "C11": (clones, constructors, collect, useful, check),
    "C12": (clones, expand, push, special, useful, check),
    "C13": (clones, special, useful, check),
}


def run(ctx, pid):
    accel.install()
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        m = Model(ctx, pid)
        if m.ok:
            for f in PARTS[pid]:
                f(m)
    ctx.cfg = "A"


def c10(ctx):
    run(ctx, "C10")


def c11(ctx):
    run(ctx, "C11")


def c12(ctx):
    run(ctx, "C12")


def c13(ctx):
    run(ctx, "C13")
