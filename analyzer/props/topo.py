"""topo-sort."""
from terms import *
import kit
from kit import PANIC, ANY, Stuck, spec, sp
from props.common import *

WORK, RET, ACT = "topo_sort::Work", "topo_sort::Ret", "topo_sort::Action"
CYC = "topo_sort::CycleError"


class Repr:
    """how pending work is represented: one vector of actions, found by what `push` adds"""

    def __init__(self, ctx):
        self.ok = False
        fs = ctx.fields(WORK)
        g = ctx.graph(ctx.root("topo_sort", WORK + "::push"))
        if g is None:
            return
        self.ctx = ctx
        if len(fs) != 1:
            ctx.undecided(WORK, "representation not recognised: %s" % [f[1].d for f in fs])
            return
        v = None
        for s in g.segs:
            if s.kind == "return":
                v = ctx.ip.field(s.st, ctx.final(s, g.args[0]), WORK, 0, 0)
                env = kit.Env(ctx.ip, s.st)
                v = env.norm(v)
        if v is None or v.op != "push" or v.a[1].op != "adt" or len(v.a[1].a[2]) != 1:
            ctx.undecided(WORK, "representation not recognised: push leaves %s" % (show(v, 6) if v is not None else None))
            return
        a = v.a[1]
        self.act, self.start = a.a[0], a.a[1]
        vs = ctx.adt(self.act)["variants"]
        if len(vs) != 2 or a.a[2][0] is not g.args[1]:
            ctx.undecided(WORK, "representation not recognised: %s" % self.act)
            return
        self.end = 1 - self.start
        self.ok = True

    def of(self, q, work):
        return q.norm(self.ctx.ip.field(q.st, work, WORK, 0, 0))

    def mkstart(self, v):
        return adt(self.act, self.start, (v,))

    def mkend(self, v):
        return adt(self.act, self.end, (v,))


def last(q, xs):
    n = q.len(xs)
    if q(eq0(n)):
        return None, None
    return q.elem(xs, sub(n, I(1))), q.norm(mk("pop", xs))


def machine(ctx, rp, P, enter, process, exit_, finish):
    """the reference: a stack of actions; state (acts, cur, done, cyc, level, vis)"""
    name = P + "run"

    @spec(name)
    def _(q, acts, cur, done, cyc, level, vis):
        a, rest = last(q, acts)
        if a is None:
            # an internal inconsistency is reported by the assertions and leaves the result open
            if not q(eq0(level)) or not q(eq0(q.len(cur))):
                raise Stuck()
            return finish(q, done, cyc, vis)
        if q.variant(a, rp.act) == rp.start:
            v = q.norm(ctx.ip.field(q.st, a, rp.act, rp.start, 0))
            if q(q.norm(mk("mhas", done, v))):
                return sp(name, rest, cur, done, cyc, level, vis)
            data = enter(q, vis, v)
            if data is None:
                return sp(name, rest, cur, done, cyc, level, vis)
            if q(q.norm(mk("mhas", cur, v))):
                return sp(name, rest, cur, done, cyc if cyc.op == "adt" and cyc.a[1] == 1 else (cyc if q.is_(cyc, OPT, 1) else some(v)), level, vis)
            return process(q, v, data, q.norm(mk("push", rest, rp.mkend(v))), q.norm(mk("minsert", cur, v, UNIT)), done, cyc, add(level, I(1)), vis)
        v = q.norm(ctx.ip.field(q.st, a, rp.act, rp.end, 0))
        if q(eq0(level)) or not q(q.norm(mk("mhas", cur, v))) or q(q.norm(mk("mhas", done, v))):
            raise Stuck()
        cur2, done2, l2 = q.norm(mk("mremove", cur, v)), q.norm(mk("minsert", done, v, UNIT)), sub(level, I(1))
        return sp(name, rest, cur2, done2, cyc, l2, exit_(q, vis, v, l2))
    return name


def ret_fields(ctx):
    """(set of finished elements, cycle) as indices of the public fields"""
    fs = [f[0] for f in ctx.fields(RET)]
    if "done" in fs and "cycle" in fs:
        return fs.index("done"), fs.index("cycle")
    ctx.undecided(RET, "fields not recognised: %s" % fs)
    return None


def visited(ctx, pid, ev, observe):
    """Work::run against the reference, for any visitor"""
    rule = "loop relation with the reference depth-first machine over a stack of starts and ends"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        rp, rf = Repr(ctx), ret_fields(ctx)
        if not rp.ok or rf is None:
            continue
        P = "%s%s/" % (pid, cfg)

        def enter(q, vis, v):
            c = call("Visitor::enter", vis, v)
            q.emit("enter", v)
            return q.norm(ctx.ip.field(q.st, c, OPT, 1, 0)) if q.is_(c, OPT, 1) else None

        def process(q, v, data, acts, cur, done, cyc, level, vis):
            q.emit("process", v, data, acts)
            c = call("Visitor::process", vis, v, data, adt(WORK, 0, (acts,)))
            return sp(P + "run", q.norm(ctx.ip.field(q.st, q.norm(mk("post", 3, c)), WORK, 0, 0)), cur, done, cyc, level, q.norm(mk("post", 0, c)))

        def exit_(q, vis, v, level):
            q.emit("exit", v, level)
            return q.norm(mk("post", 0, call("Visitor::exit", vis, v, level)))
        machine(ctx, rp, P, enter, process, exit_, lambda q, done, cyc, vis: tup(done, cyc))
        r = ctx.root("topo_sort", WORK + "::run")
        g = ctx.graph(r)
        if g is None:
            continue

        def evmap(e):
            if e.name == "Visitor::enter":
                return ("enter", e.args[1])
            if e.name == "Visitor::process":
                w = e.args[3]
                return ("process", e.args[1], e.args[2], w.a[2][0] if w.op == "adt" else mk("fld", w, WORK, 0, 0))
            if e.name == "Visitor::exit":
                return ("exit", e.args[1], e.args[2])
        kit.SPEC[P + "entry"] = lambda q: sp(P + "run", rp.of(q, g.args[0]), mk("mnew"), mk("mnew"), NONE, I(0), ctx.init(g.args[1]))
        ctx.sim(observe + tag, r, sp(P + "entry"), evmap,
                lambda s: tup(ctx.ip.field(s.st, s.val, RET, 0, rf[0]), ctx.ip.field(s.st, s.val, RET, 0, rf[1])), rule, g=g, panic=None)
    ctx.cfg = "A"


def graph(ctx, pid, what, obs):
    """graph::get against the reference machine with the graph as the visitor"""
    rule = "loop relation with the reference depth-first machine started on every key of the graph, each node asking for its neighbours"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        rp = Repr(ctx)
        if not rp.ok:
            continue
        P = "%sg%s/" % (pid, cfg)
        r = ctx.root("topo_sort", "topo_sort::get")
        g = ctx.graph(r)
        if g is None:
            continue
        G = ctx.init(g.args[0])

        def more(q, i, xs):
            return q(le0(add(sub(i, q.len(xs)), I(1))))

        @spec(P + "keys")
        def _(q, i, acts):
            if not more(q, i, G):
                return sp(P + "run", acts, mk("mnew"), mk("mnew"), NONE, I(0), mk("arr", ()))
            return sp(P + "keys", add(i, I(1)), q.norm(mk("push", acts, rp.mkstart(q.norm(mk("mkey", G, i))))))

        @spec(P + "nbrs")
        def _(q, i, m, acts, cur, done, cyc, level, vis):
            if not more(q, i, m):
                return sp(P + "run", acts, cur, done, cyc, level, vis)
            return sp(P + "nbrs", add(i, I(1)), m, q.norm(mk("push", acts, rp.mkstart(q.norm(mk("mkey", m, i))))), cur, done, cyc, level, vis)

        def process(q, v, data, acts, cur, done, cyc, level, vis):
            if q(q.norm(mk("mhas", G, v))):
                return sp(P + "nbrs", I(0), q.norm(mk("mget", G, v)), acts, cur, done, cyc, level, vis)
            return sp(P + "run", acts, cur, done, cyc, level, vis)

        def finish(q, done, cyc, order):
            if q.is_(cyc, OPT, 1):
                return err(adt(CYC, 0, (q.norm(ctx.ip.field(q.st, cyc, OPT, 1, 0)),)))
            return ok(order)
        machine(ctx, rp, P, lambda q, vis, v: UNIT, process, lambda q, vis, v, l: q.norm(mk("push", vis, v)), finish)
        kit.SPEC[P + "entry"] = lambda q: sp(P + "keys", I(0), mk("arr", ()))
        ctx.sim(what + tag, r, sp(P + "entry"), quiet, lambda s: s.val, rule, g=g, panic=None)
    ctx.cfg = "A"


# ------------------------------------------------------------------ C23
def c23(ctx):
    visited(ctx, "c23", None, "every element is entered, processed and finished as by the reference")
    graph(ctx, "c23", "a graph's order is the reference's", None)
    rule = "values: the pending work after the operation"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        rp = Repr(ctx)
        if not rp.ok:
            continue
        acts = lambda s, p: ctx.ip.field(s.st, ctx.final(s, p), WORK, 0, 0)

        @spec("c23/ext" + cfg)
        def _(q, i, a, xs, whole):
            if not q(le0(add(sub(i, q.len(xs)), I(1)))):
                return tup(UNIT, a) if whole is UNIT else a
            return sp("c23/ext" + cfg, add(i, I(1)), q.norm(mk("push", a, rp.mkstart(q.elem(xs, i)))), xs, whole)
        r = ctx.root("topo_sort", "<topo_sort::Work as std::Extend>::extend")
        g = ctx.graph(r)
        if g is not None:
            kit.SPEC["c23/extend" + cfg] = lambda q: sp("c23/ext" + cfg, I(0), rp.of(q, ctx.init(g.args[0])), q.norm(mk("seq", g.args[1])), UNIT)
            ctx.sim("extend adds every element once" + tag, r, sp("c23/extend" + cfg), quiet, lambda s: tup(s.val, acts(s, g.args[0])), rule, g=g)
        r = ctx.root("topo_sort", "<topo_sort::Work as std::FromIterator>::from_iter")
        g2 = ctx.graph(r)
        if g2 is not None:
            kit.SPEC["c23/from" + cfg] = lambda q: sp("c23/ext" + cfg, I(0), mk("arr", ()), q.norm(mk("seq", g2.args[0])), NONE)
            ctx.sim("from_iter holds every element once" + tag, r, sp("c23/from" + cfg), quiet, lambda s: ctx.ip.field(s.st, s.val, WORK, 0, 0), rule, g=g2)
        ctx.fn("a default work is empty" + tag, ctx.root("topo_sort", "<topo_sort::Work as std::Default>::default"),
               lambda q: mk("arr", ()), lambda s: ctx.ip.field(s.st, s.val, WORK, 0, 0), rule=rule)
        ctx.fn("push adds the element" + tag, ctx.root("topo_sort", WORK + "::push"),
               lambda q, w, v: tup(UNIT, q.norm(mk("push", rp.of(q, ctx.init(w)), rp.mkstart(v)))),
               lambda s: tup(s.val, acts(s, ctx.graph(ctx.root("topo_sort", WORK + "::push")).args[0])), rule=rule)
    ctx.cfg = "A"
    sets(ctx)


def sets(ctx):
    """the implementations of Set are the set operations"""
    rule = "values: result and set after the operation"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        for r in ctx.P.crates["topo_sort"].roots:
            d = r["d"]
            if r["B"] is None or not d.canon.startswith("<") or not d.canon.endswith(("as Set>::contains", "as Set>::insert", "as Set>::remove", "as Set>::is_empty")):
                continue
            op = d.canon.rsplit("::", 1)[1]
            g = ctx.graph(r)
            if g is None:
                continue
            s0 = ctx.init(g.args[0])

            def f(q, *a, op=op, s0=s0):
                if op == "is_empty":
                    return tup(q.norm(eq0(q.len(s0))), s0)
                v = a[1] if op == "insert" else ctx.init(a[1])
                has = q(q.norm(mk("mhas", s0, v)))
                if op == "contains":
                    return tup(B(has), s0)
                if op == "insert":
                    return tup(B(not has), s0 if has else q.norm(mk("minsert", s0, v, UNIT)))
                return tup(B(has), q.norm(mk("mremove", s0, v)) if has else s0)
            ctx.fn("%s is the set operation, %s%s" % (d.canon, r["ins"][0].d if op != "insert" else r["ins"][0].d, tag), r, f,
                   lambda s, g=g: tup(s.val, ctx.final(s, g.args[0])), rule=rule)
    ctx.cfg = "A"


# ------------------------------------------------------------------ C24
def c24(ctx):
    visited(ctx, "c24", None, "a cycle is reported exactly on reaching an unfinished element, the first such one")
    graph(ctx, "c24", "a graph gives its cycle as an error, or its order", None)
    ctx.fn("witness is the element reported", ctx.root("topo_sort", CYC + "::witness"), lambda q, c: q.fld(c, CYC, 0), rule="value")
