"""Shared vocabulary of the property modules."""
from terms import *
import interp
import kit
from kit import PANIC, ANY, Stuck
from std import scat
from interp import OPT, RES

WORLD = mk("sym", "static world")
NONE = adt(OPT, 0, ())


def some(x):
    return adt(OPT, 1, (x,))


def ok(x):
    return adt(RES, 0, (x,))


def err(x):
    return adt(RES, 1, (x,))


def call(name, *a):
    return mk("call", name, tuple(a))


def field_of(ctx, adt_name, pred, what, vi=0):
    """index of the one field of a type satisfying pred; undecided when the representation is another"""
    fs = ctx.fields(adt_name, vi)
    r = [i for i, f in enumerate(fs) if pred(f[1])]
    if len(r) != 1:
        ctx.undecided("%s: %s" % (adt_name, what), "representation not recognised: %s" % [f[1].d for f in fs])
        return None
    return r[0]


def is_uint(t):
    return t.k == "uint"


def is_str(t):
    return t.k == "ref" and t.el.k == "str"


def is_adt(*names):
    return lambda t: t.k == "adt" and t.adt in names


def quiet(e):
    """no event is observed"""
    return None


def fout(f, *pieces):
    if f.op == "fmtout":
        return mk("fmtout", f.a[0], scat([f.a[1]] + list(pieces)))
    return mk("fmtout", f, scat(list(pieces)))


def only(g, keep):
    """the graph restricted to some of its segments"""
    h = interp.Graph()
    h.nodes, h.phi, h.status = g.nodes, g.phi, g.status
    h.args, h.body, h.root = g.args, g.body, g.root
    h.segs = [s for s in g.segs if keep(s)]
    return h


def failed(s):
    return any(e.name == "fmt.fail" for e in s.events)


def rendering(ctx, name, root, text, rule, fi=1):
    """fmt-like function: writes exactly text(q, self, ...) (a list of pieces or a spec
    state) when every write succeeds, and returns the error of one that fails"""
    g = ctx.graph(root)
    if g is None:
        return
    n = 0
    for s in g.segs:
        if not failed(s):
            continue
        n += 1
        good = s.kind == "return" and kit.Env(ctx.ip, s.st).ask_is(s.val, RES, 1) is True
        if not good:
            ctx.ob(name + " returns the formatter's error", False,
                   "a write of %s fails and the function %s" % ([show(e.args[0], 6) for e in s.events if e.name == "fmt.fail"][0],
                   "returns " + show(s.val, 6) if s.kind == "return" else "goes on" if s.kind == "node" else "panics"), ctx.where(root), rule)
            break
    else:
        ctx.ob(name + " returns the formatter's error", True, "%d failing writes" % n, ctx.where(root), rule)
    f = g.args[fi]
    h = only(g, lambda s: not failed(s))
    f0 = ctx.init(f)

    def entry(q):
        r = text(q, *g.args)
        if r.__class__ is T:
            return r
        return tup(ok(UNIT), fout(f0, *r))
    sn = "%s/%s/%d" % (ctx.pid, name, len(kit.SPEC))
    kit.SPEC[sn] = entry
    ctx.sim(name + " writes every part once, in order", root, kit.sp(sn), quiet, lambda s: tup(s.val, ctx.final(s, f)), rule, g=h)


def disp(v, ty, trait="Display"):
    return mk("disp", trait, v, ty, None)
