"""Rules over every crate: effects, discarded failures, loops that stop."""
from terms import *
import interp
import kit
import mir
import load
import callgraph
from props.common import *


def ours(P):
    """the bodies written in the workspace, each once: ((crate, key), body)"""
    for (cr, key), b in sorted(P.bodies.items()):
        if cr != "mstd" and not cr.startswith("w_") and home(key) == cr:
            yield (cr, key), b


def home(key):
    return key.split("::", 1)[0].lstrip("<")


# ------------------------------------------------------------------ C39
READ = ("std::fs::read", "std::fs::DirEntry", "std::fs::ReadDir", "std::fs::metadata", "std::fs::symlink_metadata", "std::fs::exists", "std::fs::canonicalize",
        "std::fs::File::open", "std::fs::Metadata", "std::fs::FileType")
PATHIO = {"exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata", "canonicalize", "read_dir", "read_link", "try_exists"}
TERM = {"exit", "abort"}


def effect(path):
    """(kind of effect) of calling a function outside the workspace, None when it has none"""
    p = path.replace("core::", "std::", 1) if path.startswith("core::") else path
    q = p.lstrip("<&'a ")
    last = p.rsplit("::", 1)[-1]
    if q.startswith("std::fs::"):
        return "reads files" if q.startswith(READ) else "changes files"
    if q.startswith("std::path::Path::") and last in PATHIO:
        return "reads files"
    if q.startswith("std::env::"):
        return "reads the working directory" if last == "current_dir" else "changes the environment" if last.startswith(("set_", "remove_")) else "reads the environment"
    if q.startswith(("std::time::Instant", "std::time::SystemTime")) and last in ("now", "elapsed"):
        return "reads the clock"
    if q.startswith(("std::io::stdio::", "std::io::_print", "std::io::_eprint", "std::io::Stdin", "std::io::Stdout", "std::io::Stderr", "std::io::stdin", "std::io::stdout",
                     "std::io::stderr", "std::io::read_to_string")):
        return "uses the standard streams"
    if q.startswith("std::net::") or q.startswith("std::os::"):
        return "talks to the system"
    if q.startswith("std::process::"):
        return "ends the process" if last in TERM else "starts processes"
    if q.startswith("std::intrinsics::abort"):
        return "ends the process"
    if q.startswith("std::thread::") and last not in ("panicking",):
        return "uses threads"
    if q.startswith("std::panic::") and last in ("set_hook", "take_hook"):
        return "shares mutable state"
    if q.startswith(("std::alloc::set_alloc_error_hook",)):
        return "shares mutable state"
    if q.startswith(("log::set_logger", "log::set_boxed_logger", "log::set_max_level")):
        return "shares mutable state"
    if q.startswith("log::") and last in ("log", "log_impl") or q.startswith("log::__private_api::log"):
        return "logs"
    if q.startswith("std::random::") or "RandomState" in q and last == "new":
        return None
    return None


def entries(ctx):
    """{body key: set of effects} of the places effects belong to"""
    out = {}
    for n, c in ctx.P.crates.items():
        for r in c.roots:
            if r["B"] is None:
                continue
            d = r["d"]
            k = r["B"].key
            st = c.types[d.self_ty] if d.self_ty.__class__ is int else d.self_ty
            sn = getattr(st, "adt", None) or ""
            if n == "paths" and (sn.endswith("::RealFileSystem") or "RealFileSystem" in d.canon):
                out[k] = {"reads files", "reads the working directory"}
            elif n == "write_rs_tokens" and r["reach"]:
                out[k] = {"changes files", "reads the environment"}
            elif n == "elapsed" and r["reach"]:
                out[k] = {"reads the clock", "logs"}
    return out


def c39(ctx):
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        P = ctx.P
        cg = callgraph.of(P)
        allowed = entries(ctx)
        api = {}
        for n, c in P.crates.items():
            if n == "mstd" or n.startswith("w_"):
                continue
            for r in c.roots:
                if r["B"] is not None and (r["reach"] or r["d"].trait):
                    api[(n, r["B"].key)] = r
        rule = "effect analysis: calls of effectful functions of the standard library, carried up the call graph to the public operations"
        eff = {}
        ncalls = 0
        for k, b in ours(P):
            for fn, t, bi, ln in mir.calls(b):
                ncalls += 1
                for d in mir.names(b, fn):
                    e = None if d.ws else effect(d.path)
                    if e:
                        eff.setdefault(e, {}).setdefault(k, []).append((d.path, ln, b))
            # functions mentioned as values
            for f in cg.ext.get(k, ()):
                for x in ("def", "rdef"):
                    if f.get(x).__class__ is int:
                        d = b.crate.defs[f[x]]
                        e = None if d.ws else effect(d.path)
                        if e and k not in eff.get(e, {}):
                            eff.setdefault(e, {}).setdefault(k, []).append((d.path, 0, b))
        ctx.counts["calls"] += ncalls
        seen_entries = set()
        for e in sorted(eff):
            bad = []
            for k0 in eff[e]:
                work, seen = [(k0, ())], {k0}
                while work:
                    k, via = work.pop()
                    if e in allowed.get(k[1], ()):
                        seen_entries.add((e, k[1]))
                        continue
                    if k in api and e != "logs":
                        bad.append((api[k], via, eff[e][k0][0]))
                    for c in cg.into.get(k, ()):
                        if c not in seen and home(c[1]) == c[0] or c not in seen and c[0] == k[0]:
                            seen.add(c)
                            work.append((c, via + (k[1],)))
            if e == "logs":
                continue
            what = "only %s %s" % ({"reads files": "the file-system reader", "reads the working directory": "the file-system reader", "changes files": "the generated-code writer",
                                    "reads the environment": "the generated-code writer", "reads the clock": "the timer"}.get(e, "nothing"), e)
            if bad:
                r, via, (p, ln, b) = bad[0]
                ctx.ob(what + tag, False, "%s %s: it calls %s at %s:%s%s" % (r["d"].canon, e, p, b.loc.rsplit(":", 2)[0], ln, "".join(" via " + v for v in via[:4])), ctx.where(r), rule)
            else:
                ctx.ob(what + tag, True, "%d calls" % sum(len(v) for v in eff[e].values()), "", rule)
        ctx.ob("no other effect in %d calls%s" % (ncalls, tag), True, "", "", rule)
        # logging happens in the timer and in failed assertions
        rule = "path analysis: in a debug build no path of an operation that can log reaches the log call, the assertion before it having failed"
        if cfg == "A":
            for k in eff.get("logs", {}):
                if "logs" in allowed.get(k[1], ()):
                    continue
                for r in [api[x] for x in cg.reaching(lambda y: y == k) if x in api and "logs" not in allowed.get(x[1], ())]:
                    if r["B"].crate.name != k[0]:
                        continue
                    g = ctx.graph(r)
                    if g is None:
                        continue
                    ev = [x for s in g.segs for x in s.events if x.name.startswith("log::") and x.name.endswith(("log", "log_impl"))]
                    ctx.ob("%s logs only what an assertion found" % r["d"].canon, not ev, "logs at line %s without a failed assertion" % ev[0].line if ev else "%d paths" % len(g.segs),
                           ctx.where(r), rule)
        # shared state
        rule = "items: no static with interior mutability, no mutable or thread-local static"
        for n, c in P.crates.items():
            if n == "mstd" or n.startswith("w_"):
                continue
            bad = None
            ns = 0
            for it in c.items:
                if it["kind"] != "Static" and not str(it["kind"]).startswith("Static"):
                    continue
                ns += 1
                t = c.types[it["ty"]] if it.get("ty").__class__ is int else it.get("ty")
                if it.get("mut") or it.get("freeze") is False or "mutability: Mut" in str(it["kind"]):
                    bad = "static mut %s" % it["d"].canon
                elif t is not None and t.__class__ is not int and any(mir.is_cell(x) or "LocalKey" in x.d for x in mir.inside(P, t)):
                    bad = "static %s: %s is mutable" % (it["d"].canon, t.d)
                if bad:
                    ctx.ob("%s has no global mutable state%s" % (n, tag), False, bad, it.get("loc", ""), rule)
                    break
            if not bad:
                tl = None
                for k, b in ours(P):
                    if k[0] == n:
                        for f in cg.ext.get(k, ()):
                            for x in ("def", "rdef"):
                                if f.get(x).__class__ is int and ("LocalKey" in c.defs[f[x]].path or "::local_impl" in c.defs[f[x]].path):
                                    tl = k[1]
                ctx.ob("%s has no global mutable state%s" % (n, tag), tl is None, "uses a thread-local in %s" % tl if tl else "%d statics" % ns, "", rule)
        unsafe(ctx, P, tag)
    ctx.cfg = "A"


def unsafe(ctx, P, tag):
    rule = "unsafe operations of every body; allowed: reborrowing a shared reference of a type as the struct transparently wrapping it"
    n = 0
    for k, b in ours(P):
        for what, ln in mir.unsafe_ops(b):
            n += 1
            w = "%s:%s" % (b.loc.rsplit(":", 2)[0], ln)
            why = view_cast(P, b, what)
            ctx.ob("the only unsafe operation is the view cast" + tag, why is None, "%s in %s: %s" % (what, interp.fn_path(k[1]), why), w, rule)
    ctx.ob("unsafe operations%s" % tag, True, "%d" % n, "", rule)
    for nme, c in P.crates.items():
        if nme == "mstd" or nme.startswith("w_"):
            continue
        bad = [i for i in c.impls if not i["derived"] and i.get("trait") and str(i["trait"]).rsplit("::", 1)[-1] in ("Send", "Sync")]
        ctx.ob("%s implements no unsafe trait by hand%s" % (nme, tag), not bad, "%s for %s" % (bad[0]["trait"], bad[0]["self_ty"].d) if bad else "%d implementations" % len(c.impls),
               bad[0]["loc"] if bad else "", rule)


def view_cast(P, b, what):
    """None when the unsafe operation is the cast of a shared reference to its transparent wrapper"""
    if "raw pointer" in what and not what.startswith("write"):
        ok = False
        for blk in b.blocks:
            if blk is None:
                continue
            for s in blk[0]:
                if s[0] == "=" and s[2]["k"] == "cast" and s[1][0] < len(b.locals):
                    f, to = b.crate.types[s[2]["from"]], b.crate.types[s[2]["ty"]]
                    if to.k in ("ptr", "ref") and f.k in ("ptr", "ref") and to.el is not None and to.el.k == "adt" and to.el.adt in P.adts and P.adts[to.el.adt].get("ws"):
                        x = wraps(P, to.el.adt)
                        if x is None:
                            return "%s is not a transparent wrapper" % to.el.d
                        if x.d != f.el.d:
                            return "%s wraps %s, not %s" % (to.el.d, x.d, f.el.d)
                        if to.mut or f.mut:
                            return "the cast is to a mutable view"
                        ok = True
        if ok:
            return None
        return "no cast to a transparent wrapper found"
    if what.startswith("transmute"):
        for blk in b.blocks:
            if blk is None:
                continue
            for s in blk[0]:
                if s[0] == "=" and s[2]["k"] == "cast" and "Transmute" in s[2]["ck"]:
                    f, to = b.crate.types[s[2]["from"]], b.crate.types[s[2]["ty"]]
                    if f.k == "ref" and to.k == "ref" and not to.mut and to.el.k == "adt":
                        x = wraps(P, to.el.adt)
                        if x is not None and x.d == f.el.d:
                            continue
                    return "not a view cast"
        return None
    return "not a view cast"


def wraps(P, name):
    a = P.adts.get(name)
    if not a or not a["variants"] or len(a["variants"][0][2]) != 1:
        return None
    r = a.get("repr")
    if r is not None and "TRANSPARENT" not in str(r).upper():
        return None
    return a["variants"][0][2][0][1]


# ------------------------------------------------------------------ C40
FORGET = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else", "is_ok_and", "iter", "iter_mut", "into_iter", "and", "or", "or_else"}
NOTFAIL = ("binary_search", "try_unwrap")
# conversions that document what they give instead of failing
INSTEAD = ("always::convert::usize_to_u32", "always::convert::u32_to_usize")


def is_result(t):
    return t.k == "adt" and t.adt == RES


def impossible(t):
    e = t.args[1] if len(t.args) > 1 and hasattr(t.args[1], "k") else None
    return e is not None and (e.k == "never" or e.d == "!" or e.k == "adt" and e.adt.endswith("Infallible"))


def fnbodies(cg, P, b, o):
    """bodies a function-like operand stands for (closure or function item)"""
    t = None
    if "p" in o and len(o["p"]) == 1:
        t = b.locals[o["p"][0]]
    elif o.get("k") == "c":
        t = b.crate.types[o["ty"]] if o.get("ty").__class__ is int else None
    return t


def returns_never(P, b, o):
    """the function passed cannot return"""
    t = fnbodies(None, P, b, o)
    if t is None:
        return False
    d = t.defn
    for (cr, k), x in P.bodies.items():
        if cr == b.crate.name and x.defn is not None and x.defn == d:
            return not any(blk is not None and blk[1]["k"] == "ret" for blk in x.blocks)
    return False


class Results:
    """what happens to the failures held by the locals of one body"""

    def __init__(self, P, b):
        self.P, self.b = P, b
        self.uses = {}
        for bi, blk in enumerate(b.blocks):
            if blk is None:
                continue
            for si, s in enumerate(blk[0]):
                if s[0] == "=":
                    rv = s[2]
                    for o in mir.ops_of(rv):
                        if "p" in o:
                            self.use(o["p"], ("st", bi, si, s))
                    if rv["k"] in ("ref", "rawptr", "discr"):
                        self.use(rv["p"], ("st", bi, si, s))
            t = blk[1]
            if t["k"] == "call":
                for i, o in enumerate(t["args"]):
                    if "p" in o:
                        self.use(o["p"], ("arg", bi, i, t))
            elif t["k"] in ("switch", "assert") and "p" in t["a"]:
                self.use(t["a"]["p"], ("sw", bi, None, t))

    def use(self, p, u):
        self.uses.setdefault(p[0], []).append((p, u))

    def sources(self):
        """(local, what made it, line)"""
        b = self.b
        for fn, t, bi, ln in mir.calls(b):
            d = t["dest"]
            ds = mir.names(b, fn)
            if len(d) == 1 and is_result(b.locals[d[0]]) and not impossible(b.locals[d[0]]):
                n = ds[-1] if ds else None
                if n is not None and n.name.startswith(NOTFAIL):
                    continue
                if ds and ds[0].name in ("write_str", "write_fmt", "write_char") and t["args"] and self.to_string(t["args"][0]):
                    continue
                yield d[0], (n.canon if n is not None else "a function"), ln
        for i in range(1, b.argc + 1):
            if is_result(b.locals[i]) and not impossible(b.locals[i]):
                yield i, "the argument %s" % b.names.get(i, i), int(b.loc.rsplit(":", 2)[1])

    def to_string(self, o):
        """writing to a String cannot fail"""
        t = self.b.locals[o["p"][0]] if "p" in o else None
        while t is not None and t.k == "ref":
            t = t.el
        return t is not None and t.k == "adt" and t.adt == "std::String"

    def fate(self, l, seen=None):
        """None when the failure in a local is passed on, else a complaint"""
        b = self.b
        seen = seen if seen is not None else set()
        if l in seen:
            return None
        seen.add(l)
        if l == 0:
            return None
        bad = []
        for p, (k, bi, x, s) in self.uses.get(l, ()):
            if k == "arg":
                f = s["f"].get("fn") if s["f"].get("k") == "c" else None
                ds = mir.names(b, f)
                n = ds[-1] if ds else None
                if n is None:
                    return None
                if n.path in ("std::mem::drop", "core::mem::drop", "std::mem::forget", "core::mem::forget") or n.canon in ("std::drop", "std::forget"):
                    bad.append("is dropped")
                elif len(p) == 1 and n.canon.startswith("std::Result::") and n.name in FORGET:
                    if n.name in ("unwrap_or_else", "map_or_else", "or_else") and any(returns_never(self.P, b, o) for o in s["args"][1:]):
                        return None
                    bad.append("is replaced by %s" % n.name)
                else:
                    return None
            elif k == "st":
                rv = s[2]
                if rv["k"] == "discr" and len(p) == 1:
                    c = self.matched(l, bi, x, s)
                    if c is None:
                        return None
                    bad.append(c)
                elif rv["k"] in ("ref", "rawptr") and len(p) == 1:
                    # looked at through a reference
                    t = self.uses.get(s[1][0], ())
                    c = None
                    for p2, (k2, bi2, x2, s2) in t:
                        if k2 == "arg":
                            f2 = s2["f"].get("fn") if s2["f"].get("k") == "c" else None
                            d2 = mir.names(b, f2)
                            if d2 and d2[-1].canon.startswith("std::Result::") and d2[-1].name in ("is_ok", "is_err"):
                                return None
                            if d2 and d2[-1].canon.startswith("std::Result::") and d2[-1].name in FORGET | {"as_ref", "as_mut"}:
                                continue
                            return None
                        return None
                    if t:
                        bad.append("is only looked at")
                elif len(p) == 1:
                    if len(s[1]) > 1 or s[1][0] == 0:
                        return None
                    if rv["k"] == "use":
                        c = self.fate(s[1][0], seen)
                        if c is None:
                            return None
                        bad.append(c)
                    else:
                        return None
            else:
                return None
        return bad[0] if bad else "is ignored"

    def matched(self, l, bi, si, s):
        """the result is matched: its failing branch must end in a failure"""
        b = self.b
        d = s[1][0]
        for p, (k, bj, x, t) in self.uses.get(d, ()):
            if k != "sw" or t["k"] != "switch":
                return None
            tg = switch_target(t, 1)
            if tg is None:
                return None
            return self.failing(tg, l)
        return None

    def failing(self, start, l):
        """every path from the block ends in a panic or gives back a failure"""
        b = self.b
        seen, work = set(), [start]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            blk = b.blocks[x]
            if blk is None:
                continue
            if self.fails(blk):
                continue
            t = blk[1]
            if t["k"] == "ret":
                return "is matched, and a path on which it failed ends like a success"
            work.extend(load.succs(t))
        return None

    def fails(self, blk):
        """assigns a failure to the returned value"""
        b = self.b
        for s in blk[0]:
            if s[0] == "=" and s[1] and s[1][0] == 0:
                rv = s[2]
                if rv["k"] == "agg" and rv.get("vi") is not None:
                    t = b.locals[0]
                    if is_result(t) and rv["vi"] == 1 or t.k == "adt" and t.adt == OPT and rv["vi"] == 0:
                        return True
                elif is_result(b.locals[0]) or b.locals[0].k == "adt" and b.locals[0].adt == OPT:
                    return True
        t = blk[1]
        return t["k"] == "call" and t["dest"][0] == 0 and any(x.k == "adt" and x.adt in (RES, OPT) for x in [b.locals[0]])


def switch_target(t, v):
    for x, tg in t.get("ts", t.get("targets", ())):
        if x == v:
            return tg
    return t.get("o", t.get("otherwise"))


def item_result(P, b, t, d=0):
    """an iterator over results, as far as its type tells"""
    if t is None or d > 8 or not hasattr(t, "k"):
        return False
    if t.k == "ref":
        return item_result(P, b, t.el, d + 1)
    if t.k != "adt":
        return False
    last = t.adt.rsplit("::", 1)[-1]
    a = [x for x in t.args if hasattr(x, "k")]
    if last == "Map" and len(a) == 2:
        for (cr, k), x in P.bodies.items():
            if cr == b.crate.name and x.defn is not None and a[1].defn is not None and x.defn == a[1].defn:
                return is_result(x.locals[0])
        return False
    if last in ("ReadDir", "Lines", "Bytes", "Split", "Incoming") and ("fs" in t.d or "io" in t.d):
        return True
    if last in ("Filter", "Rev", "Skip", "Take", "Peekable", "Fuse", "StepBy", "Inspect", "SkipWhile", "TakeWhile", "Chain", "Cloned", "Copied", "IntoIter", "Iter", "Drain"):
        return bool(a) and (is_result(a[0]) or item_result(P, b, a[0], d + 1))
    return False


LOSING = {"flatten", "count", "last", "min", "max"}


def c40(ctx):
    rule = "dataflow over every local holding a result: it reaches the caller, a panic, or the failing branch of a match that fails"
    ctx.cfg = "A"
    tag = ""
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        P = ctx.P
        per = {}
        for k, b in ours(P):
            R = Results(P, b)
            loc = b.loc.rsplit(":", 2)[0]
            n = interp.fn_path(k[1])
            for l, what, ln in R.sources():
                c = R.fate(l)
                if c is not None and (n in INSTEAD or n.endswith("::is_file")):
                    c = None
                per.setdefault(k[0], []).append((c, what, ln, loc, n))
            for fn, t, bi, ln in mir.calls(b):
                ds = mir.names(b, fn)
                if not ds:
                    continue
                d = ds[0]
                if d.name in LOSING and d.canon.startswith("std::Iterator::") and t["args"]:
                    o = t["args"][0]
                    ty = b.locals[o["p"][0]] if "p" in o and len(o["p"]) == 1 else None
                    if item_result(P, b, ty):
                        per.setdefault(k[0], []).append(("has its failures removed by %s" % d.name, "an iterator of results", ln, loc, n))
                # Result::ok and the like given to an adapter as a function
                for o in t["args"]:
                    ty = b.crate.types[o["ty"]] if o.get("k") == "c" and o.get("ty").__class__ is int else None
                    f = o.get("fn")
                    if f:
                        x = mir.names(b, f)
                        if x and x[-1].canon.startswith("std::Result::") and x[-1].name in FORGET | {"is_ok"}:
                            per.setdefault(k[0], []).append(("is replaced by %s" % x[-1].name, "each item of an iterator of results", ln, loc, n))
        for cr in sorted(P.crates):
            if cr == "mstd" or cr.startswith("w_"):
                continue
            xs = per.get(cr, [])
            bad = [x for x in xs if x[0] is not None]
            if bad:
                c, what, ln, loc, n = bad[0]
                ctx.ob("%s passes every failure on%s" % (cr, tag), False, "in %s the failure of %s %s" % (n, what, c), "%s:%s" % (loc, ln), rule)
            else:
                ctx.ob("%s passes every failure on%s" % (cr, tag), True, "%d results" % len(xs), "", rule)
        ctx.counts["calls"] += sum(len(x) for x in per.values())
    ctx.cfg = "A"
    writer(ctx)


def writer(ctx):
    """the generated-code writer fails loudly"""
    rule = "path analysis: every path on which the file system reports a failure panics"
    r = None
    for x in ctx.P.crates["write_rs_tokens"].roots:
        if x["reach"] and x["B"] is not None:
            r = x
    g = ctx.graph(r)
    if g is None:
        return
    n = 0
    for s in g.segs:
        env = kit.Env(ctx.ip, s.st)
        for e in s.events:
            if e.name.startswith("std::fs::"):
                n += 1
                f = env.ask_is(e.res, RES, 1)
                if s.kind == "return" and f is not False:
                    ctx.ob("the writer fails loudly when it cannot write its file", False, "%s may fail and the writer returns" % e.name, ctx.where(r), rule)
                    return
    ctx.ob("the writer fails loudly when it cannot write its file", n > 0 or None, "%d writes on the paths" % n, ctx.where(r), rule)


# ------------------------------------------------------------------ C41
def natural_loops(b):
    """{head: blocks} of the natural loops of a body"""
    n = len(b.blocks)
    succ = [[s for s in load.succs(blk[1]) if b.blocks[s] is not None] if blk is not None else [] for blk in b.blocks]
    order, seen, st = [], {0}, [(0, iter(succ[0]))]
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                st.append((y, iter(succ[y])))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    pred = {x: [] for x in order}
    for x in order:
        for y in succ[x]:
            pred[y].append(x)
    dom = {x: None for x in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for x in order:
            if x == 0:
                continue
            ps = [dom[p] for p in pred[x] if dom[p] is not None]
            d = set.intersection(*ps) | {x} if ps else {x}
            if d != dom[x]:
                dom[x] = d
                ch = True
    out = {}
    for x in order:
        for h in succ[x]:
            if h in dom[x]:
                l = out.setdefault(h, {h})
                work = [x]
                while work:
                    y = work.pop()
                    if y not in l:
                        l.add(y)
                        work.extend(pred[y])
    rest = set(b.heads) - set(out)
    return out, succ, rest & set(order)


TAKING = {"next", "next_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "take", "nth", "try_next", "next_if", "next_if_eq", "next_match"}
ENDLESS = ("Repeat", "Cycle", "RangeFrom", "FromFn", "Successors", "RepeatWith", "RepeatN")


def endless(t, d=0):
    """an iterator type that may never end, by its shape (a zip ends with its shorter side)"""
    if t is None or d > 10 or not hasattr(t, "k"):
        return False
    if t.k == "ref":
        return endless(t.el, d + 1)
    if t.k != "adt":
        return False
    last = t.adt.rsplit("::", 1)[-1]
    a = [x for x in t.args if hasattr(x, "k")]
    if last in ENDLESS:
        return True
    if last == "Zip":
        return all(endless(x, d + 1) for x in a[:2])
    if last in ("Take", "TakeWhile", "MapWhile"):
        return False
    return any(endless(x, d + 1) for x in a[:2] if x.k in ("adt", "ref"))


def consumes(b, head, blocks, succ):
    """the call every round of the loop makes that takes one element away and ends the loop when there is none, or None"""
    why = None
    for q in sorted(blocks):
        blk = b.blocks[q]
        t = blk[1]
        if t["k"] != "call" or not t["args"]:
            continue
        f = t["f"].get("fn") if t["f"].get("k") == "c" else None
        ds = mir.names(b, f)
        if not ds or ds[0].name not in TAKING or ds[-1].ws and ds[-1].name != "next":
            continue
        # every round passes here
        seen, work = set(), [s for s in succ[head] if s in blocks] if head != q else []
        cyc = False
        while work:
            x = work.pop()
            if x == head:
                cyc = True
                break
            if x in seen or x == q or x not in blocks:
                continue
            seen.add(x)
            work.extend(succ[x])
        if cyc:
            continue
        # what it takes from is not made anew in the loop
        o = t["args"][0]
        src = origin(b, o, blocks)
        if src is None and ds[0].name != "take":
            why = "%s at line %s takes from something made in the same round" % (ds[-1].canon, blk[2])
            continue
        ty = b.locals[o["p"][0]] if "p" in o else None
        if endless(ty):
            why = "%s may never end" % ty.d
            continue
        # ends the loop when there is nothing
        d = t["dest"]
        if not ends(b, t, d, blocks, head, q):
            why = "the loop goes on when %s at line %s gives nothing" % (ds[-1].canon, blk[2])
            continue
        w = refilled(b, head, blocks, succ, q) if ds[0].name.startswith("pop") or ds[0].name in ("take", "remove") else None
        if w:
            why = w
            continue
        return "%s at line %s" % (ds[-1].canon, blk[2]), None
    return None, why


def origin(b, o, blocks):
    """the place a `&mut` argument points to, when it is not assigned in the loop"""
    if "p" not in o:
        return None
    l = o["p"][0]
    for _ in range(6):
        ws = [(x, s) for x in range(len(b.blocks)) if b.blocks[x] is not None for s in b.blocks[x][0] if s[0] == "=" and s[1] == [l]]
        cs = [x for x in range(len(b.blocks)) if b.blocks[x] is not None and b.blocks[x][1]["k"] == "call" and b.blocks[x][1]["dest"] == [l]]
        inl = [(x, s) for x, s in ws if x in blocks]
        if not inl:
            return None if any(c in blocks for c in cs) else l
        if len(inl) > 1 or any(c in blocks for c in cs):
            return None
        rv = inl[0][1][2]
        p = rv["p"] if rv["k"] == "ref" else rv["a"]["p"] if rv["k"] in ("use", "cast") and "p" in rv.get("a", {}) else None
        if p is None:
            return None
        l = p[0]
    return None


def ends(b, t, d, blocks, head, q):
    """the branch for nothing leaves the loop"""
    nxt = t["t"]
    cur = {d[0]} if len(d) == 1 else set()
    for _ in range(8):
        blk = b.blocks[nxt]
        if blk is None:
            return False
        disc = None
        for s in blk[0]:
            if s[0] == "=":
                rv = s[2]
                if rv["k"] == "discr" and rv["p"][0] in cur:
                    disc = s[1][0]
                elif rv["k"] == "use" and "p" in rv["a"] and rv["a"]["p"][0] in cur and len(s[1]) == 1 and len(rv["a"]["p"]) == 1:
                    cur.add(s[1][0])
        k = blk[1]["k"]
        if k == "switch":
            if disc is None or blk[1]["a"].get("p", [None])[0] != disc:
                return False
            tg = switch_target(blk[1], 0)
            return leaves(b, tg, blocks, head)
        if k == "goto":
            nxt = blk[1]["t"]
            continue
        if k == "call":
            f = blk[1]["f"].get("fn") if blk[1]["f"].get("k") == "c" else None
            ds = mir.names(b, f)
            if ds and ds[-1].name in ("branch", "unwrap", "expect", "map", "copied", "cloned", "as_ref") and "p" in blk[1]["args"][0] and blk[1]["args"][0]["p"][0] in cur:
                if ds[-1].name in ("unwrap", "expect"):
                    return True
                if ds[-1].name == "branch":
                    # ControlFlow: Break is variant 1
                    x = b.blocks[blk[1]["t"]]
                    if x is not None and x[1]["k"] == "switch":
                        return leaves(b, switch_target(x[1], 1), blocks, head)
                    return False
                cur = {blk[1]["dest"][0]}
                nxt = blk[1]["t"]
                continue
        return False
    return False


def leaves(b, x, blocks, head):
    """no path from the block comes back to the head inside the loop"""
    seen, work = set(), [x]
    while work:
        y = work.pop()
        if y == head:
            return False
        if y in seen or y not in blocks or b.blocks[y] is None:
            continue
        seen.add(y)
        work.extend(load.succs(b.blocks[y][1]))
    return True


def sccs(nodes, edges):
    """strongly connected components with at least one edge: [(nodes, edges)]"""
    out = {}
    for s, d, e in edges:
        out.setdefault(s, []).append(d)
    idx, low, onst, st, res = {}, {}, set(), [], []

    def go(v):
        work = [(v, iter(out.get(v, ())))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        onst.add(v)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = len(idx)
                    st.append(y)
                    onst.add(y)
                    work.append((y, iter(out.get(y, ()))))
                    break
                if y in onst:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        y = st.pop()
                        onst.discard(y)
                        c.add(y)
                        if y is x:
                            break
                    res.append(c)
    for v in nodes:
        if v not in idx:
            go(v)
    r = []
    for c in res:
        es = [e for e in edges if e[0] in c and e[1] in c]
        if es:
            r.append((c, es))
    return r


class Rank:
    """lexicographic ranking of the cycles of a path graph by counters that only grow towards a bound, or shrink"""

    def __init__(self, ctx, g):
        self.ctx, self.ip, self.g = ctx, ctx.ip, g
        inv = kit.invariants(ctx.ip, g)
        self.edges = []
        for s in g.segs:
            if s.kind != "node" or s.src not in g.nodes:
                continue
            st = kit.use_invariants(ctx.ip, s.st, inv.get(s.src, ()))
            if st is None:
                continue
            env = kit.Env(ctx.ip, st)
            if env.feasible():
                self.edges.append((s.src, s.dst, (s, env)))

    def at(self, n, l):
        """value at a place in a state, None when there is no such place"""
        if l.a[0] not in n.mem and l.a[0].op not in ("der", "static"):
            return None
        return self.ip.read(n, l)

    def stuck(self, keep):
        """the components with a cycle through a node satisfying keep that could not be ranked"""
        out = []
        work = sccs(list(self.g.nodes), self.edges)
        while work:
            c, es = work.pop()
            if not any(keep(n) for n in c):
                continue
            m = self.measure(c, es)
            if m is None:
                out.append((c, es))
                continue
            rest = [e for e in es if e[2][0] not in m]
            work += sccs(list(c), rest)
        return out

    def measure(self, c, es):
        """segments made strictly smaller by some measure no segment makes larger"""
        locs = set()
        for n in c:
            for root, path in self.g.phi.get(n, ()):
                locs.add(mk("loc", root, path))
        own = lambda t: any(p.a[0] in c for p in phis(t))
        best = set()
        for l in sorted(locs, key=lambda l: l.id):
            vs = {n: self.at(self.g.nodes[n], l) for n in c}
            if any(v is None for v in vs.values()):
                continue
            seq = not all(v.op in ("I", "lin") or self.ip.is_int(v) or v.op == "phi" for v in vs.values())
            for kind in ("up", "down", "len", "grow"):
                strict = set()
                for s, d, (sg, env) in es:
                    a, z = vs[s], self.at(sg.st, l)
                    if z is None:
                        strict = None
                        break
                    if kind in ("len", "grow"):
                        if a.op in ("I", "lin", "adt", "tuple", "B") or z.op in ("I", "lin", "adt", "tuple", "B"):
                            strict = None
                            break
                        a, z = env.norm(mk("len", a)), env.norm(mk("len", z))
                    else:
                        if not (z.op in ("I", "lin", "phi") or self.ip.is_int(z)) or not (a.op in ("I", "lin", "phi") or self.ip.is_int(a)):
                            strict = None
                            break
                        a, z = env.norm(a), env.norm(z)
                    x, y = (a, z) if kind in ("up", "grow") else (z, a)      # x <= y is wanted
                    if a is z:
                        continue
                    df = sub(x, y)
                    if df.op == "I":
                        if df.a[0] > 0:
                            strict = None
                            break
                        if df.a[0] < 0 and self.bounded(kind, a, env, own):
                            strict.add(sg)
                        continue
                    if env.entails_le0(add(df, I(1))):
                        if self.bounded(kind, a, env, own):
                            strict.add(sg)
                    elif not env.entails_le0(df):
                        strict = None
                        break
                if strict:
                    return strict
            got = self.turned(l, es, vs)
            if got:
                return got
        return None

    def turned(self, l, es, vs):
        """segments that turn an element of a list into another variant than it was, when the list only ever changes that way"""
        changes = []
        for s, d, (sg, env) in es:
            a, z = vs[s], self.at(sg.st, l)
            if z is None:
                return None
            z, stores = env.norm(z), []
            a = env.norm(a)
            while z is not a and z.op == "store":
                stores.append(z.a)
                z = z.a[0]
            if z is not a:
                return None
            changes.append((sg, env, stores))
        to = {x[2].a[:2] if x[2].op == "adt" else None for _, _, xs in changes for x in xs}
        if len(to) != 1 or None in to:
            return None
        adt_, vi = to.pop()
        strict = set()
        for sg, env, xs in changes:
            for seq, i, v in xs:
                e = env.norm(self.ip.elem(env.st, seq, i))
                was = e.a[1] if e.op == "adt" else env.st.isd.get(e)
                if was is not None and was != vi or e.op != "adt" and vi in env.st.nots.get(e, ()):
                    strict.add(sg)
        return strict

    def bounded(self, kind, a, env, own):
        if kind == "len":
            return True
        if kind == "down":
            return env.entails_le0(scale(a, -1))
        for L in env.les():
            c, ps = lin_parts(L)
            k = a if a.op != "lin" else None
            rest = sub(L, a)
            if not own(rest) and own(L):
                return True
        return False


def c41(ctx):
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        loops(ctx, tag)
        recursion(ctx, tag)
    ctx.cfg = "A"
    from props import topo
    topo.visited(ctx, "c41", None, "pending work is only added for an element not met before, as by the reference")
    topo.graph(ctx, "c41", "work on a graph is only added for an element not met before, as by the reference", None)


def base_of(key):
    return key.split("@")[0].split("<")[0]


def writes(b, l):
    """[(block, kind, rvalue or terminator)] assigning a whole local"""
    out = []
    for x, blk in enumerate(b.blocks):
        if blk is None:
            continue
        for s in blk[0]:
            if s[0] == "=" and s[1] == [l]:
                out.append((x, "rv", s[2]))
        if blk[1]["k"] == "call" and blk[1]["dest"] == [l]:
            out.append((x, "call", blk[1]))
    return out


SAME = {"as_ref", "deref", "as_mut", "deref_mut", "borrow", "clone", "into_iter", "iter", "iter_mut", "as_slice", "to_owned", "unwrap", "expect", "branch", "as_deref",
        "copied", "cloned", "rev", "by_ref", "into_boxed_slice", "skip", "take", "enumerate", "as_mut_slice", "from", "into", "peekable", "zip_", "to_vec"}
ELEM = {"next", "next_back", "first", "last", "pop", "get", "index", "nth", "swap_remove", "remove", "pop_front", "pop_back", "iter_next"}


def part(b, p, whole, d=0, seen=()):
    """whether a place is the value `whole` stands for (0), a strict part of it (1), or something else (None)"""
    l, strict = p[0], False
    for e in p[1:]:
        if e[0] in ("f", "i", "ci", "sub"):
            strict = True
        elif e[0] not in ("d", "v"):
            return None
    if l == whole:
        return 1 if strict else 0
    if d > 24 or l in seen:
        return None
    ws = writes(b, l)
    if not ws:
        return None
    got = []
    for x, kind, w in ws:
        if kind == "rv":
            k = w["k"]
            q = w["p"] if k in ("ref", "rawptr", "copy_deref") else w["a"].get("p") if k in ("use", "cast") else None
            if k == "agg" and w.get("ak") == "tuple" and len(w["ops"]) and strict:
                f = next((e for e in p[1:] if e[0] == "f"), None)
                if f is not None and f[1] < len(w["ops"]):
                    r = part(b, w["ops"][f[1]]["p"], whole, d + 1, seen + (l,)) if "p" in w["ops"][f[1]] else None
                    if r is None:
                        return None
                    got.append(r)
                    continue
            if q is None:
                return None
            r = part(b, q, whole, d + 1, seen + (l,))
        else:
            f = w["f"].get("fn") if w["f"].get("k") == "c" else None
            ds = mir.names(b, f)
            if not ds or not w["args"] or "p" not in w["args"][0] or ds[-1].ws and ds[-1].name not in SAME | ELEM:
                return None
            r = part(b, w["args"][0]["p"], whole, d + 1, seen + (l,))
            if ds[0].name in ELEM and r is not None:
                r = 1
            elif ds[0].name not in SAME:
                return None
        if r is None:
            return None
        got.append(r)
    m = min(got)
    # the payload of an option, a branch or the element of an iterator is what the call gave, not a part of it
    if strict and m == 0 and not wrapper(b.locals[l]):
        m = 1
    return m


def wrapper(t):
    return t is not None and getattr(t, "k", None) == "adt" and t.adt.rsplit("::", 1)[-1] in ("Option", "Result", "ControlFlow", "Box", "Unique", "NonNull", "Enumerate", "Rev", "Iter", "IntoIter")


def descends(b, head, blocks, succ):
    """the local every round replaces by a strict part of itself"""
    cand = {}
    for x in blocks:
        for s in b.blocks[x][0]:
            if s[0] == "=" and len(s[1]) == 1 and b.locals[s[1][0]] is not None and getattr(b.locals[s[1][0]], "k", None) in ("ref", "adt"):
                cand.setdefault(s[1][0], set()).add(x)
    for l, at in sorted(cand.items()):
        if not any(x not in blocks for x, _, _ in writes(b, l)) and not 1 <= l <= b.argc:
            continue
        if cycle_without(head, blocks, succ, at):
            continue
        ok = True
        for x in at:
            for s in b.blocks[x][0]:
                if s[0] == "=" and s[1] == [l]:
                    rv = s[2]
                    q = rv["p"] if rv["k"] == "ref" else rv["a"].get("p") if rv["k"] in ("use", "cast") else None
                    if q is None or part(b, q, l) != 1:
                        ok = False
        if ok:
            return l
    return None


def cycle_without(head, blocks, succ, at):
    """a round of the loop that passes none of the blocks"""
    if head in at:
        return False
    seen, work = set(), [s for s in succ[head] if s in blocks]
    while work:
        x = work.pop()
        if x == head:
            return True
        if x in seen or x in at or x not in blocks:
            continue
        seen.add(x)
        work.extend(succ[x])
    return False


ADDING = {"push", "extend", "push_back", "push_front", "append", "insert", "extend_from_slice"}
CHECKING = {"insert", "contains", "contains_key", "get", "remove", "replace"}


def refilled(b, head, blocks, succ, call_at):
    """why a worklist that the loop also adds to may never be empty, or None"""
    t = b.blocks[call_at][1]
    dst = root_place(b, t["args"][0])
    if dst is None:
        return None
    for x in sorted(blocks):
        u = b.blocks[x][1]
        if x == call_at or u["k"] != "call" or not u["args"]:
            continue
        f = u["f"].get("fn") if u["f"].get("k") == "c" else None
        ds = mir.names(b, f)
        if not ds or ds[0].name not in ADDING or root_place(b, u["args"][0]) != dst:
            continue
        if "p" in u["args"][-1] and part(b, u["args"][-1]["p"], t["dest"][0]) == 1:
            continue
        guards = set()
        for y in blocks:
            v = b.blocks[y][1]
            if v["k"] == "call" and y != x:
                g = v["f"].get("fn") if v["f"].get("k") == "c" else None
                es = mir.names(b, g)
                if es and es[0].name in CHECKING and v["args"] and root_place(b, v["args"][0]) != dst:
                    guards.add(y)
        # a path from the head to the addition without a check of what is known
        seen, work, free = set(), [head], False
        while work:
            y = work.pop()
            if y == x:
                free = True
                break
            if y in seen or y in guards or y not in blocks:
                continue
            seen.add(y)
            work.extend(succ[y])
        if free:
            return "line %s adds to what line %s takes from, whatever was done before" % (b.blocks[x][2], b.blocks[call_at][2])
    return None


def root_place(b, o):
    """the place a reference operand points to, as text"""
    if "p" not in o:
        return None
    p = list(o["p"])
    for _ in range(8):
        ws = writes(b, p[0])
        if len(ws) != 1 or ws[0][1] != "rv":
            break
        rv = ws[0][2]
        if rv["k"] == "ref":
            p = list(rv["p"]) + [e for e in p[1:] if e[0] != "d"]
        elif rv["k"] in ("use", "cast") and "p" in rv["a"]:
            p = list(rv["a"]["p"]) + p[1:]
        else:
            break
    return str([p[0]] + [e[:2] for e in p[1:] if e[0] != "d"])


def loops(ctx, tag):
    P = ctx.P
    cg = callgraph.of(P)
    r1 = "every round of the loop takes an element away and the loop ends when there is none left"
    r2 = "ranking over the path graph: every cycle makes a counter grow towards a fixed bound, or shrink"
    r3 = "every round of the loop replaces a value by a strict part of itself"
    api = {}
    for n, c in P.crates.items():
        if n == "mstd" or n.startswith("w_"):
            continue
        for r in c.roots:
            if r["B"] is not None and (r["reach"] or r["d"].trait):
                api[(n, r["B"].key)] = r
    seen = set()
    hard = {}
    for k, b in ours(P):
        ls, succ, rest = natural_loops(b)
        base = base_of(k[1])
        for h in sorted(rest):
            ctx.ob("loop at %s:%s%s" % (b.loc.rsplit(":", 2)[0], b.blocks[h][2], tag), None, "irreducible loop", "", r1)
        for h in sorted(ls):
            if (base, h) in seen:
                continue
            seen.add((base, h))
            how, why = consumes(b, h, ls[h], succ)
            name = "the loop of %s at line %s stops%s" % (interp.fn_path(k[1]), b.blocks[h][2], tag)
            w = "%s:%s" % (b.loc.rsplit(":", 2)[0], b.blocks[h][2])
            ctx.counts["loop_heads"] = ctx.counts.get("loop_heads", 0) + 1
            if how:
                ctx.ob(name, True, "each round: " + how, w, r1)
                continue
            l = descends(b, h, ls[h], succ)
            if l is not None:
                ctx.ob(name, True, "each round goes to a part of %s" % (b.locals[l].d,), w, r3)
            else:
                hard.setdefault((k, base), []).append((h, name, w, why))
    done = {}
    for (k, base), hs in sorted(hard.items()):
        rs = [api[x] for x in sorted(cg.reaching(lambda y: base_of(y[1]) == base)) if x in api]
        rs = [r for r in rs if r["B"].crate.name == k[0]] or rs
        # the public operations that reach it without passing through another one are enough
        near = [r for r in rs if nearest(cg, (r["B"].crate.name, r["B"].key), base, api)]
        for h, name, w, why in hs:
            verdict, detail = None, "no public operation reaches it" if not near else "no path graph of an operation reaching it"
            for r in near if k[0] != "syntax_gen" else ():
                key = (r["B"].crate.name, r["B"].key)
                if key not in done:
                    g = ctx.graph(r, quiet=True)
                    done[key] = Rank(ctx, g) if g is not None else None
                R = done[key]
                if R is None:
                    continue
                is_here = lambda n: n.op == "node" and base_of(n.a[0].a[-1]) == base and n.a[1] == h
                if not any(is_here(n) for n in R.g.nodes):
                    continue
                st = R.stuck(is_here)
                if st:
                    verdict = False
                    sg = st[0][1][0][2][0]
                    detail = "no counter grows towards a bound on the round where %s%s" % (ctx.facts(sg), "; " + why if why else "")
                    break
                verdict, detail = True, "ranked in %s" % r["d"].canon
            if verdict is None and why:
                verdict, detail = False, why
            ctx.ob(name, verdict, detail, w, r2)


def nearest(cg, start, base, api):
    work, seen = [start], {start}
    while work:
        x = work.pop()
        if base_of(x[1]) == base:
            return True
        for y in cg.out.get(x, ()):
            if y not in seen and not (y in api and base_of(y[1]) != base):
                seen.add(y)
                work.append(y)
    return False


def recursion(ctx, tag):
    P = ctx.P
    cg = callgraph.of(P)
    rule = "every recursive call is on a strict part of the argument, or after taking an element from a stack it owns"
    nodes, edges = set(), set()
    for k, b in ours(P):
        for o in cg.out.get(k, ()):
            if base_of(o[1]).startswith(k[0] + "::") or True:
                nodes.add(base_of(k[1]))
                edges.add((base_of(k[1]), base_of(o[1])))
    nodes |= {y for _, y in edges}
    comps = sccs(sorted(nodes), sorted((a, z, None) for a, z in edges))
    ctx.counts["call_graph_functions"] = ctx.counts.get("call_graph_functions", 0) + len(nodes)
    seen = set()
    bad = 0
    for c, es in comps:
        if not any(x.split("::")[0] in P.crates and x.split("::")[0] != "mstd" for x in c):
            continue
        bad += 1
        if len(c) > 1:
            ctx.ob("the recursion of %s ends%s" % (", ".join(sorted(interp.fn_path(x) for x in c)), tag), None, "mutual recursion", "", rule)
            continue
        f = next(iter(c))
        for k, b in ours(P):
            if base_of(k[1]) != f or f in seen:
                continue
            seen.add(f)
            sites = []
            for x, blk in enumerate(b.blocks):
                if blk is None or blk[1]["k"] != "call":
                    continue
                fn = blk[1]["f"].get("fn") if blk[1]["f"].get("k") == "c" else None
                if fn is not None and base_of(str(fn.get("body"))) == f:
                    sites.append((x, blk))
            name = "the recursion of %s ends%s" % (interp.fn_path(f), tag)
            if not sites:
                ctx.ob(name, None, "recursive through a value", b.loc, rule)
                continue
            okargs = set(range(1, b.argc + 1))
            for x, blk in sites:
                okargs &= {i + 1 for i, o in enumerate(blk[1]["args"]) if "p" in o and part(b, o["p"], i + 1) == 1}
            if okargs:
                ctx.ob(name, True, "%d recursive calls, each on a part of argument %d" % (len(sites), min(okargs)), b.loc, rule)
                continue
            for x, blk in sites:
                v, why = popped(b, x)
                ctx.ob("%s: the call at line %s" % (name, blk[2]), v, why, "%s:%s" % (b.loc.rsplit(":", 2)[0], blk[2]), rule)
    ctx.ob("recursive functions%s" % tag, True, "%d strongly connected components with a cycle in the call graph" % bad, "", rule)


def popped(b, x):
    """every path to the block takes an element from a stack parameter"""
    pops = set()
    helper = False
    for y, blk in enumerate(b.blocks):
        if blk is None or blk[1]["k"] != "call" or not blk[1]["args"]:
            continue
        t = blk[1]
        fn = t["f"].get("fn") if t["f"].get("k") == "c" else None
        ds = mir.names(b, fn)
        if not ds or "p" not in t["args"][0]:
            continue
        r = root_place(b, t["args"][0])
        own = any(r == str([i]) for i in range(1, b.argc + 1))
        if ds[0].name in ("pop", "split_last", "split_first", "pop_back", "pop_front", "remove", "swap_remove") and own:
            pops.add(y)
        elif ds[-1].ws and own:
            helper = True
    seen, work = set(), [0]
    while work:
        y = work.pop()
        if y == x:
            return (None if helper else False), "a path to it takes nothing from the arguments"
        if y in seen or y in pops or b.blocks[y] is None:
            continue
        seen.add(y)
        work.extend(load.succs(b.blocks[y][1]))
    return True, "after an element was taken from the argument"
