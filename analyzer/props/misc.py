"""fast-hash, elapsed, write-rs-tokens."""
from terms import *
import kit
from kit import PANIC, ANY, spec, sp
from props.common import *


# ------------------------------------------------------------------ C26
def c26(ctx):
    rule = "loop relation with the fold that panics on an element already present and inserts it otherwise"

    @spec("c26/map")
    def _(q, i, m, xs):
        if not q(le0(add(sub(i, q.len(xs)), I(1)))):
            return m
        x = q.elem(xs, i)
        k, v = q.fld(x, "", 0), q.fld(x, "", 1)
        if q(q.norm(mk("mhas", m, k))):
            return PANIC
        return sp("c26/map", add(i, I(1)), q.norm(mk("minsert", m, k, v)), xs)

    @spec("c26/set")
    def _(q, i, m, xs):
        if not q(le0(add(sub(i, q.len(xs)), I(1)))):
            return m
        x = q.elem(xs, i)
        if q(q.norm(mk("mhas", m, x))):
            return PANIC
        return sp("c26/set", add(i, I(1)), q.norm(mk("minsert", m, x, UNIT)), xs)

    # the same: everything is inserted, and there are as many entries as elements exactly when none was there before
    def put(q, n, m, x):
        return q.norm(mk("minsert", m, q.fld(x, "", 0), q.fld(x, "", 1)) if n == "map" else mk("minsert", m, x, UNIT))
    for n in ("map", "set"):
        @spec("c26/count/" + n)
        def _(q, i, m, xs, n=n):
            if not q(le0(add(sub(i, q.len(xs)), I(1)))):
                return m if q(eq0(sub(q.len(m), q.len(xs)))) else PANIC
            return sp("c26/count/" + n, add(i, I(1)), put(q, n, m, q.elem(xs, i)), xs)
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        deep = lambda s: ctx.ip.deep(s.st, s.val)
        for n in ("map", "set"):
            r = ctx.root("fast_hash", "fast_hash::" + n)
            g = ctx.graph(r)
            if g is not None:
                for k in ("c26/", "c26/count/"):
                    kit.SPEC["start/" + k + n] = lambda q, g=g, k=k, n=n: sp(k + n, I(0), mk("mnew"), g.args[0])
                ctx.sim_any("%s is the checked fold%s" % (n, tag), r, [sp("start/c26/" + n), sp("start/c26/count/" + n)], lambda e: None, deep, rule, g=g)
            r = ctx.root("fast_hash", "fast_hash::%s_with_capacity" % n)
            g = ctx.graph(r)
            if g is None:
                continue

            def cap(s, env, g=g):
                v = env.norm(ctx.ip.deep(s.st, s.val))
                if v.op != "mnew":
                    return "returns %s, not an empty collection" % show(v, 6)
                want = [e.args[0] for e in s.events if e.name in ("with_capacity", "reserve")]
                if not any(env.entails_le0(env.norm(sub(g.args[0], w))) for w in want):
                    return "does not ask for the capacity it was given, but for %s" % [show(w, 6) for w in want]
            ctx.each("%s_with_capacity is empty and has the capacity%s" % (n, tag), r, cap, "empty result, capacity request of at least the argument")
            ctx.each("%s_with_capacity does not panic%s" % (n, tag), r, lambda s, e: "panics", "", kinds=("panic",))
    ctx.cfg = "A"


# ------------------------------------------------------------------ C38
NOW = "std::Instant::now"
SINCE = ("std::Instant::duration_since", "std::Instant::saturating_duration_since", "std::Sub::sub")


def timed(ctx, s, env, g, dur):
    """complaint about the call and clock events of one path"""
    f = g.args[-1]
    evs = [e for e in s.events if e.name == "callback" or e.name.startswith("std::Instant::") or e.name in SINCE]
    calls = [i for i, e in enumerate(evs) if e.name == "callback"]
    if len(calls) != 1:
        return "calls the function %d times" % len(calls)
    c = calls[0]
    if env.same(evs[c].args[0], f) is not True:
        return "calls %s, not the function given" % show(evs[c].args[0], 6)
    if dur is None:
        return None
    before = [e for e in evs[:c] if e.name == NOW]
    after = [e for e in evs[c + 1:] if e.name == NOW]
    d = env.norm(dur)
    for e in evs[c + 1:]:
        if env.same(e.res, d) is not True:
            continue
        if e.name in SINCE:
            late, early = e.args[0], e.args[1]
            if any(x.res is late for x in after) and any(x.res is early for x in before):
                return None
            return "measures from %s to %s, not from before the call to after it" % (show(early, 5), show(late, 5))
        if e.name == "std::Instant::elapsed":
            if any(x.res is e.args[0] for x in before):
                return None
            return "measures from a reading taken after the call"
    return "reports %s, not the later reading minus the earlier" % show(d, 6)


def c38(ctx):
    rule = "events of every path: one call, between the readings whose difference is reported"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        r = ctx.root("elapsed", "elapsed::time")
        g = ctx.graph(r)
        if g is not None:
            def f(s, env):
                res, dur = ctx.ip.field(s.st, s.val, "", 0, 0), ctx.ip.field(s.st, s.val, "", 0, 1)
                m = timed(ctx, s, env, g, dur)
                if m:
                    return m
                call = [e for e in s.events if e.name == "callback"][0]
                if env.same(res, call.res) is not True:
                    return "returns %s, not the function's result" % show(res, 6)
            ctx.each("time measures exactly the call" + tag, r, f, rule)
            ctx.each("time does not panic itself" + tag, r, lambda s, e: "panics", rule, kinds=("panic",))
        r = ctx.root("elapsed", "elapsed::log")
        g = ctx.graph(r)
        if g is None:
            continue

        def f(s, env):
            logs = [e for e in s.events if e.name == "log"]
            call = [e for e in s.events if e.name == "callback"]
            if len(call) != 1:
                return "calls the function %d times" % len(call)
            if env.same(s.val, call[0].res) is not True:
                return "returns %s, not the function's result" % show(s.val, 6)
            if len(logs) != 1:
                return "logs %d records" % len(logs)
            ps = [x for x in logs[0].args[1].a[0]] if logs[0].args[1].op == "fmtargs" else []
            if not any(env.same(p, ctx.init(g.args[0])) is True or (p.op == "disp" and env.same(p.a[1], ctx.init(g.args[0])) is True) for p in ps):
                return "does not log the message"
            ds = [p.a[1] for p in ps if p.op == "disp" and p.a[2] == "std::Duration"]
            if not ds:
                return "does not log the duration"
            for d in ds:
                m = timed(ctx, s, env, g, d)
                if m:
                    return "the duration logged: " + m
        ctx.each("log calls once, logs message and duration once, returns the result" + tag, r, f, rule)
        ctx.each("log does not panic itself" + tag, r, lambda s, e: "panics", rule, kinds=("panic",))
    ctx.cfg = "A"


# ------------------------------------------------------------------ C43
def c43(ctx):
    rule = "file-system events of every path: one write of the formatted tokens to the named file of the output directory, none unless the tokens parse"
    r = ctx.root("write_rs_tokens", "write_rs_tokens::go")
    g = ctx.graph(r)
    if g is not None:
        toks, base = g.args[0], ctx.init(g.args[1])

        def parsed(env, s):
            return [e for e in s.events if e.name.startswith("syn::parse2") and env.same(e.args[0], toks) is True and env.ask_is(e.res, RES, 0) is True]

        def effects(s):
            return [e for e in s.events if not e.name.endswith(("::flush", "::sync_all", "::sync_data")) and (e.name.startswith(("std::fs::", "std::File::")) or e.name.startswith("std::io::") or e.name.endswith(("write_all", "OpenOptions::open")))]

        def target(env, s, p):
            """p is OUT_DIR joined with the name"""
            p = env.norm(p)
            dirs = [e.res for e in s.events if e.name in ("std::env::var_os", "std::env::var") and env.same(e.args[0], S("OUT_DIR")) is True]
            for d in dirs:
                for a in (OPT, RES):
                    x = ctx.ip.field(s.st, d, a, 1 if a is OPT else 0, 0)
                    if env.same(p, mk("ppush", x, base)) is True:
                        return True
            return False

        def go(s, env):
            es = effects(s)
            ok_ = parsed(env, s)
            ws = [e for e in es if e.name == "std::fs::write"]
            cs = [e for e in es if e.name in ("std::File::create", "std::fs::File::create")]
            wa = [e for e in es if e.name.endswith("write_all")]
            if s.kind == "panic" and not es:
                return None
            if not ok_:
                return "touches the file system although the tokens did not parse (%s)" % es[0].name if es else "returns although the tokens did not parse" if s.kind == "return" else None
            file_ = ctx.ip.field(s.st, ok_[0].res, RES, 0, 0)
            forms = [e.res for e in s.events if e.name.startswith("prettyplease::unparse") and env.same(e.args[0], file_) is True]
            isform = lambda x: any(env.same(x, f) is True for f in forms)
            if len(es) == 1 and ws:
                if not target(env, s, ws[0].args[0]):
                    return "writes to %s, not to the named file in OUT_DIR" % show(env.norm(ws[0].args[0]), 8)
                if not isform(ws[0].args[1]):
                    return "writes %s, not the formatted tokens" % show(env.norm(ws[0].args[1]), 8)
                return None
            if len(cs) == 1 and len(wa) <= 1 and len(es) == len(cs) + len(wa):
                if not target(env, s, cs[0].args[0]):
                    return "writes to %s, not to the named file in OUT_DIR" % show(env.norm(cs[0].args[0]), 8)
                if wa and not isform(wa[0].args[1]):
                    return "writes %s, not the formatted tokens" % show(env.norm(wa[0].args[1]), 8)
                if not wa and s.kind == "return":
                    return "creates the file without writing it"
                return None
            if s.kind == "return" and not es:
                return "returns without having written the file"
            return "has the file-system effects %s" % [e.name for e in es]
        ctx.each("go writes one file", r, go, rule, kinds=("return", "panic"))
    outputs(ctx)


def outputs(ctx):
    """syntax_gen::get hands exactly the two files to the writer, on every returning path"""
    rule = "calls of the writer on every path of the generator, with everything else it calls opaque"
    r = ctx.root("syntax_gen", "syntax_gen::get")
    if r is None:
        return
    g = ctx.opaque_graph(r, lambda p: "{closure" not in p and p.split("::")[0] in ("syntax_gen", "write_rs_tokens"), unless=lambda p: p == "write_rs_tokens::go")
    if g is None:
        ctx.undecided("syntax_gen::get", "analysis stopped")
        return

    # names written along the paths into each loop head
    at = {"entry": {()}}
    work = ["entry"]
    bad, ends = None, 0
    while work:
        n = work.pop()
        for s in g.segs:
            if s.src is not n and s.src != n:
                continue
            env = kit.Env(ctx.ip, s.st)
            add_ = tuple(show(env.norm(ctx.ip.deep(s.st, e.args[1]))) for e in s.events if e.name == "write_rs_tokens::go")
            for w in list(at[n]):
                w2 = tuple(sorted(w + add_))
                if s.kind == "return":
                    ends += 1
                    if w2 != ("'ast.rs'", "'kind.rs'") and bad is None:
                        bad = "returns having written the files %s; on the path where %s" % (list(w2), ctx.facts(s))
                elif s.kind == "node":
                    if len(w2) > 3:
                        bad = bad or "writes the files %s..." % list(w2)
                    elif w2 not in at.setdefault(s.dst, set()):
                        at[s.dst].add(w2)
                        work.append(s.dst)
    ctx.ob("the generator writes exactly ast.rs and kind.rs", bad is None, bad or "%d returning paths" % ends, ctx.where(r), rule)
