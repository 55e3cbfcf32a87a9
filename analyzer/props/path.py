"""paths: clean paths, path ids, file systems."""
from terms import *
import kit
import std
import callgraph
import interp
from kit import PANIC, ANY, Stuck, spec, sp
from props.common import *

CP, CPB = "paths::CleanPath", "paths::CleanPathBuf"
COMP = "std::Component"


# ------------------------------------------------------------------ C14
PATHS = ("ppop", "ppush", "str", "phi", "asref", "*")


def raw(ctx, st, v):
    """the std path inside a clean path value, or behind a reference cast to one"""
    v = ctx.ip.deep(st, v)
    if v.op in PATHS and v.op != "*" or v.op == "fld" and v.a[1] in (CP, CPB):
        return v
    return ctx.ip.deep(st, ctx.ip.field(st, v, CPB, 0, 0))


def is_clean(ctx, st, x, d=0):
    """x is the path of an existing clean path, a prefix of one, or a clean literal"""
    if d > 6:
        return False
    if x.op == "str":
        p = x.a[0]
        return p.startswith("/") and not any(c in (".", "..") for c in p.split("/"))
    if x.op == "ppop":
        return is_clean(ctx, st, x.a[0], d + 1)
    if x.op == "fld" and x.a[1] in (CP, CPB):
        return True
    if x.op == "*" and is_clean(ctx, st, x.a[0], d + 1):
        return True
    return False


def c14(ctx):
    rule = "loop relation with the lexical cleaning fold; every other place that makes a clean path takes it from an existing one"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        for n in (CP, CPB):
            fs = ctx.fields(n)
            ctx.ob("%s has one private path%s" % (n, tag), len(fs) == 1 and not fs[0][2], str([(f[0], f[1].d, f[2]) for f in fs]), n, "type-level")
        bad = [i.get("trait", "") for n in (CP, CPB) for i in ctx.impls("paths", n)
               if i.get("trait", "").split("<")[0].split("::")[-1] in ("DerefMut", "BorrowMut", "AsMut", "Default", "IndexMut", "FromStr", "Deserialize")]
        ctx.ob("no mutable view and no default of a clean path" + tag, not bad, "implements %s" % bad, CPB, "type-level")

        @spec("c14/clean")
        def _(q, i, out, cs, wrap):
            if not q(le0(add(sub(i, q.len(cs)), I(1)))):
                return tup(wrap, out)
            c = q.elem(cs, i)
            k = q.variant(c, COMP)
            nxt = lambda o: sp("c14/clean", add(i, I(1)), o, cs, wrap)
            if k == 0:
                if not q.eq(i, I(0)):
                    raise Stuck()
                return nxt(q.norm(mk("compstr", c)))
            if k == 2:
                return nxt(out)
            if k == 3:
                return nxt(std.ppop(out))
            return nxt(std.ppush(out, q.norm(mk("compstr", c))))

        def cleaned(q, p, wrap):
            p = q.norm(p)
            return sp("c14/clean", I(0), S(""), mk("comps", p), wrap)
        ISSOME = lambda b: S("some") if b else S("none")

        def new(q, p):
            x = argpath(ctx, q, p, r)
            if not q(mk("isabs", x)):
                return tup(S("none"), UNIT)
            return cleaned(q, x, S("some"))

        def obs_new(s):
            k = kit.Env(ctx.ip, s.st).ask_is(s.val, OPT, 1)
            if k is None:
                return tup(mk("opq", "?"), s.val)
            if not k:
                return tup(S("none"), UNIT)
            return tup(S("some"), raw(ctx, s.st, ctx.ip.field(s.st, s.val, OPT, 1, 0)))
        r = ctx.root("paths", CPB + "::new")
        ctx.fn("CleanPathBuf::new is the cleaning fold" + tag, r, new, obs_new, rule=rule)
        r2 = ctx.root("paths", CPB + "::push")

        def push(q, a, p):
            x = std.ppush(q.norm(raw(ctx, q.st, ctx.init(a))), argpath(ctx, q, p, r2))
            if not q(mk("isabs", x)):
                raise Stuck()         # a clean path is absolute, so this is too
            return cleaned(q, x, UNIT)
        if r2 is not None:
            ctx.fn("CleanPathBuf::push cleans the joined path" + tag, r2, push,
                   lambda s: tup(s.val, raw(ctx, s.st, ctx.final(s, ctx.graph(r2).args[0]))), rule=rule)
        r3 = ctx.root("paths", CP + "::join")

        def join(q, a, p):
            x = std.ppush(q.norm(ctx.ip.field(q.st, ctx.init(a), CP, 0, 0)), argpath(ctx, q, p, r3))
            if not q(mk("isabs", x)):
                raise Stuck()
            return cleaned(q, x, UNIT)
        ctx.fn("CleanPath::join cleans the joined path" + tag, r3, join, lambda s: tup(UNIT, raw(ctx, s.st, s.val)), rule=rule)
        made = {interp.fn_path(x["B"].key) for x in (r, r2, r3) if x}
        # nobody else makes or changes a clean path except from a clean path
        for x in ctx.api("paths", derived=True):
            if interp.fn_path(x["B"].key) in made:
                continue
            nm = x["d"].canon
            g = ctx.opaque_graph(x, lambda p: p in made)
            if g is None:
                continue

            def other(s, env, g=g, x=x):
                if s.val is not None:
                    for t in walk(ctx.ip.deep(s.st, s.val)):
                        if t.op == "adt" and t.a[0] in (CP, CPB):
                            v = env.norm(ctx.ip.deep(s.st, t.a[2][0]))
                            if not is_clean(ctx, s.st, v):
                                return "makes a clean path from %s" % show(v, 6)
                for a, ty in zip(g.args, x["ins"]):
                    if ty.k == "ref" and ty.mut and ty.el.k == "adt" and ty.el.adt in (CP, CPB) and env.same(ctx.final(s, a), ctx.init(a)) is not True:
                        return "changes the clean path %s" % show(a)
                return None
            ctx.each("%s makes clean paths only from clean paths%s" % (nm, tag), x, other, rule, g=g)
        # casting a path to a clean path is done only on clean paths
        r4 = ctx.root("paths", CP + "::parent")
        ctx.fn("CleanPath::parent is the path without its last component" + tag, r4,
               lambda q, a: tup(S("some"), std.ppop(pv(ctx, q, a))) if q(mk("haspar", pv(ctx, q, a))) else tup(S("none"), UNIT),
               obs_new, rule=rule)
    ctx.cfg = "A"


def pv(ctx, q, a):
    return q.norm(ctx.ip.field(q.st, ctx.init(a), CP, 0, 0))


def argpath(ctx, q, p, r):
    """the path an argument of type P: AsRef<Path>, &Path or PathBuf denotes"""
    t = r["ins"][-1]
    if t.k == "ref":
        return q.norm(ctx.init(p))
    if t.k in ("param", "alias"):
        return mk("asref", p)
    return p


# ------------------------------------------------------------------ C15
def c15(ctx):
    rule = "result and both tables after every path equal the reference store's"
    ST, ID = "paths::Store", "paths::PathId"
    vi = field_of(ctx, ST, lambda t: t.k == "adt" and t.adt == "std::Vec", "the list of paths")
    mi = field_of(ctx, ST, lambda t: t.k == "adt" and t.adt.endswith("HashMap"), "the table of ids")
    if None in (vi, mi):
        return
    key = lambda q, x: q.norm(ctx.ip.deep(q.st, x))

    def idnum(st, x):
        x = ctx.ip.field(st, x, ID, 0, 0)
        return ctx.ip.field(st, x, "idx::Idx", 0, 0)
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        tables = lambda st, v: (ctx.ip.field(st, v, ST, 0, vi), ctx.ip.field(st, v, ST, 0, mi))

        def get(q, vec, mp, k):
            """(id, list, table) after asking for k"""
            if q(q.norm(mk("mhas", mp, k))):
                return idnum(q.st, q.norm(mk("mget", mp, k))), vec, mp
            n = q.len(vec)
            if not q(fits32(n)):
                return None
            return n, q.norm(mk("push", vec, adt(CPB, 0, (k,)))), q.norm(mk("minsert", mp, k, idval(n)))
        idval = lambda n: adt(ID, 0, (adt("idx::Idx", 0, (n,)),))

        def obs(r):
            def f(s):
                a = ctx.graph(r).args[0]
                v, m = tables(s.st, ctx.final(s, a))
                return tup(idnum(s.st, s.val), v, m)
            return f

        def one(r):
            t = r["ins"][1]

            def f(q, a, p):
                v, m = (q.norm(x) for x in tables(q.st, ctx.init(a)))
                k = q.norm(ctx.ip.field(q.st, ctx.init(p), CP, 0, 0)) if t.k == "ref" else q.norm(ctx.ip.field(q.st, p, CPB, 0, 0))
                x = get(q, v, m, k)
                return PANIC if x is None else tup(*x)
            return f
        for n in ("get_id", "get_id_owned"):
            r = ctx.root("paths", "%s::%s" % (ST, n))
            if r is not None:
                ctx.fn("Store::%s is the reference store%s" % (n, tag), r, one(r), obs(r), rule=rule)
        r = ctx.root("paths", ST + "::get_path")
        if r is not None:
            def path(q, a, i):
                v, _ = tables(q.st, ctx.init(a))
                n = idnum(q.st, i)
                if not q(le0(add(sub(n, q.len(v)), I(1)))):
                    return PANIC
                return q.norm(ctx.ip.field(q.st, q.elem(v, n), CPB, 0, 0))
            ctx.fn("Store::get_path is the path at the id" + tag, r, path, lambda s: raw(ctx, s.st, s.val), rule=rule)
        for n in ("new", "<default>"):
            r = ctx.root("paths", ST + "::new") if n == "new" else ctx.root("paths", "<%s as std::Default>::default" % ST)
            if r is not None:
                ctx.fn("Store::%s is empty%s" % (n, tag), r, lambda q: tup(mk("arr", ()), mk("mnew")), lambda s: tup(*tables(s.st, s.val)), rule=rule)
        r = ctx.root("paths", ST + "::combine")
        if r is not None:
            @spec("c15/comb")
            def _(q, i, vec, mp, f, w, ov):
                if not q(le0(add(sub(i, q.len(ov)), I(1)))):
                    return tup(UNIT, vec, mp)
                if not q(fits32(i)):
                    return PANIC
                k = q.norm(ctx.ip.field(q.st, q.elem(ov, i), CPB, 0, 0))
                x = get(q, vec, mp, k)
                if x is None:
                    return PANIC
                q.emit("callback", f, i, x[0])
                c = call("callback", f, idval(i), x[3] if len(x) > 3 else q.norm(idval(x[0])), w)
                return sp("c15/comb", add(i, I(1)), x[1], x[2], mk("post", 0, c), mk("post", "w", c), ov)

            def comb(q, a, o, f):
                v, m = (q.norm(x) for x in tables(q.st, ctx.init(a)))
                ov, _ = tables(q.st, o)
                return sp("c15/comb", I(0), v, m, ctx.init(f), WORLD, q.norm(ov))

            def ev(e):
                if e.name == "callback":
                    return ("callback", e.args[0], idnum2(ctx, e.args[1]), idnum2(ctx, e.args[2]))
            ctx.fn("Store::combine maps every path of the other store, in order%s" % tag, r, comb,
                   lambda s: tup(s.val, *tables(s.st, ctx.final(s, ctx.graph(r).args[0]))), ev=ev, rule=rule)
        others(ctx, ST, {"get_id", "get_id_owned", "combine"}, rule, tag)
    ctx.cfg = "A"


def idnum2(ctx, x):
    return mk("fld", mk("fld", x, "paths::PathId", 0, 0), "idx::Idx", 0, 0) if x.op != "adt" else (
        x.a[2][0].a[2][0] if x.a[2][0].op == "adt" else mk("fld", x.a[2][0], "idx::Idx", 0, 0))


def fits32(n):
    return fits(n, "u32")


def others(ctx, ty, known, rule, tag):
    """no other public function changes a value of the type"""
    crate = ty.split("::")[0]
    for r in ctx.api(crate, derived=True):
        nm = r["d"].canon
        if nm.split("::")[-1] in known or not r["ins"]:
            continue
        ms = [i for i, t in enumerate(r["ins"]) if t.k == "ref" and t.mut and t.el.k == "adt" and t.el.adt == ty]
        if not ms:
            continue

        def same(s, env, r=r):
            for i in ms:
                a = ctx.graph(r).args[i]
                if env.same(ctx.final(s, a), ctx.init(a)) is not True:
                    return "changes %s" % show(a)
        ctx.each("%s changes nothing%s" % (nm, tag), r, same, rule)


# ------------------------------------------------------------------ C16
def alike(ctx, tag, T, X, tname, rule):
    """the comparison of a T is the comparison of the X it lends"""
    crate = tname.split("::")[0]
    xs = "std::str" if X.k == "str" else X.adt
    lend = None
    for nm, rs in ctx.P.crates[crate].fns.items():
        if nm.startswith("<%s as std::Borrow" % tname) and nm.endswith("::borrow"):
            for r in rs:
                if r["B"] is not None and r["out"] is not None and r["out"].k == "ref" and r["out"].el.d == X.d:
                    lend = r
    if lend is None:
        return ctx.undecided("%s lends %s%s" % (tname, xs, tag), "the borrow function was not found")
    g = ctx.graph(lend)
    if g is None or len(g.segs) != 1 or g.segs[0].kind != "return":
        return ctx.undecided("%s lends %s%s" % (tname, xs, tag), "the borrow function branches")
    s0 = g.segs[0]
    view = lambda st, p: strip(ctx, st, kit.subst(ctx.ip.deep(s0.st, mk("*", s0.val)), {g.args[0]: p}))
    base = lambda st, p: view(st, p)
    sides = {}
    for tr, fn_ in (("PartialEq", "eq"), ("Ord", "cmp"), ("PartialOrd", "partial_cmp"), ("Hash", "hash")):
        r = ctx.root(crate, "<%s as std::%s>::%s" % (tname, tr, fn_))
        if r is None:
            if tr in ("PartialEq", "Hash"):
                ctx.undecided("%s %s%s" % (tname, fn_, tag), "function not found")
            continue
        name = "%s::%s agrees with the %s it lends%s" % (tname, fn_, xs, tag)
        if fn_ == "hash":
            def hs(s, env, r=r):
                a = ctx.graph(r).args
                es = [e for e in s.events if e.name.startswith("std::Hash") or "Hasher" in e.name]
                if len(es) != 1:
                    return "hashes %d things" % len(es)
                t = peeled(es[0].tys[0])
                if t is not None and t.k == "adt" and t.adt in ("std::OsStr", "std::OsString") and xs != t.adt:
                    return "hashes the bytes of an OsStr, and the lent value is a %s" % xs
                if es[0].name != "std::Hash::hash" or env.same(strip(ctx, s.st, es[0].args[0]), base(s.st, a[0])) is not True:
                    return "hashes %s, and the lent value is %s" % (show(strip(ctx, s.st, es[0].args[0]), 6), show(base(s.st, a[0]), 6))
            ctx.each(name, r, hs, rule)
            continue

        def want(q, a, b, fn_=fn_):
            x, y = q.norm(base(q.st, a)), q.norm(base(q.st, b))
            if fn_ == "eq":
                return TRUE if q.eq(x, y) else FALSE
            o = q.norm(mk("ord", x, y))
            return o if fn_ == "cmp" else some(o)
        ctx.fn(name, r, want, rule=rule)


def peeled(t):
    while t is not None and t.k in ("ref", "ptr"):
        t = t.el
    return t


def strip(ctx, st, v):
    """through the workspace's one-field wrappers and references to the value compared"""
    for _ in range(8):
        v = ctx.ip.deep(st, v)
        if v.op == "adt" and len(v.a[2]) == 1 and v.a[0].split("::")[0] in ctx.P.crates:
            v = v.a[2][0]
        else:
            return v
    return v


def c16(ctx):
    rule = "equality, order and hash of a wrapper are those of the value it lends; an identity-hashed id feeds its whole number once"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        for crate, c in sorted(ctx.P.crates.items()):
            for i in c.impls:
                tr = (i.get("trait") or "").split("<")[0]
                T = i["self_ty"]
                if T.k != "adt" or T.adt.split("::")[0] != crate:
                    continue
                if tr.endswith("Borrow") and len(i["trait_args"]) > 1:
                    alike(ctx, tag, T, i["trait_args"][1], T.adt, rule)
                if tr.endswith("IsEnabled"):
                    whole(ctx, tag, crate, T.adt, rule)
        whole(ctx, tag, "uniq", "uniq::Uniq", rule)
    ctx.cfg = "A"


def whole(ctx, tag, crate, tname, rule):
    """hash, eq and order of an id are those of its one whole number"""
    def num(st, p):
        v = mk("*", p)
        ty = tname
        for _ in range(4):
            fs = ctx.fields(ty)
            if len(fs) != 1:
                return None
            v = ctx.ip.deep(st, ctx.ip.field(st, v, ty, 0, 0))
            if is_uint(fs[0][1]):
                return v
            if fs[0][1].k != "adt":
                return None
            ty = fs[0][1].adt
        return None
    r = ctx.root(crate, "<%s as std::Hash>::hash" % tname)
    if r is None:
        ctx.undecided("%s hash%s" % (tname, tag), "function not found")
    else:
        def hs(s, env):
            es = [e for e in s.events if e.name.startswith("std::Hash") or "Hasher" in e.name]
            n = num(s.st, ctx.graph(r).args[0])
            if n is None:
                return None
            if len(es) != 1:
                return "hashes %d things, where an identity hasher takes one number" % len(es)
            if not any(env.same(env.norm(ctx.ip.deep(s.st, a)), env.norm(n)) is True for a in es[0].args):
                return "hashes %s, not the whole number" % show(es[0].args[0], 6)
        ctx.each("%s::hash feeds its whole number once%s" % (tname, tag), r, hs, rule)
    for tr, fn_ in (("PartialEq", "eq"), ("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
        r = ctx.root(crate, "<%s as std::%s>::%s" % (tname, tr, fn_))
        if r is None:
            continue

        def want(q, a, b, fn_=fn_):
            x, y = num(q.st, a), num(q.st, b)
            if x is None or y is None:
                raise interp.Unsupported("the id is not one number")
            if fn_ == "eq":
                return TRUE if q.eq(x, y) else FALSE
            o = q.norm(mk("ord", q.norm(x), q.norm(y)))
            return o if fn_ == "cmp" else some(o)
        ctx.fn("%s::%s compares the whole number%s" % (tname, fn_, tag), r, want, rule=rule)


# ------------------------------------------------------------------ C17
READONLY = {"read", "read_to_string", "read_dir", "metadata", "symlink_metadata", "canonicalize", "exists", "read_link", "try_exists", "path", "file_name", "file_type", "open"}
FSMODS = ("std::fs", "std::File", "std::OpenOptions", "std::DirBuilder", "std::DirEntry", "std::ReadDir", "std::process", "std::Command", "std::TcpStream", "std::TcpListener", "std::UdpSocket")
NOTFOUND = mk("opq", "not found")


def kind_of(ctx, st, e):
    """what error a memory file system made"""
    e = ctx.ip.deep(st, e)
    for t in walk(e):
        if t.op == "adt" and t.a[0].endswith("ErrorKind"):
            return S("kind %s" % t.a[1])
    return S("kind 0")


def c17(ctx):
    rule = "loop relation with the reference function over the std::fs / map results; effects: no mutating call"
    RF, MF = "paths::RealFileSystem", "paths::MemoryFileSystem"
    for cfg in ("A", "B"):
        ctx.cfg = cfg
        tag = " [%s]" % ("debug" if cfg == "A" else "release")
        cg = callgraph.of(ctx.P)
        bad = []
        for k in ctx.P.bodies:
            if k[0] != "paths":
                continue
            for n in cg.names(k):
                if any(n.startswith(m + "::") for m in FSMODS) and n.split("::")[-1] not in READONLY:
                    bad.append("%s calls %s" % (interp.fn_path(k[1]), n))
        ctx.ob("no function of paths changes the file system" + tag, not bad, "; ".join(bad[:3]), "crates/paths", "call graph")

        def root(t, n):
            return ctx.root("paths", "<%s as FileSystem>::%s" % (t, n))
        # ---- the real file system
        for n, f in (("read_to_string", "read_to_string"), ("read_to_bytes", "read")):
            r = root(RF, n)
            if r is not None:
                ctx.fn("RealFileSystem::%s is std::fs::%s%s" % (n, f, tag), r,
                       lambda q, a, p, f=f: call("std::fs::" + f, q.norm(ctx.init(p)), WORLD), rule=rule)
        r = root(RF, "is_file")
        if r is not None:
            ctx.fn("RealFileSystem::is_file is Path::is_file" + tag, r, lambda q, a, p: call("std::Path::is_file", q.norm(ctx.init(p)), WORLD), rule=rule)

        @spec("c17/rd")
        def _(q, i, xs, out):
            if not q(le0(add(sub(i, q.len(xs)), I(1)))):
                return tup(S("ok"), out)
            x = q.elem(xs, i)
            if q.is_(x, RES, 1):
                return tup(S("err"), ctx.ip.field(q.st, x, RES, 1, 0))
            e = ctx.ip.field(q.st, x, RES, 0, 0)
            return sp("c17/rd", add(i, I(1)), xs, q.norm(mk("push", out, call("std::DirEntry::path", e))))
        r = root(RF, "read_dir")
        if r is not None:
            def rd(q, a, p):
                c = call("std::fs::read_dir", q.norm(ctx.init(p)), WORLD)
                if q.is_(c, RES, 1):
                    return tup(S("err"), ctx.ip.field(q.st, c, RES, 1, 0))
                return sp("c17/rd", I(0), q.norm(mk("seq", ctx.ip.field(q.st, c, RES, 0, 0))), mk("arr", ()))
            ctx.fn("RealFileSystem::read_dir lists every entry or fails" + tag, r, rd, lambda s: res(ctx, s), rule=rule)
        r = root(RF, "current_dir")
        if r is not None:
            g = ctx.graph(r)

            def cd(s, env):
                es = [e for e in s.events if e.name == "std::env::current_dir"]
                v = env.norm(ctx.ip.deep(s.st, s.val))
                k = env.ask_is(v, RES, 1)
                d = call("std::env::current_dir", WORLD)
                f = env.ask_is(d, RES, 1)
                if f is True and not (k is True and env.same(ctx.ip.field(s.st, v, RES, 1, 0), ctx.ip.field(s.st, d, RES, 1, 0)) is True):
                    return "the current directory is an error and the result is %s" % show(v, 6)
                if f is False:
                    a = env.ask(mk("isabs", ctx.ip.field(s.st, d, RES, 0, 0)))
                    if a is None:
                        a = env.ask(env.norm(mk("isabs", ctx.ip.field(s.st, d, RES, 0, 0))))
                    if a is False and k is not True:
                        return "the current directory is not absolute and the result is %s" % show(v, 6)
                    if a is True and k is not False:
                        return "the current directory is absolute and the result is %s" % show(v, 6)
                if f is None:
                    return "the result does not depend on the current directory: %s" % show(v, 6)
            if g is not None:
                ctx.each("RealFileSystem::current_dir reports what failed" + tag, r, cd, rule, g=g)
        # ---- the memory file system
        mi = field_of(ctx, MF, lambda t: t.k == "adt" and t.adt.endswith("Map"), "the files")
        if mi is None:
            continue
        mp = lambda q, a: q.norm(ctx.ip.field(q.st, ctx.init(a), MF, 0, mi))
        r = root(MF, "is_file")
        if r is not None:
            ctx.fn("MemoryFileSystem::is_file is membership" + tag, r,
                   lambda q, a, p: TRUE if q(q.norm(mk("mhas", mp(q, a), ctx.init(p)))) else FALSE, rule=rule)
        for n in ("read_to_string", "read_to_bytes"):
            r = root(MF, n)
            if r is not None:
                def mrd(q, a, p):
                    m, k = mp(q, a), q.norm(ctx.init(p))
                    if q(q.norm(mk("mhas", m, k))):
                        return tup(S("ok"), q.norm(mk("mget", m, k)))
                    return tup(S("err"), S("kind 0"))
                ctx.fn("MemoryFileSystem::%s is the stored text or NotFound%s" % (n, tag), r, mrd, lambda s: res(ctx, s, True), rule=rule)
        r = root(MF, "current_dir")
        if r is not None:
            ctx.fn("MemoryFileSystem::current_dir is the root" + tag, r, lambda q, a: tup(S("ok"), S("/")),
                   lambda s: tup(S("ok"), raw(ctx, s.st, ctx.ip.field(s.st, s.val, RES, 0, 0))) if kit.Env(ctx.ip, s.st).ask_is(s.val, RES, 0) else tup(S("err"), UNIT), rule=rule)

        @spec("c17/mrd")
        def _(q, i, m, p, out):
            if not q(le0(add(sub(i, q.len(m)), I(1)))):
                return tup(S("ok"), out)
            k = q.norm(ctx.ip.field(q.st, mk("mkey", m, i), CPB, 0, 0))
            nxt = lambda o: sp("c17/mrd", add(i, I(1)), m, p, o)
            if not q(mk("pstarts", k, p)):
                return nxt(out)
            if q.eq(p, k):
                return nxt(out)
            return nxt(q.norm(mk("push", out, k)))
        r = root(MF, "read_dir")
        if r is not None:
            ctx.fn("MemoryFileSystem::read_dir is every stored path below" + tag, r,
                   lambda q, a, p: sp("c17/mrd", I(0), mp(q, a), q.norm(ctx.init(p)), mk("arr", ())), lambda s: res(ctx, s), rule=rule)
    ctx.cfg = "A"


def res(ctx, s, mem=False):
    """(ok, payload) or (err, payload)"""
    env = kit.Env(ctx.ip, s.st)
    if s.val is None:
        return UNIT
    k = env.ask_is(s.val, RES, 1)
    if k is None:
        return tup(mk("opq", "?"), s.val)
    p = ctx.ip.field(s.st, s.val, RES, 1 if k else 0, 0)
    if k and mem:
        return tup(S("err"), kind_of(ctx, s.st, p))
    return tup(S("err" if k else "ok"), p)
