"""Syntactic queries over the MIR of the dumps."""
from load import succs


def ops_of(rv):
    """operand dictionaries of an rvalue"""
    for k in ("a", "b"):
        o = rv.get(k)
        if o.__class__ is dict:
            yield o
    for o in rv.get("ops", ()):
        yield o


def accesses(body):
    """(kind, place, block, statement index or None for the terminator, line)"""
    for bi, b in enumerate(body.blocks):
        if b is None:
            continue
        sts, t, ln = b
        for si, s in enumerate(sts):
            if s[0] == "=":
                rv = s[2]
                for o in ops_of(rv):
                    if "p" in o:
                        yield "read", o["p"], bi, si, s[3]
                if rv["k"] == "ref":
                    yield ("mutref" if rv["m"] else "ref"), rv["p"], bi, si, s[3]
                elif rv["k"] == "rawptr":
                    yield "rawptr", rv["p"], bi, si, s[3]
                elif rv["k"] == "discr":
                    yield "read", rv["p"], bi, si, s[3]
                yield "write", s[1], bi, si, s[3]
            elif s[0] == "sd":
                yield "write", s[1], bi, si, s[3]
        if t["k"] == "call":
            for o in t["args"]:
                if "p" in o:
                    yield "read", o["p"], bi, None, ln
            yield "write", t["dest"], bi, None, ln
        elif t["k"] == "drop":
            yield "drop", t["p"], bi, None, ln
        elif t["k"] in ("switch", "assert") and "p" in t["a"]:
            yield "read", t["a"]["p"], bi, None, ln


def prefixes(body, place):
    """(type of the value projected from or None, projection) for each projection of a place"""
    t = body.locals[place[0]]
    for e in place[1:]:
        yield t, e
        k = e[0]
        if k == "d":
            t = t.el if t is not None and t.k in ("ref", "ptr") else (t.args[0] if t is not None and t.k == "adt" and t.args and t.args[0].__class__ is not int else None)
        elif k == "f":
            t = body.crate.types[e[3]]
        elif k in ("i", "ci"):
            t = getattr(t, "el", None) if t is not None else None
        elif k == "ss":
            pass
        # downcasts keep the type


def calls(body):
    """(fn object or None, terminator, block index, line)"""
    for bi, b in enumerate(body.blocks):
        if b is not None and b[1]["k"] == "call":
            f = b[1]["f"]
            yield (f.get("fn") if f.get("k") == "c" else None), b[1], bi, b[2]


def names(body, fn):
    """canonical names of the called function, declared and resolved"""
    out = []
    if fn:
        for x in ("def", "rdef"):
            if fn.get(x).__class__ is int:
                out.append(body.crate.defs[fn[x]])
    return out


def boxlike(t):
    return t.k == "adt" and t.adt.rsplit("::", 1)[-1] in ("NonNull", "Unique", "Box", "BoxRaw")


def boxptrs(body):
    """locals holding the raw pointer of a Box being dereferenced (made by the compiler)"""
    out = set()
    for b in body.blocks:
        if b is None:
            continue
        for s in b[0]:
            if s[0] == "=" and s[2]["k"] == "cast" and "Transmute" in s[2]["ck"] and len(s[1]) == 1:
                f = body.crate.types[s[2]["from"]]
                if boxlike(f):
                    out.add(s[1][0])
    return out


FMT = ("std::fmt", "core::fmt")


def unsafe_ops(body):
    """(what, line) of the operations of a body that safe code cannot do"""
    boxes = None
    for kind, p, bi, si, ln in accesses(body):
        for t, e in prefixes(body, p):
            if e[0] == "d" and t is not None and t.k == "ptr":
                if boxes is None:
                    boxes = boxptrs(body)
                if p[0] in boxes and e is p[1]:
                    continue
                yield ("write through a raw pointer" if kind in ("write", "mutref", "drop") and e is not None else "dereference of a raw pointer"), ln
    for fn, t, bi, ln in calls(body):
        ds = names(body, fn)
        if ds and ds[0].unsafe and not any(d.path.startswith(FMT) for d in ds):
            yield "call of the unsafe " + ds[-1].canon, ln
    for b in body.blocks:
        if b is None:
            continue
        for s in b[0]:
            if s[0] == "=" and s[2]["k"] == "cast" and "Transmute" in s[2]["ck"]:
                f, to = body.crate.types[s[2]["from"]], body.crate.types[s[2]["ty"]]
                if not boxlike(f):
                    yield "transmute from %s to %s" % (f.d, to.d), s[3]


CELLS = ("std::Cell", "std::RefCell", "std::UnsafeCell", "std::OnceCell", "std::LazyCell", "std::Mutex", "std::RwLock", "std::OnceLock", "std::LazyLock",
         "std::SyncUnsafeCell")


def is_cell(t):
    return t.k == "adt" and (t.adt in CELLS or t.adt.rsplit("::", 1)[-1] in {c.rsplit("::", 1)[-1] for c in CELLS} or t.adt.rsplit("::", 1)[-1].startswith("Atomic"))


def inside(P, t, seen=None, top=True):
    """every type a value of type t contains or points to, workspace structures opened"""
    if seen is None:
        seen = set()
    if t is None or t.__class__ is int or id(t) in seen:
        return
    seen.add(id(t))
    yield t
    for a in (getattr(t, "args", None) or ()):
        if hasattr(a, "k"):
            yield from inside(P, a, seen, False)
    if getattr(t, "el", None) is not None:
        yield from inside(P, t.el, seen, False)
    for a in (getattr(t, "els", None) or ()):
        yield from inside(P, a, seen, False)
    if t.k == "adt":
        a = P.adts.get(t.adt)
        if a and a.get("ws"):
            for v in a["variants"]:
                for f in v[2]:
                    yield from inside(P, f[1], seen, False)
