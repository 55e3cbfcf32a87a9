"""Loads the JSON dumps written by the rustc driver."""
import json
import os
import re

STD = ("core", "alloc", "std")


def strip_generics(p):
    """std::vec::Vec::<T, A>::push -> std::vec::Vec::push ; <impl [T]> kept as a marker"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<impl ", i) or p.startswith("<impl ", i):
            j = i + (2 if p[i] == ":" else 0)
            depth = 0
            k = j
            while k < n:
                if p[k] == "<":
                    depth += 1
                elif p[k] == ">" and p[k - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                k += 1
            inner = p[j + 6:k]
            if inner.startswith("["):
                nm = "slice"
            else:
                nm = re.split(r"[<\s]", inner.split(" for ")[-1])[0].split("::")[-1]
            out.append("::" + nm if out else nm)
            i = k + 1
            continue
        if p[i] == "<" or p.startswith("::<", i):
            depth = 0
            k = i
            while k < n:
                if p[k] == "<":
                    depth += 1
                elif p[k] == ">" and p[k - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                k += 1
            i = k + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Ty:
    __slots__ = ("k", "d", "adt", "args", "el", "mut", "els", "name", "len", "defn", "trait", "upvars", "crate", "idx", "ck")

    def __repr__(self):
        return self.d

    def peel(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.el
        return t


class Def:
    __slots__ = ("crate", "path", "kind", "ws", "name", "canon", "self_ty", "trait", "derived", "of_trait", "trait_args", "parent", "c", "unsafe")


class Body:
    __slots__ = ("key", "argc", "locals", "names", "blocks", "loc", "spread", "promoted", "defn", "const", "crate", "heads", "cr", "_live", "_borrowed")


class Crate:
    pass


class Program:
    def __init__(self, d, model=None):
        self.crates = {}
        self.bodies = {}
        self.adts = {}
        for f in sorted(os.listdir(d)):
            if f.endswith(".json") and not f.endswith(".test.json"):
                self._load(os.path.join(d, f))
        if model:
            self._load(model)
        self._link()

    def _load(self, f):
        j = json.load(open(f))
        c = Crate()
        c.name = j["crate"]
        c.j = j
        c.features = j["features"]
        c.debug = j["debug_assertions"]
        self.crates[c.name] = c
        # defs
        c.defs = []
        for dj in j["defs"]:
            d = Def()
            d.c = c
            d.crate = dj["crate"]
            d.path = dj["path"]
            d.kind = dj["kind"]
            d.ws = dj["ws"]
            d.name = dj["name"]
            d.self_ty = dj.get("self_ty")
            d.trait = dj.get("trait")
            d.trait_args = dj.get("trait_args")
            d.derived = dj.get("derived", False)
            d.of_trait = dj.get("of_trait")
            d.parent = dj.get("parent")
            d.unsafe = dj.get("unsafe", False)
            c.defs.append(d)
        # types
        c.types = []
        for i, tj in enumerate(j["types"]):
            t = Ty()
            t.k = tj["k"]
            t.d = tj["d"]
            t.adt = tj.get("adt")
            t.name = tj.get("name")
            t.mut = tj.get("mut")
            t.len = tj.get("len")
            t.trait = tj.get("trait")
            t.crate = c
            t.idx = i
            t.ck = tj.get("ck")
            t.args = tj.get("args") or []
            t.el = tj.get("el")
            t.els = tj.get("els") or []
            t.upvars = tj.get("upvars") or []
            t.defn = tj.get("def")
            c.types.append(t)
        for t in c.types:
            t.args = [c.types[x] if isinstance(x, int) else x for x in t.args]
            if t.el is not None:
                t.el = c.types[t.el]
            t.els = [c.types[x] for x in t.els]
            t.upvars = [c.types[x] for x in t.upvars]
            if isinstance(t.defn, int):
                t.defn = c.defs[t.defn]
        c.adtmap = {}
        for p, a in j["adts"]:
            d = c.defs[a["def"]]
            nm = self._adt_canon(d)
            c.adtmap[p] = nm
            vs = []
            for v in a["variants"]:
                vs.append((v["name"], v["discr"], [(f["name"], c.types[f["ty"]], f["pub"]) for f in v["fields"]]))
            if nm not in self.adts or (vs and not self.adts[nm]["variants"]):
                self.adts[nm] = {"name": nm, "kind": a["kind"], "variants": vs, "ws": a["ws"], "repr": a["repr"], "pub": a["pub"], "loc": a["loc"]}
        for t in c.types:
            if t.adt is not None:
                t.adt = c.adtmap.get(t.adt, t.adt)

    def _adt_canon(self, d):
        cr = "std" if d.crate in STD else d.crate
        nm = strip_generics(d.path).split("::")[-1]
        if cr == "std" and nm == "Entry":
            return "std::Entry"
        return cr + "::" + nm

    def _canon(self, d):
        cr = "std" if d.crate in STD else d.crate
        p = strip_generics(d.path)
        segs = [x for x in p.split("::") if x]
        last = segs[-1] if segs else d.name
        c = d.c
        if d.kind.startswith("Closure"):
            return cr + "::" + p
        if d.trait and d.self_ty is not None:
            return "<%s as %s>::%s" % (self.ty_short(c.types[d.self_ty]), self.trait_canon(d.trait, c), d.name)
        if d.of_trait:
            return self.trait_canon(d.of_trait, c) + "::" + d.name
        if d.self_ty is not None and d.ws:
            return "%s::%s" % (self.ty_short(c.types[d.self_ty]), d.name)
        if d.self_ty is not None:
            t = c.types[d.self_ty]
            if t.k == "adt":
                return "%s::%s" % (t.adt, d.name)
            if t.k in ("slice", "str", "char", "bool"):
                return "std::%s::%s" % (t.k, d.name)
            if t.k in ("uint", "int"):
                return "std::int::%s" % d.name
            if t.k == "array":
                return "std::array::%s" % d.name
            if t.k == "ptr":
                return "std::ptr::%s" % d.name
        if d.ws:
            return cr + "::" + last
        if len(segs) >= 2 and cr == "std":
            return "std::" + "::".join(segs[-2:])
        return cr + "::" + last

    TRAITS = None

    def trait_canon(self, p, c):
        p = strip_generics(p)
        segs = p.split("::")
        if segs[0] in STD:
            # fmt::Display / fmt::Debug / fmt::Write and io::Write need their module
            if segs[-1] in ("Display", "Debug", "Write", "Read"):
                return "std::" + "::".join(segs[-2:])
            return "std::" + segs[-1]
        return segs[-1]

    def ty_short(self, t):
        if t.k == "adt":
            return t.adt
        if t.k in ("ref", "ptr"):
            return "&" + self.ty_short(t.el)
        if t.k == "slice":
            return "[" + self.ty_short(t.el) + "]"
        return t.d

    def _link(self):
        for c in self.crates.values():
            for d in c.defs:
                d.canon = self._canon(d)
        for c in self.crates.values():
            c.fns = {}
            for bj in c.j["bodies"]:
                b = self._body(bj, c)
                b.promoted = [self._body(p, c, True) for p in bj["promoted"]]
                c_b = self.bodies.get((c.name, b.key))
                self.bodies[(c.name, b.key)] = b
            c.roots = []
            for r in c.j["roots"]:
                d = c.defs[r["def"]]
                r = dict(r)
                r["d"] = d
                r["ins"] = [c.types[x] for x in r["ins"]]
                r["out"] = c.types[r["out"]]
                r["B"] = self.bodies.get((c.name, r.get("body")))
                c.roots.append(r)
                c.fns.setdefault(d.canon, []).append(r)
            c.items = []
            for r in c.j["items"]:
                r = dict(r)
                r["d"] = c.defs[r["def"]]
                if "ty" in r:
                    r["ty"] = c.types[r["ty"]]
                r["B"] = self.bodies.get((c.name, r.get("body")))
                c.items.append(r)
            c.impls = []
            for r in c.j["impls"]:
                r = dict(r)
                r["self_ty"] = c.types[r["self_ty"]]
                r["items"] = [(x["name"], c.defs[x["def"]]) for x in r["items"]]
                if r.get("trait"):
                    r["trait"] = self.trait_canon(r["trait"], c)
                    r["trait_args"] = [c.types[x] if isinstance(x, int) else x for x in r["trait_args"]]
                c.impls.append(r)
            c.unsafe = c.j["unsafe"]
            c.j = None

    def _body(self, bj, c, prom=False):
        b = Body()
        b.key = bj.get("key", "promoted")
        b.argc = bj["argc"]
        b.locals = [c.types[x] for x in bj["locals"]]
        b.names = {i: n for i, n in bj["names"]}
        b.blocks = bj["blocks"]
        b.loc = bj["loc"]
        b.spread = bj.get("spread")
        b.defn = c.defs[bj["def"]] if "def" in bj else None
        b.const = bj.get("const", prom)
        b.crate = c
        b.promoted = []
        b.heads = _loop_heads(b.blocks)
        b._live = None
        return b

    def fn(self, crate, canon):
        """The root with this canonical name (one expected)."""
        rs = self.crates[crate].fns.get(canon, [])
        return rs[0] if rs else None


def succs(term):
    k = term["k"]
    if k == "goto":
        return [term["t"]]
    if k == "switch":
        return [x[1] for x in term["ts"]] + [term["o"]]
    if k in ("drop", "assert"):
        return [term["t"]]
    if k == "call":
        return [term["t"]] if term["t"] is not None else []
    return []


def _loop_heads(blocks):
    heads = set()
    color = {}
    if not blocks or blocks[0] is None:
        return heads
    stack = [(0, iter(succs(blocks[0][1])))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            if blocks[s] is None:
                continue
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succs(blocks[s][1]))))
                break
        else:
            color[n] = 2
            stack.pop()
    return heads


def _place_uses(p, out):
    out.add(p[0])
    for e in p[1:]:
        if e[0] == "i":
            out.add(e[1])


def _collect(o, out, bor):
    """locals read by an operand / rvalue / terminator in JSON form"""
    if isinstance(o, dict):
        p = o.get("p")
        if p is not None:
            _place_uses(p, out)
            if o.get("k") in ("ref", "rawptr") and not any(e[0] == "d" for e in p[1:]):
                bor.add(p[0])
        for k, v in o.items():
            if k not in ("p", "dest", "ts") and isinstance(v, (dict, list)):
                _collect(v, out, bor)
    elif isinstance(o, list):
        for x in o:
            if isinstance(x, dict):
                _collect(x, out, bor)


def liveness(b):
    """(live-in local sets per block, locals whose address is taken)"""
    if b._live is not None:
        return b._live, b._borrowed
    n = len(b.blocks)
    gen, kill, bor = [None] * n, [None] * n, set()
    for i, blk in enumerate(b.blocks):
        g, k = set(), set()
        gen[i], kill[i] = g, k
        if blk is None:
            continue

        def use(o):
            u = set()
            _collect(o, u, bor)
            for x in u:
                if x not in k:
                    g.add(x)
        for s in blk[0]:
            if s[0] == "=":
                use(s[2])
                if len(s[1]) == 1:
                    k.add(s[1][0])
                else:
                    u = set()
                    _place_uses(s[1], u)
                    g.update(u - k)
            elif s[0] == "sd":
                u = set()
                _place_uses(s[1], u)
                g.update(u - k)
            elif s[0] == "dead":
                k.add(s[1])
        t = blk[1]
        use(t)
        if t["k"] == "call":
            d = t["dest"]
            if len(d) == 1:
                k.add(d[0])
            else:
                u = set()
                _place_uses(d, u)
                g.update(u - k)
        if t["k"] == "ret" and 0 not in k:
            g.add(0)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            if b.blocks[i] is None:
                continue
            o = set()
            for x in succs(b.blocks[i][1]):
                o |= live[x]
            r = gen[i] | (o - kill[i])
            if r != live[i]:
                live[i] = r
                ch = True
    b._live = [frozenset(x) for x in live]
    b._borrowed = frozenset(bor)
    return b._live, b._borrowed
