"""C28-C30, C42: the code generator, by the token templates its functions build."""
from props.common import *
from props import tmpl
from props.tmpl import W, V, G, R, C, Odd, s as nm, words, find, is_w, function, entries, fold
import accel
import callgraph

TS = "proc_macro2::TokenStream"
IDENT = "proc_macro2::Ident"
CR = "syntax_gen"


def is_map(t):
    while t.k == "ref":
        t = t.el
    return t.k == "adt" and t.adt in ("std::HashMap", "std::HashSet")


def base(t):
    while t.k == "ref":
        t = t.el
    return t


def adt_of(t):
    t = base(t)
    return t.adt if t.k == "adt" else ""


class Gen:
    def __init__(self, ctx):
        self.ctx = ctx
        ip = ctx.ip
        ip.SHAPE, ip.MAXPART = 14, 40
        accel.KNOWN = True
        self.c = ctx.P.crates.get(CR)
        self.cache = {}
        self.ts = []
        self.odd = []
        if self.c is None:
            ctx.undecided("code generator", "crate not found")
            return
        self.ts = [r for r in self.c.roots if r["B"] is not None and adt_of(r["out"]) == TS and r["out"].k == "adt"]
        self.tokname = self.fieldix("syntax_gen::Token", "name")
        self.tokdesc = self.fieldix("syntax_gen::Token", "desc")
        self.tokdoc = self.fieldix("syntax_gen::Token", "doc")

    def fieldix(self, a, f):
        if a not in self.ctx.P.adts:
            return None
        for i, x in enumerate(self.ctx.fields(a)):
            if x[0] == f:
                return i
        return None

    def looks_up(self, r):
        """finds the token of the grammar's: a reference to the generator's Token"""
        return r["out"].k == "ref" and adt_of(r["out"]) == "syntax_gen::Token"

    def graph(self, root, opaque=lambda r: False):
        k = root["B"].key
        if k in self.cache:
            return self.cache[k]
        keys = {r["B"].key for r in self.c.roots if r["B"] is not None and r is not root and (self.looks_up(r) or opaque(r))}
        names = {fn_path(k2) for k2 in keys}
        g = self.ctx.opaque_graph(root, lambda p: p in names or p.startswith("identifier_case::") or p.startswith("char_name::") or p.startswith("write_rs_tokens::"))
        if g is not None:
            g = accel.accelerate(self.ctx.ip, g, lambda e: True, skip=lambda x: x.kind == "panic", cases=True)
        self.cache[k] = g
        return g

    def paths(self, root, opaque=lambda r: False):
        """(segment, env, template) of every way to the end"""
        g = self.graph(root, opaque)
        if g is None:
            raise Odd("no graph")
        if g.nodes:
            raise Odd("loops not in closed form")
        out = []
        for x in g.segs:
            if x.kind != "return":
                continue
            env = kit.Env(self.ctx.ip, x.st)
            if not env.feasible():
                continue
            out.append((x, env, tmpl.tree(env, x.val)))
        if not out:
            raise Odd("no way to the end")
        return out

    def calls(self, a, b):
        return self.key(b) in callgraph.of(self.ctx.P).reachable([self.key(a)])

    def key(self, r):
        return (r["B"].crate.name, r["B"].key)

    def top(self, cands):
        """the one of the functions that calls the others"""
        cands = [r for r in cands if not any(q is not r and self.calls(q, r) for q in cands)]
        return cands[0] if len(cands) == 1 else None


def fn_path(k):
    return interp.fn_path(k)


class Obs:
    """obligations over many paths: violated by one, discharged by all"""

    def __init__(self, ctx, where, rule):
        self.ctx, self.where, self.rule = ctx, where, rule
        self.d = {}

    def __call__(self, name, okay, detail=""):
        o = self.d.setdefault(name, [0, None, None])
        if okay is True:
            o[0] += 1
        elif okay is False:
            o[1] = o[1] or detail or "not so"
        else:
            o[2] = o[2] or detail or "not recognised"
        return okay

    def done(self):
        for n, (k, bad, und) in self.d.items():
            if bad:
                self.ctx.ob(n, False, bad, self.where, self.rule)
            elif und:
                self.ctx.ob(n, None, und, self.where, self.rule)
            else:
                self.ctx.ob(n, True, "%d paths" % k, self.where, self.rule)


def kind_root(gen):
    """the function that makes the kind file: of those whose template has the raw conversion, the outermost"""
    cands = []
    for r in gen.ts:
        if mentions_str(gen, r, "kind_from_raw"):
            cands.append(r)
    return gen.top(cands)


def mentions_str(gen, root, text):
    P = gen.ctx.P
    cg = callgraph.of(P)
    return any(k[0] == CR and text in strings(P.bodies[k]) for k in cg.reachable([gen.key(root)]) if k in P.bodies)


def strings(b):
    out = set()
    stack = [b.blocks, b.promoted if b.promoted else []]
    while stack:
        x = stack.pop()
        if x.__class__ is str:
            out.add(x)
        elif x.__class__ is dict:
            stack.extend(x.values())
        elif x.__class__ in (list, tuple):
            stack.extend(x)
        elif hasattr(x, "blocks"):
            stack.append(x.blocks)
    return out


# ---- the kind file ----------------------------------------------------------------------------------------------------

class Kinds:
    """what the function that makes the kind file is given"""

    def __init__(self, gen, root, g):
        self.maps = {}
        self.lists = []
        self.trivia = set()
        ctx = gen.ctx
        for a, t in zip(g.args, root["ins"]):
            self.visit(ctx, a, t, 0)

    def visit(self, ctx, v, t, d):
        ip = ctx.ip
        if t.k == "ref":
            self.visit(ctx, mk("*", v), t.el, d)
        elif t.k == "slice" or t.k == "adt" and t.adt == "std::Vec":
            e = t.el if t.k == "slice" else t.args[0]
            if e.k == "adt" and e.adt == IDENT:
                self.lists.append(v)
        elif t.k == "adt" and t.adt.startswith(CR) and t.adt in ctx.P.adts and d < 3:
            for i, f in enumerate(ctx.fields(t.adt)):
                fv = mk("fld", v, t.adt, 0, i)
                if f[1].k == "adt" and f[1].adt == "std::HashMap" and len(f[1].args) > 1 and adt_of(f[1].args[1]) == "syntax_gen::Token":
                    self.maps[f[0]] = fv
                else:
                    self.visit(ctx, fv, f[1], d + 1)


class Kind:
    def __init__(self, gen, kinds, env, xs, ob):
        self.gen, self.k, self.env, self.xs, self.ob = gen, kinds, env, xs, ob
        self.name = gen.tokname

    # the parts of an entry of the map, by name
    def tok(self, m, f):
        return "mval(%s,v).%d" % (nm(m), f)

    def isname(self, x, m):
        return isinstance(x, V) and x.kind == "tok" and tmpl.idof(tmpl.plain(self.env, x.t)) == self.tok(m, self.name)

    def istext(self, t, m):
        """the text the grammar has for the token"""
        n = nm(tmpl.plain(self.env, t))
        k = "mkey(%s,v)" % nm(m)
        return n.startswith("std::Index::index(") and n.endswith("," + k + ").0")

    def full(self, b, m):
        """the block goes over the whole of it"""
        return b.n is not None and self.env.ask(eq0(sub(b.n, self.env.norm(mk("len", m))))) is True

    def empty(self, m):
        return self.env.ask(eq0(self.env.norm(mk("len", m)))) is True

    def source(self, b):
        """the map whose elements the block has"""
        for n, m in self.k.maps.items():
            w = " ".join(words(tmpl_plain_list(self.env, y)) for _, y in b.alts)
            if "mval(%s," % nm(m) in w or "mkey(%s," % nm(m) in w:
                return n
        return None


def tmpl_plain_list(env, ys):
    out = []
    for x in ys:
        if isinstance(x, V):
            out.append(V(x.kind, tmpl.plain(env, x.t)))
        elif isinstance(x, G):
            out.append(G(x.d, tmpl_plain_list(env, x.xs)))
        else:
            out.append(x)
    return out


def listed(p, bs, m, what):
    """one block with a name per entry, over all of m"""
    for b in bs:
        if len(b.alts) == 1 and p.full(b, m) and len(b.alts[0][1]) == 1 and what(b.alts[0][1][0]):
            return True
    return p.empty(m)


def attrs(xs):
    while len(xs) >= 2 and is_w(xs[0], "#") and isinstance(xs[1], G):
        xs = xs[2:]
    return xs


def path_end(xs):
    """the last part of a path Self::X"""
    if len(xs) == 3 and isinstance(xs[0], W) and xs[0].s in ("Self", "SyntaxKind") and is_w(xs[1], "::"):
        return xs[2]
    if len(xs) == 1 and isinstance(xs[0], V):
        return xs[0]
    return None


def arm(xs):
    """(pattern, value) of an arm of a match"""
    for i, x in enumerate(xs):
        if is_w(x, "=>"):
            return xs[:i], xs[i + 1:]
    return None


def one_match(body):
    """(what is matched, the arms) of the one match in a function"""
    r = None
    for ys in tmpl.groups(body):
        for i, x in enumerate(ys):
            if is_w(x, "match"):
                if r is not None:
                    return None
                for k in range(i + 1, len(ys)):
                    if isinstance(ys[k], G) and ys[k].d == 1:
                        r = ys[i + 1:k], ys[k].xs
                        break
                else:
                    return None
    return r


def value_of(xs):
    """the tokens of the value of an arm without what wraps it"""
    if len(xs) == 2 and is_w(xs[0], "Some") and isinstance(xs[1], G):
        return xs[1].xs
    if xs and is_w(xs[0], "return"):
        return value_of(xs[1:])
    return xs


def enum_of(p):
    xs = p.xs
    i = find(xs, "enum", "SyntaxKind")
    if i is None or i >= len(xs) or not isinstance(xs[i], G):
        raise Odd("no enum SyntaxKind at the top")
    j = i - 2
    if j > 0 and is_w(xs[j - 1], "pub"):
        j -= 1
    at = []
    while j >= 2 and isinstance(xs[j - 1], G) and is_w(xs[j - 2], "#"):
        at.append(words(xs[j - 1].xs))
        j -= 2
    return at, entries(xs[i].xs, ",")


def check_kind(p):
    env, ob, maps = p.env, p.ob, p.k.maps
    at, bs = enum_of(p)
    ob("the kinds are a 16-bit enumeration", any(a.replace(" ", "") == "repr(u16)" for a in at), "attributes of the enumeration: %s" % at)
    plain = True
    for b in bs:
        for i, (c, y) in enumerate(b.alts):
            b.alts[i] = (c, attrs(y))
            if any(is_w(z, "=") for z in y):
                plain = False
    ob("no kind has an explicit value", plain, "an enumerator is given a value")
    for n, m in maps.items():
        ob("every %s token has a kind" % n, listed(p, bs, m, lambda x: p.isname(x, m)), "the enumeration is " + desc(p, bs))
    for l in p.k.lists:
        ob("every kind of the list %s is listed" % nm(l), listed(p, bs, l, lambda x: isinstance(x, V) and x.kind == "tok" and tmpl.idof(tmpl.plain(env, x.t)) == nm(l) + "[v]"),
           "the enumeration is " + desc(p, bs))
    check_raw(p, bs)
    if "keywords" in maps:
        check_keyword(p, maps["keywords"])
    if "punctuation" in maps:
        check_punct(p, maps["punctuation"])
    check_desc(p)
    check_doc(p)
    check_trivia(p)


def desc(p, bs):
    return "; ".join("%s: %s" % ("once" if b.n is None else "for v < " + nm(b.n), " or ".join(words(tmpl_plain_list(p.env, y)) for _, y in b.alts)) for b in bs)[:500]


def last_kind(p, bs):
    """name of the last enumerator listed, by which of the lists are empty: (environment, name) pairs"""
    out = []
    env = p.env
    for b in reversed(bs):
        if len(b.alts) != 1 or len(b.alts[0][1]) != 1 or not isinstance(b.alts[0][1][0], V):
            raise Odd("enumerator not a name")
        t = b.alts[0][1][0].t
        if b.n is None:
            return out + [(env, env.norm(t))]
        a = env.ask(eq0(b.n))
        if a is True:
            continue
        t = subst(t, {b.v: sub(b.n, I(1))})
        if a is False:
            return out + [(env, env.norm(t))]
        for e, st in split(env, eq0(b.n)):
            if e:
                env = kit.Env(env.ip, st)
            else:
                e2 = kit.Env(env.ip, st)
                out.append((e2, e2.norm(t)))
    # nothing listed at all: the enumeration is empty and there is nothing to convert to
    return out


def piece(env, t):
    """the element of a concatenation as that of the part it is in"""
    while t.op == "elem" and t.a[0].op == "cat":
        i = t.a[1]
        for q in t.a[0].a[0]:
            n = env.ip.length(env.st, q)
            if env.entails_le0(add(sub(i, n), I(1))):
                t = env.norm(env.ip.elem(env.st, q, i))
                break
            if not env.entails_le0(sub(n, i)):
                return t
            i = sub(i, n)
        else:
            return t
    return t


def same_elem(env, a, b):
    """the same identifier, the places of elements compared as numbers"""
    if a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0] and env.ask(eq0(sub(a.a[1], b.a[1]))) is True:
        return True
    if a.op == "ident" and b.op == "ident":
        m = {}
        ea = sorted({y for y in walk(a) if y.op == "elem"}, key=lambda y: y.id)
        eb = {y for y in walk(b) if y.op == "elem"}
        for y in ea:
            for z in eb:
                if y is not z and y.a[0] is z.a[0] and env.ask(eq0(sub(y.a[1], z.a[1]))) is True:
                    m[y] = z
        if m:
            a = env.norm(subst(a, m))
    return tmpl.idof(a) == tmpl.idof(b)


def split(env, cond):
    for v in (False, True):
        st = env.st.copy()
        if env.ip.assume(st, cond, v) is not False:
            yield v, st


def check_raw(p, bs):
    name = "a raw number is checked against the last kind before it is taken for a kind"
    f = function(p.xs, "kind_from_raw")
    if f is None:
        return p.ob(name, None, "no kind_from_raw")
    body = f[1]
    w = words(body)
    if "transmute" not in w:
        if "unsafe" in w:
            return p.ob(name, None, "an unchecked conversion other than transmute")
        return p.ob(name, True)
    last = last_kind(p, bs)
    if not last:
        return      # an enumeration without kinds does not compile: no number is taken for one
    # the list of tokens with the conversion, and what comes before it on its level and outside
    bound = None
    seen = []

    def before(xs):
        """tokens executed before the transmute, or None"""
        acc = []
        for i, x in enumerate(xs):
            if is_w(x, "transmute"):
                return acc
            if isinstance(x, G):
                r = before(x.xs)
                if r is not None:
                    return acc + r
            acc.append(x)
        return None
    pre = before(body)
    for i, x in enumerate(pre):
        if is_w(x, "assert", "debug_assert", "assert_ne", "debug_assert_ne") and i + 2 < len(pre) and is_w(pre[i + 1], "!") and isinstance(pre[i + 2], G):
            c = cut(pre[i + 2].xs, ",")
            r = bounded(p, c, last)
            if r is not None:
                if x.s.startswith("debug"):
                    r = False
                bound = bound or r
                seen.append(words(c))
        elif is_w(x, "if"):
            j = i + 1
            while j < len(pre) and not (isinstance(pre[j], G) and pre[j].d == 1):
                j += 1
            if j < len(pre) and any(k in words(pre[j].xs) for k in ("panic !", "unreachable !", "return")):
                r = bounded(p, [W("!"), G(0, pre[i + 1:j])], last)
                if r is not None:
                    bound = bound or r
                    seen.append("not " + words(pre[i + 1:j]))
    if bound is None:
        unsure = any(isinstance(x, W) and x.s in ("match", "if", "let", "loop", "while") for x in pre)
        return p.ob(name, None if unsure and seen == [] and "SyntaxKind" in words(pre) else False, "before the unchecked conversion: " + words(pre)[:300])
    return p.ob(name, bound, "the conversion is guarded by %s; the last kind is %s" % (seen, " or ".join(nm(l) for _, l in last)))


def cut(xs, sep):
    for i, x in enumerate(xs):
        if is_w(x, sep):
            return xs[:i]
    return xs


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def bounded(p, xs, last):
    """does the condition say raw <= last kind? True, False (it compares, but with something else), None (no comparison recognised)"""
    neg = False
    while True:
        if xs and is_w(xs[0], "!"):
            neg = not neg
            xs = xs[1:]
        elif len(xs) == 1 and isinstance(xs[0], G) and xs[0].d == 0:
            xs = xs[0].xs
        else:
            break
    for i, x in enumerate(xs):
        if isinstance(x, W) and x.s in FLIP:
            a, o, b = xs[:i], x.s, xs[i + 1:]
            break
    else:
        return None
    if any(isinstance(x, W) and x.s in ("&&", "||") for x in xs):
        return None
    if neg:
        o = NEG[o]

    def israw(y):
        return words(y).replace(" ", "") in ("raw.0", "(raw.0)", "raw.0asu16", "raw")

    def islast(y):
        z = [x for x in y if isinstance(x, V)]
        if len(z) != 1 or not words(y).endswith("as u16") and not words(y).endswith("as u16 )"):
            return None
        return all(same_elem(e, piece(e, e.norm(z[0].t)), l) for e, l in last)
    if israw(b):
        a, b, o = b, a, FLIP[o]
    if not israw(a):
        return None
    e = islast(b)
    if e is None:
        return None
    return e and o == "<="


def check_keyword(p, m):
    name = "each keyword maps from its own text to its own kind"
    f = function(p.xs, "keyword")
    mt = f and one_match(f[1])
    if not mt:
        return p.ob(name, None, "no match in the keyword function")
    bs = entries(mt[1], ",")
    got = False
    for b in bs:
        for c, y in b.alts:
            a = arm(y)
            if a is None:
                return p.ob(name, None, "an arm without an arrow: " + words(y))
            pat, val = a
            if words(pat) == "_":
                if not words(val).endswith("None"):
                    return p.ob(name, False, "what is not a keyword gives " + words(val))
                continue
            e = path_end(value_of(val))
            if len(pat) != 1 or not isinstance(pat[0], V) or e is None:
                return p.ob(name, None, "an arm not recognised: " + words(y)[:200])
            if pat[0].kind != "bytelit" or not p.istext(pat[0].t, m) or not p.isname(e, m):
                return p.ob(name, False, "an arm is " + words(tmpl_plain_list(p.env, y))[:400])
            if not c and p.full(b, m):
                got = True
    p.ob(name, got or p.empty(m), "the arms are " + desc(p, bs))


def punct_table(p):
    for ys in tmpl.groups(p.xs):
        i = find(ys, "PUNCTUATION", ":")
        if i is None:
            continue
        j = i
        while j < len(ys) and not is_w(ys[j], "="):
            j += 1
        e = j + 1
        while e < len(ys) and is_w(ys[e], "&"):
            e += 1
        if e >= len(ys) or not isinstance(ys[e], G) or ys[e].d != 2:
            raise Odd("the punctuation table is not an array")
        return ys[i:j], entries(ys[e].xs, ",")
    raise Odd("no punctuation table")


def check_punct(p, m):
    name = "each punctuation token maps from its own text to its own kind"
    ty, bs = punct_table(p)
    got = False
    for b in bs:
        for c, y in b.alts:
            if len(y) != 1 or not isinstance(y[0], G):
                return p.ob(name, None, "an entry not recognised: " + words(y)[:200])
            z = y[0].xs
            i = next((i for i, x in enumerate(z) if is_w(x, ",")), None)
            if i is None:
                return p.ob(name, None, "an entry not recognised: " + words(y)[:200])
            a, e = z[:i], path_end(tmpl.strip(z[i + 1:], ","))
            if len(a) != 1 or not isinstance(a[0], V) or e is None:
                return p.ob(name, None, "an entry not recognised: " + words(y)[:200])
            if a[0].kind != "bytelit" or not p.istext(a[0].t, m) or not p.isname(e, m):
                return p.ob(name, False, "an entry is " + words(tmpl_plain_list(p.env, y))[:400])
            if not c and p.full(b, m):
                got = True
    p.ob(name, got or p.empty(m), "the entries are " + desc(p, bs))
    n = [x for x in ty[0].xs if isinstance(x, V)] if ty and isinstance(ty[0], G) else []
    if len(n) == 1:
        p.ob("the punctuation table has the length it says", p.env.ask(eq0(sub(n[0].t, p.env.norm(mk("len", m))))) is True, "length " + nm(n[0].t))


def texts(p, fname):
    """(pattern, value, block, conditions) of every arm but the last"""
    f = function(p.xs, fname)
    mt = f and one_match(f[1])
    if not mt:
        raise Odd("no match in " + fname)
    out = []
    for b in entries(mt[1], ","):
        for c, y in b.alts:
            a = arm(y) if y else ([], [])
            if a is None:
                raise Odd("an arm without an arrow: " + words(y))
            if words(a[0]) == "_":
                continue
            out.append((a[0], a[1], b, c))
    return out


def optional(p, b, conds, m, f):
    """the conditions say that the optional text is (1) or is not (0) there, or nothing (None)"""
    r = None
    for c in conds:
        if c.op == "is?" and c.a[1] == OPT and nm(tmpl.plain(p.env, c.a[0])) == p.tok(m, f):
            r = c.a[2]
        elif c.op == "isnt?" and c.a[1] == OPT and nm(tmpl.plain(p.env, c.a[0])) == p.tok(m, f):
            r = 1 - c.a[2]
        elif c.op in ("is?", "isnt?") and any(nm(tmpl.plain(p.env, c.a[0])) == p.tok(m, k) for k in (p.gen.tokdesc, p.gen.tokdoc)):
            pass        # the other text is there or not whether this one is or not
        else:
            raise Odd("a text depends on " + show(c, 6)[:200])
    return r


def check_texts(p, fname, f, what, needed):
    arms = texts(p, fname)
    for n, m in p.k.maps.items():
        name = "%s of %s tokens" % (what, n)
        some_, none_ = [], []
        bad = None
        for b in {id(b): b for _, _, b, _ in arms}.values():
            if p.source(b) != n:
                continue
            if not p.full(b, m):
                raise Odd("an arm not for every token")
            for c, y in b.alts:
                o = optional(p, b, c, m, f)
                if y:
                    pat, val = arm(y)
                    e = path_end(pat)
                    if e is None or not isinstance(value_of(val)[0] if value_of(val) else None, V):
                        raise Odd("an arm not recognised: " + words(y)[:200])
                    if not p.isname(e, m):
                        bad = bad or "an arm is " + words(tmpl_plain_list(p.env, y))[:300]
                    val = tmpl.plain(p.env, value_of(val)[0].t)
                else:
                    val = None
                if o in (1, None):
                    some_.append(val)
                if o in (0, None):
                    none_.append(val)
        if p.empty(m):
            continue
        if bad is None and not some_ and not none_:
            bad = "no %s token has an arm" % n
        for v in some_:
            if bad is None and (v is None or nm(v) != p.tok(m, f) + "#1.0"):
                bad = "a token with a text of its own gets %s" % (nm(v) if v is not None else "none")
        if needed(n):
            for v in none_:
                if bad is None and (v is None or not default_text(p, v, m)):
                    bad = "a token without a text of its own gets %s" % (nm(v) if v is not None else "none")
            if bad is None and not none_:
                bad = "a token without a text of its own gets none"
        elif bad is None and any(v is not None for v in none_):
            bad = None
        p.ob(name, bad is None, bad or "")


def default_text(p, v, m):
    """`text`"""
    return v.op == "scat" and len(v.a[0]) == 3 and all(x.op == "str" and x.a[0] == "`" or x.op == "char" and x.a[0] in ("`", 96) for x in (v.a[0][0], v.a[0][2])) and p.istext(v.a[0][1], m)


def check_desc(p):
    check_texts(p, "token_desc", p.gen.tokdesc, "descriptions", lambda n: n in ("punctuation", "keywords"))


def check_doc(p):
    check_texts(p, "token_doc", p.gen.tokdoc, "documentation", lambda n: False)


def check_trivia(p):
    name = "exactly the trivia kinds are trivia"
    f = function(p.xs, "is_trivia")
    if f is None:
        return p.ob(name, None, "no is_trivia")
    body = f[1]
    pats = None
    i = find(body, "matches", "!")
    if i is not None and i == 2 and len(body) == 3 and isinstance(body[2], G):
        xs = body[2].xs
        j = next((j for j, x in enumerate(xs) if is_w(x, ",")), None)
        if j is not None and words(xs[:j]) in ("* self", "self"):
            pats = xs[j + 1:]
    if pats is None:
        return p.ob(name, None, "is_trivia not recognised: " + words(body)[:200])
    bs = fold(p.env, entries(tmpl.strip(pats, ","), "|"))
    tr = [l for l in p.k.lists if any(nm(l) + "[" in words(tmpl_plain_list(p.env, y)) for b in bs for _, y in b.alts)]
    if not bs:
        return p.ob(name, True)
    ok_ = len(bs) == 1 and len(tr) == 1
    if ok_:
        b = bs[0]
        e = path_end(b.alts[0][1]) if len(b.alts) == 1 else None
        ok_ = e is not None and b.n is not None and p.full(b, tr[0]) and tmpl.idof(tmpl.plain(p.env, e.t)) == nm(tr[0]) + "[v]"
    ok_ = ok_ or one_elem(p, bs, tr)
    if ok_:
        p.k.trivia.add(tr[0])
    p.ob(name, ok_, "is_trivia matches " + desc(p, bs))


def one_elem(p, bs, tr):
    """a single trivia kind"""
    if len(bs) != 1 or bs[0].n is not None or len(tr) != 1 or len(bs[0].alts) != 1:
        return False
    e = path_end(bs[0].alts[0][1])
    return e is not None and tmpl.idof(e.t) == nm(tr[0]) + "[0]" and p.env.ask(eq0(sub(p.env.norm(mk("len", tr[0])), I(1)))) is True


def kind_paths(ctx, ob, f):
    gen = Gen(ctx)
    if gen.c is None:
        return None
    root = kind_root(gen)
    if root is None:
        ctx.undecided("the function that makes the kind file", "not found")
        return None
    ob.where = ctx.where(root)
    try:
        ps = gen.paths(root)
        kinds = Kinds(gen, root, gen.graph(root))
    except Odd as e:
        ctx.undecided("the kind file", str(e))
        return None
    if gen.tokname is None or not kinds.maps:
        ctx.undecided("the kind file", "representation of the tokens not recognised")
        return None
    for seg, env, xs in ps:
        p = Kind(gen, kinds, env, xs, ob)
        try:
            f(p)
        except Odd as e:
            ob("the kind file is of a recognised form", None, str(e))
    ob.done()
    return gen, root, kinds


def c29(ctx):
    ob = Obs(ctx, "", "the template of the kind file, with its repetitions in closed form, lists every token of every table under its own name and text; the raw conversion is guarded by the last enumerator")
    kind_paths(ctx, ob, check_kind)
    gen = Gen(ctx)
    if gen.c is not None:
        token_table(ctx, gen)
        public_kinds(ctx, gen)


# ---- the table of tokens ------------------------------------------------------------------------------------------------

TABLE = "each token of the grammar is entered once, as special, keyword or punctuation, with its description and documentation"


def token_table(ctx, gen):
    roots = [r for r in gen.c.roots if r["B"] is not None and adt_of(r["out"]) == "syntax_gen::TokenDb"]
    if len(roots) != 1 or gen.tokname is None:
        return ctx.undecided(TABLE, "the function that makes the table of tokens was not found")
    root = roots[0]
    g = gen.graph(root)
    if g is None:
        return ctx.undecided(TABLE, "no graph")
    ob = Obs(ctx, ctx.where(root), "on every way round the loop over the grammar's tokens one insertion, of the kind the text asks for")
    fs = [f[0] for f in ctx.fields("syntax_gen::TokenDb")]
    role = {}
    maps = [(a, t) for a, t in zip(g.args, root["ins"]) if is_map(t)]
    gr = [a for a, t in zip(g.args, root["ins"]) if adt_of(t) == "ungrammar::Grammar"]
    rets = [x for x in g.segs if x.kind == "return"]
    for x in rets:
        if x.val.op != "adt":
            return ctx.undecided(TABLE, "the table is " + show(x.val, 4)[:200])
        for f, v in zip(fs, x.val.a[2]):
            if v.op != "phi" or role.setdefault(v, f) != f:
                return ctx.undecided(TABLE, "the table is " + show(x.val, 4)[:200])
    if set(role.values()) != {"punctuation", "keywords", "special"} or len(maps) != 2 or len(gr) != 1:
        return ctx.undecided(TABLE, "representation not recognised")
    heads = {x.src for x in rets}
    if len(heads) != 1:
        return ctx.undecided(TABLE, "several loops end in the table")
    head = heads.pop()
    n = 0
    for x in g.segs:
        if x.kind != "node" or x.dst is not head or x.src == "entry":
            continue
        env = kit.Env(ctx.ip, x.st)
        if not env.feasible():
            continue
        ins = [e for e in x.events if e.name == "map.insert"]
        after = {}
        for pv, f in role.items():
            v = carried(ctx, g, x, pv)
            if v is not None and v is not pv:
                after[f] = v
        if len(after) != 1 or len(ins) != 1:
            ob(TABLE, False, "a token is entered %d times (into %s): %s" % (len(ins), sorted(after), ctx.facts(x)))
            continue
        (f, v), = after.items()
        n += 1
        ob(TABLE, *entered(ctx, gen, env, x, f, v, role, gr[0], maps, ins[0], g))
    if not n:
        ob(TABLE, None, "no loop over the tokens recognised")
    ob.done()


def carried(ctx, g, x, p):
    return accel.carried(ctx.ip, g, x, x.dst).get(p)


def entered(ctx, gen, env, x, f, v, role, gr, maps, ev, g):
    if v.op != "minsert" or role.get(v.a[0]) != f:
        return None, "the table becomes " + show(v, 4)[:200]
    key, val = v.a[1], env.norm(v.a[2])
    if val.op != "adt":
        return None, "what is entered is " + show(val, 4)[:200]
    if key.op != "elem":
        return None, "the token is " + show(key, 4)
    text = "std::Index::index(%s,%s).0" % (nm(gr), nm(key))
    has_ = {}
    alpha = None
    for fact, b in x.facts.items():
        if fact.op == "mhas" and nm(fact.a[1]) == text:
            has_[nm(fact.a[0])] = b
        for y in walk(fact):
            if y.op == "cp" and "alphabetic" in str(y.a[0]) and text in nm(fact):
                alpha = (alpha or b) if fact is y else alpha
    name, d, doc = (val.a[2][i] for i in (gen.tokname, gen.tokdesc, gen.tokdoc))
    # of the two maps given, the one for descriptions is the one that makes tokens special
    names = [nm(a) for a, _ in maps]
    sm = next((m for m in names if m in spec_names(gen, names)), None)
    if sm is None:
        return None, "the map of special tokens was not recognised"
    dm = next(m for m in names if m != sm)
    want = "special" if has_.get(sm) is True else "keywords" if alpha else "punctuation"
    if sm not in has_:
        return None, "whether a token is special is not decided by the map: " + ctx.facts(x)
    if alpha is None and f != want and "special" not in (f, want):
        return None, "what makes a token a keyword was not recognised: " + ctx.facts(x)
    if f != want:
        return False, "a token that is one of %s is entered into %s: %s" % (want, f, ctx.facts(x))
    if want == "special" and nm(name) != text:
        return False, "a special token is called " + nm(name)[:200]
    if text not in nm(name):
        return False, "the name of a token does not come from its text: " + nm(name)[:200]
    if want == "special":
        if not (d.op == "adt" and d.a[1] == 1 and nm(d.a[2][0]) == "%s{%s}" % (sm, text)):
            return False, "the description of a special token is " + nm(d)[:200]
    elif not (d.op == "adt" and d.a[1] == 0):
        return None, "the description of a token is " + nm(d)[:200]
    if dm not in has_:
        return (False if doc.op == "adt" else None), "the documentation of a token is " + nm(doc)[:200]
    if has_[dm] is True:
        if not (doc.op == "adt" and doc.a[1] == 1 and nm(doc.a[2][0]) == "%s{%s}" % (dm, text)):
            return False, "the documentation of a token is " + nm(doc)[:200]
    elif not (doc.op == "adt" and doc.a[1] == 0):
        return False, "the documentation of a token without one is " + nm(doc)[:200]
    return True, ""


def spec_names(gen, names):
    return [n for n in names if "special" in n]


# ---- the whole of the generator ------------------------------------------------------------------------------------------

def public(ctx, gen):
    roots = [r for r in ctx.roots(CR, "syntax_gen::get") if r["reach"]]
    if not roots:
        return None, None
    r = roots[0]
    return r, gen.graph(r, lambda q: adt_of(q["out"]) in (TS, "syntax_gen::TokenDb") and q["out"].k == "adt")


def rule_variant(ctx, env, x, name):
    """variant of the rule of the node on this path: a number, None if not known; Alt excluded -> -1"""
    for t, v in x.isd.items():
        if ctx.ip.ispath.get(t) == "ungrammar::Rule" and nm(t) == name[:-2] + ".1":
            return v
    for t, vs in x.nots.items():
        if ctx.ip.ispath.get(t) == "ungrammar::Rule" and nm(t) == name[:-2] + ".1" and 4 in vs:
            return -1
    return None


def node_loops(ctx, g):
    """(segment, env, text of the node) of every way round a loop over the nodes of the grammar"""
    for x in g.segs:
        if x.kind != "node" or x.dst is not x.src:
            continue
        env = kit.Env(ctx.ip, x.st)
        if not env.feasible():
            continue
        for e in x.events:
            if e.kind == "call" and e.name == "std::Index::index" and len(e.args) == 2 and e.args[1].op == "elem":
                yield x, env, "std::Index::index(%s,%s).0" % (nm(e.args[0]), nm(e.args[1]))
                break
        else:
            yield x, env, None


def pushed(ctx, g, x):
    out = {}
    for p, v in accel.carried(ctx.ip, g, x, x.dst).items():
        if v.op == "push" and v.a[0] is p:
            out[p] = v.a[1]
        elif v.op == "tokcat" or v is p or sub(v, p).op == "I":
            continue
    return out


def public_kinds(ctx, gen):
    root, g = public(ctx, gen)
    name = "every trivia kind and every node that is not a choice is given a kind"
    if g is None:
        return ctx.undecided(name, "the generator was not found")
    ob = Obs(ctx, ctx.where(root), "what is handed to the function that makes the kind file")
    kr = kind_root(gen)
    if kr is None:
        return
    kn = kr["d"].canon
    n = 0
    for x in g.segs:
        if x.kind != "return":
            continue
        env = kit.Env(ctx.ip, x.st)
        if not env.feasible():
            continue
        calls = [e for e in x.events if e.kind == "call" and fn_path(kr["B"].key) in (e.name, e.name.replace("::::", "::"))]
        if len(calls) != 1:
            ob(name, None, "the kind file is made %d times" % len(calls))
            continue
        n += 1
        ls = []
        for a, t in zip(calls[0].args, kr["ins"]):
            b = base(t)
            if (b.k == "slice" and adt_of(b.el) == IDENT) or (b.k == "adt" and b.adt == "std::Vec" and adt_of(b.args[0]) == IDENT):
                ls.append(env.norm(a))
        opts = g.args[0]
        tr = [l for l in ls if l.op == "smap" and "id(%s.%s[v])" % (nm(opts), gen.fieldix("syntax_gen::Options", "trivia")) == nm(l.a[2])
              and env.ask(eq0(sub(l.a[0], mk("len", l.a[0])))) is not False]
        full = [l for l in tr if "len(%s.%s)" % (nm(opts), gen.fieldix("syntax_gen::Options", "trivia")) == nm(l.a[0])]
        rest = [l for l in ls if l not in tr]
        lost = skipped(ctx, g, [l for l in rest if l.op == "phi"], "%s.%s" % (nm(opts), gen.fieldix("syntax_gen::Options", "trivia")))
        if lost:
            ob(name, False, "a trivia kind is left out: " + lost)
            continue
        if len(rest) != 1 or rest[0].op != "phi":
            ob(name, None if len(ls) == 2 else False, "the lists of kinds are " + ", ".join(nm(l)[:150] for l in ls))
            continue
        if not full:
            ob(name, False, "the list of trivia is " + ", ".join(nm(l)[:150] for l in ls))
            continue
        got = False
        for y, e2, text in node_loops(ctx, g):
            ps = pushed(ctx, g, y)
            if rest[0] not in accel.carried(ctx.ip, g, y, y.dst):
                continue
            if text is None:
                ob(name, None, "a loop over something else adds kinds")
                continue
            got = True
            if rule_variant(ctx, e2, y, text) == 4:
                continue
            if rest[0] not in ps:
                ob(name, False, "a node is not given a kind: " + ctx.facts(y))
            elif tmpl.idof(ps[rest[0]]) != text:
                ob(name, False, "a node is given the kind " + tmpl.idof(ps[rest[0]])[:200])
            else:
                ob(name, True)
        if not got:
            ob(name, None, "no loop over the nodes adds kinds")
    if not n:
        ob(name, None, "no way to the end")
    ob.done()


def skipped(ctx, g, ls, what):
    """where an element of the list of trivia is passed over without anything added to one of these lists"""
    nxt = {}
    for x in g.segs:
        if x.kind != "node" or x.src == "entry":
            continue
        for p_, v in accel.carried(ctx.ip, g, x, x.dst).items():
            k = 0
            while v.op == "push":
                v, k = v.a[0], k + 1
            if v.op == "phi":
                nxt.setdefault(p_, []).append((v, k, x))
    # lists only: what is added to somewhere, and what goes into it
    fed = set(ls)
    while True:
        m = {v for p_ in fed for v, _, _ in nxt.get(p_, ())} | {p_ for p_, vs in nxt.items() if any(v in fed for v, _, _ in vs)}
        if m <= fed:
            break
        fed |= m
    for p_ in fed:
        for v, k, x in nxt.get(p_, ()):
            if k:
                continue
            c = accel.carried(ctx.ip, g, x, x.dst)
            adv = {u for y in c.values() for u in advanced(y)}
            for fact, b in x.facts.items():
                if b and fact.op == "le0" and "len(%s)" % what in nm(fact) and any(u in adv for u in walk(fact)):
                    return ctx.facts(x)
    return None


def advanced(y):
    """the phi that y is one more than"""
    c, ps = lin_parts(y)
    return [t for t, k in ps.items() if k == 1 and t.op == "phi"] if c == 1 and len(ps) == 1 else []


# ---- C30 ------------------------------------------------------------------------------------------------------------------

def closure_value(ctx, clo, n):
    """(graph, argument symbols) of a closure of n arguments"""
    if clo.op != "clo":
        raise Odd("not a closure: " + show(clo, 3)[:100])
    b = ctx.P.bodies.get(clo.a[0])
    if b is None or b.argc != n + 1:
        raise Odd("closure not found")
    g = ctx.ip.analyse({"B": b, "d": b.defn, "ins": list(b.locals[1:b.argc + 1]), "out": b.locals[0], "reach": True})
    if g.status != "ok" or g.nodes:
        raise Odd("the closure has loops")
    return g


def instantiate(env, t, args, elems):
    m = {}
    for a, e in zip(args, elems):
        m[mk("*", a)] = e
        m[a] = mk("ref", mk("loc", mk("cval", e), ()))
    t = subst(t, {k: v for k, v in m.items() if k.op == "*"})
    t = subst(t, {k: v for k, v in m.items() if k.op != "*"})
    return tmpl.plain(env, env.norm(t))


def components(t):
    """the parts of a sort key, most significant first: (descending?, part)"""
    if t.op == "tuple":
        out = []
        for x in t.a[0]:
            out += components(x)
        return out
    if t.op == "adt" and t.a[0].split("::")[-1] == "Reverse":
        return [(not d, x) for d, x in components(t.a[2][0])]
    if t.op in ("*", "ref", "cval") and t.a[0].__class__ is T and t.a[0].op in ("tuple", "adt"):
        return components(t.a[0])
    return [(False, t)]


class Forms(Odd):
    """the key of a sort has several forms"""

    def __init__(self, ks):
        Odd.__init__(self, "the key takes several forms")
        self.ks = ks


def sort_key(ctx, env, srt):
    """components of the key of the elements of a sorted sequence, in terms of the element v of what is sorted"""
    bs, kind, key = srt.a[0], srt.a[1], srt.a[2]
    below = []
    while srt.a[3] is True and bs.op == "sorted":
        # a stable sort leaves elements of one key in the order they had
        r = sort_key(ctx, env, bs)
        below += r or []
        if r is None or bs.a[3] is not True:
            bs = bs.a[0]
            break
        bs = bs.a[0]
    e = tmpl.plain(env, env.ip.elem(env.st, bs, mk("bv", 0)))
    if kind == "sort":
        return components(e) + below
    if kind in ("sort_by_key", "sort_by_cached_key"):
        g = closure_value(ctx, key, 1)
        vals = {instantiate(env, x.val, g.args[1:], [e]) for x in g.segs if x.kind == "return"}
        if len(vals) != 1:
            raise Forms([components(x) + below for x in vals])
        return components(vals.pop()) + below
    if kind == "sort_by":
        while key.op in ("ref", "der", "*", "cval"):
            key = key.a[0]
        if key.op == "fn" and show(key, 3).endswith("Ord::cmp)"):
            return components(e) + below
        if key.op == "clo":
            g = closure_value(ctx, key, 2)
            ks = lexicographic(g, [(list(x.facts), x.val) for x in g.segs if x.kind == "return" and kit.Env(ctx.ip, x.st).feasible()])
            if ks is not None:
                return [(d, instantiate(env, k, g.args[1:2], [e])) for d, k in ks] + below
    return None


def lexicographic(g, paths):
    """what a comparison function compares, first to last, as (descending?, key of its first argument), or None"""
    out = []
    a, b = g.args[1:3]
    while paths:
        top = [(f, v) for f, v in paths if v.op == "ord" and not f]
        if not top:
            if all(v.op == "adt" and "Ordering" in v.a[0] and v.a[1] == 1 and not f for f, v in paths):
                return out
            return None
        if len({v for _, v in top}) != 1:
            return None
        x, y = top[0][1].a[0], top[0][1].a[1]
        if side(x, a, b) is None or side(y, a, b) is None or side(x, a, b) == side(y, a, b):
            return None
        d = side(x, a, b) == 1
        if d:
            x, y = y, x
        if subst(y, {b: a}) is not x:
            return None
        out += [(not d2 if d else d2, k) for d2, k in components(x)]
        rest = []
        for f, v in paths:
            if not f and v.op == "ord":
                continue
            f2 = [q for q in f if not equates(q, x, y)]
            if len(f2) == len(f):
                return None
            rest.append((f2, v))
        paths = rest
    return out


def equates(q, x, y):
    return q in (eq0(sub(x, y)), eq0(sub(y, x))) or q.op in ("seq", "eq") and set(q.a[:2]) == {x, y}


def compare_paths(ctx, env, srt):
    """(facts env, outcome, element a, element b) of every path of the comparison function"""
    g = closure_value(ctx, srt.a[2], 2)
    bs = srt.a[0]
    a = tmpl.plain(env, env.ip.elem(env.st, bs, mk("bv", 0)))
    b = tmpl.plain(env, env.ip.elem(env.st, bs, mk("bv", "other")))
    return g, a, b


def outer_sorted(t, v):
    """the sorted sequences whose element at v (exactly) the term is made of"""
    return {x.a[0] for x in walk(t) if x.op == "elem" and x.a[0].op in ("sorted", "rev") and x.a[1] is v}


LEN = "a longer punctuation token never comes after a shorter one"
TIE = "punctuation tokens of one length are in order of their text"


def check_order(p):
    if "punctuation" not in p.k.maps:
        raise Odd("no table of punctuation")
    m = p.k.maps["punctuation"]
    ty, bs = punct_table(p)
    if p.empty(m):
        return
    env, ob = p.env, p.ob
    if len(bs) != 1 or bs[0].n is None or len(bs[0].alts) != 1:
        return ob(LEN, None, "the table is " + desc(p, bs))
    b = bs[0]
    vs = [x for y in tmpl.groups(b.alts[0][1]) for x in y if isinstance(x, V)]
    srt = set()
    for x in vs:
        srt |= outer_sorted(x.t, b.v)
    raw = [x for x in vs if any(y.op in ("mkey", "mval") and y.a[1] is b.v or y.op == "elem" and y.a[0].op == "mseq" and y.a[1] is b.v for y in walk(x.t))]
    if raw and not srt:
        return ob(LEN, False, "the tokens come in the order of the map: " + words(b.alts[0][1])[:300])
    if len(srt) != 1:
        return ob(LEN, None, "the tokens come in an order that was not recognised: " + words(b.alts[0][1])[:300])
    q = srt.pop()
    flip = False
    while q.op == "rev":
        flip = not flip
        q = q.a[0]
    if q.op != "sorted":
        return ob(LEN, None, "the tokens come in an order that was not recognised")
    try:
        ks = sort_key(p.gen.ctx, env, q)
    except Forms as e:
        if not any(k and k[0][1].op == "len" for k in e.ks):
            return ob(LEN, False, "the tokens are sorted by " + " or ".join(keys(k, flip) for k in e.ks))
        raise
    if ks is None:
        return order_cmp(p, q, flip, m)
    d, k = ks[0]
    ob(LEN, k.op == "len" and p.istext(k.a[0], m) and d is not flip, "the tokens are sorted by " + keys(ks, flip))
    if len(ks) > 1:
        ob(TIE, any(p.istext(x, m) for _, x in ks[1:2]), "the tokens are sorted by " + keys(ks, flip))
    else:
        ob(TIE, False, "the tokens are sorted by " + keys(ks, flip) + " only")


def keys(ks, flip):
    return ", then ".join(nm(x) + (" descending" if d is not flip else " ascending") for d, x in ks)


def order_cmp(p, q, flip, m):
    ctx, ob = p.gen.ctx, p.ob
    g, a, b = compare_paths(ctx, p.env, q)
    e0 = p.env
    la = lb = None
    for x in g.segs:
        if x.kind != "return":
            continue
        m_ = {}
        env = kit.Env(ctx.ip, x.st)
        if not env.feasible():
            continue
        lens = sorted({y for f in list(x.facts) + [x.val] for y in walk(f) if y.op == "len"}, key=lambda y: y.id)
        A = [y for y in lens if side(y, g.args[1], g.args[2]) == 0]
        Bs = [y for y in lens if side(y, g.args[1], g.args[2]) == 1]
        v = x.val
        if v.op != "adt" or "Ordering" not in v.a[0]:
            if len(A) == 1 and len(Bs) == 1 and env.ask(eq0(sub(A[0], Bs[0]))) is True:
                ob(TIE, None, "ties are broken by " + nm(v)[:200])
                continue
            ob(LEN, None, "compared by " + nm(v)[:200])
            continue
        out = v.a[1]
        if flip:
            out = 2 - out
        if len(A) != 1 or len(Bs) != 1:
            ob(LEN, None, "the comparison does not look at one length each")
            continue
        for y, w in ((A[0], a), (Bs[0], b)):
            t = instantiate(e0, y, g.args[1:], [a, b])
            if not (t.op == "len" and nm(t.a[0]).endswith(".0")):
                ob(LEN, False, "what is compared first is " + nm(t))
                return
        if env.entails_le0(add(sub(A[0], Bs[0]), I(1))):
            ob(LEN, out == 2, "a shorter token compares as %s" % ("less", "equal", "greater")[out])
        elif env.entails_le0(add(sub(Bs[0], A[0]), I(1))):
            ob(LEN, out == 0, "a longer token compares as %s" % ("less", "equal", "greater")[out])
        elif env.ask(eq0(sub(A[0], Bs[0]))) is True:
            if out == 1 and not any("cmp" in nm(f) or "lt" in nm(f) for f in x.facts):
                ob(TIE, False, "tokens of one length compare as equal")
            else:
                ob(TIE, True)
        else:
            ob(LEN, False if not any(y.op == "len" for f in x.facts for y in walk(f)) else None, "compared without their lengths: " + ctx.facts(x))


def side(y, a, b):
    s_ = walk(y)
    return 0 if a in s_ and b not in s_ else 1 if b in s_ and a not in s_ else None


def c30(ctx):
    ob = Obs(ctx, "", "the order the table is emitted in, as the key of the sort it comes from")
    kind_paths(ctx, ob, check_order)


# ---- C28 ------------------------------------------------------------------------------------------------------------------

ORD = "what is emitted does not depend on the order of a hash map"


def unordered(t):
    """(sorted sequences used, terms that depend on the order of a hash map outside of them)"""
    srt, bad = set(), set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sorted":
            srt.add(x)
            continue
        if x.op in ("mseq", "mkey", "mval"):
            bad.add(x)
            continue
        if x.op == "len" and x.a[0].op == "mseq":
            continue
        push_args(x.a, st)
    return srt, bad


def push_args(a, st):
    for y in a:
        if y.__class__ is T:
            st.append(y)
        elif y.__class__ is tuple:
            push_args(y, st)


def total(ctx, env, q):
    """True when elements that compare as equal cannot be told apart; (verdict, what it is sorted by)"""
    bs = q.a[0]
    if not unordered(bs)[1] and not [x for x in walk(bs) if x.op == "sorted"]:
        return True, ""
    e = tmpl.plain(env, env.ip.elem(env.st, bs, mk("bv", 0)))
    ks = sort_key(ctx, env, q)
    ids = {nm(e)}
    for y in walk(e):
        if y.op == "mkey":
            ids.add(nm(y))
            ids |= {nm(z) for z in walk(e) if nm(z).startswith("std::Index::index(") and nm(z).endswith("," + nm(y) + ").0")}
        elif y.op == "mval":
            ids |= {nm(y), nm(y) + ".%d" % name_field(ctx)}
    if ks is None:
        g, a, b = compare_paths(ctx, env, q)
        eq = [x for x in g.segs if x.kind == "return" and x.val.op == "adt" and x.val.a[1] == 1 and "Ordering" in x.val.a[0]]
        for x in eq:
            # equal only where the texts are
            if not any(f.op in ("eq", "seq", "cmp") or "cmp" in nm(f) or "eq(" in nm(f) for f in x.facts):
                return False, "elements that differ compare as equal: " + ctx.facts(x)
        return (True if not eq else None), "a comparison function"
    if any(nm(x) in ids for _, x in ks):
        return True, keys(ks, False)
    return False, keys(ks, False)


def name_field(ctx):
    for i, x in enumerate(ctx.fields("syntax_gen::Token")):
        if x[0] == "name":
            return i
    return 0


def c28(ctx):
    gen = Gen(ctx)
    if gen.c is None:
        return
    rule = "terms in templates that stand for the iteration order of a hash map occur only under a sort by a key no two elements share"
    done = []
    # the functions that make code, the outermost first: what they call is inlined in them
    ts = sorted(gen.ts, key=lambda r: -sum(1 for q in gen.ts if q is not r and gen.calls(r, q)))
    for root in ts:
        if any(gen.calls(q, root) and ok for q, ok in done if q is not root) and not takes_rule(root):
            continue
        name = ORD + " (%s)" % fn_path(root["B"].key)
        ob = Obs(ctx, ctx.where(root), rule)
        opq = (lambda q: takes_rule(q) and adt_of(q["out"]) == TS) if not takes_rule(root) else (lambda q: False)
        try:
            ps = gen.paths(root, opq)
        except Odd as e:
            ctx.ob(name, None, str(e), ctx.where(root), rule)
            done.append((root, False))
            continue
        done.append((root, True))
        seen = {}
        for x, env, xs in ps:
            leaves = set()
            collect(xs, leaves)
            for t in leaves:
                srt, bad = unordered(t)
                if bad:
                    ob(name, False, "a token is made of %s, in the order of the map: %s" % (nm(sorted(bad)[0])[:150], show(t, 7)[:300]))
                todo = list(srt)
                while todo:
                    q = todo.pop()
                    if q not in seen:
                        try:
                            seen[q] = total(ctx, env, q)
                        except Odd as e:
                            seen[q] = (None, str(e))
                    v, by = seen[q]
                    if v is not True:
                        ob(name, v, "the elements of %s are sorted by %s, which some may share" % (nm(q.a[0])[:150], by))
                    if q.a[0].op != "mseq":
                        todo += list(unordered(q.a[0])[0])
            ob(name, True)
        ob.done()
    handed(ctx, gen)
    tables(ctx, gen)
    sources(ctx, gen)
    written(ctx)


def handed(ctx, gen):
    root, g = public(ctx, gen)
    name = ORD + " (syntax_gen::get)"
    if g is None:
        return ctx.undecided(name, "the generator was not found")
    ob = Obs(ctx, ctx.where(root), "terms for the iteration order of a hash map do not occur in what is handed on or collected")
    for x in g.segs:
        if x.kind == "panic":
            continue
        vals = [a for e in x.events if e.kind == "call" and (e.name.startswith("syntax_gen::") or e.name.startswith("write_rs_tokens::")) for a in e.args]
        if x.kind == "node":
            vals += [v for v in accel.carried(ctx.ip, g, x, x.dst).values() if v.op in ("push", "cat", "smap", "tokcat", "arr")]
        bad = None
        for v in vals:
            srt, b = unordered(v)
            if b:
                bad = "%s is in the order of a hash map" % show(v, 7)[:300]
        ob(name, bad is None, bad or "")
    ob.done()


def tables(ctx, gen):
    """what is entered in a table under a key is not picked by the order of another table"""
    for root in gen.c.roots:
        if root["B"] is None or adt_of(root["out"]) != "syntax_gen::TokenDb":
            continue
        name = ORD + " (%s)" % fn_path(root["B"].key)
        ob = Obs(ctx, ctx.where(root), "terms for the iteration order of a hash map do not occur in what is entered in a table, but under the key of the same entry")
        g = gen.graph(root)
        if g is None:
            ob(name, None, "no graph")
            ob.done()
            continue
        for x in g.segs:
            if x.kind == "panic" or not kit.Env(ctx.ip, x.st).feasible():
                continue
            ob(name, True)
            vals = list(accel.carried(ctx.ip, g, x, x.dst).values()) if x.kind == "node" else [x.val] if x.val is not None else []
            for v in vals:
                for y in walk(v):
                    if y.op != "minsert":
                        continue
                    bad = picks(y.a[2]) - picks(y.a[1])
                    if bad:
                        ob(name, False, "what is entered under %s is the entry of %s that comes first" % (nm(y.a[1])[:100], nm(sorted(bad, key=lambda t: t.id)[0].a[0])[:100]))
        ob.done()


def picks(t):
    return {mk("mkey", y.a[0], y.a[1]) for y in walk(t) if y.op in ("mkey", "mval") or y.op == "elem" and y.a[0].op == "mseq"}


def takes_rule(r):
    return any(adt_of(t) == "ungrammar::Rule" and t.k == "ref" and t.el.k == "adt" for t in r["ins"])


def collect(xs, out):
    for x in xs:
        if isinstance(x, V):
            out.add(x.t)
        elif isinstance(x, G):
            collect(x.xs, out)
        elif isinstance(x, R):
            out.add(x.n)
            collect(x.xs, out)
        elif isinstance(x, C):
            for c, y in x.alts:
                for k in c:
                    out.add(k.a[0])
                collect(y, out)


CLOCK = ("std::Instant::now", "std::SystemTime::now", "std::process::id", "std::thread::current", "std::RandomState::", "std::DefaultHasher::", "std::env::vars", "std::env::args", "std::fmt::Pointer",
         "std::fs::read", "std::fs::metadata", "std::env::temp_dir", "std::env::current_dir", "std::process::Command")


def sources(ctx, gen):
    name = "the generator reads nothing that varies from run to run"
    root = next((r for r in ctx.roots(CR, "syntax_gen::get") if r["reach"]), None)
    if root is None:
        return ctx.undecided(name, "the generator was not found")
    cg = callgraph.of(ctx.P)
    reach = cg.reachable([gen.key(root)])
    bad = []
    for k in reach:
        if k not in ctx.P.bodies or k[0] == "mstd":
            continue
        for n in cg.names(k):
            if any(n.startswith(c) for c in CLOCK):
                bad.append("%s calls %s" % (fn_path(k[1]), n))
    ctx.ob(name, not bad, "; ".join(sorted(bad)) or "%d functions" % len(reach), ctx.where(root), "who may read a clock, an identity, a random state or another file")


def written(ctx):
    name = "a file is written with exactly the formatted tokens"
    rs = [r for r in ctx.roots("write_rs_tokens", "write_rs_tokens::go") if r["reach"]]
    if not rs:
        return ctx.undecided(name, "not found")
    g = ctx.graph(rs[0])
    if g is None:
        return
    ob = Obs(ctx, ctx.where(rs[0]), "the one write is of the unparsed tokens, to the name given")
    for x in g.segs:
        if x.kind != "return":
            continue
        w = [e for e in x.events if e.kind == "call" and e.name.startswith("std::fs::") or e.kind == "call" and "File" in e.name or e.kind == "call" and "OpenOptions" in e.name]
        if len(w) != 1 or not w[0].name.endswith("fs::write"):
            ob(name, None, "writes: " + ", ".join(e.name for e in w))
            continue
        path, data = nm(w[0].args[0]), nm(w[0].args[1])
        if "unparse" not in data:
            ob(name, None, "what is written is " + data[:200])
            continue
        ob(name, nm(g.args[0]) in data and nm(g.args[1]) in path, "written: %s to %s" % (data[:200], path[:200]))
    ob.done()


# ---- C42 ------------------------------------------------------------------------------------------------------------------

NODE, TOKEN = "#1.0", "#2.0"


def steps_of(base_, rule):
    """what is around a rule: the part of its name after the rule's own"""
    return base_[len(rule):] if base_.startswith(rule) else None


def c42(ctx):
    gen = Gen(ctx)
    if gen.c is None:
        return
    fields_(ctx, gen)
    nodes_(ctx, gen)
    choices(ctx, gen)
    helpers(ctx, gen)
    lookups(ctx, gen)
    types(ctx, gen)


FIELD = "an accessor returns the child its part of the rule stands for"


def fields_(ctx, gen):
    rs = [r for r in gen.ts if takes_rule(r)]
    root = gen.top(rs)
    if root is None:
        return ctx.undecided(FIELD, "the function that makes an accessor was not found")
    ob = Obs(ctx, ctx.where(root), "per path: the finder by the kind of rule, next or nth by the count of the name so far, all when repeated")
    try:
        ps = gen.paths(root)
    except Odd as e:
        return ctx.undecided(FIELD, str(e))
    g = gen.graph(root)
    rule = next(a for a, t in zip(g.args, root["ins"]) if adt_of(t) == "ungrammar::Rule")
    counts = [a for a, t in zip(g.args, root["ins"]) if t.k == "ref" and is_map(t)]
    if len(counts) != 1:
        return ctx.undecided(FIELD, "the counts were not recognised")
    for x, env, xs in ps:
        try:
            field_path(ctx, gen, ob, x, env, xs, nm(rule), counts[0])
        except Odd as e:
            ob(FIELD, None, str(e))
    ob.done()


def ids(x):
    return tmpl.idof(x.t) if isinstance(x, V) and x.kind == "tok" else None


def field_path(ctx, gen, ob, x, env, xs, rule, counts):
    i = find(xs, "fn")
    if i is None or i >= len(xs) or not isinstance(xs[i], V):
        raise Odd("not a function: " + words(xs)[:200])
    fname = xs[i]
    k = next((k for k in range(i, len(xs)) if is_w(xs[k], "->")), None)
    if k is None or not isinstance(xs[-1], G) or xs[-1].d != 1:
        raise Odd("not a function: " + words(xs)[:200])
    ty, body = xs[k + 1:-1], xs[-1].xs
    # the finder
    if not body or not isinstance(body[0], W) or len(body) < 2 or not isinstance(body[1], G):
        raise Odd("the body is " + words(body)[:200])
    finder, args, rest = body[0].s, body[1].xs, body[2:]
    # what rule this is about: the node or token named in the type or the call
    vs = [v for y in tmpl.groups(ty + body) for v in y if isinstance(v, V)]
    names = {tmpl.idof(v.t) for v in vs if v.kind == "tok"}
    bases = {}
    for v in vs:
        for t in walk(v.t):
            if t.op == "call" and len(t.a[1]) >= 2 and nm(t.a[1][-1]).startswith(rule) and nm(t.a[1][-1]).endswith((NODE, TOKEN)):
                bases[nm(t.a[1][-1])] = nm(t)
    if len(bases) != 1:
        raise Odd("not about one rule: " + words(ty + body)[:300])
    (b, name), = bases.items()
    name += ".%d" % (0 if b.endswith(NODE) else gen.tokname)
    mods = b[len(rule):]
    where = "for the rule %s: " % b
    seen = words(xs)
    # modifiers, outermost first
    labels, repeated, at_ = [], False, rule
    while at_ + mods != rule + NODE and mods not in (NODE, TOKEN):
        if mods.startswith(".1"):
            labels.append(at_ + ".0")
            at_, mods = at_ + ".1", mods[2:]
        elif mods.startswith("#5.0"):
            at_, mods = at_ + "#5.0", mods[4:]
        elif mods.startswith("#6.0"):
            repeated = True
            at_, mods = at_ + "#6.0", mods[4:]
        else:
            raise Odd("a rule of another form: " + b)
    tok = mods == TOKEN
    # how the name was used so far
    cn = nm(mk("*", counts))
    had = zero_ = None
    alt = None
    for f, v in x.facts.items():
        if f.op == "mhas":
            if nm(f.a[0]) == cn and nm(f.a[1]) == name:
                had = v
            elif nm(f.a[1]) in (name, "id(%s)" % name) and nm(f.a[0]) != cn:
                alt = v
            elif nm(f.a[0]) == cn:
                return ob(FIELD, False, where + "what is counted is %s, not %s" % (nm(f.a[1]), name))
        elif f.op == "eq0" and nm(f.a[0]) == cn + "{" + name + "}":
            zero_ = v
    if had is None:
        return ob(FIELD, None if cn in seen else False, where + "the position does not depend on how often %s occurred: %s" % (name, seen[:300]))
    idx = "I(0)" if had is False else cn + "{" + name + "}"
    # the count goes up by one
    fin = ctx.final(x, counts)
    up = add(mk("mget", mk("*", counts), mk("sym", "k")), I(1))
    last = fin
    if fin.op != "minsert" or nm(fin.a[1]) != name:
        return ob(FIELD, False if fin is mk("*", counts) or fin.op == "minsert" else None, where + "the count becomes " + nm(fin)[:300])
    n = env.norm(fin.a[2])
    want_n = had is False and n is I(1) or had is True and nm(sub(n, I(1))) == idx
    if not want_n:
        return ob(FIELD, False, where + "the count becomes " + nm(n)[:200])
    # finder
    if tok:
        good = finder == "tokens" and words(args).replace(" ", "").startswith("self,SK::") and len(args) == 5 and ids(args[-1]) == name
        if finder not in ("tokens", "token_children", "node_children"):
            raise Odd("a finder not recognised: " + finder)
        if not good:
            return ob(FIELD, False, where + "the token is looked for with " + words(body)[:200])
        want_ty = repr("SyntaxToken")
    else:
        if finder not in ("tokens", "token_children", "node_children"):
            raise Odd("a finder not recognised: " + finder)
        if words(args) != "self":
            raise Odd("arguments not recognised: " + words(args))
        if alt is None:
            return ob(FIELD, None, where + "not known whether the node is a choice of tokens")
        if finder != ("token_children" if alt else "node_children"):
            return ob(FIELD, False, where + "a node that is %sa choice of tokens is looked for with %s" % ("" if alt else "not ", finder))
        want_ty = name
    # type
    tv = [v for y in tmpl.groups(ty) for v in y if isinstance(v, V)]
    tw = words(ty)
    if len(tv) == 1:
        tid = tmpl.idof(tv[0].t)
    elif not tv and tok and "SyntaxToken" in tw:
        tid = want_ty
    else:
        raise Odd("the type is " + tw)
    if tid != want_ty and not (tok and tid == "str(SyntaxToken)"):
        return ob(FIELD, False, where + "the type is " + tw)
    isopt = bool(ty) and is_w(ty[0], "Option")
    isit = find(ty, "Iterator") is not None
    if not isopt and not isit:
        raise Odd("the type is " + tw)
    if isit != repeated:
        return ob(FIELD, False, where + ("a repeated part is of type " if repeated else "a part not repeated is of type ") + tw)
    # position
    rw = words(rest)
    if repeated:
        if rest:
            return ob(FIELD, False, where + "of a repeated part not all are returned: " + words(body))
    else:
        r = rest
        if len(r) == 3 and is_w(r[0], ".") and is_w(r[1], "next") and isinstance(r[2], G) and not r[2].xs:
            pos = I(0)
        elif len(r) == 3 and is_w(r[0], ".") and is_w(r[1], "nth") and isinstance(r[2], G) and len(r[2].xs) == 1 and isinstance(r[2].xs[0], V):
            pos = env.norm(r[2].xs[0].t)
        else:
            return ob(FIELD, False if any(is_w(y, "last", "skip", "nth_back", "rev", "step_by") for y in r) else None, where + "the position is " + rw)
        ok_ = nm(pos) == idx or pos is I(0) and (had is False or zero_ is True)
        if not ok_:
            return ob(FIELD, False, where + "after %s of them, the accessor does %s" % (idx if had else "none", rw))
    if labels:
        if ids(fname) not in labels:
            return ob(FIELD, False, where + "the accessor is called %s, not by its label" % ids(fname))
    ob(FIELD, True)


NODES = "a node type has an accessor for every part of its rule, and is cast from exactly its kind"


def nodes_(ctx, gen):
    rs = [r for r in gen.ts if not takes_rule(r) and any(gen.calls(r, q) for q in gen.ts if takes_rule(q))]
    root = gen.top(rs)
    if root is None:
        return ctx.undecided(NODES, "the function that makes a node type was not found")
    ob = Obs(ctx, ctx.where(root), "the accessors, one per rule in order with the counts handed on; the kind in can_cast")
    try:
        ps = gen.paths(root, lambda q: takes_rule(q))
    except Odd as e:
        return ctx.undecided(NODES, str(e))
    g = gen.graph(root)
    rules = [a for a, t in zip(g.args, root["ins"]) if base(t).k == "slice" and adt_of(base(t).el) == "ungrammar::Rule"]
    name = [a for a, t in zip(g.args, root["ins"]) if adt_of(t) == IDENT]
    if len(rules) != 1 or len(name) != 1:
        return ctx.undecided(NODES, "arguments not recognised")
    rl, me = mk("*", rules[0]), nm(name[0])
    for x, env, xs in ps:
        try:
            node_path(ctx, ob, env, xs, rl, me)
        except Odd as e:
            ob(NODES, None, str(e))
    ob.done()


def node_path(ctx, ob, env, xs, rl, me):
    good = env.ask(eq0(env.norm(mk("len", rl)))) is True
    bad = None
    for ys in tmpl.groups(xs):
        for y in ys:
            if not isinstance(y, R):
                continue
            vs = [z for zs in tmpl.groups(y.xs) for z in zs if isinstance(z, V)]
            if len(vs) != 1 or vs[0].kind != "inl" or vs[0].t.op != "call":
                raise Odd("a repetition not recognised: " + words([y])[:300])
            t = vs[0].t
            if env.ask(eq0(sub(y.n, env.norm(mk("len", rl))))) is not True:
                bad = "accessors for %s of %s rules" % (nm(y.n), nm(mk("len", rl)))
            rargs = [a for a in t.a[1] if nm(a) == nm(rl) + "[v]" and any(z.op == "elem" and z.a[1] is y.v for z in walk(a))]
            if not rargs:
                bad = bad or "the accessor made v-th is " + nm(t)[:300]
            its = [a for a in t.a[1] if a.op == "iter"]
            if not its:
                if any("mnew" in nm(a) for a in t.a[1]):
                    bad = bad or "the counts start anew for every rule: " + nm(t)[:300]
                else:
                    raise Odd("the counts were not recognised: " + nm(t)[:300])
            else:
                it = its[0]
                if it.a[0].op not in ("mnew",) and "mnew" not in nm(it.a[0]):
                    raise Odd("the counts start as " + nm(it.a[0])[:200])
                if not (it.a[1].op == "post" and it.a[1].a[1].op == "call" and it.a[1].a[1].a[0] == t.a[0]):
                    raise Odd("the counts go on as " + nm(it.a[1])[:200])
                if it.a[2] is not y.v:
                    bad = bad or "the v-th accessor is made with the counts of %s before" % nm(it.a[2])
                else:
                    good = True
    f = function(xs, "can_cast")
    if f is None:
        raise Odd("no can_cast")
    b = f[1]
    w = words(b)
    kinds = [tmpl.idof(z.t) for zs in tmpl.groups(b) for z in zs if isinstance(z, V)]
    if "!=" in w or "!" in w and "matches !" not in w or "||" in w or "true" in w:
        raise Odd("can_cast is " + w)
    if kinds != [me]:
        bad = bad or "can_cast is " + w
    ob(NODES, good and bad is None, bad or "no accessors for the rules")


CHOICE = "a choice converts exactly the listed kinds, each to its own variant"


def choices(ctx, gen):
    rs = [r for r in gen.ts if any(base(t).k == "slice" and adt_of(base(t).el) == "ungrammar::Rule" for t in r["ins"]) and not any(gen.calls(r, q) for q in gen.ts if takes_rule(q))]
    root = gen.top(rs)
    if root is None:
        return ctx.undecided(CHOICE, "the function that makes a choice was not found")
    try:
        ps = gen.paths(root)
    except Odd as e:
        return ctx.undecided(CHOICE, str(e))
    ob = Obs(ctx, ctx.where(root), "arms and lists over all the rules of the choice, each of one rule's name and text")
    g = gen.graph(root)
    rules = [a for a, t in zip(g.args, root["ins"]) if base(t).k == "slice" and adt_of(base(t).el) == "ungrammar::Rule"]
    name = [a for a, t in zip(g.args, root["ins"]) if adt_of(t) == IDENT]
    sets = [a for a, t in zip(g.args, root["ins"]) if t.k == "ref" and t.el.k == "adt" and t.el.adt == "std::HashSet"]
    if len(rules) != 1 or len(name) != 1:
        return ctx.undecided(CHOICE, "arguments not recognised")
    rl = mk("*", rules[0])
    for x, env, xs in ps:
        try:
            choice_path(ctx, gen, ob, x, env, xs, rl, nm(name[0]), sets)
        except Odd as e:
            ob(CHOICE, None, str(e))
    ob.done()


def members(env, xs, sep, rl):
    """the one block over all the rules among the entries; others must be the catch-all"""
    out = None
    bs = fold(env, entries(xs, sep))
    for b in bs:
        if len(b.alts) == 1 and words(b.alts[0][1]).startswith("_ =>"):
            w = words(b.alts[0][1])
            if not (w.endswith("None") or "Err" in w or w.endswith("false")):
                return None, "what is not of the choice gives " + w
            continue
        if out is not None:
            return None, "the entries are " + words(xs)[:300]
        out = b
    if out is None:
        return None, "there are no entries"
    ln = env.norm(mk("len", rl))
    if out.n is None:
        if env.ask(eq0(sub(ln, I(1)))) is True:
            return out, None
        return None, "the entries are " + words(xs)[:300]
    if env.ask(eq0(sub(out.n, ln))) is not True:
        return None, "entries for %s of %s" % (nm(out.n), nm(ln))
    return out, None


def vals(xs):
    return [z for zs in tmpl.groups(xs) for z in zs if isinstance(z, V)]


def choice_path(ctx, gen, ob, x, env, xs, rl, me, sets):
    r0 = {nm(t): v for t, v in x.isd.items() if ctx.ip.ispath.get(t) == "ungrammar::Rule"}
    # a choice of tokens has texts
    toks_ = function(xs, "to_str") is not None
    one = env.ask(eq0(sub(env.norm(mk("len", rl)), I(1)))) is True
    idx = "[v]"

    def expect(b, env=env):
        i = "[v]" if b.n is not None else "[I(0)]"
        return nm(rl) + i

    def ident_of(b):
        """what the names in the entry are"""
        return {tmpl.idof(tmpl.plain(env, v.t)) for v in vals(b.alts[0][1]) if v.kind == "tok"}

    def isnode(n, b):
        return n.startswith("std::Index::index(") and n.endswith(expect(b) + NODE + ").0")

    def istok(n, b):
        return n.endswith(expect(b) + TOKEN + ").%d" % gen.tokname) and not n.startswith("std::Index::index(")

    def istext(n, b):
        return n.startswith("std::Index::index(") and n.endswith(expect(b) + TOKEN + ").0")

    def block(what, xs_, sep):
        b, why = members(env, xs_, sep, rl)
        if b is None:
            ob(what, False if why else None, why)
        return b
    # the lists
    if not toks_:
        f = function(xs, "can_cast")
        if f is None:
            raise Odd("no can_cast")
        body = f[1]
        i = find(body, "matches", "!")
        if i is None or len(body) != 3 or not isinstance(body[2], G):
            raise Odd("can_cast is " + words(body)[:200])
        ys = body[2].xs
        j = next((j for j, y in enumerate(ys) if is_w(y, ",")), None)
        if j is None:
            raise Odd("can_cast is " + words(body)[:200])
        what = CHOICE + ": the test"
        b = block(what, tmpl.strip(ys[j + 1:], ","), "|")
        for b in each(b) if b is not None else ():
            n = ident_of(b)
            ob(what, len(n) == 1 and isnode(list(n)[0], b), "an entry is " + words(tmpl_plain_list(env, b.alts[0][1]))[:300])
        table(env, ob, xs, "cast", block, CHOICE + ": the conversion", lambda b, a: len(ident_of(b)) == 1 and isnode(list(ident_of(b))[0], b) and words(a[0]).startswith("SK ::") and words(a[1]).startswith("Self ::")
              and tail(a[1], "( ‹"))
        table(env, ob, xs, "syntax", block, CHOICE + ": back to the node", lambda b, a: len(ident_of(b)) == 1 and isnode(list(ident_of(b))[0], b))
    else:
        table(env, ob, xs, "try_from", block, CHOICE + ": the conversion", lambda b, a: kind_arm(env, a, b, istok))
        table(env, ob, xs, "to_str", block, CHOICE + ": the text", lambda b, a: text_arm(env, a, b, istok, istext))
    if sets:
        st = ctx.final(x, sets[0])
        ins = st is not mk("*", sets[0])
        what = "a choice of tokens, and no other, is remembered as one"
        if toks_:
            ob(what, st.op in ("minsert", "sinsert") and me in nm(st.a[1]) if st.op in ("minsert", "sinsert") else (False if not ins else None), "the set becomes " + nm(st)[:200])
        else:
            ob(what, not ins, "the set becomes " + nm(st)[:200])


def tail(xs, w):
    return True


def kind_arm(env, a, b, istok):
    p_ = [tmpl.idof(tmpl.plain(env, v.t)) for v in vals(a[0])]
    q_ = [tmpl.idof(tmpl.plain(env, v.t)) for v in vals(a[1])]
    return len(p_) == 1 and istok(p_[0], b) and bool(q_) and q_[-1] == p_[0]


def text_arm(env, a, b, istok, istext):
    p_ = [tmpl.idof(tmpl.plain(env, v.t)) for v in vals(a[0])]
    q_ = [v for v in vals(a[1])]
    return len(p_) == 1 and istok(p_[0], b) and len(q_) == 1 and q_[0].kind == "lit" and istext(nm(tmpl.plain(env, q_[0].t)), b)


def table(env, ob, xs, fname, block, what, good):
    f = function(xs, fname)
    mt = f and one_match(f[1])
    if not mt:
        return ob(what, None, "no match in " + fname)
    b = block(what, mt[1], ",")
    if b is None:
        return
    for b in each(b):
        a = arm(b.alts[0][1])
        if a is None:
            ob(what, None if b.alts[0][1] else False, "an arm without an arrow" if b.alts[0][1] else "a rule without an arm")
            continue
        ob(what, bool(good(b, a)), "an arm is " + words(tmpl_plain_list(env, b.alts[0][1]))[:400])


def each(b):
    """the block's cases one by one"""
    return [tmpl.Block(b.n, b.v, [a]) for a in b.alts]


HELP = "the accessors' finders look at exactly the direct children of the kind"


def helpers(ctx, gen):
    """the three functions every accessor is made of"""
    cands = [r for r in gen.ts if mentions_str(gen, r, "node_children") and not any(takes_rule(q) and (q is r or gen.calls(r, q)) for q in gen.ts)]
    root = gen.top(cands)
    if root is None:
        return ctx.undecided(HELP, "the function that makes the file was not found")
    ob = Obs(ctx, ctx.where(root), "the chain of adaptors in the finders")
    try:
        ps = gen.paths(root)
    except Odd as e:
        return ctx.undecided(HELP, str(e))
    for x, env, xs in ps:
        for fn, src, filt in (("tokens", "children_with_tokens", ("tok . kind () == kind", "kind == tok . kind ()")), ("token_children", "children_with_tokens", ("try_into", "try_from")), ("node_children", "children", ("C :: cast",))):
            f = function(xs, fn)
            if f is None:
                ob(HELP, None, "no " + fn)
                continue
            w = words(f[1]).replace("( )", "()")
            names = chain(f[1])
            extra = [n for n in names if n in ("rev", "skip", "take", "step_by", "last", "skip_while", "take_while", "nth", "descendants", "descendants_with_tokens", "siblings", "filter_map_rev", "dedup", "ancestors",
                                               "first_child", "next_sibling", "prev_sibling", "parent", "chain", "flat_map", "peekable", "scan", "map_while")]
            missing = src not in names
            ok_ = not extra and not missing
            if ok_ and fn == "tokens":
                ok_ = any("== kind" in w or "kind ==" in w for _ in (0,)) and "!" not in w and "!=" not in w and "filter" in names
            if ok_ and fn != "tokens":
                ok_ = any(k in w for k in filt)
            ob(HELP, ok_ if ok_ else (False if extra or missing or "!=" in w or fn == "tokens" and "kind" not in w.replace("kind ()", "") else None), "%s is %s" % (fn, w[:300]))
    ob.done()


def chain(xs):
    out = []
    for ys in tmpl.groups(xs):
        for i, y in enumerate(ys):
            if isinstance(y, W) and y.s.isidentifier() and i and is_w(ys[i - 1], "."):
                out.append(y.s)
    return out


def lookups(ctx, gen):
    name = "a token of the grammar is looked up in the table under itself"
    rs = [r for r in gen.c.roots if r["B"] is not None and gen.looks_up(r)]
    for root in rs:
        g = ctx.graph(root)
        if g is None:
            continue
        ob = Obs(ctx, ctx.where(root), "what is returned is the entry of one of the tables at the token")
        key = [a for a, t in zip(g.args, root["ins"]) if adt_of(t) == "ungrammar::Token"]
        if len(key) != 1:
            continue
        for x in g.segs:
            if x.kind != "return":
                continue
            n = nm(x.val)
            ob(name, (n.endswith("{" + nm(key[0]) + "}") or n.endswith("[" + nm(key[0]) + "]")) if ("{" in n or "[" in n) else None, "returned: " + n[:200])
        ob.done()


TYPES = "every node of the grammar is given a type, choices first"


def types(ctx, gen):
    root, g = public(ctx, gen)
    if g is None:
        return ctx.undecided(TYPES, "the generator was not found")
    ob = Obs(ctx, ctx.where(root), "on every way round a loop over the nodes: the function by the rule, with the node's own name and rules")
    seen = {}
    alts = None
    for x, env, text in node_loops(ctx, g):
        calls = [e for e in x.events if e.kind == "call" and e.name.startswith("syntax_gen::")]
        ps = pushed(ctx, g, x)
        if text is None:
            ob(TYPES, None, "a loop over something else")
            continue
        v = rule_variant(ctx, env, x, text)
        rule = text[:-2] + ".1"
        ts = [t for t in ps.values() if t.op == "call"]
        kind = "choice" if v == 4 else "other"
        if v is None:
            kind = "other" if any(q for q in calls) else "none"
        if not ts:
            seen.setdefault((x.src, kind), []).append(None)
            continue
        if len(ts) != 1:
            ob(TYPES, None, "several types for a node")
            continue
        t = ts[0]
        seen.setdefault((x.src, kind), []).append(t)
        names = [nm(a) for a in t.a[1]]
        want = rule + "#4.0" if v == 4 else rule + "#3.0" if v == 3 else rule
        idok = "id(%s)" % text in names
        if not idok:
            ob(TYPES, False, "a type for %s is named %s" % (text, ", ".join(n[:80] for n in names if n.startswith("id("))))
            continue
        if v == 3 and rule + "#3.0" not in names or v == 4 and rule + "#4.0" not in names:
            ob(TYPES, False, "the type is made of " + ", ".join(names)[:300])
            continue
        ob(TYPES, True)
    for kind in ("choice", "other"):
        ls = [h for (h, k), ts in seen.items() if k == kind and any(ts)]
        part = [h for (h, k), ts in seen.items() if k == kind and any(ts) and not all(ts)]
        if part:
            ob(TYPES, False, "some nodes (%s) are given no type" % kind)
        elif not ls:
            ob(TYPES, None if not seen else False, "nodes that are %s are given no type" % ("choices" if kind == "choice" else "not choices"))
        elif len(ls) > 1:
            ob(TYPES, False, "nodes are given two types")
    # the choices of tokens are known when the others are made
    for x, env, text in node_loops(ctx, g):
        for e in x.events:
            if e.kind != "call" or not e.name.startswith("syntax_gen::") or len(e.args) < 3:
                continue
            v = text and rule_variant(ctx, env, x, text)
            cx = [a for a in e.args if a.op == "adt" and a.a[0] == "syntax_gen::Cx"]
            if not cx or v == 4:
                if v == 4:
                    st = [a for a in e.args if a.op == "phi"]
                    alts = (x.src, st)
                continue
    what = "what is a choice of tokens is known before it is asked"
    for x, env, text in node_loops(ctx, g):
        v = text and rule_variant(ctx, env, x, text)
        for t in pushed(ctx, g, x).values():
            if t.op != "call" or v == 4:
                continue
            cx = [a for a in t.a[1] if a.op == "adt" and a.a[0] == "syntax_gen::Cx"]
            if len(cx) != 1 or alts is None or len(alts[1]) != 1:
                ob(what, None, "arguments not recognised")
                continue
            i = [i for i, f in enumerate(ctx.fields("syntax_gen::Cx")) if f[1].k == "adt" and f[1].adt == "std::HashSet"]
            if len(i) != 1:
                ob(what, None, "representation not recognised")
                continue
            f = cx[0].a[2][i[0]]
            if alts[0] is x.src and any(y is alts[1][0] for y in walk(f)):
                ob(what, False, "accessors are made while the choices are: " + nm(f)[:200])
                continue
            ob(what, True if f is alts[1][0] and alts[0] is not x.src else False if f.op in ("mnew", "snew") else None, "accessors are made with the set " + nm(f)[:200])
    ob.done()
