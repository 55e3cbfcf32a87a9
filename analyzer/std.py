"""Semantics of the standard library (and the few external crates used) for the
abstract interpreter: functional terms for collections, value dispatch for
iterators, forks for results that depend on unknown facts."""
from terms import *
from interp import OPT, RES, FnRef, Unsupported, Frame
import load
import terms as _terms

NAT = {}
CF = "std::ControlFlow"
RANGE = "std::Range"
TR = "text_size::TextRange"


def nat(*names):
    def d(f):
        for n in names:
            NAT[n] = f
        return f
    return d


class C:
    """A native call in progress."""
    __slots__ = ("run", "ip", "st", "fr", "f", "args", "tys", "dest", "target", "dty", "line", "out")

    def __init__(self, run, st, fr, f, args, tys, dest, target, dty, line, out):
        self.run, self.ip, self.st, self.fr, self.f, self.args, self.tys = run, run.ip, st, fr, f, args, tys
        self.dest, self.target, self.dty, self.line, self.out = dest, target, dty, line, out

    def ret(self, v, st=None):
        return self.run.finish(st or self.st, self.fr, self.dest, self.target, v, self.out)

    def loc(self, i, st=None):
        """location the i-th (pointer) argument points to"""
        return self.ip.deref_loc(self.args[i])

    def rd(self, i, st=None):
        return self.ip.read(st or self.st, self.loc(i))

    def wr(self, i, v, st=None):
        self.ip.write(st or self.st, self.loc(i), v)

    def val(self, i, st=None):
        """the i-th argument with all reference layers of its type removed"""
        return peel(self.run, st or self.st, self.args[i], self.tys[i])[0]

    def peelty(self, i):
        t = self.tys[i]
        while t is not None and t.k in ("ref", "ptr"):
            t = t.el
        return t

    def peelloc(self, i):
        """innermost location of the i-th argument (pointer layers removed by type)"""
        v, t = self.args[i], self.tys[i]
        l = None
        while t is not None and t.k in ("ref", "ptr"):
            l = self.ip.deref_loc(v)
            v = self.ip.read(self.st, l)
            t = t.el
        return l, v, t

    def fork(self, cond):
        """[(state, truth)] for the feasible truths of cond"""
        r = self.ip.ask(self.st, cond)
        if r is not None:
            return [(self.st, r)]
        a, b = self.st, self.st.copy()
        o = []
        if self.ip.assume(a, cond, True):
            o.append((a, True))
        if self.ip.assume(b, cond, False):
            o.append((b, False))
        return o

    def panic(self, st, msg):
        self.out.append(("panic", st, S(msg), self.fr))
        return []

    def check(self, cond, msg):
        """assert: the panicking state is emitted, the other returned (or None)"""
        self.run.event(self.st, "assert", (cond,), UNIT, self.line, self.fr, kind="assert", raw=msg)
        keep = None
        for s, t in self.fork(cond):
            if t:
                keep = s
            else:
                self.panic(s, msg)
        return keep

    def model(self, name, args=None, st=None):
        b = self.ip.model_m.get("mstd::" + name)
        if b is None:
            raise Unsupported("model " + name)
        if self.run.recursive2(self.fr, b):
            raise Unsupported("model recursion " + name)
        return self.run.enter(st or self.st, self.fr, b, self.args if args is None else args, self.dest, self.target)

    def opaque(self, name=None):
        return self.run.opaque(self.st, self.fr, name or self.f.name, self.args, self.tys, self.dest, self.target, self.dty, self.line, self.out, self.f)

    def cref(self, v):
        return self.ip.cref(v)


def N(*names):
    """decorator: handler taking a C"""
    def d(g):
        def h(run, st, fr, f, args, tys, dest, target, dty, line, out):
            return g(C(run, st, fr, f, args, tys, dest, target, dty, line, out))
        h.__name__ = g.__name__
        for n in names:
            NAT[n] = h
        return g
    return d


def peel(run, st, v, t):
    ip = run.ip
    while t is not None and t.k in ("ref", "ptr"):
        v = ip.read(st, ip.deref_loc(v))
        t = t.el
    if t is None or t.k in ("param", "alias") or True:
        n = 0
        while v.op == "ref" and n < 8 and (t is None or t.k not in ("ref", "ptr")):
            v = ip.read(st, v.a[0])
            n += 1
    return v, t


def keyv(c, i):
    """canonical map key: references and single-field workspace wrappers removed"""
    v, t = peel(c.run, c.st, c.args[i], c.tys[i])
    return canon_key(c, v, t)


def canon_key(c, v, t):
    v = c.ip.deep(c.st, v)
    n = 0
    while t is not None and t.k == "adt" and n < 4:
        a = c.ip.P.adts.get(t.adt)
        if not a or not a["ws"] or a["kind"] != "struct" or not a["variants"] or len(a["variants"][0][2]) != 1:
            break
        v = c.ip.field(c.st, v, t.adt, 0, 0)
        t = a["variants"][0][2][0][1]
        n += 1
        if v.op == "ref":
            v = c.ip.deep(c.st, v)
    if t is not None and t.k in ("uint", "int"):
        c.ip.intterms.add(v)
    return v


# ------------------------------------------------------------------ transparent pointers
def ident(c):
    return c.ret(c.args[0])


for _n in ("std::Deref::deref", "std::DerefMut::deref_mut", "std::AsRef::as_ref", "std::AsMut::as_mut", "std::Borrow::borrow", "std::BorrowMut::borrow_mut",
           "std::String::as_str", "std::str::as_bytes", "std::String::as_bytes", "std::Vec::as_slice", "std::Vec::as_mut_slice", "std::PathBuf::as_path", "std::Path::new",
           "std::Path::as_os_str", "std::slice::as_ref", "smol_str::SmolStr::as_str", "std::Box::as_ref", "std::hint::must_use", "std::String::as_mut_str",
           "std::Path::as_path", "std::OsStr::new", "std::Option::iter_transparent", "std::Rc::as_ref", "std::convert::identity", "std::ptr::from_ref", "std::hint::black_box",
           "std::array::as_slice", "std::Vec::leak", "std::Box::leak", "std::str::as_ptr", "std::String::into_boxed_str", "std::Vec::into_boxed_slice", "std::String::into_bytes",
           "std::slice::into_vec", "std::PathBuf::into_os_string", "std::PathBuf::into_boxed_path", "std::str::into_string", "std::Iterator::by_ref", "std::Iterator::fuse",
           "std::ops::Deref::deref", "std::slice::as_slice", "std::Pin::new"):
    N(_n)(ident)


def asref(c, i):
    """value behind argument i seen through its AsRef / Borrow / Deref impl when it is generic"""
    v = c.val(i)
    t = c.peelty(i)
    if t is not None and t.k in ("param", "alias") and v.op != "asref":
        return mk("asref", v)
    if t is not None and t.k == "adt" and t.adt == "std::Component":
        return compstr(c.ip, c.st, v)
    return v


def generic_asref(c):
    t = c.peelty(0)
    if t is not None and (t.k in ("param", "alias") or t.k == "adt" and t.adt == "std::Component"):
        return c.ret(c.cref(asref(c, 0)))
    # &&str etc: return the innermost pointer
    v, ty = c.args[0], c.tys[0]
    while ty is not None and ty.k == "ref" and ty.el is not None and ty.el.k == "ref":
        v = c.ip.read(c.st, c.ip.deref_loc(v))
        ty = ty.el
    return c.ret(v)


for _n in ("std::AsRef::as_ref", "std::Borrow::borrow", "std::Deref::deref"):
    N(_n)(generic_asref)


@N("std::Clone::clone", "std::ToOwned::to_owned", "std::str::to_string", "std::slice::to_vec", "std::Path::to_path_buf", "std::str::to_owned", "std::OsStr::to_os_string",
   "std::Rc::unwrap_or_clone_ref", "std::OsStr::to_owned")
def clone(c):
    if c.tys[0].k != "ref":
        return c.ret(c.args[0])
    v = c.rd(0)
    t = c.tys[0].el
    # cloning a reference copies it; to_owned of a reference to a reference clones one layer
    return c.ret(v)


@N("std::Clone::clone_from")
def clone_from(c):
    c.wr(0, c.rd(1))
    return c.ret(UNIT)


@N("std::ToString::to_string")
def to_string(c):
    v, t = peel(c.run, c.st, c.args[0], c.tys[0])
    return c.ret(disp_piece(c, v, t))


@N("std::Box::new", "std::Rc::new", "std::Arc::new", "std::Rc::unwrap_or_clone", "std::Arc::unwrap_or_clone", "std::Box::into_inner", "std::ManuallyDrop::new", "std::RefCell::new", "std::Cell::new",
   "std::MaybeUninit::new", "std::Box::from", "std::Box::pin")
def boxnew(c):
    return c.ret(c.args[0])


@N("std::Box::new_uninit")
def box_uninit(c):
    return c.ret(mk("uninit", mk("box", c.fr.fid, c.fr.bb)))


@N("std::boxed::box_assume_init_into_vec_unsafe")
def box_vec(c):
    return c.ret(c.args[0])


@N("std::Rc::make_mut", "std::Arc::make_mut")
def make_mut(c):
    c.run.event(c.st, c.f.name, (c.rd(0),), UNIT, c.line, c.fr)
    return c.ret(c.args[0])


@N("std::Rc::get_mut", "std::Arc::get_mut")
def rc_get_mut(c):
    s2 = c.st.copy()
    u = mk("rcunique", c.rd(0))
    if not c.ip.assume(s2, u, False):
        return c.ret(some(c.args[0]))
    if not c.ip.assume(c.st, u, True):
        return c.ret(NONE, s2)
    return c.ret(NONE, s2) + c.ret(some(c.args[0]))


@N("std::Rc::try_unwrap", "std::Arc::try_unwrap")
def rc_try_unwrap(c):
    s2 = c.st.copy()
    u = mk("rcunique", c.args[0])
    if not c.ip.assume(s2, u, False):
        return c.ret(ok(c.args[0]))
    if not c.ip.assume(c.st, u, True):
        return c.ret(err(c.args[0]), s2)
    return c.ret(ok(c.args[0])) + c.ret(err(c.args[0]), s2)


@N("std::Rc::into_inner")
def rc_into_inner(c):
    s2 = c.st.copy()
    u = mk("rcunique", c.args[0])
    if not c.ip.assume(s2, u, False):
        return c.ret(some(c.args[0]))
    if not c.ip.assume(c.st, u, True):
        return c.ret(NONE, s2)
    return c.ret(some(c.args[0])) + c.ret(NONE, s2)


@N("std::Rc::ptr_eq", "std::Arc::ptr_eq", "std::ptr::eq")
def ptr_eq(c):
    return c.ret(mk("call", "ptr_eq", (c.args[0], c.args[1])))


# ------------------------------------------------------------------ conversions
IDCONV = {"std::String", "std::PathBuf", "smol_str::SmolStr", "std::Box", "std::Rc", "std::Arc", "std::Vec", "std::Cow", "std::OsString", "text_size::TextSize", "std::TextSize"}


def is_num(t):
    return t is not None and (t.k in ("uint", "int") or (t.k == "adt" and t.adt in ("text_size::TextSize",)))


WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def width(t):
    if t.k == "adt":
        return 32
    return WID.get(t.name, 64)


def convert(c, v, src, dst):
    """From/Into: a state list"""
    if src is not None and dst is not None:
        if src.d == dst.d or (src.k == "adt" and dst.k == "adt" and src.adt == dst.adt and not c.ip.P.adts.get(src.adt, {}).get("ws")):
            return c.ret(v)
        if is_num(src) and is_num(dst):
            return c.ret(v)
        if dst.k == "adt" and dst.adt == RANGE and src.k == "adt" and src.adt == TR:
            return c.ret(adt(RANGE, 0, (c.ip.field(c.st, v, TR, 0, 0), c.ip.field(c.st, v, TR, 0, 1))))
        if dst.k == "adt" and dst.adt == OPT:
            return c.ret(some(v))
        # workspace impl
        if dst.k == "adt":
            for cr in c.ip.P.crates.values():
                for r in cr.fns.get("<%s as std::From>::from" % dst.adt, ()):
                    if r["B"] is not None and r["ins"] and r["ins"][0].d.split("::")[-1] == src.d.split("::")[-1]:
                        return c.run.enter(c.st, c.fr, r["B"], [v], c.dest, c.target)
        if dst.k == "adt" and dst.adt in IDCONV:
            p, pt = peel(c.run, c.st, v, src)
            if pt is not None and pt.k == "char":
                return c.ret(sapp(S(""), s1(p)))
            return c.ret(p)
        if dst.k == "ref" and src.k == "ref":
            return c.ret(v)
    return c.opaque()


@N("std::Into::into")
def into(c):
    return convert(c, c.args[0], c.tys[0], c.dty)


@N("std::From::from")
def from_(c):
    return convert(c, c.args[0], c.tys[0], c.dty)


def try_convert(c):
    src = c.tys[0]
    dst = c.dty.args[0] if c.dty is not None and c.dty.args else None
    v = c.args[0]
    if is_num(src) and is_num(dst):
        w1, w2 = width(src), width(dst)
        if src.k != "int" and (w1 < w2 or (w1 == w2 and dst.k != "int")):
            return c.ret(ok(v))
        nm = dst.name if dst.k != "adt" else "u32"
        cond = fits(v, nm) if src.k != "int" else mk("fits", v, nm)
        if v.op == "I":
            cond = B(0 <= v.a[0] < (1 << w2))
        o = []
        for s, t in c.fork(cond):
            o += c.ret(ok(v) if t else err(mk("sym", "TryFromIntError")), s)
        return o
    return c.opaque()


N("std::TryInto::try_into", "std::TryFrom::try_from")(try_convert)


# ------------------------------------------------------------------ defaults
def default_val(c, t, d=0):
    if t is None or d > 4:
        return None
    if t.k in ("uint", "int"):
        return I(0)
    if t.k == "bool":
        return FALSE
    if t.k == "char":
        return mk("char", "\0")
    if t.k == "tuple":
        fs = [default_val(c, x, d + 1) for x in t.els]
        return None if any(f is None for f in fs) else mk("tuple", tuple(fs))
    if t.k == "alias" and t.d.endswith("::Set"):
        return mk("mnew")
    if t.k == "ref" and t.el.k == "str":
        return c.cref(S(""))
    if t.k == "ref" and t.el.k == "slice":
        return c.cref(mk("arr", ()))
    if t.k == "adt":
        e = empty_val(t)
        if e is not None:
            return e
        if t.adt == OPT:
            return NONE
        if t.adt in ("text_size::TextSize",):
            return I(0)
        if t.adt in ("std::Box", "std::Rc", "std::Arc"):
            return default_val(c, t.args[0], d + 1)
        a = c.ip.P.adts.get(t.adt)
        if a and a["ws"] and a["kind"] == "struct" and a["variants"]:
            # derived Default only: a hand-written one has a body and is inlined elsewhere
            for cr in c.ip.P.crates.values():
                for r in cr.fns.get("<%s as std::Default>::default" % t.adt, ()):
                    if not r["d"].derived:
                        return None
            fs = []
            for nm, ft, _ in a["variants"][0][2]:
                ft = subst_ty(ft, t)
                fs.append(default_val(c, ft, d + 1))
            if all(f is not None for f in fs):
                return adt(t.adt, 0, fs)
    return None


def subst_ty(ft, t):
    if ft.k == "param" and t.args:
        return None if len(t.args) != 1 else t.args[0]
    return ft


def empty_val(t):
    if t.k != "adt":
        return None
    n = t.adt
    if n in ("std::Vec", "std::VecDeque"):
        return mk("arr", ())
    if n in ("std::String", "std::PathBuf", "std::OsString"):
        return S("")
    if n in ("std::HashMap", "std::HashSet", "std::BTreeMap", "std::BTreeSet"):
        return mk("mnew")
    if n == "proc_macro2::TokenStream":
        return mk("toks", ())
    return None


@N("std::Default::default")
def default(c):
    v = default_val(c, c.dty)
    if v is not None:
        return c.ret(v)
    return c.opaque()


@N("mstd::prim_default")
def pdefault(c):
    return c.ret(mk("default"))


# ------------------------------------------------------------------ mem
@N("std::mem::take", "std::Option::take")
def mem_take(c):
    old = c.rd(0)
    t = c.tys[0].el
    d = NONE if c.f.name == "std::Option::take" else default_val(c, t)
    if d is None and t.k == "adt":
        for cr in c.ip.P.crates.values():
            for r in cr.fns.get("<%s as std::Default>::default" % t.adt, ()):
                if r["B"] is not None:
                    l = c.loc(0)
                    ip, fr, dest, target = c.ip, c.fr, c.dest, c.target

                    def post(st, v):
                        ip.write(st, l, v)
                        return old
                    return c.run.enter(c.st, c.fr, r["B"], [], c.dest, c.target, post=post)
    if d is None:
        d = mk("call", "std::Default::default", (), )
        d = mk("default_of", t.d)
    c.wr(0, d)
    return c.ret(old)


@N("std::mem::replace", "std::Option::replace")
def mem_replace(c):
    old = c.rd(0)
    c.wr(0, some(c.args[1]) if c.f.name == "std::Option::replace" else c.args[1])
    return c.ret(old)


@N("std::mem::swap")
def mem_swap(c):
    a, b = c.rd(0), c.rd(1)
    c.wr(0, b)
    c.wr(1, a)
    return c.ret(UNIT)


@N("std::mem::drop", "std::mem::forget", "std::drop", "std::forget")
def mem_drop(c):
    v = c.args[0]
    t = c.tys[0]
    if c.f.name.endswith("drop") and t.k == "adt":
        c.run.event(c.st, "drop", (c.ip.deep(c.st, v),), UNIT, c.line, c.fr, kind="drop", tys=(t,))
    elif c.f.name.endswith("forget"):
        c.run.event(c.st, "forget", (c.ip.deep(c.st, v),), UNIT, c.line, c.fr, tys=(t,))
    return c.ret(UNIT)


# ------------------------------------------------------------------ comparison
def eq_term(c, i=0, j=1):
    a, ta = peel(c.run, c.st, c.args[i], c.tys[i])
    b, tb = peel(c.run, c.st, c.args[j], c.tys[j])
    return eq_vals(c, a, ta, b, tb)


def eq_vals(c, a, ta, b, tb):
    ip = c.ip
    if is_num(ta):
        return eq0(sub(a, b))
    a, b = ip.deep(c.st, pointed(c, a, ta)), ip.deep(c.st, pointed(c, b, tb))
    return deep_eq(c, a, b, ta)


def pointed(c, v, t):
    """v with the pointers in it (by its type) followed"""
    if t is None or v.op not in ("adt", "tuple"):
        return v
    fs = v.a[2] if v.op == "adt" else v.a[0]
    if not fs:
        return v
    ts = ftypes(c, t, v.a[1] if v.op == "adt" else 0)
    if not ts or len(ts) != len(fs):
        return v
    out = []
    for x, y in zip(fs, ts):
        while y is not None and y.k == "ref":
            x, y = c.ip.read(c.st, c.ip.deref_loc(x)), y.el
        out.append(pointed(c, x, y))
    return adt(v.a[0], v.a[1], tuple(out)) if v.op == "adt" else mk("tuple", tuple(out))


def ftypes(c, t, vi):
    if t is None:
        return None
    if t.k == "adt":
        a = c.ip.P.adts.get(t.adt)
        if a and a["variants"] and vi < len(a["variants"]):
            r = []
            for nm, ft, _ in a["variants"][vi][2]:
                if ft.k == "param" and len(t.args) == 1:
                    ft = t.args[0]
                r.append(ft)
            return r
    if t.k == "tuple":
        return t.els
    return None


def deep_eq(c, a, b, t, d=0):
    ip = c.ip
    while t is not None and t.k in ("ref", "ptr"):
        t = t.el
    if a is b:
        return TRUE
    if is_num(t) or ip.is_int(a) or ip.is_int(b):
        return eq0(sub(a, b))
    if t is not None and t.k == "adt" and d < 4:
        info = ip.P.adts.get(t.adt)
        if info and info["kind"] == "struct" and info["variants"] and (info["ws"] or t.adt == TR):
            r = TRUE
            fts = ftypes(c, t, 0)
            for i in range(len(info["variants"][0][2])):
                r = mk_and(r, deep_eq(c, ip.field(c.st, a, t.adt, 0, i), ip.field(c.st, b, t.adt, 0, i), fts[i], d + 1))
            return r
        if info and info["kind"] == "enum" and info["variants"]:
            if a.op != "adt" and b.op == "adt":
                a, b = b, a
            if a.op == "adt":
                r = ip.isv(c.st, b, t.adt, a.a[1])
                fts = ftypes(c, t, a.a[1])
                for i in range(len(a.a[2])):
                    r = mk_and(r, deep_eq(c, a.a[2][i], ip.field(c.st, b, t.adt, a.a[1], i), fts[i] if fts else None, d + 1))
                return r
            if all(not v[2] for v in info["variants"]) and info["ws"]:
                return mk("eq", *sorted((mk("discr", a, t.adt), mk("discr", b, t.adt)), key=lambda q: q.id))
    return ip.eqt(c.st, a, b)


@N("std::PartialEq::eq")
def peq(c):
    return c.ret(eq_term(c))


@N("std::PartialEq::ne")
def pne(c):
    return c.ret(mk_not(eq_term(c)))


@N("mstd::prim_eq")
def prim_eq(c):
    return c.ret(c.ip.eqt(c.st, c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])))


@N("mstd::prim_lt")
def prim_lt(c):
    return c.ret(lt(c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])))


def ord_vals(c):
    a, ta = peel(c.run, c.st, c.args[0], c.tys[0])
    b, tb = peel(c.run, c.st, c.args[1], c.tys[1])
    w = oskey if ta is not None and ta.k == "adt" and ta.adt in ("std::OsStr", "std::OsString") else (lambda v: v)
    return w(c.ip.deep(c.st, a)), w(c.ip.deep(c.st, b)), ta


def oskey(v):
    """what an OsStr is ordered and hashed by: its bytes, and not the components a Path is ordered and hashed by"""
    return mk("osbytes", v)


def ord_num(c, v, t):
    """discriminant of a fieldless enum value, for derived orders"""
    return v


@N("std::Ord::cmp")
def ocmp(c):
    a, b, t = ord_vals(c)
    return c.ret(c.run.ordering(c.st, a, b))


@N("std::PartialOrd::partial_cmp")
def pcmp(c):
    a, b, t = ord_vals(c)
    return c.ret(some(c.run.ordering(c.st, a, b)))


def cmpop(k):
    def g(c):
        a, b, t = ord_vals(c)
        if t is not None and t.k == "adt" and t.adt.startswith("log::"):
            return c.ret(TRUE)
        f = c.f
        # workspace type with its own order: opaque
        if t is not None and t.k == "adt" and c.ip.P.adts.get(t.adt, {}).get("ws"):
            for cr in c.ip.P.crates.values():
                for r in cr.fns.get("<%s as std::PartialOrd>::partial_cmp" % t.adt, ()):
                    if r["B"] is not None:
                        def post(st, v, k=k):
                            o = c.ip.field(st, v, OPT, 1, 0)
                            vi = {"lt": 0, "gt": 2, "le": 2, "ge": 0}[k]
                            e = c.ip.isv(st, o, "std::Ordering", vi)
                            if o.op == "ord":
                                e = c.ip._ordterm(o, vi)
                            return e if k in ("lt", "gt") else mk_not(e)
                        return c.run.enter(c.st, c.fr, r["B"], c.args, c.dest, c.target, post=post)
        r = {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[k]()
        return c.ret(r)
    return g


for _k in ("lt", "le", "gt", "ge"):
    N("std::PartialOrd::" + _k)(cmpop(_k))


@N("std::Ord::max", "std::cmp::max")
def omax(c):
    if is_num(c.tys[0]):
        return c.model("int_max")
    return c.opaque()


@N("std::Ord::min", "std::cmp::min")
def omin(c):
    if is_num(c.tys[0]):
        return c.model("int_min")
    return c.opaque()


@N("std::Ordering::is_eq", "std::Ordering::is_ne", "std::Ordering::is_lt", "std::Ordering::is_gt", "std::Ordering::is_le", "std::Ordering::is_ge")
def ord_is(c):
    k = c.f.name.split("_")[-1]
    o = c.args[0]
    vi = {"eq": 1, "ne": 1, "lt": 0, "ge": 0, "gt": 2, "le": 2}[k]
    e = c.ip.isv(c.st, o, "std::Ordering", vi)
    if o.op == "ord":
        e = c.ip._ordterm(o, vi)
    return c.ret(e if k in ("eq", "lt", "gt") else mk_not(e))


# ------------------------------------------------------------------ integers
@N("std::int::checked_add", "std::int::checked_mul")
def checked_add(c):
    a, b = c.args
    r = add(a, b) if c.f.name.endswith("add") else mul(a, b)
    nm = c.tys[0].name if c.tys[0].k != "adt" else "u32"
    o = []
    for s, t in c.fork(fits(r, nm)):
        o += c.ret(some(r) if t else NONE, s)
    return o


@N("text_size::TextSize::checked_add")
def ts_checked_add(c):
    return checked_add(c)


@N("std::int::saturating_add", "std::int::wrapping_add", "std::int::wrapping_sub", "std::int::wrapping_mul", "std::int::overflowing_add", "std::int::saturating_mul")
def sat(c):
    c.run.event(c.st, c.f.name, c.args, UNIT, c.line, c.fr)
    return c.ret(mk("call", c.f.name, tuple(c.args)))


@N("std::Add::add")
def o_add(c):
    if is_num(c.tys[0]):
        return c.ret(add(c.val(0), c.val(1)))
    return c.opaque()


@N("std::Sub::sub")
def o_sub(c):
    if is_num(c.tys[0]):
        return c.ret(sub(c.val(0), c.val(1)))
    return c.opaque()


@N("std::AddAssign::add_assign")
def o_adda(c):
    t = c.tys[0].el
    if is_num(t):
        c.wr(0, add(c.rd(0), c.val(1)))
        return c.ret(UNIT)
    if t.k == "adt" and t.adt == "std::String":
        c.wr(0, sapp(c.rd(0), c.val(1)))
        return c.ret(UNIT)
    return c.opaque()


@N("std::SubAssign::sub_assign")
def o_suba(c):
    if is_num(c.tys[0].el):
        c.wr(0, sub(c.rd(0), c.val(1)))
        return c.ret(UNIT)
    return c.opaque()


# ------------------------------------------------------------------ text_size
@N("text_size::TextSize::of")
def ts_of(c):
    return c.ret(c.ip.length(c.st, c.val(0)))


@N("text_size::TextSize::new")
def ts_new(c):
    return c.ret(c.args[0])


@N("text_size::TextRange::new")
def tr_new(c):
    st = c.check(le(c.args[0], c.args[1]), "TextRange::new")
    if st is None:
        return []
    return c.ret(adt(TR, 0, c.args), st)


@N("text_size::TextRange::empty")
def tr_empty(c):
    return c.ret(adt(TR, 0, (c.args[0], c.args[0])))


@N("text_size::TextRange::at")
def tr_at(c):
    return c.ret(adt(TR, 0, (c.args[0], add(c.args[0], c.args[1]))))


@N("text_size::TextRange::up_to")
def tr_upto(c):
    return c.ret(adt(TR, 0, (I(0), c.args[0])))


@N("text_size::TextRange::start")
def tr_start(c):
    v = c.ip.field(c.st, c.val(0), TR, 0, 0)
    c.ip.intterms.add(v)
    return c.ret(v)


@N("text_size::TextRange::end")
def tr_end(c):
    v = c.ip.field(c.st, c.val(0), TR, 0, 1)
    c.ip.intterms.add(v)
    return c.ret(v)


@N("text_size::TextRange::len")
def tr_len(c):
    v = c.val(0)
    return c.ret(sub(c.ip.field(c.st, v, TR, 0, 1), c.ip.field(c.st, v, TR, 0, 0)))


# ------------------------------------------------------------------ strings
def s1(ch):
    if ch.op == "char":
        return S(ch.a[0])
    return mk("s1", ch)


def spieces(v):
    if v.op == "scat":
        return list(v.a[0])
    if v.op == "str" and v.a[0] == "":
        return []
    return [v]


def scat(ps):
    out = []
    for p in ps:
        for q in spieces(p):
            if out and q.op == "str" and out[-1].op == "str":
                out[-1] = S(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("scat", tuple(out))


def sapp(a, b):
    return scat([a, b])


@N("std::String::new", "std::PathBuf::new", "std::OsString::new")
def s_new(c):
    return c.ret(S(""))


@N("std::String::with_capacity")
def s_cap(c):
    return c.ret(S(""))


@N("std::String::push")
def s_push(c):
    c.wr(0, sapp(c.rd(0), s1(c.args[1])))
    return c.ret(UNIT)


@N("std::String::push_str")
def s_push_str(c):
    c.wr(0, sapp(c.rd(0), c.val(1)))
    return c.ret(UNIT)


@N("std::String::reserve", "std::Vec::reserve", "std::HashMap::reserve", "std::HashSet::reserve", "std::Vec::shrink_to_fit", "std::String::shrink_to_fit")
def reserve(c):
    return c.ret(UNIT)


@N("std::str::is_empty", "std::String::is_empty", "std::slice::is_empty", "std::Vec::is_empty", "smol_str::SmolStr::is_empty", "std::HashMap::is_empty", "std::HashSet::is_empty",
   "std::BTreeMap::is_empty", "std::BTreeSet::is_empty", "std::VecDeque::is_empty", "std::ExactSizeIterator::is_empty", "Set::is_empty")
def is_empty(c):
    return c.ret(eq0(vlen(c, c.val(0))))


def vlen(c, v):
    if v.op in ("mnew",):
        return I(0)
    if v.op == "minsert":
        h = c.ip.ask(c.st, c.ip.map_has(c.st, v.a[0], v.a[1]))
        if h is False:
            return add(vlen(c, v.a[0]), I(1))
        if h is True:
            return vlen(c, v.a[0])
    if v.op == "scat":
        r = I(0)
        for p in v.a[0]:
            if p.op == "s1":
                x = mk("len", p)
                # a character is one to four bytes
                c.ip.assume(c.st, le(I(1), x), True)
                r = add(r, x)
            else:
                r = add(r, c.ip.length(c.st, p))
        return r
    return c.ip.length(c.st, v)


@N("std::str::len", "std::String::len", "std::slice::len", "std::Vec::len", "std::HashMap::len", "std::HashSet::len", "std::BTreeMap::len", "std::BTreeSet::len", "std::array::len",
   "smol_str::SmolStr::len", "std::VecDeque::len")
def length(c):
    return c.ret(vlen(c, c.val(0)))


def seqiter(s, n):
    return adt("mstd::SeqIter", 0, (s, I(0), n))


@N("std::str::chars")
def chars(c):
    v = c.val(0)
    if v.op == "str" and len(v.a[0]) <= 64:
        s = mk("arr", tuple(mk("char", x) for x in v.a[0]))
        return c.ret(seqiter(s, I(len(v.a[0]))))
    s = mk("chars", v)
    return c.ret(seqiter(s, c.ip.length(c.st, s)))


@N("std::str::char_indices")
def char_indices(c):
    s = mk("cidx", c.val(0))
    return c.ret(seqiter(s, mk("len", mk("chars", c.val(0)))))


@N("std::str::bytes")
def str_bytes(c):
    v = c.val(0)
    return c.ret(seqiter(v, c.ip.length(c.st, v)))


@N("std::str::lines")
def lines(c):
    s = mk("lines", c.val(0))
    return c.ret(seqiter(mk("crefs", s), mk("len", s)))


@N("std::str::split", "std::str::split_terminator", "std::str::split_inclusive", "std::str::rsplit", "std::str::split_whitespace", "std::str::split_ascii_whitespace")
def split(c):
    s = mk("split", c.f.name, tuple(c.ip.deep(c.st, a) if i else c.val(0) for i, a in enumerate(c.args)))
    return c.ret(seqiter(mk("crefs", s), mk("len", s)))


@N("std::str::is_char_boundary")
def is_cb(c):
    s, i = c.val(0), c.args[1]
    if i is I(0) or i is c.ip.length(c.st, s):
        return c.ret(TRUE)
    return c.ret(mk("cb", s, i))


@N("std::str::strip_prefix", "std::str::strip_suffix")
def strip_prefix(c):
    s, p = c.val(0), c.val(1)
    suf = c.f.name.endswith("suffix")
    if p.op in ("clo", "fn"):
        return c.opaque()
    cond = mk("ends" if suf else "starts", s, s1(p) if p.op == "char" else p)
    o = []
    for st, t in c.fork(cond):
        if t:
            r = c.cref(mk("strip_suffix" if suf else "strip_prefix", s, s1(p) if p.op == "char" else p))
            o += c.ret(some(r), st)
        else:
            o += c.ret(NONE, st)
    return o


@N("std::str::starts_with", "std::str::ends_with", "std::slice::starts_with", "std::slice::ends_with")
def starts_with(c):
    s, p = c.val(0), c.val(1)
    if p.op in ("clo", "fn"):
        return c.opaque()
    if c.f.name.startswith("std::slice"):
        # as long and equal
        o = []
        n, m = c.ip.length(c.st, s), c.ip.length(c.st, p)
        for st, t in c.fork(le0(sub(m, n))):
            if not t:
                o += c.ret(FALSE, st)
                continue
            x = c.ip.subseq(st, s, sub(n, m), n) if "ends" in c.f.name else c.ip.subseq(st, s, I(0), m)
            o += c.ret(c.ip.eqt(st, c.ip.deep(st, x), c.ip.deep(st, p)), st)
        return o
    return c.ret(mk("ends" if "ends" in c.f.name else "starts", s, s1(p) if p.op == "char" else p))


@N("std::String::replace_range")
def replace_range(c):
    a, b, st = range_bounds(c, c.args[1], c.tys[1], c.rd(0))
    s = c.rd(0)
    x = c.val(2)
    c.run.event(c.st, "std::String::replace_range", (s, a, b, x), UNIT, c.line, c.fr)
    c.wr(0, mk("splice", s, a, b, x))
    return c.ret(UNIT)


@N("std::String::clear", "std::Vec::clear", "std::HashMap::clear", "std::HashSet::clear", "std::BTreeMap::clear", "std::BTreeSet::clear")
def clear(c):
    c.wr(0, empty_val(c.tys[0].el) or mk("arr", ()))
    return c.ret(UNIT)


for _n in ("is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_digit", "is_ascii", "is_ascii_punctuation", "is_ascii_whitespace",
           "is_ascii_hexdigit", "is_ascii_graphic", "is_uppercase", "is_lowercase", "is_alphabetic", "is_alphanumeric", "is_numeric", "is_whitespace", "is_control"):
    def _cp(c, n=_n):
        v = c.val(0)
        if v.op == "char" and n.startswith("is_ascii"):
            ch = v.a[0]
            asc = ord(ch) < 128
            return c.ret(B({"is_ascii_uppercase": asc and ch.isupper(), "is_ascii_lowercase": asc and ch.islower(), "is_ascii_alphabetic": asc and ch.isalpha(),
                            "is_ascii_alphanumeric": asc and ch.isalnum(), "is_ascii_digit": asc and ch.isdigit(), "is_ascii": asc,
                            "is_ascii_whitespace": ch in " \t\n\r\x0c", "is_ascii_punctuation": asc and 32 < ord(ch) < 127 and not ch.isalnum(),
                            "is_ascii_hexdigit": ch in "0123456789abcdefABCDEF", "is_ascii_graphic": 32 < ord(ch) < 127}[n]))
        return c.ret(mk("cp", n, v))
    N("std::char::" + _n, "std::int::" + _n)(_cp)


@N("std::char::to_ascii_lowercase", "std::char::to_ascii_uppercase", "std::int::to_ascii_lowercase", "std::int::to_ascii_uppercase")
def to_ascii(c):
    v = c.val(0)
    up = "upper" in c.f.name
    if v.op == "char":
        ch = v.a[0]
        return c.ret(mk("char", (ch.upper() if up else ch.lower()) if ord(ch) < 128 else ch))
    return c.ret(mk("up" if up else "low", v))


@N("std::char::make_ascii_lowercase", "std::char::make_ascii_uppercase")
def make_ascii(c):
    v = c.rd(0)
    c.wr(0, mk("up" if "upper" in c.f.name else "low", v))
    return c.ret(UNIT)


@N("std::str::parse")
def parse(c):
    v = c.val(0)
    r = mk("call", "parse", (v,), c.dty.args[0].d if c.dty.args else "")
    c.run.event(c.st, "std::str::parse", (v,), r, c.line, c.fr)
    return c.ret(r)


@N("std::FromStr::from_str")
def from_str(c):
    v = c.val(0)
    r = mk("call", "parse", (v,), c.dty.args[0].d if c.dty.args else "")
    c.run.event(c.st, "std::str::parse", (v,), r, c.line, c.fr)
    return c.ret(r)


# ------------------------------------------------------------------ Vec / slices
@N("std::Vec::new", "std::VecDeque::new")
def v_new(c):
    return c.ret(mk("arr", ()))


@N("std::Vec::with_capacity")
def v_cap(c):
    return c.ret(mk("arr", ()))


@N("std::HashMap::new", "std::HashSet::new", "std::BTreeMap::new", "std::BTreeSet::new", "std::HashMap::with_hasher", "std::HashSet::with_hasher")
def m_new(c):
    return c.ret(mk("mnew"))


@N("std::HashMap::with_capacity_and_hasher", "std::HashSet::with_capacity_and_hasher", "std::HashMap::with_capacity", "std::HashSet::with_capacity")
def m_cap(c):
    c.run.event(c.st, "with_capacity", (c.args[0],), UNIT, c.line, c.fr)
    return c.ret(mk("mnew"))


@N("std::Vec::push", "std::VecDeque::push_back")
def v_push(c):
    v = c.rd(0)
    x = c.args[1]
    if v.op == "arr" and len(v.a[0]) < 32:
        nv = mk("arr", v.a[0] + (x,))
    else:
        nv = mk("push", v, x)
    c.wr(0, nv)
    return c.ret(UNIT)


@N("std::Vec::pop", "std::VecDeque::pop_back")
def v_pop(c):
    v = c.rd(0)
    if v.op == "arr":
        if not v.a[0]:
            return c.ret(NONE)
        c.wr(0, mk("arr", v.a[0][:-1]))
        return c.ret(some(v.a[0][-1]))
    if v.op == "push":
        c.wr(0, v.a[0])
        return c.ret(some(v.a[1]))
    n = c.ip.length(c.st, v)
    o = []
    for s, t in c.fork(eq0(n)):
        if t:
            o += c.ret(NONE, s)
        else:
            x = c.ip.elem(s, v, sub(n, I(1)))
            c.wr(0, mk("pop", v), s)
            o += c.ret(some(x), s)
    return o


@N("std::Vec::truncate")
def v_trunc(c):
    v, n = c.rd(0), c.args[1]
    o = []
    for s, t in c.fork(le(n, c.ip.length(c.st, v))):
        if t:
            c.wr(0, c.ip.subseq(s, v, I(0), n), s)
        o += c.ret(UNIT, s)
    return o


@N("std::Vec::split_off")
def v_split_off(c):
    v, n = c.rd(0), c.args[1]
    st = c.check(le(n, c.ip.length(c.st, v)), "split_off")
    if st is None:
        return []
    c.wr(0, c.ip.subseq(st, v, I(0), n), st)
    return c.ret(c.ip.subseq(st, v, n, None), st)


def catv(c, a, b, st=None):
    st = st or c.st
    if a.op == "arr" and not a.a[0]:
        return b
    if b.op == "arr" and not b.a[0]:
        return a
    if a.op == "arr" and b.op == "arr":
        return mk("arr", a.a[0] + b.a[0])
    pa = a.a[0] if a.op == "cat" else (a,)
    pb = b.a[0] if b.op == "cat" else (b,)
    return mk("cat", pa + pb)


@N("std::Vec::append")
def v_append(c):
    b = c.rd(1)
    c.wr(0, catv(c, c.rd(0), b))
    c.wr(1, mk("arr", ()))
    return c.ret(UNIT)


@N("std::Vec::extend_from_slice")
def v_efs(c):
    c.wr(0, catv(c, c.rd(0), c.val(1)))
    return c.ret(UNIT)


@N("std::Vec::insert")
def v_insert(c):
    v, i, x = c.rd(0), c.args[1], c.args[2]
    if i is I(0):
        c.wr(0, catv(c, mk("arr", (x,)), v))
    else:
        c.wr(0, mk("vinsert", v, i, x))
    return c.ret(UNIT)


@N("std::Vec::remove", "std::Vec::swap_remove")
def v_remove(c):
    v, i = c.rd(0), c.args[1]
    st = c.check(lt(i, c.ip.length(c.st, v)), "remove")
    if st is None:
        return []
    x = c.ip.elem(st, v, i)
    n = c.ip.length(st, v)
    if c.ip.ask(st, eq0(sub(i, sub(n, I(1))))) is True:
        c.wr(0, mk("pop", v), st)
    elif i is I(0) and c.f.name.endswith("::remove"):
        c.wr(0, c.ip.subseq(st, v, I(1), n), st)
    else:
        c.wr(0, mk("vremove", c.f.name, v, i), st)
    return c.ret(x, st)


@N("std::slice::reverse")
def v_rev(c):
    v = c.rd(0)
    if v.op == "arr":
        v = mk("arr", tuple(reversed(v.a[0])))
    elif v.op == "rev":
        v = v.a[0]
    else:
        v = mk("rev", v)
    c.wr(0, v)
    return c.ret(UNIT)


@N("std::slice::sort", "std::slice::sort_unstable", "std::slice::sort_by", "std::slice::sort_unstable_by", "std::slice::sort_by_key", "std::slice::sort_unstable_by_key", "std::slice::sort_by_cached_key")
def v_sort(c):
    v = c.rd(0)
    key = c.args[1] if len(c.args) > 1 else mk("natural")
    kind = c.f.name.split("::")[-1].replace("_unstable", "")
    stable = "unstable" not in c.f.name
    r = mk("sorted", v, kind, key, stable)
    c.run.event(c.st, c.f.name, (v, key), r, c.line, c.fr, tys=c.tys)
    c.wr(0, r)
    return c.ret(UNIT)


@N("std::Vec::dedup", "std::Vec::dedup_by_key", "std::Vec::dedup_by")
def v_dedup(c):
    c.wr(0, mk("dedup", c.rd(0), *c.args[1:]))
    return c.ret(UNIT)


@N("std::slice::swap")
def v_swap(c):
    v, i, j = c.rd(0), c.args[1], c.args[2]
    x, y = c.ip.elem(c.st, v, i), c.ip.elem(c.st, v, j)
    v = c.ip.store(c.st, v, i, y)
    v = c.ip.store(c.st, v, j, x)
    c.wr(0, v)
    return c.ret(UNIT)


def range_bounds(c, r, t, seq):
    """(start, end, None) of a range argument over seq"""
    n = vlen(c, seq)
    while t is not None and t.k == "ref":
        r = c.ip.read(c.st, c.ip.deref_loc(r))
        t = t.el
    a = t.adt if t is not None and t.k == "adt" else ""
    f = lambda i: c.ip.field(c.st, r, a, 0, i)
    if a == RANGE:
        return f(0), f(1), None
    if a == "std::RangeFrom":
        return f(0), n, None
    if a == "std::RangeTo":
        return I(0), f(0), None
    if a == "std::RangeFull":
        return I(0), n, None
    if a == "std::RangeInclusive" and r.op == "adt" and r.a[0] == "mstd::RangeInc":
        return r.a[2][0], add(r.a[2][1], I(1)), None
    if a == "std::RangeToInclusive":
        return I(0), add(f(0), I(1)), None
    raise Unsupported("range " + str(t))


@N("std::Vec::drain", "std::String::drain")
def v_drain(c):
    v = c.rd(0)
    a, b, _ = range_bounds(c, c.args[1], c.tys[1], v)
    n = vlen(c, v)
    part = c.ip.subseq(c.st, v, a, b)
    rest = catv(c, c.ip.subseq(c.st, v, I(0), a), c.ip.subseq(c.st, v, b, n))
    st = c.st
    if not (a is I(0) and b is n):
        st = c.check(mk_and(le(a, b), le(b, n)), "drain")
        if st is None:
            return []
    c.wr(0, rest, st)
    return c.ret(seqiter(part, sub(b, a)), st)


@N("std::Index::index", "std::IndexMut::index_mut")
def index(c):
    t = c.peelty(0)
    l, v, t = c.peelloc(0)
    it = c.tys[1]
    if t.k == "adt" and t.adt in ("std::HashMap", "std::BTreeMap"):
        k = keyv(c, 1)
        st = c.check(c.ip.map_has(c.st, v, k), "index")
        if st is None:
            return []
        return c.ret(mk("ref", c.ip.ext(l, ("k", k))), st)
    if t.k not in ("slice", "str", "array") and not (t.k == "adt" and t.adt in ("std::Vec", "std::String", "std::VecDeque")):
        return c.opaque()
    if it.k == "uint":
        i = c.args[1]
        st = c.check(lt(i, vlen(c, v)), "BoundsCheck")
        if st is None:
            return []
        return c.ret(mk("ref", c.ip.ext(l, ("e", i))), st)
    a, b, _ = range_bounds(c, c.args[1], it, v)
    n = vlen(c, v)
    st = c.check(mk_and(le(a, b), le(b, n)), "slice index")
    if st is None:
        return []
    c.st = st
    if t.k == "str" or (t.k == "adt" and t.adt == "std::String"):
        for i in (a, b):
            if i is not I(0) and i is not n and c.ip.ask(st, mk("cb", v, i)) is None:
                st = c.check(mk("cb", v, i), "char boundary")
                if st is None:
                    return []
                c.st = st
    if a is I(0) and b is n:
        return c.ret(c.ip.ref(l), st)
    return c.ret(mk("ref", c.ip.ext(l, ("sub", a, b))), st)


@N("std::slice::get", "std::str::get", "std::slice::get_mut", "std::VecDeque::get")
def s_get(c):
    l, v, t = c.peelloc(0)
    it = c.tys[1]
    if it.k == "uint":
        i = c.args[1]
        o = []
        for s, tr in c.fork(lt(i, vlen(c, v))):
            o += c.ret(some(mk("ref", c.ip.ext(l, ("e", i)))) if tr else NONE, s)
        return o
    a, b, _ = range_bounds(c, c.args[1], it, v)
    n = vlen(c, v)
    cond = mk_and(le(a, b), le(b, n))
    if t.k == "str":
        for i in (a, b):
            if i is not I(0) and i is not n:
                cond = mk_and(cond, mk("cb", v, i))
    o = []
    for s, tr in c.fork(cond):
        r = mk("ref", c.ip.ext(l, ("sub", a, b))) if not (a is I(0) and b is n) else c.ip.ref(l)
        o += c.ret(some(r) if tr else NONE, s)
    return o


@N("std::slice::first", "std::slice::first_mut", "std::slice::last", "std::slice::last_mut", "std::VecDeque::front", "std::VecDeque::back")
def s_first(c):
    l, v, t = c.peelloc(0)
    n = vlen(c, v)
    i = I(0) if ("first" in c.f.name or "front" in c.f.name) else sub(n, I(1))
    o = []
    for s, tr in c.fork(eq0(n)):
        o += c.ret(NONE if tr else some(mk("ref", c.ip.ext(l, ("e", i)))), s)
    return o


@N("std::slice::split_first", "std::slice::split_last", "std::slice::split_first_mut", "std::slice::split_last_mut")
def s_split_first(c):
    l, v, t = c.peelloc(0)
    n = vlen(c, v)
    first = "first" in c.f.name
    o = []
    for s, tr in c.fork(eq0(n)):
        if tr:
            o += c.ret(NONE, s)
        else:
            i = I(0) if first else sub(n, I(1))
            a, b = (I(1), n) if first else (I(0), sub(n, I(1)))
            o += c.ret(some(tup(mk("ref", c.ip.ext(l, ("e", i))), mk("ref", c.ip.ext(l, ("sub", a, b))))), s)
    return o


@N("std::slice::split_at", "std::str::split_at", "std::slice::split_at_mut")
def s_split_at(c):
    l, v, t = c.peelloc(0)
    i = c.args[1]
    n = vlen(c, v)
    st = c.check(le(i, n), "split_at")
    if st is None:
        return []
    return c.ret(tup(mk("ref", c.ip.ext(l, ("sub", I(0), i))), mk("ref", c.ip.ext(l, ("sub", i, n)))), st)


@N("std::slice::from_ref", "std::array::from_ref")
def s_from_ref(c):
    return c.ret(c.cref(mk("arr", (c.ip.read(c.st, c.loc(0)),))))


@N("std::slice::contains", "std::Vec::contains")
def s_contains(c):
    v, x = c.val(0), c.val(1)
    x = c.ip.deep(c.st, x)
    if v.op == "arr":
        r = FALSE
        for y in v.a[0]:
            r = mk_or(r, c.ip.eqt(c.st, c.ip.deep(c.st, y), x))
        return c.ret(r)
    return c.ret(mk("contains", v, x))


@N("std::slice::concat", "std::slice::join")
def s_join(c):
    v = c.val(0)
    sep = c.val(1) if len(c.args) > 1 else S("")
    return c.ret(mk("join", v, sep))


# ------------------------------------------------------------------ iterators
ITER = "mstd::"


def start_iter(c, v, t, st=None):
    """iterator value for IntoIterator::into_iter of v: t; None when unknown"""
    ip = c.ip
    st = st or c.st
    if t is None:
        return v
    if t.k == "ref":
        l = ip.deref_loc(v)
        x = ip.read(st, l)
        e = t.el
        if e.k in ("slice", "array") or (e.k == "adt" and e.adt in ("std::Vec", "std::VecDeque")):
            if t.mut:
                return adt("mstd::SliceIterMut", 0, (v, I(0), ip.length(st, x)))
            return adt("mstd::SliceIter", 0, (v, I(0), ip.length(st, x)))
        if e.k == "adt" and e.adt in ("std::HashMap", "std::BTreeMap"):
            if t.mut:
                return adt("mstd::MapIterMut", 0, (v, I(0), mk("len", x)))
            return seqiter(mk("mseq", x, "iter"), mk("len", x))
        if e.k == "adt" and e.adt in ("std::HashSet", "std::BTreeSet"):
            return seqiter(mk("mseq", x, "keys"), mk("len", x))
        if e.k == "adt" and e.adt == OPT:
            return mk("optref", v)
        if e.k == "ref" and not t.mut:
            return start_iter(c, x, e, st)
        return v
    if t.k == "array" or (t.k == "adt" and t.adt in ("std::Vec", "std::VecDeque", "std::Box")):
        return seqiter(v, ip.length(st, v))
    if t.k == "adt" and t.adt in ("std::HashMap", "std::BTreeMap"):
        return seqiter(mk("mseq", v, "into"), mk("len", v))
    if t.k == "adt" and t.adt in ("std::HashSet", "std::BTreeSet"):
        return seqiter(mk("mseq", v, "intokeys"), mk("len", v))
    if t.k == "adt" and t.adt == OPT:
        return adt("mstd::OptIter", 0, (v,))
    return v


def into_iter(c):
    t = c.tys[0]
    v = c.args[0]
    return c.ret(start_iter(c, v, t))


N("std::IntoIterator::into_iter")(into_iter)


@N("mstd::prim_iter")
def prim_iter(c):
    v = c.args[0]
    if v.op == "adt" and v.a[0].startswith("mstd::"):
        return c.ret(v)
    if v.op == "adt" and v.a[0] == OPT:
        return c.ret(adt("mstd::OptIter", 0, (v,)))
    if v.op == "adt" and v.a[0] in (RANGE,):
        return c.ret(v)
    if v.op == "ref":
        x = c.ip.read(c.st, v.a[0])
        return c.ret(adt("mstd::SliceIter", 0, (v, I(0), c.ip.length(c.st, x))))
    return c.ret(seqiter(v, c.ip.length(c.st, v)))


@N("std::slice::iter", "std::Vec::iter", "std::VecDeque::iter")
def s_iter(c):
    l, v, t = c.peelloc(0)
    return c.ret(adt("mstd::SliceIter", 0, (c.ip.ref(l), I(0), vlen(c, v))))


@N("std::slice::iter_mut")
def s_iter_mut(c):
    l, v, t = c.peelloc(0)
    return c.ret(adt("mstd::SliceIterMut", 0, (c.ip.ref(l), I(0), vlen(c, v))))


@N("std::HashMap::iter", "std::BTreeMap::iter", "std::HashMap::keys", "std::BTreeMap::keys", "std::HashMap::values", "std::BTreeMap::values", "std::HashSet::iter", "std::BTreeSet::iter")
def m_iter(c):
    v = c.val(0)
    k = c.f.name.split("::")[-1]
    if "Set" in c.f.name:
        k = "keys"
    return c.ret(seqiter(mk("mseq", v, k), vlen(c, v)))


@N("std::HashMap::into_keys", "std::HashMap::into_values", "std::BTreeMap::into_keys", "std::BTreeMap::into_values")
def m_into(c):
    v = c.args[0]
    return c.ret(seqiter(mk("mseq", v, c.f.name.split("::")[-1]), vlen(c, v)))


@N("std::HashMap::drain", "std::HashSet::drain")
def m_drain(c):
    v = c.rd(0)
    c.wr(0, mk("mnew"))
    return c.ret(seqiter(mk("mseq", v, "into" if "Map" in c.f.name else "intokeys"), vlen(c, v)))


@N("std::HashMap::iter_mut", "std::BTreeMap::iter_mut", "std::HashMap::values_mut", "std::BTreeMap::values_mut")
def m_iter_mut(c):
    l, v, t = c.peelloc(0)
    it = adt("mstd::MapIterMut", 0, (c.ip.ref(l), I(0), vlen(c, v)))
    if "values" in c.f.name:
        it = adt("mstd::ValsMut", 0, (it,))
    return c.ret(it)


@N("std::Option::iter", "std::Option::iter_mut")
def o_iter(c):
    return c.ret(mk("optref", c.args[0]))


STRUCT = {"rev": "Rev", "map": "Map", "filter": "Filter", "filter_map": "FilterMap", "chain": "Chain", "zip": "Zip", "cloned": "Cloned", "copied": "Cloned",
          "peekable": "Peekable", "take_while": "TakeWhile", "skip_while": "SkipWhile", "map_while": "MapWhile", "inspect": "Inspect", "flat_map": "FlatMap", "flatten": "Flatten",
          "scan": "Scan", "step_by": "StepBy"}


def mkit(n, *fs):
    return adt("mstd::" + n, 0, fs)


def base_pos(it):
    """(current position term) of an index-based iterator, or None"""
    if it.op != "adt":
        return None
    n = it.a[0]
    if n in ("mstd::SliceIter", "mstd::SeqIter", "mstd::SliceIterMut", "mstd::MapIterMut"):
        return it.a[2][1]
    if n in ("mstd::Map", "mstd::Cloned", "mstd::Inspect", "mstd::ValsMut"):
        return base_pos(it.a[2][0])
    if n == "mstd::Enumerate":
        return base_pos(it.a[2][0])
    if n == "mstd::Rev":
        x = it.a[2][0]
        while x.op == "adt" and x.a[0] in ("mstd::Map", "mstd::Cloned"):
            x = x.a[2][0]
        if x.op == "adt" and x.a[0] in ("mstd::SliceIter", "mstd::SeqIter", "mstd::SliceIterMut"):
            return scale(x.a[2][2], -1)
        if x.op == "adt" and x.a[0] == RANGE:
            return scale(x.a[2][1], -1)
    if n == RANGE:
        return it.a[2][0]
    return None


def trim(it, n):
    """the iterator shortened at the back to n items (n <= its length), or None"""
    if it.op != "adt":
        return None
    k, f = it.a[0], it.a[2]
    if k in ("mstd::SliceIter", "mstd::SeqIter", "mstd::SliceIterMut", "mstd::MapIterMut"):
        return adt(k, 0, (f[0], f[1], add(f[1], n)))
    if k == RANGE:
        return adt(k, 0, (f[0], add(f[0], n)))
    if k in ("mstd::Map", "mstd::Cloned", "mstd::Enumerate"):
        x = trim(f[0], n)
        return x and adt(k, 0, (x,) + tuple(f[1:]))
    if k == "mstd::ZipEq":
        x, y = trim(f[0], n), trim(f[1], n)
        return x and y and adt(k, 0, (x, y))
    return None


def rev_zip(c, it):
    """a zip read from the back: the longer side loses its surplus"""
    a, b = it.a[2]
    n, m = iter_len(c, a), iter_len(c, b)
    if n is None or m is None:
        return None
    o = []
    for st, t in c.fork(le0(sub(n, m))):
        x, y = (a, trim(b, n)) if t else (trim(a, m), b)
        if x is None or y is None:
            return None
        o += c.ret(mkit("Rev", mkit("ZipEq", x, y)), st)
    return o


def adapt(c):
    k = c.f.name.split("::")[-1]
    it = c.args[0]
    if k in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect"):
        f = c.args[1]
        if k == "take_while":
            return c.ret(mkit("TakeWhile", it, f, FALSE))
        if k == "skip_while":
            return c.ret(mkit("SkipWhile", it, f, FALSE))
        return c.ret(mkit(STRUCT[k], it, f))
    if k in ("rev", "cloned", "copied"):
        if k == "rev" and it.op == "adt" and it.a[0] == "mstd::Rev":
            return c.ret(it.a[2][0])
        if k == "rev" and it.op == "adt" and it.a[0] == "mstd::Zip":
            r = rev_zip(c, it)
            if r is not None:
                return r
        if k != "rev" and it.op == "adt" and it.a[0] == "mstd::SliceIter":
            s, i, n = it.a[2]
            v = c.ip.read(c.st, c.ip.deref_loc(s))
            return c.ret(adt("mstd::SeqIter", 0, (v, i, n)))
        if k != "rev" and it.op == "adt" and it.a[0] == "mstd::SeqIter" and it.a[2][0].op == "mseq" and it.a[2][0].a[1] == "keys":
            s, i, n = it.a[2]
            return c.ret(adt("mstd::SeqIter", 0, (mk("mseq", s.a[0], "intokeys"), i, n)))
        return c.ret(mkit(STRUCT[k], it))
    if k == "peekable":
        return c.ret(mkit("Peekable", it, NONE))
    if k == "chain":
        b = start_iter(c, c.args[1], c.tys[1])
        return c.ret(mkit("Chain", some(it), some(b)))
    if k == "zip":
        b = start_iter(c, c.args[1], c.tys[1])
        return c.ret(mkit("Zip", it, b))
    if k == "flat_map":
        return c.ret(mkit("FlatMap", it, c.args[1], NONE, NONE))
    if k == "flatten":
        return c.ret(mkit("Flatten", it, NONE, NONE))
    if k == "scan":
        return c.ret(mkit("Scan", it, c.args[2], c.args[1]))
    if k == "step_by":
        return c.ret(mkit("StepBy", it, c.args[1], TRUE))
    if k == "enumerate":
        p = base_pos(it)
        if p is not None:
            return c.ret(mkit("Enumerate", it, scale(p, -1)))
        return c.ret(mkit("EnumCnt", it, I(0)))
    raise Unsupported(k)


for _k in list(STRUCT) + ["enumerate"]:
    N("std::Iterator::" + _k)(adapt)


@N("std::Iterator::skip", "std::Iterator::take")
def skip(c):
    it, k = c.args[0], c.args[1]
    sk = c.f.name.endswith("skip")
    return adjust(c, it, k, sk, lambda st, r: c.ret(r, st))


def adjust(c, it, k, sk, done):
    if it.op == "adt" and it.a[0] in ("mstd::SliceIter", "mstd::SeqIter", "mstd::SliceIterMut", RANGE):
        if it.a[0] == RANGE:
            i, n = it.a[2]
            mkr = lambda i, n: adt(RANGE, 0, (i, n))
        else:
            s, i, n = it.a[2]
            mkr = lambda i, n: adt(it.a[0], 0, (s, i, n))
        o = []
        for st, t in c.fork(le(add(i, k), n)):
            if sk:
                o += done(st, mkr(add(i, k) if t else n, n))
            else:
                o += done(st, mkr(i, add(i, k) if t else n))
        return o
    if it.op == "adt" and it.a[0] in ("mstd::Map", "mstd::Cloned") and (sk is False):
        return adjust(c, it.a[2][0], k, sk, lambda st, r: done(st, adt(it.a[0], 0, (r,) + it.a[2][1:])))
    if it.op == "adt" and it.a[0] == "mstd::Rev":
        x = it.a[2][0]
        if x.op == "adt" and x.a[0] in ("mstd::SliceIter", "mstd::SeqIter", "mstd::SliceIterMut", RANGE):
            fs = x.a[2]
            i, n = fs[-2], fs[-1]
            o = []
            for st, t in c.fork(le(add(i, k), n)):
                if sk:
                    nf = fs[:-1] + ((sub(n, k) if t else i),)
                else:
                    nf = fs[:-2] + ((sub(n, k) if t else i), n)
                o += done(st, mkit("Rev", adt(x.a[0], 0, nf)))
            return o
    return done(c.st, mkit("Skip" if sk else "Take", it, k))


@N("std::iter::repeat")
def it_repeat(c):
    return c.ret(mkit("Repeat", c.args[0]))


@N("std::iter::repeat_n")
def it_repeat_n(c):
    return c.ret(seqiter(mk("repeat", c.args[0], c.args[1]), c.args[1]))


@N("std::iter::once")
def it_once(c):
    return c.ret(seqiter(mk("arr", (c.args[0],)), I(1)))


@N("std::iter::empty")
def it_empty(c):
    return c.ret(seqiter(mk("arr", ()), I(0)))


@N("std::iter::from_fn")
def it_from_fn(c):
    return c.ret(mkit("FromFn", c.args[0]))


@N("std::iter::successors")
def it_succ(c):
    return c.ret(mkit("Successors", c.args[1], c.args[0]))


@N("std::iter::repeat_with")
def it_repw(c):
    return c.ret(mkit("RepeatWith", c.args[0]))


@N("std::iter::zip")
def it_zip(c):
    return c.ret(mkit("Zip", start_iter(c, c.args[0], c.tys[0]), start_iter(c, c.args[1], c.tys[1])))


@N("std::RangeInclusive::new")
def ri_new(c):
    return c.ret(mkit("RangeInc", c.args[0], c.args[1], FALSE))


def next_(c, back=False):
    """Iterator::next by the value of the iterator"""
    l = c.loc(0)
    v = c.ip.read(c.st, l)
    n = 0
    while v.op == "ref" and n < 6:      # &mut I
        l = v.a[0]
        v = c.ip.read(c.st, l)
        n += 1
    suf = "_next_back" if back else "_next"
    if v.op == "phi" or v.op in ("sym", "fld", "elem", "call", "post", "*", "mget", "mval", "default_of", "opq"):
        seq = mk("seq", v)
        c.ip.write(c.st, l, seqiter(seq, mk("len", seq)))
        return c.model("SeqIter" + suf, [c.ip.ref(l)])
    if v.op == "optref":
        o = []
        p = v.a[0]
        ol = c.ip.deref_loc(p)
        ov = c.ip.read(c.st, ol)
        for st, t in c.fork(c.ip.isv(c.st, ov, OPT, 1)):
            c.ip.write(st, l, seqiter(mk("arr", ()), I(0)))
            o += c.ret(some(mk("ref", c.ip.ext(ol, ("f", OPT, 1, 0, 1)))) if t else NONE, st)
        return o
    if v.op == "adt":
        nm = v.a[0]
        if nm.startswith("mstd::"):
            return c.model(nm[6:] + suf, [c.ip.ref(l)])
        if nm == RANGE:
            return c.model("Range" + suf, [c.ip.ref(l)])
        if nm == "std::RangeFrom":
            return c.model("RangeFromT" + suf, [c.ip.ref(l)])
        if nm == OPT:
            c.ip.write(c.st, l, NONE)
            return c.ret(v)
        # a workspace iterator
        cn = "<%s as std::%s>::next%s" % (nm, "DoubleEndedIterator" if back else "Iterator", "_back" if back else "")
        for cr in c.ip.P.crates.values():
            for r in cr.fns.get(cn, ()):
                if r["B"] is not None:
                    return c.run.enter(c.st, c.fr, r["B"], [c.ip.ref(l)], c.dest, c.target)
    return c.opaque()


N("std::Iterator::next")(lambda c: next_(c))
N("std::DoubleEndedIterator::next_back")(lambda c: next_(c, True))

CONS = ["any", "all", "find", "rfind", "find_map", "position", "rposition", "nth", "for_each", "fold", "rfold", "reduce", "count", "last", "sum", "max", "min"]
for _k in CONS:
    def _cons(c, k=_k):
        if k in ("count",):
            n = iter_len(c, c.args[0])
            if n is not None:
                return c.ret(n)
        if k in ("max", "min") and len(c.args) == 2:
            return omax(c) if k == "max" else omin(c)
        return c.model("it_" + k)
    N("std::Iterator::" + _k, "std::DoubleEndedIterator::" + _k)(_cons)


@N("std::Iterator::eq")
def it_eq(c):
    return c.model("it_eq", [c.args[0], start_iter(c, c.args[1], c.tys[1])])


@N("std::Iterator::try_for_each")
def it_tfe(c):
    if c.dty is not None and c.dty.k == "adt" and c.dty.adt == RES:
        return c.model("it_try_for_each")
    return c.opaque()


@N("std::Iterator::try_fold")
def it_tf(c):
    if c.dty is not None and c.dty.k == "adt" and c.dty.adt == RES:
        return c.model("it_try_fold")
    if c.dty is not None and c.dty.k == "adt" and c.dty.adt == OPT:
        return c.model("it_try_fold_opt")
    return c.opaque()


KIND = {"std::Vec": 0, "std::VecDeque": 0, "std::Box": 0, "std::String": 1, "std::HashMap": 2, "std::BTreeMap": 2, "std::HashSet": 3, "std::BTreeSet": 3, "std::PathBuf": 4,
        "proc_macro2::TokenStream": 5, "std::Rc": 0}


def own_impl(c, t, method):
    """the workspace's implementation of a trait method for the type t, when it has exactly one"""
    if t is None or t.k != "adt" or t.adt.startswith("std::"):
        return None
    tr, m = method.rsplit("::", 1)
    name = "<%s as %s>::%s" % (t.adt, tr, m)
    bs = [r["B"] for cr in c.ip.P.crates.values() for r in cr.roots if r["B"] is not None and r["d"].canon == name]
    return bs[0] if len(bs) == 1 and not c.run.recursive2(c.fr, bs[0]) else None


def collect_into(c, it, t, wrap=None):
    kn = KIND.get(t.adt) if t is not None and t.k == "adt" else None
    if kn is None:
        b = own_impl(c, t, "std::FromIterator::from_iter") if wrap is None else None
        return c.run.enter(c.st, c.fr, b, [it], c.dest, c.target) if b is not None else c.opaque()
    e = mk("toks", ()) if kn == 5 else (mk("arr", ()) if kn == 0 else empty_val(t))
    # whole sequences need no loop
    if wrap is None and kn == 0 and it.op == "adt" and it.a[0] == "mstd::SeqIter" and it.a[2][0].op not in ("crefs",):
        s, i, n = it.a[2]
        if i is I(0) and n is c.ip.length(c.st, s):
            return c.ret(s)
    return c.model({None: "it_collect", OPT: "it_collect_opt", RES: "it_collect_res"}[wrap], [it, e, I(kn)])


@N("Lang::split")
def lang_split(c):
    # what the hook can see of the iterator is the sequence it yields
    a = c.args
    if len(a) != 5:
        return c.opaque()
    return c.model("lang_split", [a[0], a[1], a[2], a[3], mk("arr", ()), I(0), a[4]])


@N("mstd::prim_split")
def prim_split(c):
    return c.run.opaque(c.st, c.fr, "Lang::split", c.args, c.tys, c.dest, c.target, c.dty, c.line, c.out, c.f)


@N("std::Iterator::collect", "std::FromIterator::from_iter")
def collect(c):
    t = c.dty
    it = start_iter(c, c.args[0], c.tys[0]) if "from_iter" in c.f.name else c.args[0]
    if t is not None and t.k == "adt" and t.adt in (OPT, RES):
        return collect_into(c, it, t.args[0], t.adt)
    return collect_into(c, it, t)


@N("std::Extend::extend")
def extend(c):
    t = c.tys[0].el
    kn = KIND.get(t.adt) if t.k == "adt" else None
    if kn is None:
        return c.opaque()
    it = start_iter(c, c.args[1], c.tys[1])
    if kn == 0 and it.op == "adt" and it.a[0] in ("mstd::SeqIter",):
        s, i, n = it.a[2]
        c.wr(0, catv(c, c.rd(0), c.ip.subseq(c.st, s, i, n)))
        return c.ret(UNIT)
    return c.model("it_extend", [c.args[0], it, I(kn)])


@N("std::Iterator::partition")
def partition(c):
    t = c.dty.els[0] if c.dty is not None and c.dty.k == "tuple" else None
    kn = KIND.get(t.adt) if t is not None and t.k == "adt" else None
    if kn is None:
        return c.opaque()
    return c.model("it_partition", [c.args[0], c.args[1], empty_val(t), empty_val(t), I(kn)])


@N("std::Vec::retain", "std::HashMap::retain", "std::HashSet::retain", "std::BTreeSet::retain", "std::BTreeMap::retain")
def retain(c):
    if "Vec" not in c.f.name:
        return c.opaque()
    v = c.rd(0)
    l = c.loc(0)
    n = vlen(c, v)
    ip = c.ip
    b = ip.model_m["mstd::vec_retain"]

    def post(st, r):
        ip.write(st, l, r)
        return UNIT
    return c.run.enter(c.st, c.fr, b, [seqiter(v, n), c.args[1], mk("arr", ()), I(0)], c.dest, c.target, post=post)


@N("mstd::prim_put")
def prim_put(c):
    v = c.rd(0)
    x = c.args[1]
    kn = c.args[2].a[0] if c.args[2].op == "I" else 0
    if kn == 0:
        nv = mk("arr", v.a[0] + (x,)) if v.op == "arr" and len(v.a[0]) < 32 else mk("push", v, x)
    elif kn == 1:
        x = c.ip.deep(c.st, x)
        ty = None
        nv = sapp(v, mk("s?", x) if x.op not in ("char", "str", "scat", "s1", "up", "low") else (s1(x) if x.op in ("char", "up", "low") else x))
    elif kn == 2:
        k = c.ip.field(c.st, x, "", 0, 0)
        k = strip_ws(c, c.ip.deep(c.st, k))
        nv = mk("minsert", v, k, c.ip.field(c.st, x, "", 0, 1))
    elif kn == 3:
        nv = mk("minsert", v, strip_ws(c, c.ip.deep(c.st, x)), UNIT)
    elif kn == 4:
        nv = ppush(v, c.ip.deep(c.st, asref(c, 1)))
    else:
        nv = tokcat(v, c.ip.deep(c.st, x))
    c.wr(0, nv)
    return c.ret(UNIT)


def strip_ws(c, v):
    n = 0
    while v.op == "adt" and len(v.a[2]) == 1 and n < 4:
        a = c.ip.P.adts.get(v.a[0])
        if not a or not a["ws"] or a["kind"] != "struct":
            break
        v = v.a[2][0]
        n += 1
    return v


def iter_len(c, v, st=None):
    ip = c.ip
    st = st or c.st
    n = 0
    while v.op == "ref" and n < 4:
        v = ip.read(st, v.a[0])
        n += 1
    if v.op == "adt":
        nm = v.a[0]
        f = v.a[2]
        if nm in ("mstd::SliceIter", "mstd::SeqIter", "mstd::SliceIterMut", "mstd::MapIterMut"):
            return sub(f[2], f[1])
        if nm == RANGE:
            return sub(f[1], f[0])
        if nm in ("mstd::Map", "mstd::Cloned", "mstd::Enumerate", "mstd::Rev", "mstd::Inspect", "mstd::EnumCnt"):
            return iter_len(c, f[0], st)
    return None


@N("mstd::prim_len", "std::ExactSizeIterator::len")
def prim_len(c):
    v = c.val(0)
    n = iter_len(c, v)
    if n is None:
        n = mk("ilen", v) if v.op == "adt" else vlen(c, v)
    return c.ret(n)


@N("mstd::prim_pos")
def prim_pos(c):
    p = base_pos(c.rd(0))
    if p is None:
        raise Unsupported("position of iterator")
    return c.ret(p)


def seq_elem(c, s, i):
    return c.ip.elem(c.st, s, i)


@N("mstd::prim_elem")
def prim_elem(c):
    return c.ret(seq_elem(c, c.rd(0), c.args[1]))


@N("mstd::prim_eref", "mstd::prim_emut")
def prim_eref(c):
    l = c.loc(0)
    root, path = l.a
    if path and path[-1][0] == "sub":
        a = path[-1][1]
        return c.ret(mk("ref", mk("loc", root, path[:-1] + (("e", add(a, c.args[1])),))))
    return c.ret(mk("ref", c.ip.ext(l, ("e", c.args[1]))))


@N("mstd::prim_emap")
def prim_emap(c):
    """item of a mutable iterator: &mut element of a sequence"""
    return prim_eref(c)


@N("mstd::prim_mmap")
def prim_mmap(c):
    l = c.loc(0)
    v = c.ip.read(c.st, l)
    return c.ret(tup(c.cref(mk("mkey", v, c.args[1])), mk("ref", c.ip.ext(l, ("mv", c.args[1])))))


@N("mstd::prim_deref")
def prim_deref(c):
    v = c.args[0]
    return c.ret(c.ip.read(c.st, c.ip.deref_loc(v)))


@N("mstd::prim_panic")
def prim_panic(c):
    return c.panic(c.st, "unwrap")


for _n in ("peek", "next_if"):
    def _pk(c, n=_n):
        l = c.loc(0)
        v = c.ip.read(c.st, l)
        if v.op == "adt" and v.a[0] == "mstd::Peekable":
            return c.model("peekable_" + n)
        return c.opaque()
    N("std::Peekable::" + _n)(_pk)


@N("std::Peekable::next_if_eq")
def next_if_eq(c):
    return c.opaque()


@N("std::Chars::as_str")
def chars_as_str(c):
    v = c.val(0)
    if v.op == "adt" and v.a[0] == "mstd::SeqIter" and v.a[2][0].op == "chars":
        s, i, n = v.a[2]
        if i is I(0):
            return c.ret(c.cref(s.a[0]))
        return c.ret(c.cref(mk("strfrom", s.a[0], i)))
    return c.opaque()


# ------------------------------------------------------------------ maps and sets
def mref(c, l, k):
    return mk("ref", c.ip.ext(l, ("k", k)))


@N("std::HashMap::get", "std::BTreeMap::get", "std::HashMap::get_mut", "std::BTreeMap::get_mut")
def m_get(c):
    l, v, t = c.peelloc(0)
    k = keyv(c, 1)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        o += c.ret(some(mref(c, l, k)) if tr else NONE, s)
    return o


@N("std::HashMap::get_key_value", "std::BTreeMap::get_key_value")
def m_get_kv(c):
    l, v, t = c.peelloc(0)
    k = keyv(c, 1)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        o += c.ret(some(tup(c.cref(mk("mkeyof", v, k)), mref(c, l, k))) if tr else NONE, s)
    return o


@N("std::HashMap::contains_key", "std::BTreeMap::contains_key", "std::HashSet::contains", "std::BTreeSet::contains", "Set::contains")
def m_has(c):
    return c.ret(c.ip.map_has(c.st, c.val(0), keyv(c, 1)))


@N("std::HashSet::get", "std::BTreeSet::get")
def s_getk(c):
    v = c.val(0)
    k = keyv(c, 1)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        o += c.ret(some(c.cref(mk("mkeyof", v, k))) if tr else NONE, s)
    return o


def minsert(c, st, m, k, x):
    if m.op == "minsert" and m.a[1] is k:
        return mk("minsert", m.a[0], k, x)
    return mk("minsert", m, k, x)


@N("std::HashMap::insert", "std::BTreeMap::insert")
def m_insert(c):
    v = c.rd(0)
    k = keyv(c, 1)
    x = c.args[2]
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        old = c.ip.map_get(s, v, k) if tr else None
        c.wr(0, minsert(c, s, v, k, x), s)
        c.run.event(s, "map.insert", (v, k, x), UNIT, c.line, c.fr)
        o += c.ret(some(old) if tr else NONE, s)
    return o


@N("std::HashSet::insert", "std::BTreeSet::insert", "Set::insert")
def s_insert(c):
    v = c.rd(0)
    k = keyv(c, 1)
    h = c.ip.map_has(c.st, v, k)
    c.wr(0, minsert(c, c.st, v, k, UNIT))
    c.run.event(c.st, "set.insert", (v, k), h, c.line, c.fr)
    return c.ret(mk_not(h))


@N("std::HashMap::remove", "std::BTreeMap::remove")
def m_remove(c):
    v = c.rd(0)
    k = keyv(c, 1)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        if tr:
            x = c.ip.map_get(s, v, k)
            c.wr(0, mk("mremove", v, k), s)
            o += c.ret(some(x), s)
        else:
            o += c.ret(NONE, s)
    return o


@N("std::HashMap::remove_entry")
def m_remove_e(c):
    v = c.rd(0)
    k = keyv(c, 1)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        if tr:
            x = c.ip.map_get(s, v, k)
            c.wr(0, mk("mremove", v, k), s)
            o += c.ret(some(tup(k, x)), s)
        else:
            o += c.ret(NONE, s)
    return o


@N("std::HashSet::remove", "std::BTreeSet::remove", "Set::remove")
def s_remove(c):
    v = c.rd(0)
    k = keyv(c, 1)
    h = c.ip.map_has(c.st, v, k)
    c.wr(0, mk("mremove", v, k))
    c.run.event(c.st, "set.remove", (v, k), h, c.line, c.fr)
    return c.ret(h)


@N("std::HashSet::take", "std::BTreeSet::take")
def s_take(c):
    v = c.rd(0)
    k = keyv(c, 1)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        c.wr(0, mk("mremove", v, k), s)
        o += c.ret(some(mk("mkeyof", v, k)) if tr else NONE, s)
    return o


@N("std::HashMap::entry", "std::BTreeMap::entry")
def m_entry(c):
    k = keyv(c, 1)
    l = c.loc(0)
    v = c.ip.read(c.st, l)
    o = []
    for s, tr in c.fork(c.ip.map_has(c.st, v, k)):
        e = mk("mentry", l, k)
        o += c.ret(adt("std::Entry", 0 if tr else 1, (e,)), s)
    # variant order of std::collections::hash_map::Entry: Occupied, Vacant
    return o


def entry_parts(c, i=0):
    v = c.args[i]
    if v.op == "ref":
        v = c.ip.read(c.st, v.a[0])
    if v.op == "adt" and v.a[0] == "std::Entry":
        e = v.a[2][0]
        if e.op == "mentry":
            return e.a[0], e.a[1], v.a[1] == 0
    if v.op == "mentry":
        return v.a[0], v.a[1], None
    return None


@N("std::Entry::or_insert", "std::Entry::or_default", "std::Entry::or_insert_with", "std::Entry::or_insert_with_key")
def e_or(c):
    p = entry_parts(c)
    if p is None:
        return c.opaque()
    l, k, occ = p
    if occ:
        return c.ret(mref(c, l, k))
    ip = c.ip
    n = c.f.name
    if n.endswith("or_insert") or n.endswith("or_default"):
        x = c.args[1] if len(c.args) > 1 else default_val(c, c.dty.el if c.dty.k == "ref" else c.dty)
        if x is None:
            x = mk("default_of", c.dty.d)
        m = ip.read(c.st, l)
        ip.write(c.st, l, minsert(c, c.st, m, k, x))
        c.run.event(c.st, "map.insert", (m, k, x), UNIT, c.line, c.fr)
        return c.ret(mref(c, l, k))
    if n.endswith("or_insert_with"):
        run, fr, line = c.run, c.fr, c.line

        def post(st, v):
            m = ip.read(st, l)
            ip.write(st, l, mk("minsert", m, k, v))
            return mk("ref", ip.ext(l, ("k", k)))
        fv = c.args[1]
        if fv.op == "clo":
            b = ip.P.bodies.get(fv.a[0])
            return run.enter(c.st, fr, b, [fv] if b.argc == 1 else [fv, UNIT], c.dest, c.target, post=post)
        if fv.op == "fn" and not isinstance(fv.a[0], str):
            m = ip.read(c.st, l)
            x = mk("call", fv.a[0].name, ())
            if fv.a[0].name in ("std::Vec::new",):
                x = mk("arr", ())
            if fv.a[0].name in ("std::String::new",):
                x = S("")
            ip.write(c.st, l, mk("minsert", m, k, x))
            return c.ret(mref(c, l, k))
    return c.opaque()


@N("std::VacantEntry::insert", "std::Entry::insert_entry")
def ve_insert(c):
    p = entry_parts(c)
    if p is None:
        return c.opaque()
    l, k, occ = p
    m = c.ip.read(c.st, l)
    c.ip.write(c.st, l, mk("minsert", m, k, c.args[1]))
    c.run.event(c.st, "map.insert", (m, k, c.args[1]), UNIT, c.line, c.fr)
    return c.ret(mref(c, l, k))


@N("std::VacantEntry::key", "std::OccupiedEntry::key", "std::Entry::key")
def e_key(c):
    p = entry_parts(c)
    if p is None:
        return c.opaque()
    return c.ret(c.cref(p[1]))


@N("std::OccupiedEntry::get", "std::OccupiedEntry::get_mut", "std::OccupiedEntry::into_mut")
def oe_get(c):
    p = entry_parts(c)
    if p is None:
        return c.opaque()
    return c.ret(mref(c, p[0], p[1]))


@N("std::OccupiedEntry::insert")
def oe_insert(c):
    p = entry_parts(c)
    if p is None:
        return c.opaque()
    l, k, _ = p
    m = c.ip.read(c.st, l)
    old = c.ip.map_get(c.st, m, k)
    c.ip.write(c.st, l, mk("minsert", m, k, c.args[1]))
    return c.ret(old)


@N("std::OccupiedEntry::remove")
def oe_remove(c):
    p = entry_parts(c)
    if p is None:
        return c.opaque()
    l, k, _ = p
    m = c.ip.read(c.st, l)
    old = c.ip.map_get(c.st, m, k)
    c.ip.write(c.st, l, mk("mremove", m, k))
    return c.ret(old)


# ------------------------------------------------------------------ ? operator
@N("std::Try::branch")
def try_branch(c):
    t = c.tys[0]
    if t.k == "adt" and t.adt == OPT:
        return c.model("opt_try")
    if t.k == "adt" and t.adt == RES:
        return c.model("res_try")
    return c.opaque()


@N("std::FromResidual::from_residual")
def from_residual(c):
    t = c.dty
    if t.k == "adt" and t.adt == OPT:
        return c.ret(NONE)
    if t.k == "adt" and t.adt == RES:
        e = c.ip.field(c.st, c.args[0], RES, 1, 0)
        st_, dt = (c.tys[0].args[1] if len(c.tys[0].args) > 1 else None), (t.args[1] if len(t.args) > 1 else None)
        if st_ is None or dt is None or st_.d == dt.d:
            return c.ret(err(e))
        ip = c.ip
        # From::from on the error
        if dt.k == "adt":
            for cr in ip.P.crates.values():
                for r in cr.fns.get("<%s as std::From>::from" % dt.adt, ()):
                    if r["B"] is not None and r["ins"][0].d.split("::")[-1] == st_.d.split("::")[-1]:
                        return c.run.enter(c.st, c.fr, r["B"], [e], c.dest, c.target, post=lambda st, v: err(v))
        return c.ret(err(mk("call", "std::From::from", (e,), dt.d)))
    return c.opaque()


@N("std::Try::from_output")
def from_output(c):
    t = c.dty
    if t.k == "adt" and t.adt == OPT:
        return c.ret(some(c.args[0]))
    if t.k == "adt" and t.adt == RES:
        return c.ret(ok(c.args[0]))
    return c.opaque()


# ------------------------------------------------------------------ panics
for _n in ("std::panicking::panic", "std::panicking::panic_fmt", "std::rt::panic_fmt", "std::panicking::assert_failed", "std::panicking::panic_explicit", "std::panicking::panic_display",
           "std::panicking::unreachable_display", "std::panicking::panic_str", "std::rt::begin_panic", "std::panicking::begin_panic", "std::panicking::panic_nounwind",
           "std::panicking::panic_bounds_check", "std::panicking::panic_str_2015", "std::panicking::panic_const", "std::option::unwrap_failed", "std::option::expect_failed",
           "std::result::unwrap_failed"):
    def _pn(c, n=_n):
        return c.panic(c.st, n.split("::")[-1])
    N(_n)(_pn)


# ------------------------------------------------------------------ formatting
def disp_piece(c, v, t, trait="Display", spec=None):
    """the text Display produces for v: t"""
    ip = c.ip
    v = ip.deep(c.st, v)
    while t is not None and t.k in ("ref", "ptr"):
        t = t.el
    if trait == "Display" and spec is None and t is not None:
        if t.k == "str" or (t.k == "adt" and t.adt in ("std::String", "smol_str::SmolStr", "std::Box", "std::Cow", "std::Rc") and True):
            return v
        if t.k == "char":
            return s1(v)
        if t.k == "adt" and t.adt == "std::Arguments" and v.op == "fmtargs":
            return scat(v.a[0])
    if t is not None and t.k in ("uint", "int") and v.op == "I" and spec is None:
        return S(str(v.a[0]))
    tn = "" if t is None else (t.adt if t.k == "adt" else t.d)
    return mk("disp", trait, v, tn, spec)


for _n in ("display", "debug", "lower_hex", "upper_hex", "pointer", "binary", "octal", "lower_exp", "upper_exp"):
    def _na(c, n=_n):
        v, t = peel(c.run, c.st, c.args[0], c.tys[0])
        return c.ret(mk("fmtarg", disp_piece(c, v, t, n.capitalize()), c.ip.deep(c.st, v), n.capitalize(), "" if t is None else (t.adt if t.k == "adt" else t.d)))
    N("std::Argument::new_" + _n)(_na)


@N("std::Argument::from_usize")
def arg_usize(c):
    return c.ret(mk("fmtarg", c.val(0), c.val(0), "usize", "usize"))


def decode_args(tpl, args):
    """pieces of a format_args template (this toolchain's encoding)"""
    out = []
    i = 0
    nxt = 0
    n = len(tpl)
    while i < n:
        b = tpl[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(S(bytes(tpl[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            ln = tpl[i] | tpl[i + 1] << 8
            i += 2
            out.append(S(bytes(tpl[i:i + ln]).decode("utf8", "replace")))
            i += ln
        elif b >= 0xC0:
            fl = b & 0x3f
            spec = []
            idx = nxt
            if fl & 1:
                spec.append(("flags", tuple(tpl[i:i + 4])))
                i += 4
            if fl & 2:
                spec.append(("width", tuple(tpl[i:i + 2])))
                i += 2
            if fl & 4:
                spec.append(("prec", tuple(tpl[i:i + 2])))
                i += 2
            if fl & 8:
                idx = tpl[i] | tpl[i + 1] << 8
                i += 2
            nxt = idx + 1
            if idx >= len(args):
                raise Unsupported("format template")
            a = args[idx]
            if a.op != "fmtarg":
                out.append(mk("disp", "?", a, "", None))
            elif spec:
                out.append(mk("disp", a.a[2], a.a[1], a.a[3], tuple(spec)))
            else:
                out.append(a.a[0])
        else:
            raise Unsupported("format template byte %x" % b)
    return out


@N("std::Arguments::new")
def args_new(c):
    tpl = c.ip.deep(c.st, c.args[0])
    ar = c.ip.deep(c.st, c.args[1])
    if tpl.op == "arr" and all(x.op == "I" for x in tpl.a[0]):
        tb = [x.a[0] for x in tpl.a[0]]
    elif tpl.op == "bytes":
        tb = list(tpl.a[0])
    else:
        return c.ret(mk("fmtargs", (mk("opq", "fmt"),)))
    if ar.op != "arr":
        return c.ret(mk("fmtargs", (mk("opq", "fmt"),)))
    ps = scat(decode_args(tb, list(ar.a[0])))
    return c.ret(mk("fmtargs", tuple(spieces(ps))))


@N("std::Arguments::from_str", "std::Arguments::from_str_nonconst", "std::Arguments::new_const")
def args_str(c):
    return c.ret(mk("fmtargs", (c.val(0),)))


def write_to(c, piece):
    """fmt::Write on the formatter/string argument 0"""
    l, v, t = c.peelloc(0)
    if t is not None and t.k == "adt" and t.adt == "std::String":
        c.ip.write(c.st, l, sapp(v, piece))
        return c.ret(ok(UNIT))
    s2 = c.st.copy()
    w = mk("wrote", v, piece)
    c.ip.assume(s2, w, False)
    c.ip.assume(c.st, w, True)
    # fails
    c.run.event(s2, "fmt.fail", (piece,), UNIT, c.line, c.fr, kind="fmt")
    c.ip.write(s2, l, mk("fmtbad", v))
    # succeeds
    c.run.event(c.st, "fmt.write", (piece,), UNIT, c.line, c.fr, kind="fmt")
    c.ip.write(c.st, l, mk("fmtout", (v.a[0] if v.op == "fmtout" else v), scat([v.a[1] if v.op == "fmtout" else S(""), piece])))
    return c.ret(ok(UNIT)) + c.ret(err(mk("sym", "fmt::Error")), s2)


@N("std::Formatter::write_str", "std::fmt::Write::write_str", "std::Formatter::pad")
def write_str(c):
    return write_to(c, c.val(1))


@N("std::fmt::Write::write_char", "std::Formatter::write_char")
def write_char(c):
    return write_to(c, s1(c.args[1]))


@N("std::Formatter::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::write")
def write_fmt(c):
    a = c.val(1)
    p = scat(a.a[0]) if a.op == "fmtargs" else mk("disp", "args", a, "", None)
    return write_to(c, p)


@N("std::fmt::format", "std::fmt::format_inner")
def fmt_format(c):
    a = c.val(0)
    return c.ret(scat(a.a[0]) if a.op == "fmtargs" else mk("disp", "args", a, "", None))


def disp_fmt(c):
    """x.fmt(f) of a std or generic type: one write of its text"""
    v, t = peel(c.run, c.st, c.args[0], c.tys[0])
    tr = c.f.name.split("::")[-2]
    p = disp_piece(c, v, t, tr)
    c.args = [c.args[1]]
    c.tys = [c.tys[1]]
    return write_to(c, p)


for _n in ("Display", "Debug"):
    N("std::fmt::%s::fmt" % _n)(disp_fmt)

# ------------------------------------------------------------------ logging
@N("log::max_level")
def log_max(c):
    return c.ret(mk("sym", "log::max_level"))


@N("log::loc")
def log_loc(c):
    return c.ret(mk("sym", "log::loc"))


@N("log::log")
def log_log(c):
    c.run.event(c.st, "log", tuple(c.ip.deep(c.st, a) for a in c.args), UNIT, c.line, c.fr, kind="log")
    return c.ret(UNIT)


@N("drop_bomb::DropBomb::new", "drop_bomb::DebugDropBomb::new")
def bomb_new(c):
    v = adt(c.f.name.rsplit("::", 1)[0], 0, (TRUE,))
    c.run.event(c.st, "bomb.new", (), v, c.line, c.fr)
    return c.ret(v)


@N("drop_bomb::DropBomb::defuse", "drop_bomb::DebugDropBomb::defuse")
def bomb_defuse(c):
    c.run.event(c.st, "bomb.defuse", (c.rd(0),), UNIT, c.line, c.fr)
    c.wr(0, adt(c.f.name.rsplit("::", 1)[0], 0, (FALSE,)))
    return c.ret(UNIT)


@N("drop_bomb::DropBomb::set_defused", "drop_bomb::DebugDropBomb::set_defused")
def bomb_set(c):
    d = c.args[1]
    c.run.event(c.st, "bomb.defuse", (c.rd(0),), UNIT, c.line, c.fr)
    c.wr(0, adt(c.f.name.rsplit("::", 1)[0], 0, (FALSE if d is TRUE else TRUE if d is FALSE else mk("not", d),)))
    return c.ret(UNIT)


@N("drop_bomb::DropBomb::is_defused", "drop_bomb::DebugDropBomb::is_defused")
def bomb_is(c):
    v = c.rd(0)
    a = c.ip.field(c.st, v, c.f.name.rsplit("::", 1)[0], 0, 0)
    return c.ret(FALSE if a is TRUE else TRUE if a is FALSE else mk("not", a))


# ------------------------------------------------------------------ paths (lexical only)
def ppush(p, q):
    if q.op == "str" and q.a[0].startswith("/"):
        return q
    if p.op == "str" and p.a[0] == "":
        return q
    return mk("ppush", p, q)


def ppop(p):
    """the path without its last component (itself when there is none to remove)"""
    if p.op == "str" and p.a[0] in ("", "/"):
        return p
    return mk("ppop", p)


def haspar(p):
    if p.op == "str" and p.a[0] in ("", "/"):
        return FALSE
    return mk("haspar", p)


def compstr(ip, st, v):
    """text of a path component"""
    if ip.ask_is(st, v, 4) is True:
        x = ip.field(st, v, "std::Component", 4, 0)
        return ip.read(st, x.a[0]) if x.op == "ref" else mk("*", x)
    if ip.ask_is(st, v, 1) is True:
        return S("/")
    if ip.ask_is(st, v, 2) is True:
        return S(".")
    if ip.ask_is(st, v, 3) is True:
        return S("..")
    return mk("compstr", v)


_terms._REB["ppush"] = ppush
_terms._REB["ppop"] = ppop
_terms._REB["haspar"] = haspar


@N("std::PathBuf::push")
def p_push(c):
    p = c.rd(0)
    q = asref(c, 1)
    c.run.event(c.st, "std::PathBuf::push", (p, q), UNIT, c.line, c.fr)
    c.wr(0, ppush(p, q))
    return c.ret(UNIT)


@N("std::PathBuf::pop")
def p_pop(c):
    p = c.rd(0)
    c.run.event(c.st, "std::PathBuf::pop", (p,), UNIT, c.line, c.fr)
    c.wr(0, ppop(p))
    return c.ret(haspar(p))


@N("std::Path::join")
def p_join(c):
    return c.ret(ppush(c.val(0), asref(c, 1)))


@N("std::Path::is_absolute", "std::Path::is_relative", "std::Path::has_root")
def p_abs(c):
    v = c.val(0)
    if c.f.name.endswith("has_root"):
        return c.ret(mk("hasroot", v))
    r = mk("isabs", v)
    return c.ret(r if c.f.name.endswith("is_absolute") else mk_not(r))


@N("std::Path::components")
def p_comps(c):
    s = mk("comps", c.val(0))
    return c.ret(seqiter(s, mk("len", s)))


@N("std::Path::parent")
def p_parent(c):
    v = c.val(0)
    o = []
    h = haspar(v)
    for s, t in ([(c.st, False)] if h is FALSE else c.fork(h)):
        o += c.ret(some(c.cref(ppop(v))) if t else NONE, s)
    return o


@N("std::Component::as_os_str")
def comp_os(c):
    return c.ret(c.cref(compstr(c.ip, c.st, c.val(0))))


@N("std::Path::starts_with")
def p_starts(c):
    return c.ret(mk("pstarts", asref(c, 0), asref(c, 1)))


@N("std::Path::strip_prefix")
def p_strip(c):
    a, b = asref(c, 0), asref(c, 1)
    o = []
    for s, t in c.fork(mk("pstarts", a, b)):
        o += c.ret(ok(c.cref(mk("pstrip", a, b))) if t else err(mk("sym", "StripPrefixError")), s)
    return o


@N("std::Path::display", "std::Path::to_str", "std::Path::to_string_lossy", "std::OsStr::to_str", "std::OsStr::to_string_lossy")
def p_disp(c):
    return c.opaque()


# ------------------------------------------------------------------ token streams (quote / proc_macro2)
@N("proc_macro2::TokenStream::new")
def ts_newts(c):
    return c.ret(mk("toks", ()))


def tokcat(a, b):
    """tokens a, then tokens b"""
    if b.op != "toks":
        b = mk("toks", (b if b.op == "trep" else mk("inl", b),))
    if not b.a[0]:
        return a
    if a.op == "toks":
        return mk("toks", a.a[0] + b.a[0])
    if a.op == "tokcat":
        return tokcat(a.a[0], mk("toks", a.a[1].a[0] + b.a[0]))
    return mk("tokcat", a, b)


def tokpush(c, x, i):
    c.wr(i, tokcat(c.rd(i), mk("toks", (x,))))
    return c.ret(UNIT)


PUNCT = {"add": "+", "and": "&", "bang": "!", "colon": ":", "colon2": "::", "comma": ",", "dot": ".", "eq": "=", "eq_eq": "==", "fat_arrow": "=>", "gt": ">", "le": "<=", "lt": "<", "or": "|",
         "pound": "#", "rarrow": "->", "semi": ";", "star": "*", "underscore": "_", "ge": ">=", "ne": "!=", "sub": "-", "div": "/", "question": "?", "at": "@", "add_eq": "+=",
         "and_and": "&&", "or_or": "||", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=", "rem": "%", "caret": "^", "shl": "<<", "shr": ">>", "sub_eq": "-=", "larrow": "<-", "tilde": "~"}
for _k, _p in PUNCT.items():
    def _pp(c, p=_p):
        return tokpush(c, mk("P", p), 0)
    N("quote::push_" + _k)(_pp)


@N("quote::push_ident", "quote::push_lifetime")
def q_ident(c):
    v = c.val(1)
    return tokpush(c, mk("P", v.a[0]) if v.op == "str" else mk("tok", v), 0)


@N("quote::push_group")
def q_group(c):
    d = c.args[1]
    delim = d.a[1] if d.op == "adt" else 9
    return tokpush(c, mk("group", delim, c.args[2]), 0)


@N("quote::parse")
def q_parse(c):
    v = c.val(1)
    return tokpush(c, mk("P", v.a[0]) if v.op == "str" else mk("tok", v), 0)


@N("ToTokens::to_tokens")
def q_totokens(c):
    v, t = peel(c.run, c.st, c.args[0], c.tys[0])
    v = c.ip.deep(c.st, v)
    if t is not None and t.k == "adt" and t.adt == "quote::RepInterp":
        v = c.ip.field(c.st, v, "quote::RepInterp", 0, 0)
        t = t.args[0] if t.args else None
        while t is not None and t.k == "ref":
            t = t.el
        v = c.ip.deep(c.st, v)
    if t is not None and t.k == "adt" and t.adt == "proc_macro2::TokenStream":
        c.wr(1, tokcat(c.rd(1), v))
        return c.ret(UNIT)
    if t is not None and (t.k == "str" or (t.k == "adt" and t.adt == "std::String")):
        return tokpush(c, mk("lit", v), 1)
    if t is not None and t.k in ("uint", "int"):
        return tokpush(c, mk("lit", v), 1)
    return tokpush(c, mk("tok", v), 1)


@N("quote::mk_ident")
def q_mkident(c):
    return c.ret(mk("ident", c.val(0)))


@N("proc_macro2::Ident::new", "quote::format_ident")
def pm_ident(c):
    return c.ret(mk("ident", c.val(0)))


@N("proc_macro2::Literal::byte_string")
def pm_bytes(c):
    return c.ret(mk("bytelit", c.val(0)))


@N("quote::IdentFragmentAdapter::span")
def q_span(c):
    return c.ret(NONE)


@N("RepAsIteratorExt::quote_into_iter", "RepIteratorExt::quote_into_iter", "RepToTokensExt::quote_into_iter", "CheckHasIterator::check")
def q_iter(c):
    if c.f.name.endswith("check"):
        return c.ret(UNIT)
    t = c.dty
    v, ty = c.args[0], c.tys[0]
    if c.f.name.startswith("RepAs"):
        l, x, e = c.peelloc(0)
        it = adt("mstd::SliceIter", 0, (c.ip.ref(l), I(0), vlen(c, x)))
    else:
        it = v
    if t is not None and t.k == "tuple":
        h = t.els[1]
        return c.ret(tup(it, mk("zst", h.d)))
    return c.ret(it)


@N("quote::RepInterp::next")
def q_repnext(c):
    return c.ret(some(c.args[0]))


@N("std::BitOr::bitor")
def bitor(c):
    if c.dty.k == "adt" and c.dty.adt.startswith("quote::"):
        return c.ret(mk("zst", "HasIterator"))
    return c.opaque()


# ------------------------------------------------------------------ model table
def models():
    m = {}
    opt = ["map", "and_then", "and", "or", "or_else", "xor", "unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "is_some", "is_none",
           "is_some_and", "is_none_or", "ok_or", "ok_or_else", "filter", "insert", "get_or_insert", "get_or_insert_with", "as_ref", "as_mut", "zip", "flatten", "transpose", "inspect"]
    for k in opt:
        m["std::Option::" + k] = "mstd::opt_" + k
    for k in ("cloned", "copied"):
        m["std::Option::" + k] = "mstd::opt_cloned"
    for k in ("as_deref",):
        m["std::Option::" + k] = "mstd::opt_as_ref"
    m["std::Option::as_deref_mut"] = "mstd::opt_as_mut"
    for k in ["map", "map_err", "and_then", "or_else", "unwrap", "expect", "unwrap_err", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "ok", "err", "is_ok", "is_err",
              "is_ok_and", "as_ref", "inspect_err", "or", "and"]:
        m["std::Result::" + k] = "mstd::res_" + k
    m["std::Result::expect_err"] = "mstd::res_unwrap_err"
    m["std::bool::then"] = "mstd::bool_then"
    m["std::bool::then_some"] = "mstd::bool_then_some"
    for k in ("checked_sub", "saturating_sub", "abs_diff"):
        m["std::int::" + k] = "mstd::" + k
    m["text_size::TextSize::checked_sub"] = "mstd::checked_sub"
    m["std::Ordering::then"] = "mstd::ord_then"
    m["std::Ordering::then_with"] = "mstd::ord_then_with"
    m["std::Ordering::reverse"] = "mstd::ord_reverse"
    m["std::Vec::resize_with"] = "mstd::vec_resize_with"
    return m


def _re_fmtout(f, t):
    if f.op == "fmtout":
        return mk("fmtout", f.a[0], scat([f.a[1], t]))
    return mk("fmtout", f, t)



_terms._REB["scat"] = lambda ps: scat(ps)
_terms._REB["fmtout"] = _re_fmtout
_terms._REB["tokcat"] = tokcat
