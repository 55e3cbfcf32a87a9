//! MIR extractor: runs inside rustc (as RUSTC_WORKSPACE_WRAPPER) after analysis
//! and writes one JSON file per crate with the type-checked program.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ws: HashSet<String>,
    types: Vec<J>,
    ty_idx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    defs: Vec<J>,
    def_idx: HashMap<DefId, usize>,
    bodies: BTreeMap<String, J>,
    queue: VecDeque<(String, Work<'tcx>)>,
    queued: HashSet<String>,
}
#[derive(Clone, Copy)]
enum Work<'tcx> {
    Inst(Instance<'tcx>, TypingEnv<'tcx>),
    Konst(DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>),
}

/// Context of the body being lowered.
#[derive(Clone, Copy)]
struct Bx<'a, 'tcx> {
    inst_def: DefId,
    env: TypingEnv<'tcx>,
    envkey: &'a str,
}

impl<'tcx> Cx<'tcx> {
    fn is_ws(&self, did: DefId) -> bool {
        self.ws.contains(self.tcx.crate_name(did.krate).as_str())
    }
    fn path(&self, did: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(did))
    }
    fn def(&mut self, did: DefId) -> usize {
        if let Some(&i) = self.def_idx.get(&did) {
            return i;
        }
        let tcx = self.tcx;
        let i = self.defs.len();
        self.def_idx.insert(did, i);
        self.defs.push(J::Null);
        let mut f = vec![
            ("crate", s(tcx.crate_name(did.krate).as_str())),
            ("path", s(self.path(did))),
            ("kind", s(format!("{:?}", tcx.def_kind(did)))),
            ("ws", J::B(self.is_ws(did))),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
        ];
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            f.push(("unsafe", J::B(!tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder().safety().is_safe())));
        }
        if let Some(p) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(did), DefKind::Closure | DefKind::AnonConst) {
                f.push(("parent", n(self.def(p))));
            }
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    f.push(("self_ty", n(self.ty(st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        f.push(("trait", s(self.path(tr.def_id))));
                        let ga = self.gargs(tr.args);
                        f.push(("trait_args", ga));
                        f.push(("derived", J::B(tcx.is_automatically_derived(p))));
                    }
                }
                DefKind::Trait => {
                    f.push(("of_trait", s(self.path(p))));
                }
                _ => {}
            }
        }
        self.defs[i] = J::O(f);
        i
    }
    fn adt(&mut self, did: DefId) {
        if !self.adt_seen.insert(did) {
            return;
        }
        let tcx = self.tcx;
        let a = tcx.adt_def(did);
        let small = self.is_ws(did)
            || a.is_enum()
            || matches!(
                self.path(did).as_str(),
                "text_size_util::TextRange" | "text_size::TextRange" | "line_index::LineCol" | "line_index::WideLineCol" | "std::ops::Range"
            );
        let mut vs = vec![];
        if small {
            for (vi, v) in a.variants().iter_enumerated() {
                let discr = if a.is_enum() {
                    let d = a.discriminant_for_variant(tcx, vi);
                    J::N(d.val as i128)
                } else {
                    J::N(0)
                };
                let mut fs = vec![];
                for fd in &v.fields {
                    let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    fs.push(J::O(vec![
                        ("name", s(fd.name.as_str())),
                        ("ty", n(ti)),
                        ("pub", J::B(fd.vis.is_public())),
                    ]));
                }
                vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", discr), ("fields", J::A(fs))]));
            }
        }
        let d = self.def(did);
        let repr = format!("{:?}", a.repr());
        let loc = self.loc(tcx.def_span(did));
        let eff = tcx.visibility(did).is_public();
        self.adts.insert(
            self.path_c(did),
            J::O(vec![
                ("def", n(d)),
                ("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
                ("variants", J::A(vs)),
                ("ws", J::B(self.is_ws(did))),
                ("repr", s(repr)),
                ("pub", J::B(eff)),
                ("loc", loc),
            ]),
        );
    }
    /// path with the crate name in front, also for local items.
    fn path_c(&self, did: DefId) -> String {
        let p = self.path(did);
        if did.is_local() { format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p) } else { p }
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(n(self.ty(t))),
                ty::GenericArgKind::Const(c) => v.push(s(format!("{c}"))),
                ty::GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.ty_idx.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.ty_idx.insert(t, i);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let disp = with_no_trimmed_paths!(format!("{t}"));
        let mut f: Vec<(&'static str, J)> = vec![];
        let k = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(x) => {
                f.push(("name", s(x.name_str())));
                "int"
            }
            ty::Uint(x) => {
                f.push(("name", s(x.name_str())));
                "uint"
            }
            ty::Float(x) => {
                f.push(("name", s(x.name_str())));
                "float"
            }
            ty::Adt(d, args) => {
                self.adt(d.did());
                f.push(("adt", s(self.path_c(d.did()))));
                let ga = self.gargs(args);
                f.push(("args", ga));
                "adt"
            }
            ty::Foreign(_) => "foreign",
            ty::Str => "str",
            ty::Array(e, l) => {
                f.push(("el", n(self.ty(*e))));
                f.push(("len", match l.try_to_target_usize(tcx) { Some(x) => J::N(x as i128), None => J::Null }));
                "array"
            }
            ty::Slice(e) => {
                f.push(("el", n(self.ty(*e))));
                "slice"
            }
            ty::RawPtr(e, m) => {
                f.push(("el", n(self.ty(*e))));
                f.push(("mut", J::B(m.is_mut())));
                "ptr"
            }
            ty::Ref(_, e, m) => {
                f.push(("el", n(self.ty(*e))));
                f.push(("mut", J::B(m.is_mut())));
                "ref"
            }
            ty::FnDef(did, args) => {
                f.push(("def", n(self.def(*did))));
                let ga = self.gargs(args.skip_binder());
                f.push(("args", ga));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(preds, _) => {
                f.push(("trait", match preds.principal_def_id() { Some(d) => s(self.path(d)), None => J::Null }));
                "dyn"
            }
            ty::Closure(did, args) => {
                f.push(("def", n(self.def(*did))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|u| n(self.ty(u))).collect();
                f.push(("upvars", J::A(ups)));
                let kind = format!("{:?}", args.as_closure().kind_ty());
                f.push(("ck", s(kind)));
                "closure"
            }
            ty::Never => "never",
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                f.push(("els", J::A(v)));
                "tuple"
            }
            ty::Alias(_, a) => {
                f.push(("def", s(disp.clone())));
                let _ = a;
                "alias"
            }
            ty::Param(p) => {
                f.push(("name", s(p.name.as_str())));
                "param"
            }
            _ => "other",
        };
        let mut o = vec![("k", s(k)), ("d", s(disp))];
        o.extend(f);
        self.types[i] = J::O(o);
        i
    }
    fn loc(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            o => format!("{o:?}"),
        };
        s(format!("{}:{}:{}", name, lo.line, lo.col.0 + 1))
    }
    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        J::N(sm.lookup_char_pos(sp.lo()).line as i128)
    }
    fn inst_key(&mut self, did: DefId, args: GenericArgsRef<'tcx>, envkey: &str) -> String {
        use ty::TypeVisitableExt;
        let args = self.tcx.erase_and_anonymize_regions(args);
        let mut k = format!("{}::{}", self.tcx.crate_name(did.krate), self.tcx.def_path(did).to_string_no_crate_verbose());
        let _ = write!(k, "<{}>", with_no_trimmed_paths!(args.iter().filter(|a| !matches!(a.kind(), ty::GenericArgKind::Lifetime(_))).map(|a| format!("{a}")).collect::<Vec<_>>().join(",")));
        if args.has_param() {
            k.push('@');
            k.push_str(envkey);
        }
        k
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, envkey: &str) -> String {
        let k = self.inst_key(inst.def_id(), inst.args, envkey);
        if self.queued.insert(k.clone()) {
            self.queue.push_back((format!("{k}\u{0}{envkey}"), Work::Inst(inst, env)));
        }
        k
    }
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, b: Bx<'_, 'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", n(self.def(did)))];
        let ga = self.gargs(args);
        o.push(("args", ga));
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            // parent variant / adt
            let p = tcx.parent(did);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_id(p).as_usize())
                }
                _ => (p, 0),
            };
            self.adt(adt);
            o.push(("adt", s(self.path_c(adt))));
            o.push(("vi", n(vi)));
            return J::O(o);
        }
        let r = Instance::try_resolve(tcx, b.env, did, args);
        if let Ok(Some(inst)) = r {
            let (kind, rd) = match inst.def {
                InstanceKind::Item(d) => ("item".to_string(), d),
                InstanceKind::Intrinsic(d) => ("intrinsic".into(), d),
                InstanceKind::LlvmIntrinsic(d) => ("llvm".into(), d),
                InstanceKind::Virtual(d, _) => ("virtual".into(), d),
                InstanceKind::Shim(sh) => {
                    let x = format!("{sh:?}");
                    let nm = x.split(['(', ' ', '{']).next().unwrap_or("").to_string();
                    (format!("shim:{nm}"), inst.def_id())
                }
            };
            o.push(("rk", s(kind.clone())));
            o.push(("rdef", n(self.def(rd))));
            let ra = self.gargs(inst.args);
            o.push(("rargs", ra));
            if kind == "item" && self.is_ws(rd) && tcx.is_mir_available(rd) {
                let k = self.enqueue(inst, b.env, b.envkey);
                o.push(("body", s(k)));
            }
            if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) = inst.def {
                let _ = closure;
            }
        }
        J::O(o)
    }
    fn closure_body(&mut self, did: DefId, args: GenericArgsRef<'tcx>, b: Bx<'_, 'tcx>) -> String {
        let inst = Instance::new_raw(did, args);
        self.enqueue(inst, b.env, b.envkey)
    }
    fn scalar_of(&mut self, sc: Scalar, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, b: Bx<'_, 'tcx>) {
        match sc {
            Scalar::Int(i) => match t.kind() {
                ty::Bool => o.push(("v", J::B(i.try_to_bool().unwrap_or(false)))),
                ty::Char => o.push(("ch", s(char::from_u32(i.to_u32()).unwrap_or('\u{0}').to_string()))),
                ty::Int(_) => o.push(("v", J::N(i.to_int(i.size())))),
                ty::Uint(_) => o.push(("v", J::N(i.to_uint(i.size()) as i128))),
                ty::Adt(..) | ty::Tuple(..) => self.aggregate_const(ConstValue::Scalar(sc), t, o, b),
                _ => o.push(("raw", s(format!("{i:?}")))),
            },
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => o.push(("static", n(self.def(d)))),
                    GlobalAlloc::Function { instance } => {
                        let c = self.callee(instance.def_id(), instance.args, b);
                        o.push(("fn", c));
                    }
                    GlobalAlloc::Memory(m) => {
                        let a = m.inner();
                        let mut done = false;
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, _) = inner.kind() {
                                if *e == self.tcx.types.u8 {
                                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                                    o.push(("bytes", J::A(bytes.iter().map(|x| J::N(*x as i128)).collect())));
                                    done = true;
                                }
                            }
                            if !done && inner.is_sized(self.tcx, b.env) {
                                let mut io = vec![("ty", n(self.ty(*inner)))];
                                self.aggregate_const(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, &mut io, b);
                                o.push(("refto", J::O(io)));
                                done = true;
                            }
                        }
                        if !done {
                            o.push(("mem", J::B(true)));
                        }
                    }
                    _ => o.push(("ptr", J::B(true))),
                }
            }
        }
    }
    fn aggregate_const(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, b: Bx<'_, 'tcx>) {
        use ty::TypeVisitableExt;
        if t.has_param() || !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            if let (ConstValue::Indirect { .. }, false) = (v, t.has_param()) {
                // try to read a scalar out of memory
                if let Some(x) = self.read_indirect(v, t) {
                    self.const_val(x, t, o, b);
                    return;
                }
            }
            o.push(("unk", s(format!("{v:?}"))));
            return;
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_union() {
                o.push(("unk", s("union")));
                return;
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(dc) => {
                if let Some(vi) = dc.variant {
                    o.push(("vi", n(vi.as_usize())));
                }
                let mut fs = vec![];
                for (fv, ft) in dc.fields {
                    let mut io = vec![("ty", n(self.ty(*ft)))];
                    self.const_val(*fv, *ft, &mut io, b);
                    fs.push(J::O(io));
                }
                o.push(("fields", J::A(fs)));
            }
            None => o.push(("unk", s(format!("{v:?}")))),
        }
    }
    fn read_indirect(&self, v: ConstValue, t: Ty<'tcx>) -> Option<ConstValue> {
        let ConstValue::Indirect { alloc_id, offset } = v else { return None };
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return None };
        let a = m.inner();
        let psz = self.tcx.data_layout.pointer_size();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sz = match t.kind() {
                    ty::Bool => rustc_abi::Size::from_bytes(1),
                    ty::Char => rustc_abi::Size::from_bytes(4),
                    ty::Int(i) => i.bit_width().map(rustc_abi::Size::from_bits).unwrap_or(psz),
                    ty::Uint(i) => i.bit_width().map(rustc_abi::Size::from_bits).unwrap_or(psz),
                    _ => return None,
                };
                let sc = a.read_scalar(&self.tcx, mir::interpret::alloc_range(offset, sz), false).ok()?;
                Some(ConstValue::Scalar(sc))
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                let p = a.read_scalar(&self.tcx, mir::interpret::alloc_range(offset, psz), true).ok()?;
                let l = a.read_scalar(&self.tcx, mir::interpret::alloc_range(offset + psz, psz), false).ok()?;
                let Scalar::Ptr(p, _) = p else { return None };
                let (prov, _) = p.prov_and_relative_offset();
                let len = l.to_target_usize(&self.tcx).discard_err()?;
                Some(ConstValue::Slice { alloc_id: prov.alloc_id(), meta: len })
            }
            ty::Ref(_, inner, _) if inner.is_sized(self.tcx, TypingEnv::fully_monomorphized()) => {
                let p = a.read_scalar(&self.tcx, mir::interpret::alloc_range(offset, psz), true).ok()?;
                Some(ConstValue::Scalar(p))
            }
            _ => None,
        }
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, b: Bx<'_, 'tcx>) {
        if let ty::FnDef(d, a) = t.kind() {
            let c = self.callee(*d, a.skip_binder(), b);
            o.push(("fn", c));
            return;
        }
        match v {
            ConstValue::ZeroSized => {
                o.push(("zst", J::B(true)));
                if let ty::Closure(d, a) = t.kind() {
                    let k = self.closure_body(*d, a, b);
                    o.push(("clo", s(k)));
                }
            }
            ConstValue::Scalar(sc) => self.scalar_of(sc, t, o, b),
            ConstValue::Slice { .. } => {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    match std::str::from_utf8(bytes) {
                        Ok(x) if t.peel_refs().is_str() => o.push(("str", s(x))),
                        _ => o.push(("bytes", J::A(bytes.iter().map(|x| J::N(*x as i128)).collect()))),
                    }
                } else {
                    o.push(("unk", s("slice")));
                }
            }
            ConstValue::Indirect { .. } => {
                if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
                    self.aggregate_const(v, t, o, b);
                } else if let Some(x) = self.read_indirect(v, t) {
                    self.const_val(x, t, o, b);
                } else {
                    o.push(("unk", s("indirect")));
                }
            }
        }
    }
    fn konst(&mut self, c: &Const<'tcx>, b: Bx<'_, 'tcx>) -> J {
        let t = c.ty();
        let mut o = vec![("k", s("c")), ("ty", n(self.ty(t)))];
        if let ty::FnDef(d, a) = t.kind() {
            let x = self.callee(*d, a.skip_binder(), b);
            o.push(("fn", x));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_usize())));
                if u.def != b.inst_def {
                    o.push(("promoted_of", n(self.def(u.def))));
                }
                return J::O(o);
            }
            o.push(("item", n(self.def(u.def))));
            // resolve (associated consts) and queue the const body.
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, b.env, u.def, u.args) {
                let d = inst.def_id();
                o.push(("ritem", n(self.def(d))));
                if self.is_ws(d) && self.tcx.is_mir_available(d) {
                    let k = self.inst_key(d, inst.args, b.envkey);
                    if self.queued.insert(k.clone()) {
                        self.queue.push_back((format!("{k}\u{0}{}", b.envkey), Work::Konst(d, inst.args, b.env)));
                    }
                    o.push(("body", s(k)));
                }
            }
        }
        match c.eval(self.tcx, b.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.const_val(v, t, &mut o, b),
            Err(_) => o.push(("unk", s(format!("{c:?}")))),
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) if !a.is_box() => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let ti = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), s(name), n(ti)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), n(vi.as_usize())]),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) | ProjectionElem::PhantomDeref => J::A(vec![s("o")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn oper(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, b: Bx<'_, 'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("cp")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("mv")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.konst(&c.const_, b),
            Operand::RuntimeChecks(r) => J::O(vec![("k", s("rtc")), ("v", s(format!("{r:?}")))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, b: Bx<'_, 'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("a", self.oper(o, body, b))]),
            Rvalue::Repeat(o, c) => J::O(vec![("k", s("repeat")), ("a", self.oper(o, body, b)), ("n", s(format!("{c}")))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![("k", s("ref")), ("m", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))), ("p", self.place(p, body))]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("p", self.place(p, body))]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(p, body))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("def", n(self.def(*d)))]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, self.tcx);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{k:?}"))),
                    ("a", self.oper(o, body, b)),
                    ("from", n(self.ty(ot))),
                    ("ty", n(self.ty(*t))),
                ])
            }
            Rvalue::BinaryOp(op, ab) => {
                let ot = ab.0.ty(&body.local_decls, self.tcx);
                J::O(vec![
                    ("k", s("bin")),
                    ("op", s(format!("{op:?}"))),
                    ("a", self.oper(&ab.0, body, b)),
                    ("b", self.oper(&ab.1, body, b)),
                    ("ty", n(self.ty(ot))),
                ])
            }
            Rvalue::UnaryOp(op, a) => J::O(vec![("k", s("un")), ("op", s(format!("{op:?}"))), ("a", self.oper(a, body, b))]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                J::O(vec![("k", s("discr")), ("p", self.place(p, body)), ("ty", n(self.ty(pt)))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, fld) => {
                        self.adt(*d);
                        o.push(("ak", s("adt")));
                        o.push(("adt", s(self.path_c(*d))));
                        o.push(("vi", n(vi.as_usize())));
                        let a = self.tcx.adt_def(*d);
                        let names: Vec<J> = a.variant(*vi).fields.iter().map(|f| s(f.name.as_str())).collect();
                        o.push(("names", J::A(names)));
                        let ga = self.gargs(args);
                        o.push(("args", ga));
                        if let Some(f) = fld {
                            o.push(("union", n(f.as_usize())));
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("ak", s("closure")));
                        o.push(("def", n(self.def(*d))));
                        let key = self.closure_body(*d, args, b);
                        o.push(("body", s(key)));
                    }
                    other => {
                        o.push(("ak", s("other")));
                        o.push(("dbg", s(format!("{other:?}"))));
                    }
                }
                let v: Vec<J> = ops.iter().map(|x| self.oper(x, body, b)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("k", s("use")), ("a", J::O(vec![("k", s("cp")), ("p", self.place(p, body))]))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::O(vec![("k", s("use")), ("a", self.oper(o, body, b))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, b: Bx<'_, 'tcx>, full: bool) -> J {
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(n(self.ty(d.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(pr) => {
                        let r = self.rvalue(&pr.1, body, b);
                        J::A(vec![s("="), self.place(&pr.0, body), r, self.line(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                        s("sd"),
                        self.place(place, body),
                        n(variant_index.as_usize()),
                        self.line(x.source_info.span),
                    ]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::Intrinsic(_) => J::A(vec![s("intr"), s(format!("{:?}", x.kind))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let mut ts = vec![];
                    for (v, bb) in targets.iter() {
                        ts.push(J::A(vec![J::N(v as i128), n(bb.as_usize())]));
                    }
                    J::O(vec![
                        ("k", s("switch")),
                        ("a", self.oper(discr, body, b)),
                        ("ty", n(self.ty(dt))),
                        ("ts", J::A(ts)),
                        ("o", n(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    J::O(vec![("k", s("drop")), ("p", self.place(place, body)), ("ty", n(self.ty(pt))), ("t", n(target.as_usize()))])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, call_source, .. } => {
                    let f = self.oper(func, body, b);
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let a: Vec<J> = args.iter().map(|x| self.oper(&x.node, body, b)).collect();
                    let at: Vec<J> = args.iter().map(|x| {
                        let t = x.node.ty(&body.local_decls, self.tcx);
                        n(self.ty(t))
                    }).collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("fty", n(self.ty(ft))),
                        ("args", J::A(a)),
                        ("atys", J::A(at)),
                        ("dest", self.place(destination, body)),
                        ("dty", n(self.ty(dt))),
                        ("t", match target { Some(t) => n(t.as_usize()), None => J::Null }),
                        ("cs", s(format!("{call_source:?}"))),
                        ("exp", J::B(fn_span.from_expansion())),
                        ("must_use", J::B(false)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    J::O(vec![
                        ("k", s("assert")),
                        ("a", self.oper(cond, body, b)),
                        ("e", J::B(*expected)),
                        ("m", s(m)),
                        ("t", n(target.as_usize())),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("unwind"))]),
                other => J::O(vec![("k", s("other")), ("dbg", s(format!("{other:?}")))]),
            };
            blocks.push(J::A(vec![J::A(st), tj, ln]));
        }
        let mut o = vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("loc", self.loc(body.span)),
        ];
        if let Some(l) = body.spread_arg {
            o.push(("spread", n(l.as_usize())));
        }
        let _ = full;
        J::O(o)
    }
    fn run_queue(&mut self) {
        let tcx = self.tcx;
        while let Some((k, w)) = self.queue.pop_front() {
            let (key, envkey) = k.split_once('\u{0}').unwrap();
            let (key, envkey) = (key.to_string(), envkey.to_string());
            let (did, args, env, raw, inst) = match w {
                Work::Inst(inst, env) => {
                    (inst.def_id(), inst.args, env, tcx.instance_mir(inst.def), Some(inst))
                }
                Work::Konst(d, args, env) => (d, args, env, tcx.mir_for_ctfe(d), None),
            };
            let b = Bx { inst_def: did, env, envkey: &envkey };
            let mono = |x: Body<'tcx>| -> Body<'tcx> {
                tcx.instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(tcx, x))
            };
            let body = mono(raw.clone());
            let mut j = match self.body(&body, b, true) {
                J::O(v) => v,
                _ => unreachable!(),
            };
            let proms = tcx.promoted_mir(did);
            let mut pj = vec![];
            for p in proms.iter() {
                let pb = mono(p.clone());
                pj.push(self.body(&pb, b, true));
            }
            j.push(("promoted", J::A(pj)));
            j.push(("def", n(self.def(did))));
            j.push(("const", J::B(inst.is_none())));
            j.push(("key", s(key.clone())));
            self.bodies.insert(key, J::O(j));
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let out = std::env::var("MIRX_OUT").expect("MIRX_OUT");
        let ws: HashSet<String> = std::env::var("MIRX_WS").unwrap_or_default().split(',').map(|x| x.replace('-', "_")).collect();
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if !ws.contains(&krate) {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            ws,
            types: vec![],
            ty_idx: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            defs: vec![],
            def_idx: HashMap::new(),
            bodies: BTreeMap::new(),
            queue: VecDeque::new(),
            queued: HashSet::new(),
        };
        // roots
        let mut roots = vec![];
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    cx.adt(did);
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Trait | DefKind::Macro(..) => {
                    let mut o = vec![
                        ("def", n(cx.def(did))),
                        ("kind", s(format!("{kind:?}"))),
                        ("pub", J::B(tcx.visibility(did).is_public())),
                        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                        ("loc", cx.loc(tcx.def_span(did))),
                    ];
                    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                        let ins: Vec<J> = sig.inputs().iter().map(|t| n(cx.ty(*t))).collect();
                        o.push(("ins", J::A(ins)));
                        let out = sig.output();
                        o.push(("out", n(cx.ty(out))));
                        o.push(("unsafe", J::B(!sig.safety().is_safe())));
                        o.push(("must_use", J::B(false)));
                        if tcx.is_mir_available(did) && !tcx.is_constructor(did) {
                            let args = ty::GenericArgs::identity_for_item(tcx, did);
                            let env = TypingEnv::post_analysis(tcx, did);
                            let envkey = format!("{}{}", krate, tcx.def_path(did).to_string_no_crate_verbose());
                            let inst = Instance::new_raw(did, args);
                            let k = cx.enqueue(inst, env, &envkey);
                            o.push(("body", s(k)));
                        }
                    } else if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        o.push(("ty", n(cx.ty(t))));
                        if let DefKind::Static { mutability, .. } = kind {
                            o.push(("mut", J::B(mutability.is_mut())));
                            o.push(("freeze", J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))));
                        }
                        if tcx.is_mir_available(did) {
                            let args = ty::GenericArgs::identity_for_item(tcx, did);
                            let env = TypingEnv::post_analysis(tcx, did);
                            let envkey = format!("{}{}", krate, tcx.def_path(did).to_string_no_crate_verbose());
                            let k = cx.inst_key(did, args, &envkey);
                            if cx.queued.insert(k.clone()) {
                                cx.queue.push_back((format!("{k}\u{0}{envkey}"), Work::Konst(did, args, env)));
                            }
                            o.push(("body", s(k)));
                        }
                    }
                    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                        roots.push(J::O(o));
                    } else {
                        items.push(J::O(o));
                    }
                }
                _ => {}
            }
        }
        cx.run_queue();
        // impls
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self_ty", n(cx.ty(st))), ("derived", J::B(tcx.is_automatically_derived(did))), ("loc", cx.loc(tcx.def_span(did)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    let ga = cx.gargs(tr.args);
                    o.push(("trait_args", ga));
                }
                let mut its = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    its.push(J::O(vec![("name", s(it.opt_name().map(|x| x.to_string()).unwrap_or_default())), ("def", n(cx.def(it.def_id)))]));
                }
                o.push(("items", J::A(its)));
                impls.push(J::O(o));
            }
        }
        // unsafe blocks
        let mut unsafes = vec![];
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'tcx> {
                tcx: TyCtxt<'tcx>,
                found: Vec<Span>,
            }
            impl<'tcx> Visitor<'tcx> for V<'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                        self.found.push(b.span);
                    }
                    intravisit::walk_block(self, b);
                }
            }
            let mut v = V { tcx, found: vec![] };
            tcx.hir_walk_toplevel_module(&mut v);
            for sp in v.found {
                unsafes.push(J::A(vec![cx.loc(sp), J::B(sp.from_expansion())]));
            }
        }
        let bodies: Vec<J> = std::mem::take(&mut cx.bodies).into_values().collect();
        let adts: Vec<J> = std::mem::take(&mut cx.adts).into_iter().map(|(k, v)| J::A(vec![J::S(k), v])).collect();
        let feats: Vec<J> = {
            let mut v: Vec<String> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").filter_map(|(_, v)| v.map(|x| x.to_string())).collect();
            v.sort();
            v.into_iter().map(J::S).collect()
        };
        let doc = J::O(vec![
            ("crate", s(krate.clone())),
            ("features", J::A(feats)),
            ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
            ("types", J::A(cx.types)),
            ("adts", J::A(adts)),
            ("defs", J::A(cx.defs)),
            ("roots", J::A(roots)),
            ("items", J::A(items)),
            ("bodies", J::A(bodies)),
            ("impls", J::A(impls)),
            ("unsafe", J::A(unsafes)),
        ]);
        let mut o = String::new();
        doc.w(&mut o);
        let is_test = tcx.sess.opts.test;
        let path = format!("{out}/{krate}{}.json", if is_test { ".test" } else { "" });
        std::fs::write(&path, o).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
