//! `mirfacts`: a rustc driver, injected with RUSTC_WORKSPACE_WRAPPER under
//! `cargo check`, that dumps the type-checked, freshly built MIR (before any
//! transformation, coroutines still in direct style) of the crate being
//! compiled as JSON facts, with callees resolved through type information.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_span::Span;

thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = RefCell::new(Vec::new());
}

// ------------------------------------------------------------------ json
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(x) => ws(x, o),
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ws(k, o);
                    o.push(':');
                    e.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn ws(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        let _ = write!(o, "{x:02x}");
    }
    o
}

// ------------------------------------------------------------------ dump
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
    adts: HashMap<DefId, ()>,
    adtout: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    /// Stable, unique identifier of a definition.
    fn id(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!(
            "{}{}",
            tcx.crate_name(d.krate),
            tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    /// Human readable path, without generic arguments.
    fn path(&self, d: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        );
        if d.is_local() {
            format!("crate::{p}")
        } else {
            p
        }
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{r:?}")),
            o => format!("{o:?}"),
        };
        format!("{}:{}", f, lo.line)
    }

    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adts.insert(d.did(), ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let mut vs = Vec::new();
        if d.is_enum() {
            for (i, discr) in d.discriminants(tcx) {
                let v = d.variant(i);
                vs.push(J::O(vec![
                    ("name", s(v.name.to_string())),
                    ("discr", J::S(discr.val.to_string())),
                    (
                        "fields",
                        J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect()),
                    ),
                ]));
            }
        } else {
            for v in d.variants() {
                vs.push(J::O(vec![
                    ("name", s(v.name.to_string())),
                    ("discr", s("0")),
                    (
                        "fields",
                        J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect()),
                    ),
                ]));
            }
        }
        let mut ftys = Vec::new();
        if d.did().is_local() {
            for v in d.variants() {
                let mut l = Vec::new();
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    l.push(self.ty(t));
                }
                ftys.push(J::A(l));
            }
        }
        let j = J::O(vec![
            ("id", s(self.id(d.did()))),
            ("path", s(self.path(d.did()))),
            ("local", J::B(d.did().is_local())),
            ("enum", J::B(d.is_enum())),
            ("variants", J::A(vs)),
            ("field_tys", J::A(ftys)),
            ("span", s(if d.did().is_local() { self.span(tcx.def_span(d.did())) } else { String::new() })),
        ]);
        self.adtout.push(j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::N(self.tyi(t) as i128)
    }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(J::Null);
        let str_ = ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(str_))];
        let kind = |k: &str| ("k", s(k));
        match t.kind() {
            ty::Bool => o.push(kind("bool")),
            ty::Char => o.push(kind("char")),
            ty::Int(_) => o.push(kind("int")),
            ty::Uint(_) => o.push(kind("uint")),
            ty::Float(_) => o.push(kind("float")),
            ty::Str => o.push(kind("str")),
            ty::Never => o.push(kind("never")),
            ty::Adt(d, args) => {
                o.push(kind("adt"));
                self.adt(*d);
                o.push(("id", s(self.id(d.did()))));
                o.push(("def", s(self.path(d.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Ref(_, x, m) => {
                o.push(kind("ref"));
                let j = self.ty(*x);
                o.push(("args", J::A(vec![j])));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, m) => {
                o.push(kind("ptr"));
                let j = self.ty(*x);
                o.push(("args", J::A(vec![j])));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Array(x, n) => {
                o.push(kind("array"));
                let j = self.ty(*x);
                o.push(("args", J::A(vec![j])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::N(n as i128)));
                }
            }
            ty::Slice(x) => {
                o.push(kind("slice"));
                let j = self.ty(*x);
                o.push(("args", J::A(vec![j])));
            }
            ty::Tuple(ts) => {
                o.push(kind("tuple"));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnDef(d, _) => {
                o.push(kind("fndef"));
                o.push(("id", s(self.id((*d).into()))));
                o.push(("def", s(self.path((*d).into()))));
            }
            ty::Closure(d, _) => {
                o.push(kind("closure"));
                o.push(("id", s(self.id((*d).into()))));
            }
            ty::Coroutine(d, _) => {
                o.push(kind("coroutine"));
                o.push(("id", s(self.id((*d).into()))));
            }
            ty::Dynamic(..) => o.push(kind("dyn")),
            ty::Param(_) => o.push(kind("param")),
            ty::Alias(..) => o.push(kind("alias")),
            ty::FnPtr(..) => o.push(kind("fnptr")),
            _ => o.push(kind("other")),
        }
        self.tyout[i] = J::O(o);
        i
    }

    fn norm(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(env, Unnormalized::new(t))
            .unwrap_or(t)
    }

    fn alloc_bytes(&self, id: AllocId, start: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = start.checked_add(len)?;
                if end as usize > a.len() {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(start as usize..end as usize)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", s(self.id(d))),
            ("path", s(self.path(d))),
            ("local", J::B(d.is_local())),
        ];
        let args = tcx
            .try_normalize_erasing_regions(env, Unnormalized::new(args))
            .unwrap_or(args);
        let tys: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(tys)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            // resolve the constructed variant
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Variant => {
                    o.push(("adt", s(self.path(tcx.parent(parent)))));
                    o.push(("variant", s(tcx.item_name(parent).to_string())));
                    let ad = tcx.adt_def(tcx.parent(parent));
                    self.adt(ad);
                }
                _ => {
                    o.push(("adt", s(self.path(parent))));
                    o.push(("variant", s(tcx.item_name(parent).to_string())));
                    let ad = tcx.adt_def(parent);
                    self.adt(ad);
                    if self.newtype(ad) {
                        o.push(("newtype", J::B(true)));
                    }
                }
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                let is_item = matches!(inst.def, ty::InstanceKind::Item(_));
                o.push(("res", s(self.id(rd))));
                o.push(("rpath", s(self.path(rd))));
                o.push(("rlocal", J::B(rd.is_local())));
                o.push(("ritem", J::B(is_item)));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("rself", self.ty(st)));
                }
            }
        }
        o
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(env, c.const_.ty());
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let f = self.fnref(env, (*d).into(), a);
            o.push(("fn", J::O(f)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(self.path(u.def))));
        }
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    let val: i128 = if matches!(t.kind(), ty::Int(_)) {
                        i.to_int(i.size())
                    } else {
                        bits as i128
                    };
                    o.push(("int", J::S(val.to_string())));
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Static(d)) => {
                            o.push(("static", s(self.path(d))));
                            o.push(("static_id", s(self.id(d))));
                        }
                        Some(GlobalAlloc::Memory(_)) => {
                            if let ty::Ref(_, inner, _) = t.kind()
                                && let ty::Array(e, n) = inner.kind()
                                && *e == tcx.types.u8
                                && let Some(n) = n.try_to_target_usize(tcx)
                                && let Some(b) = self.alloc_bytes(aid, off.bytes(), n)
                            {
                                o.push(("bytes", s(hex(&b))));
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                        if let ty::Ref(_, inner, _) = t.kind()
                            && inner.is_str()
                        {
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                        }
                        o.push(("bytes", s(hex(&b))));
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Indirect { .. } => {
                    o.push(("indirect", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    /// `struct Name(Type);` of this crate
    fn newtype(&self, d: ty::AdtDef<'tcx>) -> bool {
        d.is_struct()
            && d.did().is_local()
            && d.non_enum_variant().ctor_kind() == Some(rustc_hir::def::CtorKind::Fn)
            && d.non_enum_variant().fields.len() == 1
            && !self.dispatched(d.did())
    }

    /// does it implement a trait whose methods calls choose by the type of the value?
    fn dispatched(&self, did: DefId) -> bool {
        const CHOSEN: &[&str] = &[
            "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "Extend", "FromIterator",
            "Future", "IntoFuture", "Write", "Read", "BufRead", "Drop", "Fn", "FnMut", "FnOnce",
        ];
        let tcx = self.tcx;
        tcx.all_local_trait_impls(()).iter().any(|(tr, impls)| {
            (!matches!(tcx.crate_name(tr.krate).as_str(), "core" | "std" | "alloc")
                || CHOSEN.contains(&tcx.item_name(*tr).as_str()))
                && impls.iter().any(|i| match tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip().kind() {
                    ty::Adt(a, _) => a.did() == did,
                    _ => false,
                })
        })
    }

    fn place(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = Vec::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(J::A(vec![s("*")])),
                ProjectionElem::Field(f, fty) => {
                    let base = self.norm(env, pt.ty);
                    // a struct around one value is that value
                    if let ty::Adt(d, _) = base.kind()
                        && self.newtype(*d)
                    {
                        pt = pt.projection_ty(tcx, e);
                        continue;
                    }
                    let name = match base.kind() {
                        ty::Adt(d, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(v).fields[f].name.to_string()
                        }
                        _ => f.index().to_string(),
                    };
                    let fty = self.norm(env, fty);
                    let j = self.ty(fty);
                    pr.push(J::A(vec![s("f"), J::N(f.index() as i128), s(name), j]));
                }
                ProjectionElem::Index(l) => {
                    pr.push(J::A(vec![s("i"), J::N(l.index() as i128)]))
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    pr.push(J::A(vec![
                        s("ci"),
                        J::N(offset as i128),
                        J::B(from_end),
                        J::N(min_length as i128),
                    ]))
                }
                ProjectionElem::Subslice { from, to, from_end } => pr.push(J::A(vec![
                    s("ss"),
                    J::N(from as i128),
                    J::N(to as i128),
                    J::B(from_end),
                ])),
                ProjectionElem::Downcast(_, v) => {
                    let base = self.norm(env, pt.ty);
                    let name = match base.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.index().to_string(),
                    };
                    pr.push(J::A(vec![s("d"), s(name)]))
                }
                _ => pr.push(J::A(vec![s("o")])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        let t = self.norm(env, pt.ty);
        let tj = self.ty(t);
        J::A(vec![J::N(p.local.index() as i128), J::A(pr), tj])
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                J::O(vec![("k", s("copy")), ("p", self.place(env, body, p))])
            }
            Operand::Move(p) => {
                J::O(vec![("k", s("move")), ("p", self.place(env, body, p))])
            }
            Operand::Constant(c) => self.konst(env, c),
            Operand::RuntimeChecks(_) => J::O(vec![("k", s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(env, body, o))]),
            Rvalue::Repeat(o, n) => {
                let mut v = vec![("k", s("repeat")), ("o", self.operand(env, body, o))];
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    v.push(("n", J::N(n as i128)));
                }
                J::O(v)
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("p", self.place(env, body, p)),
                ("m", s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                })),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("k", s("ref")),
                ("p", self.place(env, body, p)),
                ("m", s(if m.is_mut() { "mut" } else { "shared" })),
            ]),
            Rvalue::RawPtr(_, p) => {
                J::O(vec![("k", s("ref")), ("p", self.place(env, body, p)), ("m", s("raw"))])
            }
            Rvalue::ThreadLocalRef(d) => {
                J::O(vec![("k", s("tls")), ("def", s(self.path(*d)))])
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(env, *t);
                J::O(vec![
                    ("k", s("cast")),
                    ("c", s(format!("{k:?}"))),
                    ("o", self.operand(env, body, o)),
                    ("ty", self.ty(t)),
                ])
            }
            Rvalue::BinaryOp(op, ab) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(env, body, &ab.0)),
                ("b", self.operand(env, body, &ab.1)),
            ]),
            Rvalue::UnaryOp(op, a) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(env, body, a)),
            ]),
            Rvalue::Discriminant(p) => {
                J::O(vec![("k", s("discr")), ("p", self.place(env, body, p))])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("p", self.place(env, body, p))])),
            ]),
            Rvalue::WrapUnsafeBinder(o, _) => {
                J::O(vec![("k", s("use")), ("o", self.operand(env, body, o))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v: Vec<(&'static str, J)> = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("a", s("array"))),
                    AggregateKind::Tuple => v.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        v.push(("a", s("adt")));
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        if self.newtype(ad) {
                            v.push(("newtype", J::B(true)));
                        }
                        v.push(("adt", s(self.path(*d))));
                        v.push(("variant", s(ad.variant(*vi).name.to_string())));
                        v.push((
                            "fields",
                            J::A(ad.variant(*vi).fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                        if let Some(f) = af {
                            v.push(("active", J::N(f.index() as i128)));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("a", s("closure")));
                        v.push(("id", s(self.id(*d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        v.push(("a", s("coroutine")));
                        v.push(("id", s(self.id(*d))));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        v.push(("a", s("coroutine_closure")));
                        v.push(("id", s(self.id(*d))));
                    }
                    AggregateKind::RawPtr(..) => v.push(("a", s("rawptr"))),
                }
                let l = ops.iter().map(|o| self.operand(env, body, o)).collect();
                v.push(("ops", J::A(l)));
                J::O(v)
            }
        }
    }

    fn bb(b: BasicBlock) -> J {
        J::N(b.index() as i128)
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let kind = tcx.def_kind(did);
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", s(self.id(did))),
            ("path", s(self.path(did))),
            ("dk", s(format!("{kind:?}"))),
            ("span", s(self.span(body.span))),
            ("file", s(self.span(tcx.def_span(did)))),
            ("argc", J::N(body.arg_count as i128)),
        ];
        if let Some(ck) = body.coroutine_kind() {
            o.push(("coroutine", s(format!("{ck:?}"))));
        }
        if matches!(kind, DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            o.push(("parent", s(self.id(tcx.parent(did)))));
            let caps: Vec<J> = tcx
                .closure_captures(def)
                .iter()
                .map(|c| {
                    J::A(vec![
                        s(c.to_string(tcx)),
                        J::B(c.is_by_ref()),
                    ])
                })
                .collect();
            o.push(("upvars", J::A(caps)));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", self.ty(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
                o.push(("trait_ref", s(ty::print::with_no_trimmed_paths!(format!("{tr}")))));
            }
            o.push(("method", s(tcx.item_name(did).to_string())));
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait_default", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(did).to_string())));
        }
        // names of user variables
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
                let pj = self.place(env, body, &p);
                dbg.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.norm(env, d.ty);
            let mut lo = vec![("ty", self.ty(t))];
            if let Some(n) = names.get(&l.index()) {
                lo.push(("n", s(n.clone())));
            }
            locals.push(J::O(lo));
        }
        o.push(("locals", J::A(locals)));
        o.push(("debug", J::A(dbg)));
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        st.push(J::O(vec![
                            ("k", s("assign")),
                            ("p", self.place(env, body, p)),
                            ("r", self.rvalue(env, body, r)),
                            ("s", s(self.span(x.source_info.span))),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let t = self.norm(env, t);
                        let name = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.index().to_string(),
                        };
                        st.push(J::O(vec![
                            ("k", s("setdiscr")),
                            ("p", self.place(env, body, place)),
                            ("v", s(name)),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("k", s("dead")), ("l", J::N(l.index() as i128))]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::O(vec![("k", s("live")), ("l", J::N(l.index() as i128))]))
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let mut to: Vec<(&'static str, J)> = vec![("s", s(self.span(t.source_info.span)))];
            to.push(("exp", J::B(t.source_info.span.from_expansion())));
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    to.push(("k", s("goto")));
                    to.push(("t", Self::bb(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    to.push(("k", s("switch")));
                    to.push(("o", self.operand(env, body, discr)));
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dty = self.norm(env, dty);
                    to.push(("ty", self.ty(dty)));
                    let l = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), Self::bb(b)]))
                        .collect();
                    to.push(("ts", J::A(l)));
                    to.push(("ow", Self::bb(targets.otherwise())));
                }
                TerminatorKind::Return => to.push(("k", s("return"))),
                TerminatorKind::Unreachable => to.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    to.push(("k", s("unwind")))
                }
                TerminatorKind::CoroutineDrop => to.push(("k", s("unwind"))),
                TerminatorKind::Drop { place, target, .. } => {
                    to.push(("k", s("drop")));
                    to.push(("p", self.place(env, body, place)));
                    to.push(("t", Self::bb(*target)));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    to.push(("k", s("call")));
                    to.push(("f", self.operand(env, body, func)));
                    to.push(("a", J::A(args.iter().map(|a| self.operand(env, body, &a.node)).collect())));
                    to.push(("d", self.place(env, body, destination)));
                    to.push(("fs", s(self.span(*fn_span))));
                    if let Some(t) = target {
                        to.push(("t", Self::bb(*t)));
                    }
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    to.push(("k", s("tailcall")));
                    to.push(("f", self.operand(env, body, func)));
                    to.push(("a", J::A(args.iter().map(|a| self.operand(env, body, &a.node)).collect())));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    to.push(("k", s("assert")));
                    to.push(("o", self.operand(env, body, cond)));
                    to.push(("e", J::B(*expected)));
                    to.push(("t", Self::bb(*target)));
                    let (mk, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        o => (format!("other:{:?}", std::mem::discriminant(o)), vec![]),
                    };
                    to.push(("m", s(mk)));
                    let l = ops.into_iter().map(|x| self.operand(env, body, x)).collect();
                    to.push(("mo", J::A(l)));
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    to.push(("k", s("yield")));
                    to.push(("o", self.operand(env, body, value)));
                    to.push(("t", Self::bb(*resume)));
                    to.push(("d", self.place(env, body, resume_arg)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    to.push(("k", s("goto")));
                    to.push(("t", Self::bb(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    to.push(("k", s("goto")));
                    to.push(("t", Self::bb(*real_target)));
                    to.push(("loop", J::B(true)));
                }
                TerminatorKind::InlineAsm { .. } => to.push(("k", s("asm"))),
            }
            let mut bo = vec![("st", J::A(st)), ("te", J::O(to))];
            if b.is_cleanup {
                bo.push(("cl", J::B(true)));
            }
            blocks.push(J::O(bo));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        // Clone the freshly built MIR of every body before borrowck steals it.
        let mut v = Vec::new();
        for def in tcx.hir_body_owners() {
            let b = tcx.mir_built(def).borrow().clone();
            // SAFETY: only used in `after_analysis`, under the same `tcx`.
            let b: Body<'static> = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(b) };
            v.push((def, b));
        }
        BODIES.with(|x| *x.borrow_mut() = v);
        Compilation::Continue
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(out) = std::env::var("MIRFACTS_OUT") else { return Compilation::Continue };
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kinds: Vec<String> = tcx.crate_types().iter().map(|k| format!("{k:?}")).collect();
        let is_test = tcx.sess.opts.test;
        let bodies = BODIES.with(|x| std::mem::take(&mut *x.borrow_mut()));
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            tyout: vec![],
            adts: HashMap::new(),
            adtout: vec![],
        };
        let mut bs = Vec::new();
        for (d, b) in &bodies {
            // SAFETY: see above; restores the original lifetime.
            let b: &Body<'tcx> = unsafe { std::mem::transmute::<&Body<'static>, &Body<'tcx>>(b) };
            bs.push(cx.body(*d, b));
        }
        std::mem::forget(bodies);
        // local trait implementations
        let mut impls = Vec::new();
        for def in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(def), DefKind::Impl { of_trait: true }) {
                continue;
            }
            let did = def.to_def_id();
            let Some(tr) = tcx.impl_opt_trait_ref(did) else { continue };
            let tr = tr.instantiate_identity().skip_norm_wip();
            let items = tcx
                .associated_items(did)
                .in_definition_order()
                .filter(|i| i.is_fn())
                .map(|i| J::A(vec![s(i.name().to_string()), s(cx.id(i.def_id))]))
                .collect();
            let st = cx.ty(tr.self_ty());
            impls.push(J::O(vec![
                ("trait", s(cx.path(tr.def_id))),
                ("trait_ref", s(ty::print::with_no_trimmed_paths!(format!("{tr}")))),
                ("self", st),
                ("items", J::A(items)),
                ("span", s(cx.span(tcx.def_span(did)))),
            ]));
        }
        let j = J::O(vec![
            ("crate", s(crate_name.clone())),
            ("kinds", J::A(kinds.iter().map(|k| s(k.clone())).collect())),
            ("test", J::B(is_test)),
            ("bodies", J::A(bs)),
            ("impls", J::A(impls)),
            ("tys", J::A(std::mem::take(&mut cx.tyout))),
            ("adts", J::A(std::mem::take(&mut cx.adtout))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{}/{}-{}.json", out, crate_name, kinds.join("_"));
        std::fs::write(&f, o).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as first argument.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().is_some_and(|x| x == "rustc") {
        args.remove(1);
    }
    let dump = std::env::var_os("MIRFACTS_OUT").is_some()
        && !args.iter().any(|a| a == "build_script_build")
        && !args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    rustc_driver::catch_with_exit_code(|| {
        if dump {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            struct Nop;
            impl rustc_driver::Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }
    })
}
