// Compiler driver: type checks the crate with the flags cargo passes and writes every
// local MIR body, ADT and trait impl of the crate `metrix` as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;

struct Dump {
    out: Option<String>,
    krate: String,
}

fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

thread_local! {
    static EXT: std::cell::RefCell<std::collections::BTreeMap<String, DefId>> = Default::default();
    static EXT_ADT: std::cell::RefCell<std::collections::BTreeMap<String, DefId>> = Default::default();
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

/// std functions whose own MIR is small, pointer free and worth analysing instead of modelling
fn want_ext(p: &str) -> bool {
    let q = p.trim_start_matches('<');
    [
        "core::option::",
        "core::result::",
        "core::bool::",
        "core::ops::control_flow::",
        "core::cmp::Ordering",
    ]
    .iter()
    .any(|x| q.starts_with(x))
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
        tcx.def_path_str(d)
    ))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        J::A(vec![J::S(f), n(lo.line)])
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            TyKind::Adt(a, args) => {
                if !a.did().is_local() && a.is_enum() {
                    EXT_ADT.with(|e| e.borrow_mut().insert(path(self.tcx, a.did()), a.did()));
                }
                J::O(vec![
                ("k", s("adt")),
                ("p", s(path(self.tcx, a.did()))),
                ("a", self.gargs(args)),
            ])},
            TyKind::Ref(_, t, m) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(m.is_mut())),
                ("t", self.ty(*t)),
            ]),
            TyKind::RawPtr(t, m) => J::O(vec![
                ("k", s("ptr")),
                ("m", J::B(m.is_mut())),
                ("t", self.ty(*t)),
            ]),
            TyKind::Tuple(ts) => J::O(vec![
                ("k", s("tuple")),
                ("a", J::A(ts.iter().map(|t| self.ty(t)).collect())),
            ]),
            TyKind::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            TyKind::Array(t, c) => J::O(vec![
                ("k", s("array")),
                ("t", self.ty(*t)),
                ("n", s(format!("{}", c))),
            ]),
            TyKind::Closure(d, args) => J::O(vec![
                ("k", s("closure")),
                ("p", s(path(self.tcx, *d))),
                ("u", J::A(args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect())),
            ]),
            TyKind::FnDef(d, args) => J::O(vec![
                ("k", s("fndef")),
                ("p", s(path(self.tcx, *d))),
                ("a", self.gargs(args.skip_binder())),
            ]),
            TyKind::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(t))]),
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("s", s(p.name))]),
            TyKind::Dynamic(preds, _) => J::O(vec![
                ("k", s("dyn")),
                (
                    "p",
                    match preds.principal_def_id() {
                        Some(d) => s(path(self.tcx, d)),
                        None => J::Null,
                    },
                ),
                ("s", s(t)),
            ]),
            TyKind::Alias(..) => J::O(vec![("k", s("alias")), ("s", s(t))]),
            _ => J::O(vec![("k", s("prim")), ("s", s(t))]),
        }
    }

    fn gargs(&self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::A(
            args.iter()
                .filter_map(|a| a.as_type())
                .map(|t| self.ty(t))
                .collect(),
        )
    }

    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            proj.push(match e {
                ProjectionElem::Deref => {
                    let m = match bt.ty.kind() {
                        TyKind::Ref(..) => "ref",
                        TyKind::RawPtr(..) => "ptr",
                        _ => "box",
                    };
                    J::A(vec![s("*"), s(m)])
                }
                ProjectionElem::Field(f, t) => {
                    let name = match bt.ty.kind() {
                        TyKind::Adt(a, _) => {
                            let v = bt
                                .variant_index
                                .unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match bt.ty.kind() {
                        TyKind::Adt(a, _) => s(path(self.tcx, a.did())),
                        _ => J::Null,
                    };
                    J::A(vec![s("f"), s(name), self.ty(t), owner])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c"), n(offset as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, v) => J::A(vec![
                    s("d"),
                    match name {
                        Some(x) => s(x),
                        None => s(v.as_usize()),
                    },
                    n(v.as_usize()),
                ]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::O(vec![("l", n(p.local.as_usize())), ("p", J::A(proj))])
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let TyKind::FnDef(d, args) = t.kind() {
            o.push(("fn", self.callee(*d, args.skip_binder())));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_usize())));
                o.push(("of", s(path(self.tcx, u.def))));
                return J::O(o);
            }
            o.push(("name", s(path(self.tcx, u.def))));
        }
        if let mir::Const::Ty(_, c) = c.const_ {
            if let ty::ConstKind::Param(p) = c.kind() {
                o.push(("name", s(p.name)));
                return J::O(o);
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
                let v: i128 = if t.is_signed() {
                    let size = self
                        .tcx
                        .layout_of(self.env.as_query_input(t))
                        .map(|l| l.size.bits())
                        .unwrap_or(128);
                    if size < 128 {
                        let shift = 128 - size;
                        ((b << shift) as i128) >> shift
                    } else {
                        b as i128
                    }
                } else {
                    b as i128
                };
                o.push(("v", J::N(v)));
                return J::O(o);
            }
        }
        if t.is_floating_point() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
                let f = if t.to_string() == "f64" {
                    f64::from_bits(b as u64)
                } else {
                    f32::from_bits(b as u32) as f64
                };
                o.push(("float", s(f)));
                return J::O(o);
            }
        }
        if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
            if let TyKind::Ref(_, inner, _) = t.kind() {
                let is_bytes = match inner.kind() {
                    TyKind::Str => Some(true),
                    TyKind::Slice(e) if *e == self.tcx.types.u8 => Some(false),
                    _ => None,
                };
                if let (Some(is_str), mir::ConstValue::Slice { .. }) = (is_bytes, v) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        if is_str {
                            o.push(("str", s(String::from_utf8_lossy(b))));
                        } else {
                            o.push(("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect())));
                        }
                        return J::O(o);
                    }
                }
                if let TyKind::Array(e, len) = inner.kind() {
                    if *e == self.tcx.types.u8 {
                        if let (Some(len), mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) =
                            (len.try_to_target_usize(self.tcx), v)
                        {
                            let (prov, off) = p.into_raw_parts();
                            if let Some(mir::interpret::GlobalAlloc::Memory(a)) =
                                self.tcx.try_get_global_alloc(prov.alloc_id())
                            {
                                let st = off.bytes() as usize;
                                let b = a
                                    .inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(
                                        st..st + len as usize,
                                    );
                                o.push((
                                    "bytes",
                                    J::A(b.iter().map(|x| n(*x as usize)).collect()),
                                ));
                                return J::O(o);
                            }
                        }
                    }
                }
            }
        }
        o.push((
            "disp",
            s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_))),
        ));
        J::O(o)
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(path(tcx, d))), ("a", self.gargs(args))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
            o.push(("m", s(tcx.item_name(d))));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    o.push(("self", self.ty(t)));
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
            let parent = tcx.parent(d);
            if let DefKind::Variant = tcx.def_kind(parent) {
                o.push(("adt", s(path(tcx, tcx.parent(parent)))));
                o.push(("variant", s(tcx.item_name(parent))));
            } else {
                o.push(("adt", s(path(tcx, parent))));
            }
            return J::O(o);
        }
        let inst = if args.iter().any(|a| {
            use rustc_middle::ty::TypeVisitableExt;
            a.has_escaping_bound_vars()
        }) {
            None
        } else {
            let args = tcx.erase_and_anonymize_regions(args);
            Instance::try_resolve(tcx, self.env, d, args).ok().flatten()
        };
        if let Some(i) = inst {
            let k = match i.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                ty::InstanceKind::Shim(..) => "shim",
                _ => "other",
            };
            o.push(("rk", s(k)));
            o.push(("r", s(path(tcx, i.def_id()))));
            o.push(("ra", self.gargs(i.args)));
            o.push(("local", J::B(i.def_id().is_local())));
            if k == "item" && !i.def_id().is_local() {
                let p = path(tcx, i.def_id());
                if want_ext(&p) && tcx.is_mir_available(i.def_id()) {
                    EXT.with(|e| { e.borrow_mut().entry(p).or_insert(i.def_id()); });
                }
            }
        }
        J::O(o)
    }

    fn operand(&self, b: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, *p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, *p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c)]),
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(b, o)]),
            Rvalue::Repeat(o, c) => {
                J::A(vec![s("repeat"), self.operand(b, o), s(format!("{}", c))])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(b, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(b, *p)]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&b.local_decls, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(format!("{:?}", k)),
                    self.operand(b, o),
                    self.ty(*t),
                    self.ty(ot),
                ])
            }
            Rvalue::BinaryOp(op, x) => J::A(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(b, &x.0),
                self.operand(b, &x.1),
                self.ty(x.0.ty(&b.local_decls, self.tcx)),
            ]),
            Rvalue::UnaryOp(op, x) => {
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, x)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                J::A(vec![s("disc"), self.place(b, *p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o: Vec<(&'static str, J)> = vec![];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", s("array"))),
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        o.push(("k", s("adt")));
                        o.push(("p", s(path(self.tcx, *d))));
                        o.push(("enum", J::B(def.is_enum())));
                        o.push(("v", s(var.name)));
                        o.push(("vi", n(v.as_usize())));
                        o.push(("a", self.gargs(args)));
                        match f {
                            Some(f) => o.push((
                                "fs",
                                J::A(vec![s(var.fields[*f].name)]),
                            )),
                            None => o.push((
                                "fs",
                                J::A(var.fields.iter().map(|f| s(f.name)).collect()),
                            )),
                        }
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("p", s(path(self.tcx, *d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("k", s("rawptr"))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.operand(b, x)).collect())));
                J::A(vec![s("agg"), J::O(o)])
            }
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn body(&self, b: &Body<'tcx>) -> J {
        let locals = b
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty))
            .collect::<Vec<_>>();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name), self.place(b, p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::A(vec![
                        s("="),
                        self.place(b, a.0),
                        self.rvalue(b, &a.1),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            s("setdisc"),
                            self.place(b, **place),
                            n(variant_index.as_usize()),
                        ]))
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::N(v as i128), n(t.as_usize())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(b, discr),
                        J::A(ts),
                        n(targets.otherwise().as_usize()),
                        self.ty(discr.ty(&b.local_decls, self.tcx)),
                        sp,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![
                    s("drop"),
                    self.place(b, *place),
                    n(target.as_usize()),
                    self.ty(place.ty(&b.local_decls, self.tcx).ty),
                    sp,
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                            _ => J::O(vec![("op", self.operand(b, func))]),
                        },
                        _ => J::O(vec![("op", self.operand(b, func))]),
                    };
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(args.iter().map(|a| self.operand(b, &a.node)).collect()),
                        self.place(b, *destination),
                        match target {
                            Some(t) => n(t.as_usize()),
                            None => J::Null,
                        },
                        self.ty(destination.ty(&b.local_decls, self.tcx).ty),
                        sp,
                        J::A(
                            args.iter()
                                .map(|a| self.ty(a.node.ty(&b.local_decls, self.tcx)))
                                .collect(),
                        ),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    let ops = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            vec![self.operand(b, len), self.operand(b, index)]
                        }
                        AssertKind::Overflow(_, x, y) => {
                            vec![self.operand(b, x), self.operand(b, y)]
                        }
                        AssertKind::OverflowNeg(x)
                        | AssertKind::DivisionByZero(x)
                        | AssertKind::RemainderByZero(x) => vec![self.operand(b, x)],
                        _ => vec![],
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(b, cond),
                        J::B(*expected),
                        J::S(m),
                        n(target.as_usize()),
                        sp,
                        J::A(ops),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                k => J::A(vec![s("?"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", term),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", n(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match &self.out {
            Some(o) => o.clone(),
            None => return Compilation::Continue,
        };
        if tcx.crate_name(LOCAL_CRATE).as_str() != self.krate {
            return Compilation::Continue;
        }
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            );
            if !is_fn && !is_const {
                continue;
            }
            let mut o = vec![
                ("p", s(path(tcx, d))),
                ("kind", s(format!("{:?}", kind).split(' ').next().unwrap())),
                ("span", cx.span(tcx.def_span(d))),
            ];
            if is_fn && !matches!(kind, DefKind::Closure) {
                o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(ld))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                o.push(("sig", s(sig)));
                let g = tcx.generics_of(d);
                let mut names = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        names.push(s(p.name));
                    }
                }
                o.push(("gen", J::A(names)));
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", cx.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(path(tcx, tr.def_id))));
                        o.push(("impl_trait_args", cx.gargs(tr.args)));
                    }
                    o.push(("name", s(tcx.item_name(d))));
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("in_trait", s(path(tcx, tr))));
                    o.push(("name", s(tcx.item_name(d))));
                } else {
                    o.push(("name", s(tcx.item_name(d))));
                }
            }
            if matches!(kind, DefKind::Closure) {
                o.push(("parent", s(path(tcx, tcx.typeck_root_def_id(d)))));
            }
            let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            o.push(("body", cx.body(body)));
            let pr = tcx.promoted_mir(d);
            o.push(("promoted", J::A(pr.iter().map(|b| cx.body(b)).collect())));
            fns.push(J::O(o));
        }
        // external functions whose MIR is analysed too (transitively)
        let mut ext = vec![];
        let mut done = std::collections::BTreeSet::new();
        loop {
            let next = EXT.with(|e| {
                e.borrow()
                    .iter()
                    .find(|(k, _)| !done.contains(*k))
                    .map(|(k, d)| (k.clone(), *d))
            });
            let Some((p, d)) = next else { break };
            done.insert(p.clone());
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
            let g = tcx.generics_of(d);
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    names.push(s(p.name));
                }
            }
            let body = cx.body(tcx.optimized_mir(d));
            let promoted = J::A(tcx.promoted_mir(d).iter().map(|b| cx.body(b)).collect());
            ext.push(J::O(vec![
                ("p", s(p)),
                ("kind", s("Ext")),
                ("gen", J::A(names)),
                ("name", s(tcx.item_name(d))),
                ("body", body),
                ("promoted", promoted),
            ]));
        }
        // items
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(d);
                    let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
                    let vs = a
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("n", s(v.name)),
                                (
                                    "f",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::A(vec![
                                                    s(f.name),
                                                    cx.ty(tcx
                                                        .type_of(f.did)
                                                        .instantiate_identity()
                                                        .skip_norm_wip()),
                                                    J::B(f.vis.is_public()),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("p", s(path(tcx, d))),
                        ("enum", J::B(a.is_enum())),
                        ("vs", J::A(vs)),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
                    let mut o = vec![(
                        "self",
                        cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                    )];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                        o.push(("args", cx.gargs(tr.args)));
                        o.push((
                            "neg",
                            J::B(tcx.impl_polarity(d) == ty::ImplPolarity::Negative),
                        ));
                    }
                    let items = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                        .map(|i| J::A(vec![s(i.name()), s(path(tcx, i.def_id))]))
                        .collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let mut xadts = vec![];
        for (p, d) in EXT_ADT.with(|e| e.borrow().clone()) {
            let a = tcx.adt_def(d);
            let vs = a
                .discriminants(tcx)
                .map(|(i, dd)| J::A(vec![s(a.variant(i).name), J::N(dd.val as i128)]))
                .collect();
            xadts.push(J::O(vec![("p", s(p)), ("vs", J::A(vs))]));
        }
        let j = J::O(vec![
            ("ext", J::A(ext)),
            ("xadts", J::A(xadts)),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ]);
        let mut buf = String::new();
        j.write(&mut buf);
        let tmp = format!("{}.tmp{}", out, std::process::id());
        std::fs::write(&tmp, buf).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "metrix".into());
    let is_primary = args.iter().any(|a| a == "--crate-name")
        && args
            .windows(2)
            .any(|w| w[0] == "--crate-name" && w[1] == krate)
        && !args.iter().any(|a| a == "--test");
    let out = if is_primary { std::env::var("MIRDUMP_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
    }
    let mut cb = Dump { out, krate };
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
