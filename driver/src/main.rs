//! Compiler driver that dumps the type-checked program (MIR with resolved callees, ADT layouts,
//! evaluated constants, statics, unsafe blocks) of one crate as JSON.  It only inspects the
//! program the compiler built; nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;

struct Cb {
    out: String,
}

macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) } }
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap_or(0))
}

macro_rules! canon { ($e:expr) => { with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!($e))) } }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, p: String) -> String {
        let c = self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        p.replace("crate::", &format!("{c}::"))
    }
    fn path(&self, d: DefId) -> String {
        self.fix(canon!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        self.fix(canon!(t.to_string()))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let mut mac = vec![];
        for e in sp.macro_backtrace() {
            mac.push(s(format!("{}", e.kind.descr())));
        }
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        if mac.is_empty() {
            J::A(vec![s(file), n(lo.line)])
        } else {
            J::A(vec![s(file), n(lo.line), J::A(mac)])
        }
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut projs = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let j = match elem {
                ProjectionElem::Deref => J::A(vec![s("d"), s(self.ty(pty.ty))]),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if (v.as_usize()) < adt.variants().len() {
                                let vd = adt.variant(v);
                                vd.fields[f].name.to_string()
                            } else {
                                f.index().to_string()
                            }
                        }
                        ty::Closure(d, _) => d
                            .as_local()
                            .and_then(|l| {
                                tcx.closure_captures(l)
                                    .get(f.index())
                                    .map(|c| format!("^{}", c.to_symbol()))
                            })
                            .unwrap_or_else(|| format!("^{}", f.index())),
                        _ => f.index().to_string(),
                    };
                    let adt = match pty.ty.kind() {
                        ty::Adt(a, _) => self.path(a.did()),
                        ty::Closure(..) => "closure".into(),
                        _ => "tuple".into(),
                    };
                    J::A(vec![s("f"), n(f.index() as i64), s(name), s(adt)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.index() as i64)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![
                    s("ci"),
                    n(offset),
                    J::B(from_end),
                    n(min_length),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, idx) => J::A(vec![
                    s("dc"),
                    s(name.map(|x| x.to_string()).unwrap_or_default()),
                    n(idx.index() as i64),
                ]),
                _ => J::A(vec![s("o")]),
            };
            projs.push(j);
            pty = pty.projection_ty(tcx, elem);
        }
        if projs.is_empty() {
            J::A(vec![n(p.local.index() as i64)])
        } else {
            J::A(vec![n(p.local.index() as i64), J::A(projs), s(self.ty(pty.ty))])
        }
    }
    fn fndef(&self, body_did: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(String, J)> {
        let tcx = self.tcx;
        let mut v = vec![("fn".to_string(), s(self.path(d)))];
        if !args.is_empty() {
            v.push((
                "ga".into(),
                J::A(args.iter().map(|a| s(self.fix(canon!(a.to_string())))).collect()),
            ));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            v.push(("trait".into(), s(self.path(t))));
            if let Some(t) = args.types().next() {
                v.push(("self".into(), s(self.ty(t))));
            }
        }
        let env = ty::TypingEnv::post_analysis(tcx, body_did);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            if rd != d {
                v.push(("res".into(), s(self.path(rd))));
            }
            if let ty::InstanceKind::Virtual(..) = inst.def {
                v.push(("virt".into(), J::B(true)));
            }
            if rd.is_local() {
                v.push(("loc".into(), J::B(true)));
            }
        }
        v
    }
    fn konst(&self, body_did: DefId, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        let mut v: Vec<(String, J)> = vec![("ty".into(), s(self.ty(ty)))];
        if let ty::FnDef(d, args) = ty.kind() {
            v.extend(self.fndef(body_did, *d, args.skip_binder()));
            return J::O(vec![("k".into(), J::O(v))]);
        }
        if let Const::Unevaluated(u, _) = c {
            v.push(("def".into(), s(self.path(u.def))));
            if let Some(p) = u.promoted {
                v.push(("prom".into(), n(p.index() as i64)));
            }
        }
        let env = ty::TypingEnv::post_analysis(tcx, body_did);
        if ty.is_integral() || ty.is_bool() || ty.is_char() {
            if let Some(bits) = c.try_eval_bits(tcx, env) {
                let size = match ty.kind() {
                    ty::Bool => 1,
                    ty::Char => 4,
                    _ => ty.primitive_size(tcx).bytes() as u32,
                };
                let val: i128 = if ty.is_signed() {
                    let sh = 128 - size * 8;
                    ((bits as i128) << sh) >> sh
                } else {
                    bits as i128
                };
                v.push(("v".into(), n(val)));
            }
        } else if let ty::Ref(_, inner, _) = ty.kind() {
            if let Ok(val) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if inner.is_str() {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        v.push(("s".into(), s(String::from_utf8_lossy(b).to_string())));
                    }
                } else if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            v.push((
                                "b".into(),
                                J::A(b.iter().take(4096).map(|x| n(*x as i64)).collect()),
                            ));
                        }
                    }
                } else if let ty::Array(_, _) = inner.kind() {
                    if let Some(vals) = self.ref_array(val, *inner) {
                        v.push(("b".into(), J::A(vals)));
                    }
                } else if let Some(d) = self.static_of(val) {
                    v.push(("static".into(), s(d)));
                }
            }
        } else if let ty::RawPtr(..) = ty.kind() {
            if let Ok(val) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let Some(d) = self.static_of(val) {
                    v.push(("static".into(), s(d)));
                }
            }
        } else if let ty::Array(..) = ty.kind() {
            if let Ok(val) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let Some(vals) = self.array_vals(val, ty) {
                    v.push(("b".into(), J::A(vals)));
                }
            }
        } else if let ty::Adt(adt, _) = ty.kind() {
            v.push(("adt".into(), s(self.path(adt.did()))));
            if adt.is_enum() {
                // unit-like enum constants: the scalar discriminant when it is a plain scalar
                if let Ok(val) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(sc) = val.try_to_scalar_int() {
                        v.push(("v".into(), n(sc.to_bits_unchecked() as i128)));
                    }
                }
            }
        }
        J::O(vec![("k".into(), J::O(v))])
    }
    fn static_of(&self, val: ConstValue) -> Option<String> {
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
            let (prov, _) = p.into_raw_parts();
            match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => return Some(self.path(d)),
                _ => {}
            }
        }
        None
    }
    fn ref_array(&self, val: ConstValue, arr: Ty<'tcx>) -> Option<Vec<J>> {
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
            let (prov, off) = p.into_raw_parts();
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                self.tcx.try_get_global_alloc(prov.alloc_id())
            {
                return self.alloc_vals(a, off.bytes() as usize, arr);
            }
        }
        None
    }
    fn array_vals(&self, val: ConstValue, t: Ty<'tcx>) -> Option<Vec<J>> {
        if let ConstValue::Indirect { alloc_id, offset } = val {
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                self.tcx.try_get_global_alloc(alloc_id)
            {
                return self.alloc_vals(a, offset.bytes() as usize, t);
            }
        }
        None
    }
    /// flat element values of an (optionally nested) integer array
    fn alloc_vals(
        &self,
        a: rustc_middle::mir::interpret::ConstAllocation<'tcx>,
        off: usize,
        t: Ty<'tcx>,
    ) -> Option<Vec<J>> {
        let mut elem = t;
        let mut count = 1u64;
        while let ty::Array(e, len) = elem.kind() {
            count *= len.try_to_target_usize(self.tcx)?;
            elem = *e;
        }
        if !(elem.is_integral()) {
            return None;
        }
        let sz = elem.primitive_size(self.tcx).bytes() as usize;
        if count > 70000 {
            return None;
        }
        let bytes = a
            .inner()
            .inspect_with_uninit_and_ptr_outside_interpreter(off..off + sz * count as usize);
        let mut out = vec![];
        for ch in bytes.chunks(sz) {
            let mut v: u128 = 0;
            for (i, b) in ch.iter().enumerate() {
                v |= (*b as u128) << (8 * i);
            }
            let val = if elem.is_signed() {
                let sh = 128 - sz * 8;
                ((v as i128) << sh) >> sh
            } else {
                v as i128
            };
            out.push(n(val));
        }
        Some(out)
    }
    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"c" => self.place(body, p)},
            Operand::Move(p) => obj! {"m" => self.place(body, p)},
            Operand::Constant(c) => {
                if let Some(d) = c.check_static_ptr(self.tcx) {
                    return obj! {"k" => obj!{"ty" => s(self.ty(c.const_.ty())), "static" => s(self.path(d))}};
                }
                self.konst(body.source.def_id(), &c.const_)
            }
            Operand::RuntimeChecks(c) => {
                obj! {"k" => obj!{"ty" => s("bool"), "rt" => s(format!("{c:?}"))}}
            }
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => obj! {"r" => s("use"), "o" => self.operand(body, o)},
            Rvalue::Repeat(o, c) => obj! {"r" => s("repeat"), "o" => self.operand(body,o),
            "n" => c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null)},
            Rvalue::Ref(_, bk, p) => {
                obj! {"r" => s("ref"), "mut" => J::B(matches!(bk, BorrowKind::Mut{..})), "p" => self.place(body, p)}
            }
            Rvalue::Reborrow(_, m, p) => {
                obj! {"r" => s("ref"), "mut" => J::B(m.is_mut()), "p" => self.place(body, p)}
            }
            Rvalue::ThreadLocalRef(d) => obj! {"r" => s("tls"), "def" => s(self.path(*d))},
            Rvalue::RawPtr(k, p) => {
                obj! {"r" => s("addr"), "kind" => s(format!("{k:?}")), "p" => self.place(body, p)}
            }
            Rvalue::Cast(k, o, t) => {
                obj! {"r" => s("cast"), "kind" => s(format!("{k:?}")), "o" => self.operand(body,o),
                "from" => s(self.ty(o.ty(body, self.tcx))), "to" => s(self.ty(*t))}
            }
            Rvalue::BinaryOp(op, b) => {
                obj! {"r" => s("bin"), "op" => s(format!("{op:?}")), "a" => self.operand(body,&b.0),
                "b" => self.operand(body,&b.1), "ty" => s(self.ty(b.0.ty(body, self.tcx)))}
            }
            Rvalue::UnaryOp(op, o) => {
                obj! {"r" => s("un"), "op" => s(format!("{op:?}")), "o" => self.operand(body,o)}
            }
            Rvalue::Discriminant(p) => obj! {"r" => s("discr"), "p" => self.place(body,p),
            "ty" => s(self.ty(p.ty(body, self.tcx).ty))},
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("r".to_string(), s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("kind".into(), s("array"))),
                    AggregateKind::Tuple => v.push(("kind".into(), s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, uf) => {
                        let adt = self.tcx.adt_def(*d);
                        let vd = adt.variant(*vi);
                        v.push(("kind".into(), s("adt")));
                        v.push(("adt".into(), s(self.path(*d))));
                        v.push(("variant".into(), s(vd.name.to_string())));
                        v.push(("vi".into(), n(vi.index() as i64)));
                        if let Some(uf) = uf {
                            v.push(("uf".into(), n(uf.index() as i64)));
                        }
                        v.push((
                            "fields".into(),
                            J::A(vd.fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("kind".into(), s("closure")));
                        v.push(("def".into(), s(self.path(*d))));
                    }
                    AggregateKind::RawPtr(..) => v.push(("kind".into(), s("rawptr"))),
                    _ => v.push(("kind".into(), s("other"))),
                }
                v.push(("ops".into(), J::A(ops.iter().map(|o| self.operand(body, o)).collect())));
                J::O(v)
            }
            Rvalue::CopyForDeref(p) => {
                obj! {"r" => s("use"), "o" => obj!{"c" => self.place(body,p)}}
            }
            Rvalue::WrapUnsafeBinder(o, _) => obj! {"r" => s("use"), "o" => self.operand(body,o)},
        }
    }
    fn body(&self, body: &Body<'tcx>) -> Vec<(String, J)> {
        let tcx = self.tcx;
        let mut names: std::collections::HashMap<usize, String> = Default::default();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut v = vec![("ty".to_string(), s(self.ty(d.ty)))];
                if let Some(nm) = names.get(&l.index()) {
                    v.push(("n".into(), s(nm.clone())));
                }
                J::O(v)
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, bd) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &bd.statements {
                match &st.kind {
                    StatementKind::Assign(b) => stmts.push(obj! {
                        "p" => self.place(body, &b.0), "v" => self.rvalue(body, &b.1), "sp" => self.span(st.source_info.span)}),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(obj! {"setd" => self.place(body, place), "vi" => n(variant_index.index() as i64), "sp" => self.span(st.source_info.span)})
                    }
                    StatementKind::StorageDead(l) => stmts.push(obj! {"dead" => n(l.index() as i64)}),
                    StatementKind::Intrinsic(i) => {
                        stmts.push(obj! {"intr" => s(format!("{i:?}")), "sp" => self.span(st.source_info.span)})
                    }
                    _ => {}
                }
            }
            let t = bd.terminator();
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.index() as i64),
                UnwindAction::Continue => s("continue"),
                UnwindAction::Unreachable => s("unreachable"),
                UnwindAction::Terminate(_) => s("terminate"),
            };
            let mut tv = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj! {"t" => s("goto"), "bb" => n(target.index() as i64)},
                TerminatorKind::FalseEdge { real_target, .. } => {
                    obj! {"t" => s("goto"), "bb" => n(real_target.index() as i64)}
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    obj! {"t" => s("goto"), "bb" => n(real_target.index() as i64)}
                }
                TerminatorKind::SwitchInt { discr, targets } => obj! {"t" => s("switch"), "o" => self.operand(body, discr),
                "ty" => s(self.ty(discr.ty(body, tcx))),
                "vals" => J::A(targets.iter().map(|(v,b)| J::A(vec![n(v as i128), n(b.index() as i64)])).collect()),
                "else" => n(targets.otherwise().index() as i64)},
                TerminatorKind::Return => obj! {"t" => s("return")},
                TerminatorKind::Unreachable => obj! {"t" => s("unreachable")},
                TerminatorKind::UnwindResume => obj! {"t" => s("resume")},
                TerminatorKind::UnwindTerminate(_) => obj! {"t" => s("terminate")},
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    obj! {"t" => s("drop"), "p" => self.place(body, place), "bb" => n(target.index() as i64), "uw" => uw(unwind),
                    "ty" => s(self.ty(place.ty(body, tcx).ty))}
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.konst(body.source.def_id(), &c.const_),
                        o => obj! {"dyn" => self.operand(body, o), "ty" => s(self.ty(o.ty(body, tcx)))},
                    };
                    obj! {"t" => s("call"), "f" => f, "args" => J::A(args.iter().map(|a| self.operand(body, &a.node)).collect()),
                    "dest" => self.place(body, destination), "bb" => target.map(|b| n(b.index() as i64)).unwrap_or(J::Null), "uw" => uw(unwind)}
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            obj! {"k" => s("bounds"), "len" => self.operand(body,len), "idx" => self.operand(body,index)}
                        }
                        AssertKind::Overflow(op, a, b) => {
                            obj! {"k" => s("overflow"), "op" => s(format!("{op:?}")), "a" => self.operand(body,a), "b" => self.operand(body,b),
                            "ty" => s(self.ty(a.ty(body, tcx)))}
                        }
                        AssertKind::OverflowNeg(a) => obj! {"k" => s("neg"), "a" => self.operand(body,a)},
                        AssertKind::DivisionByZero(a) => obj! {"k" => s("div0"), "a" => self.operand(body,a)},
                        AssertKind::RemainderByZero(a) => obj! {"k" => s("rem0"), "a" => self.operand(body,a)},
                        _ => obj! {"k" => s("other")},
                    };
                    obj! {"t" => s("assert"), "cond" => self.operand(body, cond), "exp" => J::B(*expected), "msg" => m, "bb" => n(target.index() as i64)}
                }
                other => obj! {"t" => s("other"), "dbg" => s(format!("{other:?}"))},
            };
            if let J::O(v) = &mut tv {
                v.push(("sp".into(), self.span(t.source_info.span)));
            }
            blocks.push(obj! {"s" => J::A(stmts), "t" => tv, "cl" => J::B(bd.is_cleanup)});
        }
        vec![
            ("argc".into(), n(body.arg_count as i64)),
            ("locals".into(), J::A(locals)),
            ("blocks".into(), J::A(blocks)),
            ("span".into(), self.span(body.span)),
        ]
    }
}

struct UnsafeVis<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVis<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut fns = vec![];
        let mut consts = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let d: DefId = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(d);
                    let mut v = vec![
                        ("path".to_string(), s(cx.path(d))),
                        ("kind".to_string(), s(format!("{kind:?}"))),
                    ];
                    if kind != DefKind::Closure && tcx.generics_of(d).requires_monomorphization(tcx) {
                        v.push((
                            "gen".into(),
                            J::A(ty::GenericArgs::identity_for_item(tcx, d).iter().map(|a| s(canon!(a.to_string()))).collect()),
                        ));
                    }
                    if kind != DefKind::Closure {
                        let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                        v.push(("unsafe".into(), J::B(sig.safety().is_unsafe())));
                        v.push(("abi".into(), s(format!("{:?}", sig.abi()))));
                        v.push(("pub".into(), J::B(tcx.visibility(d).is_public())));
                        v.push(("reach".into(), J::B(tcx.effective_visibilities(()).is_exported(ld))));
                        v.push(("const".into(), J::B(tcx.is_const_fn(d))));
                        let attrs = tcx.codegen_fn_attrs(d);
                        v.push(("symbol".into(), J::B(attrs.contains_extern_indicator())));
                        if let Some(i) = tcx.impl_of_assoc(d) {
                            v.push(("impl_self".into(), s(cx.ty(tcx.type_of(i).skip_binder()))));
                            if let Some(t) = tcx.impl_opt_trait_ref(i) {
                                v.push(("impl_trait".into(), s(cx.path(t.skip_binder().def_id))));
                            }
                        }
                        if let Some(t) = tcx.trait_of_assoc(d) {
                            v.push(("trait".into(), s(cx.path(t))));
                        }
                    } else {
                        v.push(("parent".into(), s(cx.path(tcx.parent(d)))));
                        let caps: Vec<J> = tcx
                            .closure_captures(ld)
                            .iter()
                            .map(|c| {
                                obj! {"n" => s(c.to_symbol().to_string()), "by" => s(format!("{:?}", c.info.capture_kind))}
                            })
                            .collect();
                        v.push(("caps".into(), J::A(caps)));
                    }
                    v.extend(cx.body(body));
                    let mut proms = vec![];
                    for pb in tcx.promoted_mir(d).iter() {
                        proms.push(J::O(cx.body(pb)));
                    }
                    if !proms.is_empty() {
                        v.push(("proms".into(), J::A(proms)));
                    }
                    fns.push(J::O(v));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).skip_binder();
                    let mut v = vec![("path".to_string(), s(cx.path(d))), ("ty".to_string(), s(cx.ty(t)))];
                    if tcx.generics_of(d).own_requires_monomorphization() || tcx.generics_of(d).parent_count > 0 && tcx.generics_of(d).requires_monomorphization(tcx) {
                        consts.push(J::O(v));
                        continue;
                    }
                    let cv = tcx.const_eval_poly(d);
                    if let Ok(val) = cv {
                        let c = Const::Val(val, t);
                        if let J::O(mut o) = cx.konst(d, &c) {
                            if let Some((_, J::O(inner))) = o.pop() {
                                for (k, x) in inner {
                                    if k != "ty" {
                                        v.push((k, x));
                                    }
                                }
                            }
                        }
                    }
                    v.push(("span".into(), cx.span(tcx.def_span(d))));
                    consts.push(J::O(v));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).skip_binder();
                    let mut v = vec![
                        ("path".to_string(), s(cx.path(d))),
                        ("ty".to_string(), s(cx.ty(t))),
                        ("mut".to_string(), J::B(mutability.is_mut())),
                        ("freeze".to_string(), J::B(t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))),
                        ("tls".to_string(), J::B(tcx.is_thread_local_static(d))),
                        ("span".to_string(), cx.span(tcx.def_span(d))),
                    ];
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let al = a.inner();
                        if al.len() <= 64 && al.provenance().ptrs().is_empty() {
                            let raw = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                            v.push(("raw".into(), J::A(raw.iter().map(|b| n(*b as i64)).collect())));
                        }
                        if let Some(vals) = cx.alloc_vals(a, 0, t) {
                            v.push(("b".into(), J::A(vals)));
                        }
                    }
                    statics.push(J::O(v));
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Struct | DefKind::Enum | DefKind::Union = tcx.def_kind(d) {
                let adt = tcx.adt_def(d);
                let mut vs = vec![];
                for (vi, discr) in adt.variants().iter_enumerated().map(|(i, _)| {
                    (i, if adt.is_enum() { adt.discriminant_for_variant(tcx, i).val as i128 } else { 0 })
                }) {
                    let vd = adt.variant(vi);
                    vs.push(obj! {"name" => s(vd.name.to_string()), "discr" => n(discr), "fields" => J::A(vd.fields.iter().map(|f| {
                        J::A(vec![s(f.name.to_string()), s(cx.ty(tcx.type_of(f.did).skip_binder())), J::B(f.vis.is_public())])
                    }).collect())});
                }
                adts.push(obj! {"path" => s(cx.path(d)), "variants" => J::A(vs), "enum" => J::B(adt.is_enum())});
            }
        }
        let mut uv = UnsafeVis { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let unsafes: Vec<J> = uv.out.iter().map(|x| cx.span(*x)).collect();
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                if let Some(t) = tcx.impl_opt_trait_ref(d) {
                    let t = t.skip_binder();
                    impls.push(obj! {"trait" => s(cx.path(t.def_id)), "self" => s(cx.ty(t.self_ty())),
                    "unsafe" => J::B(tcx.trait_def(t.def_id).safety.is_unsafe())});
                }
            }
        }
        let files: Vec<J> = {
            let sm = tcx.sess.source_map();
            sm.files().iter().filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE).map(|f| s(format!("{}", f.name.prefer_local_unconditionally()))).collect()
        };
        let j = obj! {
            "crate" => s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string()),
            "files" => J::A(files),
            "fns" => J::A(fns), "consts" => J::A(consts), "statics" => J::A(statics), "adts" => J::A(adts),
            "unsafe_blocks" => J::A(unsafes), "impls" => J::A(impls)
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut out = String::new();
        j.write(&mut out);
        let f = format!("{}/{}.json", self.out, name);
        let tmp = format!("{}.{}.tmp", f, std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &f).expect("rename facts");
        let _ = LocalDefId::to_def_id;
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let hit = crate_name.map(|c| want.split(',').any(|w| w == c)).unwrap_or(false);
    if hit && !out.is_empty() {
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Zub-checks=no", "-Aunused"] {
            args.push(a.to_string());
        }
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }));
    } else {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
}
