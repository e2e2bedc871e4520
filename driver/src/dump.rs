use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, HashSet, VecDeque};

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, DefId, String)>,
    seen: HashSet<String>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    type_queue: Vec<Ty<'tcx>>,
    promo_queue: VecDeque<(String, Body<'tcx>, DefId)>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    // canonical: real crate paths, no re-export trimming
    let dp = tcx.def_path(d);
    let mut s = tcx.crate_name(d.krate).to_string();
    for e in &dp.data {
        s.push_str("::");
        s.push_str(&e.as_sym(true).to_string());
    }
    s
}
fn nice<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d)))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t)))
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // outermost expansion site so that the location lies in the analysed crate
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            n => format!("{}", n.prefer_local_unconditionally()),
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&k) = self.types.get(&t) {
            return k;
        }
        let k = self.type_out.len();
        self.types.insert(t, k);
        self.type_out.push(J::Null);
        let o = self.ty_json(t);
        self.type_out[k] = o;
        k
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = tystr(t);
        let mut o = vec![("s", s(name))];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(*x);
                o.push(("to", j));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(*x);
                o.push(("to", j));
            }
            ty::Array(x, _) | ty::Slice(x) => {
                o.push(("k", s(if t.is_array() { "array" } else { "slice" })));
                let j = self.ty(*x);
                o.push(("to", j));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("nice", s(nice(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push((
                    "akind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let ta: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(ta)));
                let expand = def.did().is_local()
                    || matches!(
                        tcx.crate_name(def.did().krate).as_str(),
                        "core"
                    ) && {
                        let p = path(tcx, def.did());
                        p.starts_with("core::option") || p.starts_with("core::result") || p.starts_with("core::cmp")
                            || p.starts_with("core::ops::control_flow")
                    };
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            let bits = d.val;
                            J::S(bits.to_string())
                        } else {
                            J::Null
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args).skip_norm_wip();
                            let fty = tcx
                                .try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, def.did()), rustc_middle::ty::Unnormalized::new_wip(fty))
                                .unwrap_or(fty);
                            let ftj = self.ty(fty);
                            fs.push(J::O(vec![
                                ("n", s(f.name.to_string())),
                                ("ty", ftj),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("discr", discr), ("f", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                if def.did().is_local() {
                    self.type_queue.push(t);
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, *d))));
                let c = args.as_closure();
                o.push(("ckind", s(format!("{:?}", c.kind_ty().to_opt_closure_kind()))));
                let v = c.upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(v)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(tcx, *d))));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn inst_key(&self, i: Instance<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let kind = match i.def {
            InstanceKind::Item(_) => "".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic:".into(),
            InstanceKind::Virtual(..) => "virtual:".into(),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce:".into(),
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue:".into(),
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim:".into(),
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim:".into(),
            _ => "othershim:".into(),
        };
        let args = with_no_trimmed_paths!(format!("{:?}", tcx.erase_and_anonymize_regions(i.args)));
        let mut k = format!("{}{}{}", kind, path(tcx, i.def_id()), args);
        if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = i.def {
            k.push_str(&format!("@{}", path(tcx, closure)));
        }
        if i.args.has_param() {
            k.push_str(&format!("#{}", path(tcx, root)));
        }
        k
    }

    fn wanted(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    return tcx.is_mir_available(d);
                }
                if !tcx.is_mir_available(d) {
                    return false;
                }
                let p = path(tcx, d);
                for pre in ["core::option::", "core::result::", "core::ops::", "core::cmp::", "core::convert::", "core::bool::", "core::tuple::"] {
                    if p.starts_with(pre) {
                        return true;
                    }
                }
                false
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        }
    }

    fn callee(&mut self, fty: Ty<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        match fty.kind() {
            ty::FnDef(d, args) => {
                let d = *d;
                let mut o = vec![("path", s(path(tcx, d))), ("nice", s(nice(tcx, d)))];
                let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, d));
                let args = tcx.erase_and_anonymize_regions(args);
                let ta: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("targs", J::A(ta)));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("trait", s(path(tcx, tr))));
                }
                if tcx.intrinsic(d).is_some() {
                    o.push(("intrinsic", J::B(true)));
                }
                o.push(("diverges", J::B(false)));
                if tcx.fn_sig(d).skip_binder().skip_binder().safety().is_unsafe() {
                    o.push(("unsafe", J::B(true)));
                }
                if tcx.is_foreign_item(d) {
                    o.push(("foreign", J::B(true)));
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    o.push(("ctor", J::B(true)));
                    return J::O(o);
                }
                match Instance::try_resolve(tcx, env, d, args) {
                    Ok(Some(i)) => {
                        let rp = path(tcx, i.def_id());
                        o.push(("rpath", s(rp)));
                        o.push(("rnice", s(nice(tcx, i.def_id()))));
                        o.push(("rlocal", J::B(i.def_id().is_local())));
                        let ra: Vec<J> = i.args.types().map(|x| self.ty(x)).collect();
                        o.push(("rargs", J::A(ra)));
                        if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                            o.push(("rself", s(tystr(st))));
                            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                                o.push(("rtrait", s(path(tcx, tr.skip_binder().def_id))));
                            }
                        }
                        match i.def {
                            InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                                o.push(("once_shim", s(path(tcx, closure))))
                            }
                            InstanceKind::Shim(ShimKind::Clone(..)) => o.push(("clone_shim", J::B(true))),
                            InstanceKind::Shim(ShimKind::FnPtr(..)) => o.push(("fnptr_shim", J::B(true))),
                            _ => {}
                        }
                        if self.wanted(i) {
                            let k = self.inst_key(i, root);
                            o.push(("inst", s(k.clone())));
                            if self.seen.insert(k.clone()) {
                                self.queue.push_back((i, root, k));
                            }
                        }
                    }
                    _ => o.push(("unresolved", J::B(true))),
                }
                J::O(o)
            }
            _ => J::O(vec![("ptr", J::B(true))]),
        }
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let start = off as usize;
                let end = match len {
                    Some(l) => start + l as usize,
                    None => a.len(),
                };
                if end > a.len() {
                    return None;
                }
                // no relocations inside
                if !a.provenance().ptrs().is_empty() {
                    return None;
                }
                let _ = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(end as u64 - off) };
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(start..end).to_vec())
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        if let ty::FnDef(..) = t.kind() {
            let cj = self.callee(t, env, root);
            o.push(("fn", cj));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let args = tcx.erase_and_anonymize_regions(u.args);
                let k = format!(
                    "promoted:{}:{:?}:{}{}",
                    path(tcx, u.def),
                    p,
                    with_no_trimmed_paths!(format!("{:?}", args)),
                    if args.has_param() { format!("#{}", path(tcx, root)) } else { String::new() }
                );
                if self.seen.insert(k.clone()) {
                    let b = tcx.promoted_mir(u.def)[p].clone();
                    let b = tcx.instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(tcx, b));
                    self.promo_queue.push_back((k.clone(), b, root));
                }
                o.push(("promoted", s(k)));
                return J::O(o);
            }
            o.push(("named", s(path(tcx, u.def))));
        }
        if let Ok(v) = c.eval(tcx, env, DUMMY_SP) {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let sz = i.size();
                    o.push(("bits", J::S(i.to_bits(sz).to_string())));
                    o.push(("size", J::I(sz.bytes() as i128)));
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    match tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Static(d)) => o.push(("static", s(path(tcx, d)))),
                        Some(GlobalAlloc::Memory(_)) => {
                            if let Some(b) = self.alloc_bytes(id, off.bytes(), None) {
                                o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta)) {
                        let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                        if is_str {
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                        } else {
                            o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                        }
                    }
                }
                ConstValue::Indirect { .. } => {}
            }
        }
        o.push(("r", s(with_no_trimmed_paths!(format!("{}", c)))));
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    J::A(vec![s("f"), i(f.as_u32()), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), i(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_u32())]),
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(vec![i(p.local.as_u32()), J::A(v)])
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(&c.const_, env, root))]),
            Operand::RuntimeChecks(_) => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, root: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let a = |v: Vec<J>| J::A(v);
        match r {
            Rvalue::Use(o, ..) => {
                let x = self.operand(o, env, root);
                a(vec![s("use"), x])
            }
            Rvalue::Repeat(o, n) => {
                let x = self.operand(o, env, root);
                a(vec![s("repeat"), x, s(format!("{}", n))])
            }
            Rvalue::Ref(_, k, p) => {
                let x = self.place(p);
                a(vec![s("ref"), s(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), x])
            }
            Rvalue::RawPtr(_, p) => {
                let x = self.place(p);
                a(vec![s("rawptr"), x])
            }
            Rvalue::ThreadLocalRef(d) => a(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, tcx);
                let from = self.ty(ot);
                let x = self.operand(o, env, root);
                let to = self.ty(*t);
                let ks = format!("{:?}", k);
                let ks = ks.split(|c| c == '(').next().unwrap().to_string();
                let ks = if let CastKind::PointerCoercion(c, _) = k { format!("Coerce{:?}", c) } else { ks };
                a(vec![s("cast"), s(ks), x, from, to])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                let x = self.operand(&ops.0, env, root);
                let y = self.operand(&ops.1, env, root);
                a(vec![s("bin"), s(format!("{:?}", b)), x, y, t])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                let x = self.operand(o, env, root);
                a(vec![s("un"), s(format!("{:?}", u)), x, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                let x = self.place(p);
                a(vec![s("discr"), x, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, env, root)).collect();
                match &**k {
                    AggregateKind::Array(_) => a(vec![s("agg"), s("array"), J::Null, J::Null, J::A(v)]),
                    AggregateKind::Tuple => a(vec![s("agg"), s("tuple"), J::Null, J::Null, J::A(v)]),
                    AggregateKind::Adt(d, vi, args, ..) => {
                                                let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        a(vec![s("agg"), s("adt"), t, i(vi.as_u32()), J::A(v)])
                    }
                    AggregateKind::Closure(d, args) => {
                                                let t = Ty::new_closure(tcx, *d, tcx.erase_and_anonymize_regions(args));
                        // enqueue the closure body itself so that it is available to the analyses
                        let k2 = args.as_closure().kind_ty().to_opt_closure_kind();
                        let inst = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(args));
                        let key = self.inst_key(inst, root);
                        if self.seen.insert(key.clone()) {
                            self.queue.push_back((inst, root, key.clone()));
                        }
                        let _ = k2;
                        let t = self.ty(t);
                        a(vec![s("agg"), s("closure"), t, s(key), J::A(v)])
                    }
                    _ => a(vec![s("agg"), s("other"), J::Null, J::Null, J::A(v)]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                let x = self.place(p);
                a(vec![s("use"), J::O(vec![("c", x)])])
            }
            _ => a(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(b.as_u32()),
            UnwindAction::Continue => s("cont"),
            _ => J::Null,
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_, l) in body.local_decls.iter_enumerated() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![i(p.local.as_u32()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0);
                        let r = self.rvalue(&bx.1, env, root, body);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, i(variant_index.as_u32())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_u32())])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(discr, env, root);
                    let ts = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), i(b.as_u32())]))
                        .collect();
                    J::A(vec![s("switch"), d, J::A(ts), i(targets.otherwise().as_u32()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let ptj = self.ty(pt);
                    let p = self.place(place);
                    let u = self.unwind(unwind);
                    J::A(vec![s("drop"), p, i(target.as_u32()), u, ptj])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = self.callee(ft, env, root);
                    let f = if matches!(ft.kind(), ty::FnDef(..)) { J::Null } else { self.operand(func, env, root) };
                    let av = args.iter().map(|x| self.operand(&x.node, env, root)).collect();
                    let d = self.place(destination);
                    let tg = target.map_or(J::Null, |b| i(b.as_u32()));
                    let u = self.unwind(unwind);
                    J::A(vec![s("call"), c, J::A(av), d, tg, u, f])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, env, root);
                    let (mk, mops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, env, root);
                            let x = self.operand(index, env, root);
                            ("bounds".into(), vec![l, x])
                        }
                        AssertKind::Overflow(b, x, y) => {
                            let x = self.operand(x, env, root);
                            let y = self.operand(y, env, root);
                            (format!("overflow:{:?}", b), vec![x, y])
                        }
                        AssertKind::OverflowNeg(x) => {
                            let x = self.operand(x, env, root);
                            ("overflow:Neg".into(), vec![x])
                        }
                        AssertKind::DivisionByZero(x) => {
                            let x = self.operand(x, env, root);
                            ("divzero".into(), vec![x])
                        }
                        AssertKind::RemainderByZero(x) => {
                            let x = self.operand(x, env, root);
                            ("remzero".into(), vec![x])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    let u = self.unwind(unwind);
                    J::A(vec![s("assert"), c, J::B(*expected), s(mk), J::A(mops), i(target.as_u32()), u])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                _ => J::A(vec![s("otherterm")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        vec![
            ("argc", i(body.arg_count as u64)),
            ("spread", body.spread_arg.map_or(J::Null, |l| i(l.as_u32()))),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn has_trait<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, tr: DefId, owner: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::post_analysis(tcx, owner));
    infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D {
        tcx,
        queue: VecDeque::new(),
        seen: HashSet::new(),
        types: HashMap::new(),
        type_out: vec![],
        type_queue: vec![],
        promo_queue: VecDeque::new(),
    };
    let eff = tcx.effective_visibilities(());
    // roots: every local fn-like body
    let mut roots = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                if !tcx.is_mir_available(did) {
                    continue;
                }
                let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
                let inst = Instance::new_raw(did, args);
                let k = d.inst_key(inst, did);
                let mut o = vec![("path", s(path(tcx, did))), ("nice", s(nice(tcx, did))), ("inst", s(k.clone()))];
                o.push(("name", s(tcx.item_name(did).to_string())));
                o.push(("span", d.span(tcx.def_span(did))));
                let vis = if tcx.trait_of_assoc(did).is_none() && tcx.impl_of_assoc(did).map_or(false, |im| tcx.impl_opt_trait_ref(im).is_some()) {
                    true
                } else {
                    eff.is_reachable(ld) && tcx.visibility(did).is_public()
                };
                o.push(("pub", J::B(vis)));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::B(sig.skip_binder().safety().is_unsafe())));
                let sigin: Vec<J> = sig.skip_binder().inputs().iter().map(|t| s(tystr(*t))).collect();
                o.push(("inputs", J::A(sigin)));
                o.push(("output", s(tystr(sig.skip_binder().output()))));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self", s(tystr(st))));
                    if let ty::Adt(ad, _) = st.kind() {
                        o.push(("selfpath", s(path(tcx, ad.did()))));
                    }
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("trait", s(path(tcx, tr.skip_binder().def_id))));
                        o.push(("traitref", s(with_no_trimmed_paths!(format!("{}", tr.skip_binder())))));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                }
                roots.push(J::O(o));
                if d.seen.insert(k.clone()) {
                    d.queue.push_back((inst, did, k));
                }
            }
            _ => {}
        }
    }
    let mut insts = vec![];
    loop {
        if let Some((inst, root, k)) = d.queue.pop_front() {
            let env = TypingEnv::post_analysis(tcx, root);
            let raw = tcx.instance_mir(inst.def).clone();
            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw));
            let mut o = vec![("key", s(k))];
            let did = inst.def_id();
            o.push(("path", s(path(tcx, did))));
            o.push(("nice", s(nice(tcx, did))));
            o.push(("local", J::B(did.is_local())));
            o.push(("span", d.span(tcx.def_span(did))));
            o.push((
                "ikind",
                s(match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "once_shim",
                    _ => "other",
                }),
            ));
            o.push(("closure", J::B(matches!(tcx.def_kind(did), DefKind::Closure))));
            o.extend(d.body(&body, env, root));
            insts.push(J::O(o));
            continue;
        }
        if let Some((k, body, root)) = d.promo_queue.pop_front() {
            let env = TypingEnv::post_analysis(tcx, root);
            let mut o = vec![("key", s(k.clone())), ("path", s(k)), ("nice", s("promoted")), ("local", J::B(true)), ("span", s("")), ("ikind", s("promoted")), ("closure", J::B(false))];
            o.extend(d.body(&body, env, root));
            insts.push(J::O(o));
            continue;
        }
        break;
    }
    // local ADTs
    let mut adts = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let clone = tcx.lang_items().clone_trait();
    let copy = tcx.lang_items().copy_trait();
    let unpin = tcx.lang_items().unpin_trait();
    let _ = unpin;
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let tid = d.ty(t);
        let mut o = vec![("path", s(path(tcx, did))), ("nice", s(nice(tcx, did))), ("ty", tid)];
        o.push(("name", s(tcx.item_name(did).to_string())));
        o.push(("span", d.span(tcx.def_span(did))));
        o.push(("pub", J::B(eff.is_reachable(ld) && tcx.visibility(did).is_public())));
        let te = tcx.erase_and_anonymize_regions(t);
        let q = |tr: Option<DefId>| tr.map_or(J::Null, |x| J::B(has_trait(tcx, te, x, did)));
        o.push(("send", q(send)));
        o.push(("sync", q(sync)));
        o.push(("clone", q(clone)));
        o.push(("copy", q(copy)));
        if let Some(dt) = tcx.adt_destructor(did) {
            o.push(("drop", s(path(tcx, dt.did))));
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, dt.did));
            let inst = Instance::new_raw(dt.did, args);
            o.push(("drop_inst", s(d.inst_key(inst, dt.did))));
        }
        adts.push(J::O(o));
    }
    // impls (local), statics
    let mut impls = vec![];
    let mut statics = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", s(tystr(st))), ("span", d.span(tcx.def_span(did)))];
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        o.push(("trait", s(path(tcx, tr.skip_binder().def_id))));
                    }
                    let h = tcx.impl_trait_header(did);
                    o.push(("unsafe", J::B(h.safety.is_unsafe())));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                impls.push(J::O(o));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tj = d.ty(t);
                statics.push(J::O(vec![
                    ("path", s(path(tcx, did))),
                    ("mut", J::B(mutability.is_mut())),
                    ("ty", tj),
                    ("span", d.span(tcx.def_span(did))),
                ]));
            }
            _ => {}
        }
    }
    // unsafe blocks
    let mut uns = UnsafeV { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uns);
    let unsafe_out: Vec<J> = {
        let v = std::mem::take(&mut uns.out);
        v.into_iter()
            .map(|(f, sp)| J::O(vec![("fn", s(f)), ("span", d.span(sp))]))
            .collect()
    };
    let _ = LOCAL_CRATE;
    let types = std::mem::take(&mut d.type_out);
    let out = J::O(vec![
        ("roots", J::A(roots)),
        ("insts", J::A(insts)),
        ("types", J::A(types)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("unsafe", J::A(unsafe_out)),
    ]);
    let mut o = String::new();
    out.write(&mut o);
    o
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // format_args!-internal unsafe blocks come from std's expansion
            if !b.span.from_expansion() {
                let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
                self.out.push((path(self.tcx, owner.to_def_id()), b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
