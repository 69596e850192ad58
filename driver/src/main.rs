//! rustc wrapper: compiles the crate named by MIRDUMP_CRATE like rustc would and, after analysis,
//! writes its type-checked, drop-elaborated MIR (plus item/impl/type facts) as JSON to MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    /// unambiguous identity of a definition
    fn id(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    /// the regions in a type, each with the type constructor it is an argument of
    fn regions(&self, t: Ty<'tcx>, out: &mut Vec<String>) {
        let name = |r: ty::Region<'tcx>| match r.kind() {
            ty::ReStatic => "'static".to_string(),
            ty::ReEarlyParam(p) => p.name.to_string(),
            ty::ReBound(_, b) => format!("#{}", b.var.as_u32()),
            _ => format!("{:?}", r),
        };
        let args = |a: ty::GenericArgsRef<'tcx>, c: String, out: &mut Vec<String>| {
            for x in a.iter() {
                if let Some(r) = x.as_region() {
                    out.push(format!("[{},{}]", esc(&name(r)), esc(&c)));
                } else if let Some(t) = x.as_type() {
                    self.regions(t, out);
                }
            }
        };
        match t.kind() {
            ty::Ref(r, t, m) => {
                out.push(format!("[{},{}]", esc(&name(*r)), if m.is_mut() { "\"&mut\"" } else { "\"&\"" }));
                self.regions(*t, out);
            }
            ty::Adt(d, a) => args(a, self.path(d.did()), out),
            ty::Tuple(ts) => ts.iter().for_each(|t| self.regions(t, out)),
            ty::Slice(t) | ty::Array(t, _) => self.regions(*t, out),
            ty::RawPtr(t, _) => self.regions(*t, out),
            ty::Alias(..) => {
                for x in t.walk() {
                    if let Some(r) = x.as_region() {
                        out.push(format!("[{},\"impl\"]", esc(&name(r))));
                    }
                }
            }
            ty::Dynamic(_, r) => out.push(format!("[{},\"dyn\"]", esc(&name(*r)))),
            _ => {}
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = esc(&t.to_string());
        let body = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("\"k\":\"prim\"")
            }
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!(
                    "\"k\":\"adt\",\"id\":{},\"path\":{},\"args\":{}",
                    esc(&self.id(def.did())),
                    esc(&self.path(def.did())),
                    arr(a)
                )
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x)
            }
            ty::Slice(inner) => {
                let x = self.ty(*inner);
                format!("\"k\":\"slice\",\"of\":{}", x)
            }
            ty::Array(inner, n) => {
                let x = self.ty(*inner);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"of\":{},\"n\":{}", x, n)
            }
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", arr(a))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"id\":{},\"upvars\":{}", esc(&self.id(*d)), arr(ups))
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"id\":{}", esc(&self.id(*d))),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Alias(..) => format!("\"k\":\"alias\""),
            ty::Dynamic(..) => format!("\"k\":\"dyn\""),
            _ => format!("\"k\":\"other\""),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None if def.is_enum() => rustc_abi::VariantIdx::from_u32(0),
                                None => rustc_abi::FIRST_VARIANT,
                            };
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{},{},{}]", f.as_usize(), esc(&name), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"v\",{},{}]",
                    v.as_usize(),
                    n.map(|x| esc(x.as_str())).unwrap_or("null".into())
                ),
                _ => "[\"?\"]".to_string(),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut o = format!(
            "\"id\":{},\"path\":{},\"targs\":{}",
            esc(&self.id(d)),
            esc(&self.path(d)),
            arr(targs)
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once_shim",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                    ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                    _ => "other",
                };
                let ra: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(
                    o,
                    ",\"res\":{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"targs\":{},\"local\":{}}}",
                    esc(&self.id(rd)),
                    esc(&self.path(rd)),
                    kind,
                    arr(ra),
                    rd.is_local()
                );
            }
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.safety().is_unsafe() {
                o.push_str(",\"unsafe\":true");
            }
        }
        o
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("[\"k\",{{\"ty\":{}", ti);
        if let ty::FnDef(d, args) = t.kind() {
            let x = self.callee(env, *d, args.skip_binder());
            let _ = write!(o, ",\"fn\":{{{}}}", x);
        } else {
            if let Const::Unevaluated(u, _) = c {
                let _ = write!(o, ",\"uneval\":{}", esc(&self.id(u.def)));
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"promoted\":{}", p.as_usize());
                }
                let targs: Vec<String> = u.args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"targs\":{}", arr(targs));
            }
            let is_generic = {
                use rustc_middle::ty::TypeVisitableExt;
                match c {
                    Const::Unevaluated(u, _) => u.args.has_param() ,
                    Const::Ty(..) => true,
                    _ => false,
                }
            };
            if !is_generic {
                if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    match v {
                        ConstValue::Scalar(s) => {
                            if let Ok(i) = s.try_to_scalar_int() {
                                let sz = i.size();
                                let _ = write!(o, ",\"val\":{}", i.to_bits(sz));
                            } else {
                                o.push_str(",\"ptr\":true");
                            }
                        }
                        ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                        ConstValue::Slice { .. } => {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                if let Ok(s) = std::str::from_utf8(b) {
                                    let _ = write!(o, ",\"str\":{}", esc(s));
                                }
                            }
                        }
                        ConstValue::Indirect { .. } => o.push_str(",\"indirect\":true"),
                    }
                }
            }
            let _ = write!(o, ",\"dbg\":{}", esc(&format!("{}", c)));
        }
        o.push_str("}]");
        o
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, op: &Operand<'tcx>, body: &Body<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => self.konst(env, &c.const_),
            _ => "[\"?\"]".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, o, body)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(env, o, body), n)
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p, body)
            ),
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(p, body))
            }
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, self.tcx);
                let ot = self.ty(ot);
                let kind = format!("{:?}", k);
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&kind), self.operand(env, o, body), ti, ot)
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(env, &ab.0, body),
                self.operand(env, &ab.1, body)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(env, a, body))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<String> = ops.iter().map(|o| self.operand(env, o, body)).collect();
                let f = arr(f);
                match &**k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), f),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", f),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*v).name.to_string();
                        let names: Vec<String> = match af {
                            Some(ix) => vec![esc(def.variant(*v).fields[*ix].name.as_str())],
                            None => def.variant(*v).fields.iter().map(|x| esc(x.name.as_str())).collect(),
                        };
                        let ta: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                        format!(
                            "[\"agg\",\"adt\",{{\"id\":{},\"path\":{},\"variant\":{},\"vname\":{},\"names\":{},\"active\":{},\"targs\":{},\"enum\":{}}},{}]",
                            esc(&self.id(*d)),
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(&vn),
                            arr(names),
                            af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                            arr(ta),
                            def.is_enum(),
                            f
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", esc(&self.id(*d)), f)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,{}]", f),
                    _ => format!("[\"agg\",\"other\",null,{}]", f),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{},null]", t),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(env, &b.1, body);
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(format!("[\"setd\",{},{},{}]", p, variant_index.as_usize(), sp));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), sp));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let te = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(env, discr, body);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        o,
                        dt,
                        arr(v),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => format!("[\"ret\",{}]", sp),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place, body),
                        target.as_usize(),
                        unw(unwind),
                        ti,
                        sp
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(env, func, body);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(env, &x.node, body)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination, body),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                        unw(unwind),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(env, len, body),
                            self.operand(env, index, body)
                        ),
                        m => format!("[{}]", esc(&format!("{:?}", m).chars().take(40).collect::<String>())),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(env, cond, body),
                        expected,
                        k,
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("[{},{},{}]", bb.is_cleanup, arr(st), te));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(blocks)
        )
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (b, ctfe): (&Body<'tcx>, bool) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if matches!(kind, DefKind::Closure) && tcx.is_coroutine(d) {
                        continue;
                    }
                    (tcx.optimized_mir(d), false)
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    (tcx.mir_for_ctfe(d), true)
                }
                DefKind::Ctor(..) => continue,
                _ => continue,
            };
            let bs = self.body(b, d);
            let mut pr = vec![];
            if true {
                for p in tcx.promoted_mir(d).iter() {
                    let x = self.body(p, d);
                    pr.push(format!("{{{}}}", x));
                }
            }
            let parent = tcx.opt_parent(d);
            let mut imp = String::from("null");
            let mut root = d;
            while matches!(tcx.def_kind(root), DefKind::Closure) {
                root = tcx.parent(root);
            }
            if let Some(p) = tcx.opt_parent(root) {
                match tcx.def_kind(p) {
                    DefKind::Impl { of_trait } => {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let sti = self.ty(st);
                        let tr = if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            format!("[{},{}]", esc(&self.path(tr.def_id)), esc(&tr.to_string()))
                        } else {
                            "null".into()
                        };
                        imp = format!(
                            "{{\"id\":{},\"self\":{},\"trait\":{}}}",
                            esc(&self.id(p)),
                            sti,
                            tr
                        );
                    }
                    DefKind::Trait => {
                        imp = format!("{{\"trait_default\":{}}}", esc(&self.path(p)));
                    }
                    _ => {}
                }
            }
            let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or("{closure}".into());
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
            let unsafe_ = isfn && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let gens: Vec<String> = {
                let mut v = vec![];
                let mut g = Some(tcx.generics_of(d));
                while let Some(x) = g {
                    for p in &x.own_params {
                        v.push(esc(p.name.as_str()));
                    }
                    g = x.parent.map(|p| tcx.generics_of(p));
                }
                v
            };
            let sig = if isfn {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig
                    .inputs()
                    .iter()
                    .map(|t| {
                        let mut v = vec![];
                        self.regions(*t, &mut v);
                        arr(v)
                    })
                    .collect();
                let mut out = vec![];
                self.regions(sig.output(), &mut out);
                format!("{{\"in\":{},\"out\":{},\"text\":{}}}", arr(ins), arr(out), esc(&format!("{:?}", sig)))
            } else {
                "null".into()
            };
            bodies.push(format!(
                "{{\"sig\":{},\"id\":{},\"path\":{},\"name\":{},\"kind\":{},\"ctfe\":{},\"pub\":{},\"reach\":{},\"unsafe\":{},\"impl\":{},\"parent\":{},\"gens\":{},\"span\":{},\"promoted\":{},{}}}",
                sig,
                esc(&self.id(d)),
                esc(&self.path(d)),
                esc(&name),
                esc(&format!("{:?}", kind)),
                ctfe,
                matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.visibility(d).is_public(),
                ev.is_reachable(*ld),
                unsafe_,
                imp,
                parent.map(|p| esc(&self.id(p))).unwrap_or("null".into()),
                arr(gens),
                self.span(tcx.def_span(d)),
                arr(pr),
                bs
            ));
        }
        // items
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs: Vec<String> = def
                        .variants()
                        .iter()
                        .map(|v| {
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                    let t = self.ty(t);
                                    format!(
                                        "[{},{},{}]",
                                        esc(f.name.as_str()),
                                        t,
                                        f.vis.is_public()
                                    )
                                })
                                .collect();
                            format!("[{},{}]", esc(v.name.as_str()), arr(fs))
                        })
                        .collect();
                    adts.push(format!(
                        "{{\"id\":{},\"path\":{},\"kind\":{},\"repr\":{},\"variants\":{},\"reach\":{},\"span\":{}}}",
                        esc(&self.id(d)),
                        esc(&self.path(d)),
                        esc(&format!("{:?}", tcx.def_kind(d))),
                        esc(&format!("{:?}", def.repr())),
                        arr(vs),
                        ev.is_reachable(ld),
                        self.span(tcx.def_span(d))
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let (tr, uns, neg) = if of_trait {
                        let h = tcx.impl_trait_header(d);
                        let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                        (
                            format!("[{},{}]", esc(&self.path(tr.def_id)), esc(&tr.to_string())),
                            h.safety.is_unsafe(),
                            matches!(h.polarity, ty::ImplPolarity::Negative),
                        )
                    } else {
                        ("null".into(), false, false)
                    };
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| {
                            let b = match i.trait_item_def_id() {
                                Some(t) => esc(&self.id(t)),
                                None => "null".into(),
                            };
                            format!("[{},{},{}]", esc(&self.id(i.def_id)), esc(i.opt_name().map(|x| x.to_string()).unwrap_or_default().as_str()), b)
                        })
                        .collect();
                    let ps: Vec<String> = vec![];
                    // which fields have the auto trait that is claimed by an unsafe impl
                    let mut auto = String::from("null");
                    if of_trait && uns {
                        let h = tcx.impl_trait_header(d);
                        let trd = h.trait_ref.instantiate_identity().skip_norm_wip();
                        let send = Some(trd.def_id) == tcx.get_diagnostic_item(rustc_span::sym::Send);
                        let sync = Some(trd.def_id) == tcx.lang_items().sync_trait();
                        if send || sync {
                            if let ty::Adt(def, args) = trd.self_ty().kind() {
                                let env = tcx.param_env(d);
                                let te = TypingEnv::non_body_analysis(tcx, d);
                                let (infcx, _) = tcx.infer_ctxt().build_with_typing_env(te);
                                let v: Vec<String> = def
                                    .all_fields()
                                    .map(|f| {
                                        let t = f.ty(tcx, args).skip_norm_wip();
                                        let ok = infcx.type_implements_trait(trd.def_id, [t], env).must_apply_modulo_regions();
                                        format!("[{},{},{}]", esc(f.name.as_str()), esc(&t.to_string()), ok)
                                    })
                                    .collect();
                                auto = arr(v);
                            }
                        }
                    }
                    impls.push(format!(
                        "{{\"auto\":{auto},\"id\":{},\"self\":{},\"trait\":{},\"unsafe\":{},\"neg\":{},\"items\":{},\"preds\":{},\"span\":{}}}",
                        esc(&self.id(d)),
                        st,
                        tr,
                        uns,
                        neg,
                        arr(items),
                        arr(ps),
                        self.span(tcx.def_span(d))
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| {
                            format!(
                                "[{},{},{}]",
                                esc(&self.id(i.def_id)),
                                esc(i.opt_name().map(|x| x.to_string()).unwrap_or_default().as_str()),
                                i.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!(
                        "{{\"id\":{},\"path\":{},\"items\":{}}}",
                        esc(&self.id(d)),
                        esc(&self.path(d)),
                        arr(items)
                    ));
                }
                _ => {}
            }
        }
        format!(
            "{{\"crate\":{},\"bodies\":{},\n\"adts\":{},\n\"impls\":{},\n\"traits\":{},\n\"tys\":{}}}\n",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            format!("[{}]", bodies.join(",\n")),
            arr(adts),
            arr(impls),
            arr(traits),
            format!("[{}]", self.ty_out.join(",\n")),
        )
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut d = D { tcx, tys: HashMap::new(), ty_out: vec![] };
        let s = d.run();
        std::fs::write(&out, s).expect("write dump");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args
        .iter()
        .position(|x| x == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if !krate.is_empty() && krate == want && std::env::var("MIRDUMP_OUT").is_ok() {
        args.extend(
            ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=off", "-Coverflow-checks=on", "-Zalways-encode-mir=no"]
                .iter()
                .map(|x| x.to_string()),
        );
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
