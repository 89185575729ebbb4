#![feature(rustc_private)]
#![allow(rustc::internal)]
//! MIR exporter: runs as RUSTC_WRAPPER, and for the target crate writes a JSON file with the
//! type-checked, monomorphic MIR of every local function and of everything they reach.
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => js(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.out(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    js(k, o);
                    o.push(':');
                    x.out(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    js(k, o);
                    o.push(':');
                    x.out(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i128) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    stop: Vec<String>,
    tys: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    insts: Vec<J>,
    inst_ix: HashMap<Instance<'tcx>, usize>,
    bodies: Vec<J>,
    body_ix: HashMap<(Instance<'tcx>, Option<usize>), usize>, // promoted index
    const_ix: HashMap<(DefId, ty::GenericArgsRef<'tcx>), usize>,
    queue: VecDeque<Job<'tcx>>,
}
enum Job<'tcx> {
    Inst(usize, Instance<'tcx>),
    Promoted(usize, Instance<'tcx>, usize),
    Const(usize, DefId, ty::GenericArgsRef<'tcx>),
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&x) = self.ty_ix.get(&t) { return x; }
        let ix = self.tys.len();
        self.ty_ix.insert(t, ix);
        self.tys.push(J::N);
        let tcx = self.tcx;
        let name = s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)));
        let mut o: Vec<(&'static str, J)> = vec![("n", name)];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s(if t.is_signed() { "int" } else { "uint" })));
                let bits = t.primitive_size(tcx).bits() as usize;
                o.push(("bits", i(bits)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(tcx.def_path_str(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("box", J::B(def.is_box())));
                o.push(("union", J::B(def.is_union())));
                let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|a| i(self.ty(a))).collect();
                o.push(("args", J::A(targs)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(tcx, vi);
                        match d.ty.kind() {
                            ty::Int(_) => rustc_abi::Size::from_bits(d.ty.primitive_size(tcx).bits()).sign_extend(d.val),
                            _ => d.val as i128,
                        }
                    } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        let fj = i(self.ty(ft));
                        fs.push(J::A(vec![s(f.name.as_str()), fj, J::B(f.vis.is_public())]));
                    }
                    vs.push(J::O(vec![("n", s(v.name.as_str())), ("d", J::I(discr)), ("f", J::A(fs))]));
                }
                o.push(("vs", J::A(vs)));
            }
            ty::Ref(_, u, m) => {
                o.push(("k", s("ref")));
                let x = self.ty(u);
                o.push(("to", i(x)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(u, m) => {
                o.push(("k", s("ptr")));
                let x = self.ty(u);
                o.push(("to", i(x)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| i(self.ty(x))).collect();
                o.push(("f", J::A(v)));
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                let x = self.ty(e);
                o.push(("of", i(x)));
                o.push(("len", n.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::N)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let x = self.ty(e);
                o.push(("of", i(x)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(tcx.def_path_str(d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| i(self.ty(x))).collect();
                o.push(("f", J::A(up)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(tcx.def_path_str(d))));
                if !args.skip_binder().has_param() {
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), d, args.no_bound_vars().unwrap()) {
                        let x = self.inst(inst);
                        o.push(("inst", i(x)));
                    }
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[ix] = J::O(o);
        ix
    }

    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{:?}", o),
        };
        J::A(vec![s(f), i(lo.line)])
    }

    fn stopped(&self, path: &str) -> bool {
        self.stop.iter().any(|p| path.starts_with(p.as_str()))
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&x) = self.inst_ix.get(&inst) { return x; }
        let ix = self.insts.len();
        self.inst_ix.insert(inst, ix);
        self.insts.push(J::N);
        self.queue.push_back(Job::Inst(ix, inst));
        ix
    }

    fn do_inst(&mut self, ix: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = tcx.def_path_str(did);
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(sk) => match sk {
                ty::ShimKind::VTable(_) => "vtshim",
                ty::ShimKind::Reify(..) => "reify",
                ty::ShimKind::FnPtr(..) => "fnptrshim",
                ty::ShimKind::ClosureOnce { .. } => "onceshim",
                ty::ShimKind::DropGlue(..) => "dropglue",
                ty::ShimKind::Clone(..) => "cloneshim",
                _ => "othershim",
            },
        };
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(path.clone())),
            ("full", s(full)),
            ("kind", s(kind)),
            ("local", J::B(did.is_local())),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("loc", self.loc(tcx.def_span(did))),
            ("krate", s(tcx.crate_name(did.krate).as_str())),
        ];
        if let InstanceKind::Virtual(_, n) = inst.def { o.push(("vidx", i(n))); }
        let gargs: Vec<Ty<'tcx>> = inst.args.iter().filter_map(|a| a.as_type()).collect();
        let gj = gargs.iter().map(|t| i(self.ty(*t))).collect();
        o.push(("gargs", J::A(gj)));
        if let Some(imp) = tcx.impl_of_assoc(did) {
            if tcx.impl_is_of_trait(imp) {
                let tr = tcx.impl_trait_ref(imp).skip_binder();
                o.push(("trait", s(tcx.def_path_str(tr.def_id))));
                o.push(("self", s(format!("{}", tr.self_ty()))));
                #[allow(deprecated)]
                let der = tcx.is_automatically_derived(imp);
                o.push(("derived", J::B(der)));
            }
        } else if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("intrait", s(tcx.def_path_str(t))));
        }
        let has_body = match inst.def {
            InstanceKind::Item(d) => {
                !tcx.is_foreign_item(d)
                    && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))
                    && tcx.is_mir_available(d)
            }
            InstanceKind::Shim(
                ty::ShimKind::FnPtr(..) | ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::Clone(..) | ty::ShimKind::Reify(..) | ty::ShimKind::VTable(..),
            ) => true,
            _ => false,
        };
        let stop = !did.is_local() && self.stopped(&path);
        o.push(("stopped", J::B(stop)));
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            // tuple constructors used as functions: variant index and type
            let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip().skip_binder();
            let out = tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(sig.output()));
            let oj = i(self.ty(out));
            let vix = match *out.kind() {
                ty::Adt(def, _) if def.is_enum() => def.variant_index_with_ctor_id(did).as_usize(),
                _ => 0,
            };
            o.push(("ctor", J::A(vec![oj, i(vix)])));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig).output();
            if let Ok(out) = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(out)) {
                let oj = i(self.ty(out));
                o.push(("ret", oj));
            }
        }
        if has_body && !stop {
            let b = self.bodies.len();
            self.bodies.push(J::N);
            self.body_ix.insert((inst, None), b);
            let body = tcx.instance_mir(inst.def);
            let j = self.body(inst, body);
            self.bodies[b] = j;
            o.push(("body", i(b)));
        } else {
            // auxiliary instances for the analysis models of library functions
            let mut aux = vec![];
            for t in gargs {
                let mut stack = vec![t];
                let mut n = 0;
                while let Some(t) = stack.pop() {
                    n += 1;
                    if n > 12 { break; }
                    if let Some(a) = self.aux(t) { aux.push((format!("{}", self.ty(t)), a)); }
                    match *t.kind() {
                        ty::Adt(_, args) => stack.extend(args.iter().filter_map(|a| a.as_type())),
                        ty::Ref(_, u, _) => stack.push(u),
                        _ => {}
                    }
                }
            }
            o.push(("aux", J::M(aux)));
        }
        self.insts[ix] = J::O(o);
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId, extra: &[Ty<'tcx>]) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
        let mut args: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
        args.extend(extra.iter().map(|x| ty::GenericArg::from(*x)));
        infcx
            .type_implements_trait(tr, args, ty::ParamEnv::empty())
            .must_apply_modulo_regions()
    }

    fn method(&mut self, tr: DefId, name: &str, args: &[Ty<'tcx>]) -> Option<usize> {
        let tcx = self.tcx;
        let m = tcx.associated_items(tr).in_definition_order().find(|a| a.opt_name().map(|n| n.as_str() == name).unwrap_or(false))?.def_id;
        let ga = tcx.mk_args_from_iter(args.iter().map(|x| ty::GenericArg::from(*x)));
        if tcx.generics_of(m).count() != ga.len() {
            return None;
        }
        let inst = Instance::try_resolve(tcx, self.env(), m, ga).ok()??;
        Some(self.inst(inst))
    }

    fn aux(&mut self, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if t.has_param() { return None; }
        let mut o: Vec<(&'static str, J)> = vec![];
        let mut todo = vec![];
        if let ty::Closure(d, args) = *t.kind() {
            let k = args.as_closure().kind();
            let inst = Instance::resolve_closure(tcx, d, args, k);
            let x = self.inst(inst);
            o.push(("call", i(x)));
            o.push(("ckind", s(format!("{:?}", k))));
        }
        if let ty::FnDef(d, args) = *t.kind() {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), d, args.no_bound_vars().unwrap()) {
                let x = self.inst(inst);
                o.push(("call", i(x)));
                o.push(("ckind", s("Fn")));
            }
        }
        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
            if self.implements(t, tr, &[]) { todo.push((tr, "next")); }
        }
        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator) {
            if self.implements(t, tr, &[]) { todo.push((tr, "into_iter")); }
        }
        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Clone) {
            if matches!(t.kind(), ty::Adt(d, _) if d.did().is_local()) && self.implements(t, tr, &[]) { todo.push((tr, "clone")); }
        }
        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Default) {
            if matches!(t.kind(), ty::Adt(..)) && self.implements(t, tr, &[]) { todo.push((tr, "default")); }
        }
        for (tr, name) in todo {
            if let Some(x) = self.method(tr, name, &[t]) { o.push((match name { "next" => "next", "into_iter" => "into_iter", "clone" => "clone", _ => "default" }, i(x))); }
        }
        if let Some(tr) = tcx.lang_items().eq_trait() {
            if matches!(t.kind(), ty::Adt(d, _) if d.did().is_local()) && self.implements(t, tr, &[t]) {
                if let Some(x) = self.method(tr, "eq", &[t, t]) { o.push(("eq", i(x))); }
            }
        }
        if o.is_empty() { None } else { Some(J::O(o)) }
    }

    fn mono<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>>>(&self, inst: Instance<'tcx>, x: T) -> T {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env(), EarlyBinder::bind(self.tcx, x))
    }

    fn place(&mut self, inst: Instance<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.mono(inst, t);
                    let tj = i(self.ty(t));
                    J::A(vec![s("f"), i(f.as_usize()), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_usize())]),
                o => J::A(vec![s("x"), s(format!("{:?}", o))]),
            });
        }
        J::A(v)
    }

    fn str_bytes(&self, alloc: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc) {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&mut self, inst: Instance<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let k = self.mono(inst, c.const_);
        let t = k.ty();
        let tj = i(self.ty(t));
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return match Instance::try_resolve(tcx, self.env(), d, args) {
                Ok(Some(x)) => {
                    let x = self.inst(x);
                    J::A(vec![s("k"), s("fn"), i(x), tj])
                }
                _ => J::A(vec![s("k"), s("fn?"), s(tcx.def_path_str(d)), tj]),
            };
        }
        if let Const::Unevaluated(u, _) = k {
            let scalarish = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_))
                || matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
            if !scalarish {
                if let Some(p) = u.promoted {
                    // args of the promoted = args of the instance
                    let pinst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                    let key = (pinst, Some(p.as_usize()));
                    let b = match self.body_ix.get(&key) {
                        Some(&b) => b,
                        None => {
                            let b = self.bodies.len();
                            self.bodies.push(J::N);
                            self.body_ix.insert(key, b);
                            self.queue.push_back(Job::Promoted(b, pinst, p.as_usize()));
                            b
                        }
                    };
                    return J::A(vec![s("k"), s("body"), i(b), tj, s("promoted")]);
                }
                let (did, args) = match Instance::try_resolve(tcx, self.env(), u.def, u.args) {
                    Ok(Some(x)) => (x.def_id(), x.args),
                    _ => (u.def, u.args),
                };
                if tcx.is_mir_available(did) {
                    let key = (did, args);
                    let b = match self.const_ix.get(&key) {
                        Some(&b) => b,
                        None => {
                            let b = self.bodies.len();
                            self.bodies.push(J::N);
                            self.const_ix.insert(key, b);
                            self.queue.push_back(Job::Const(b, did, args));
                            b
                        }
                    };
                    return J::A(vec![s("k"), s("body"), i(b), tj, s(tcx.def_path_str(did))]);
                }
            }
        }
        match k.eval(tcx, self.env(), c.span) {
            Ok(v) => self.const_value(v, t),
            Err(_) => J::A(vec![s("k"), s("opaque"), s("err"), tj]),
        }
    }

    fn const_agg(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) {
            return None;
        }
        let tj = i(self.ty(t));
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let variant = d.variant.map_or(0, |x| x.as_usize());
        let fields: Vec<J> = d.fields.iter().map(|(v, t)| self.const_value(*v, *t)).collect();
        Some(J::A(vec![s("k"), s("agg"), J::A(vec![i(variant), J::A(fields)]), tj]))
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let tj = i(self.ty(t));
        if let ty::Adt(d, _) = t.kind() {
            if d.is_enum() && d.variants().iter().any(|v| !v.fields.is_empty()) {
                if let Some(a) = self.const_agg(v, t) {
                    return a;
                }
            }
        }

                if let Some(sc) = v.try_to_scalar_int() {
                    let bits = sc.to_bits(sc.size());
                    let val: i128 = if t.is_signed() && sc.size().bytes() > 0 { sc.size().sign_extend(bits) } else { bits as i128 };
                    return J::A(vec![s("k"), s("int"), J::I(val), tj]);
                }
                match v {
                    ConstValue::ZeroSized => J::A(vec![s("k"), s("zst"), J::N, tj]),
                    ConstValue::Slice { alloc_id, meta } => {
                        if let Some(b) = self.str_bytes(alloc_id, 0, meta as usize) {
                            if let Ok(st) = String::from_utf8(b.clone()) {
                                return J::A(vec![s("k"), s("str"), s(st), tj]);
                            }
                            return J::A(vec![s("k"), s("bytes"), J::A(b.into_iter().map(|x| i(x as usize)).collect()), tj]);
                        }
                        J::A(vec![s("k"), s("opaque"), s("slice"), tj])
                    }
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        match tcx.global_alloc(aid) {
                            rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                                J::A(vec![s("k"), s("static"), s(tcx.def_path_str(d)), tj])
                            }
                            rustc_middle::mir::interpret::GlobalAlloc::Function { instance } => {
                                let x = self.inst(instance);
                                J::A(vec![s("k"), s("fnaddr"), i(x), tj])
                            }
                            rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                                let a = m.inner();
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                                J::A(vec![s("k"), s("mem"), J::A(bytes.into_iter().map(|x| i(x as usize)).collect()), tj, J::I(off.bytes() as i128)])
                            }
                            _ => J::A(vec![s("k"), s("opaque"), s("ptr"), tj]),
                        }
                    }
                    _ => {
                        if let Some(a) = self.const_agg(v, t) {
                            return a;
                        }
                        J::A(vec![s("k"), s("opaque"), s("indirect"), tj])
                    }
                }
    }

    fn operand(&mut self, inst: Instance<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(inst, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(inst, p)]),
            Operand::Constant(c) => self.constant(inst, c),
            Operand::RuntimeChecks(k) => J::A(vec![s("rc"), s(format!("{:?}", k))]),
        }
    }

    fn rvalue(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(inst, o)]),
            Rvalue::Repeat(o, n) => {
                let n = self.mono(inst, *n);
                let oj = self.operand(inst, o);
                J::A(vec![s("repeat"), oj, n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::N)])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(inst, p), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), self.place(inst, p), J::B(matches!(k, RawPtrKind::Mut)), s("raw")]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(inst, p), J::B(m.is_mut())]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.tcx.def_path_str(*d))]),
            Rvalue::Cast(k, o, t) => {
                let src = self.mono(inst, o.ty(&body.local_decls, self.tcx));
                let dst = self.mono(inst, *t);
                let oj = self.operand(inst, o);
                let sj = i(self.ty(src));
                let dj = i(self.ty(dst));
                let mut extra = J::N;
                let kn = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => {
                        extra = self.vtable(src, dst);
                        "Unsize".to_string()
                    }
                    CastKind::PointerCoercion(c, _) => {
                        if let (PointerCoercion::ClosureFnPointer(_), ty::Closure(d, a)) = (c, *src.kind()) {
                            let x = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                            extra = i(self.inst(x));
                        }
                        if let (PointerCoercion::ReifyFnPointer(_), ty::FnDef(d, a)) = (c, *src.kind()) {
                            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                            if let Ok(Some(x)) = Instance::try_resolve(self.tcx, self.env(), d, a) {
                                extra = i(self.inst(x));
                            }
                        }
                        format!("{:?}", c)
                    }
                    k => format!("{:?}", k),
                };
                J::A(vec![s("cast"), s(kn), oj, sj, dj, extra])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = self.mono(inst, b.0.ty(&body.local_decls, self.tcx));
                let tj = i(self.ty(t));
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(inst, &b.0), self.operand(inst, &b.1), tj])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.mono(inst, o.ty(&body.local_decls, self.tcx));
                let tj = i(self.ty(t));
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(inst, o), tj])
            }
            Rvalue::Discriminant(p) => {
                let t = self.mono(inst, p.ty(&body.local_decls, self.tcx).ty);
                let tj = i(self.ty(t));
                J::A(vec![s("discr"), self.place(inst, p), tj])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(inst, p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(inst, o)]),
            Rvalue::Aggregate(k, ops) => {
                let oj: Vec<J> = ops.iter().map(|o| self.operand(inst, o)).collect();
                let t = self.mono(inst, r.ty(&body.local_decls, self.tcx));
                let tj = i(self.ty(t));
                let (kn, var, act) = match **k {
                    AggregateKind::Array(_) => ("array", 0, J::N),
                    AggregateKind::Tuple => ("tuple", 0, J::N),
                    AggregateKind::Adt(_, v, _, _, act) => ("adt", v.as_usize(), act.map(|f| i(f.as_usize())).unwrap_or(J::N)),
                    AggregateKind::Closure(..) => {
                        // make sure the closure body is exported
                        if let ty::Closure(d, a) = *t.kind() {
                            let kk = a.as_closure().kind();
                            let x = Instance::resolve_closure(self.tcx, d, a, kk);
                            self.inst(x);
                        }
                        ("closure", 0, J::N)
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", 0, J::N),
                    _ => ("other", 0, J::N),
                };
                J::A(vec![s("agg"), s(kn), tj, i(var), J::A(oj), act])
            }
        }
    }

    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (Some(a), Some(b)) = (src.builtin_deref(true), dst.builtin_deref(true)) else {
            // Box<T> -> Box<dyn Trait>
            if let (ty::Adt(d1, a1), ty::Adt(_, a2)) = (src.kind(), dst.kind()) {
                if d1.is_box() {
                    return self.vtable_inner(a1.type_at(0), a2.type_at(0));
                }
            }
            return J::N;
        };
        let _ = tcx;
        self.vtable_inner(a, b)
    }

    fn vtable_inner(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (a, b) = tcx.struct_lockstep_tails_for_codegen(a, b, self.env());
        match (a.kind(), b.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                J::A(vec![s("slice"), n.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::N)])
            }
            (_, ty::Dynamic(preds, _)) if !matches!(a.kind(), ty::Dynamic(..)) => {
                let mut es = vec![];
                if let Some(p) = preds.principal() {
                    let tr = tcx.instantiate_bound_regions_with_erased(p.with_self_ty(tcx, a));
                    let tr = tcx.erase_and_anonymize_regions(tr);
                    for e in tcx.vtable_entries(tr) {
                        es.push(match e {
                            ty::VtblEntry::Method(m) => i(self.inst(*m)),
                            _ => J::N,
                        });
                    }
                }
                let aj = i(self.ty(a));
                J::A(vec![s("dyn"), aj, J::A(es)])
            }
            _ => J::N,
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.mono(inst, l.ty);
            locals.push(i(self.ty(t)));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(inst, &p)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(inst, &b.0);
                        let r = self.rvalue(inst, body, &b.1);
                        let line = self.line(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(inst, place), i(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_usize())])),
                    StatementKind::Intrinsic(b) => match &**b {
                        NonDivergingIntrinsic::Assume(o) => st.push(J::A(vec![s("assume"), self.operand(inst, o)])),
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push(J::A(vec![s("cno")])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.mono(inst, discr.ty(&body.local_decls, tcx));
                    let signed = dt.is_signed();
                    let bits = match *dt.kind() {
                        ty::Bool => 8,
                        ty::Char => 32,
                        _ => dt.primitive_size(tcx).bits(),
                    };
                    let dj = i(self.ty(dt));
                    let v = targets
                        .iter()
                        .map(|(v, b)| {
                            let vv: i128 = if signed { rustc_abi::Size::from_bits(bits).sign_extend(v) } else { v as i128 };
                            J::A(vec![J::I(vv), i(b.as_usize())])
                        })
                        .collect();
                    J::A(vec![s("switch"), self.operand(inst, discr), J::A(v), i(targets.otherwise().as_usize()), dj])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = self.mono(inst, place.ty(&body.local_decls, tcx).ty);
                    let dj = i(self.ty(dt));
                    J::A(vec![s("drop"), self.place(inst, place), i(target.as_usize()), dj])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(inst, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(inst, &x.node)).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(inst, destination),
                        target.map(|t| i(t.as_usize())).unwrap_or(J::N),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(inst, len), self.operand(inst, index)])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(inst, a), self.operand(inst, b)])
                        }
                        m => J::A(vec![s(format!("{:?}", m).split('(').next().unwrap_or("").to_string())]),
                    };
                    J::A(vec![s("assert"), self.operand(inst, cond), J::B(*expected), m, i(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize())])
                }
                o => J::A(vec![s("other"), s(format!("{:?}", o))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("loc", loc), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("name", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst)))),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::N)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("loc", self.loc(body.span)),
        ])
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        i(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.debug_assertions = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let out = std::env::var("LOLV_OUT").expect("LOLV_OUT");
        let stop: Vec<String> = std::env::var("LOLV_STOP").unwrap_or_default().split('\n').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let mut cx = Cx {
            tcx,
            stop,
            tys: vec![],
            ty_ix: HashMap::new(),
            insts: vec![],
            inst_ix: HashMap::new(),
            bodies: vec![],
            body_ix: HashMap::new(),
            const_ix: HashMap::new(),
            queue: VecDeque::new(),
        };
        let mut roots = vec![];
        let mut iters = vec![];
        let mut generic = vec![];
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let path = tcx.def_path_str(d);
                    let unsafety = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
                    let g = tcx.generics_of(d);
                    let has_ty = g.requires_monomorphization(tcx);
                    let vis = tcx.effective_visibilities(()).is_reachable(id);
                    if !tcx.is_mir_available(d) { continue; }
                    items.push(J::O(vec![("kind", s("fn")), ("path", s(path.clone())), ("generic", J::B(has_ty)), ("unsafe", J::B(unsafety)), ("reachable", J::B(vis)), ("loc", cx.loc(tcx.def_span(d)))]));
                    if has_ty {
                        generic.push(s(path));
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, cx.env(), d, args) {
                        let x = cx.inst(inst);
                        roots.push(i(x));
                        let out = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip()).output();
                        let out = tcx.normalize_erasing_regions(cx.env(), rustc_middle::ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(out)));
                        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                            if !matches!(out.kind(), ty::Ref(..)) && cx.implements(out, tr, &[]) {
                                if let Some(n) = cx.method(tr, "next", &[out]) {
                                    let t = cx.ty(out);
                                    iters.push(J::O(vec![("fn", i(x)), ("ty", i(t)), ("next", i(n))]));
                                }
                            }
                        }
                    }
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let path = tcx.def_path_str(d);
                    let g = tcx.generics_of(d);
                    let vis = tcx.effective_visibilities(()).is_reachable(id);
                    let mut o = vec![("kind", s("adt")), ("path", s(path)), ("reachable", J::B(vis)), ("generic", J::B(g.requires_monomorphization(tcx))), ("loc", cx.loc(tcx.def_span(d)))];
                    if !g.requires_monomorphization(tcx) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let t = tcx.erase_and_anonymize_regions(t);
                        o.push(("ty", i(cx.ty(t))));
                        let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(cx.env());
                        let mut has = vec![];
                        for (n, tr, bin) in [
                            ("Send", tcx.get_diagnostic_item(rustc_span::sym::Send), false),
                            ("Sync", tcx.lang_items().sync_trait(), false),
                            ("Clone", tcx.lang_items().clone_trait(), false),
                            ("Copy", tcx.lang_items().copy_trait(), false),
                            ("Drop", tcx.lang_items().drop_trait(), false),
                            ("PartialEq", tcx.lang_items().eq_trait(), true),
                        ] {
                            let Some(tr) = tr else { continue };
                            let yes = if bin { infcx.type_implements_trait(tr, [t, t], pe) } else { infcx.type_implements_trait(tr, [t], pe) };
                            if yes.must_apply_modulo_regions() { has.push(s(n)); }
                        }
                        o.push(("has", J::A(has)));
                        o.push(("lifetimes", J::B(!g.own_params.is_empty())));
                    }
                    items.push(J::O(o));
                }
                DefKind::Static { mutability, nested, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, cx.env());
                    items.push(J::O(vec![("kind", s("static")), ("path", s(tcx.def_path_str(d))), ("mut", J::B(mutability.is_mut())), ("nested", J::B(nested)), ("freeze", J::B(freeze)), ("ty", s(format!("{}", t))), ("loc", cx.loc(tcx.def_span(d)))]));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![("kind", s("impl")), ("path", s(tcx.def_path_str(d))), ("loc", cx.loc(tcx.def_span(d)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).skip_binder();
                        let h = tcx.impl_trait_header(d);
                        o.push(("trait", s(tcx.def_path_str(tr.def_id))));
                        o.push(("self", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tr.self_ty())))));
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                        o.push(("negative", J::B(h.polarity == ty::ImplPolarity::Negative)));
                        o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    } else {
                        o.push(("self", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tcx.type_of(d).instantiate_identity().skip_norm_wip())))));
                    }
                    items.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    items.push(J::O(vec![("kind", s("const")), ("path", s(tcx.def_path_str(d))), ("loc", cx.loc(tcx.def_span(d)))]));
                }
                _ => {}
            }
        }
        while let Some(j) = cx.queue.pop_front() {
            match j {
                Job::Inst(x, inst) => cx.do_inst(x, inst),
                Job::Promoted(b, inst, p) => {
                    let pb = tcx.promoted_mir(inst.def_id());
                    let body = &pb[rustc_middle::mir::Promoted::from_usize(p)];
                    let j = cx.body(inst, body);
                    cx.bodies[b] = j;
                }
                Job::Const(b, did, args) => {
                    let inst = Instance { def: InstanceKind::Item(did), args };
                    let body = if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
                    let j = cx.body(inst, body);
                    cx.bodies[b] = j;
                }
            }
        }
        let mut unsafe_blocks = vec![];
        {
            struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<Span> }
            impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) {
                        self.out.push(b.span);
                    }
                    rustc_hir::intravisit::walk_block(self, b);
                }
            }
            let mut v = vec![];
            tcx.hir_walk_toplevel_module(&mut V { tcx, out: &mut v });
            for sp in v { unsafe_blocks.push(cx.loc(sp)); }
        }
        let o = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("types", J::A(std::mem::take(&mut cx.tys))),
            ("insts", J::A(std::mem::take(&mut cx.insts))),
            ("bodies", J::A(std::mem::take(&mut cx.bodies))),
            ("roots", J::A(roots)),
            ("iters", J::A(iters)),
            ("generic", J::A(generic)),
            ("items", J::A(items)),
            ("unsafe_blocks", J::A(unsafe_blocks)),
        ]);
        let mut st = String::new();
        o.out(&mut st);
        std::fs::write(&out, st).expect("write");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    let target = std::env::var("LOLV_CRATE").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if krate == target && !test && !target.is_empty() {
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    } else {
        let rustc = std::env::var("LOLV_RUSTC").unwrap_or_else(|_| "rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
