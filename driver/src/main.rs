//! Fact extractor: runs as rustc (via RUSTC_WORKSPACE_WRAPPER) on the rust_bit crate and writes
//! one JSON file with the type-checked, monomorphised MIR of every local function, closure and
//! async body (as built: before any optimisation and before the coroutine transform), every
//! resolved callee, and the shape of every type mentioned.
#![feature(rustc_private)]
#![allow(static_mut_refs)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use rustc_ast::attr::AttributeExt;
use json::J;
use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

type Built = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static mut ORIG: Option<Built> = None;

fn hooked<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = unsafe { ORIG.unwrap()(tcx, def) };
    let b: Body<'tcx> = r.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(def, b));
    r
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_sess, providers| unsafe {
            ORIG = Some(providers.queries.mir_built);
            providers.queries.mir_built = hooked;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("SA_OUT").expect("SA_OUT");
        let text = with_no_trimmed_paths!(Cx::new(tcx).run());
        std::fs::write(&out, text).expect("write facts");
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashMap<Instance<'tcx>, String>,
    names: HashSet<String>,
    adts: HashMap<String, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            tyout: vec![],
            queue: VecDeque::new(),
            seen: HashMap::new(),
            names: HashSet::new(),
            adts: HashMap::new(),
        }
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut n_generic = 0usize;
        for &def in tcx.mir_keys(()) {
            let kind = tcx.def_kind(def);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(def).requires_monomorphization(tcx) {
                n_generic += 1;
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, def.to_def_id(), |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            let inst = Instance::new_raw(def.to_def_id(), args);
            self.enqueue(inst);
        }
        let mut insts = vec![];
        while let Some(i) = self.queue.pop_front() {
            if let Some(j) = self.instance(i) {
                insts.push(j);
            }
        }
        let mut impls = vec![];
        let mut unsafe_fns = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Impl { of_trait } => {
                    let d = id.to_def_id();
                    let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        format!("{}", tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip())
                    } else {
                        String::new()
                    };
                    let items: Vec<J> = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|x| J::s(tcx.def_path_str(*x)))
                        .collect();
                    impls.push(J::Obj(vec![
                        ("self", J::s(format!("{}", self_ty))),
                        ("trait", J::s(tr)),
                        ("items", J::Arr(items)),
                        ("derived", J::Bool(tcx.is_automatically_derived(d))),
                    ]));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip();
                    if !sig.safety().is_safe() {
                        unsafe_fns.push(J::s(tcx.def_path_str(id.to_def_id())));
                    }
                }
                _ => {}
            }
        }
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(id) {
                statics.push(J::Obj(vec![
                    ("path", J::s(tcx.def_path_str(id.to_def_id()))),
                    ("mutable", J::Bool(mutability.is_mut())),
                ]));
            }
        }
        let out = J::Obj(vec![
            ("rustc", J::s(option_env!("CFG_VERSION").unwrap_or("nightly"))),
            ("generic_fns", J::n(n_generic)),
            ("types", J::Arr(self.tyout)),
            ("instances", J::Arr(insts)),
            ("impls", J::Arr(impls)),
            ("statics", J::Arr(statics)),
            ("unsafe_fns", J::Arr(unsafe_fns)),
        ]);
        let mut s = String::new();
        out.write(&mut s);
        s
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        if let Some(n) = self.seen.get(&inst) {
            return Some(n.clone());
        }
        let def = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        match def.as_local() {
            Some(local) => {
                if !BODIES.with(|m| m.borrow().contains_key(&local)) {
                    return None;
                }
            }
            None => {
                if !self.expand(def) {
                    return None;
                }
            }
        }
        let mut name = if self.tcx.generics_of(def).requires_monomorphization(self.tcx) {
            self.tcx.def_path_str_with_args(def, inst.args)
        } else {
            self.tcx.def_path_str(def)
        };
        while self.names.contains(&name) {
            name.push('\'');
        }
        self.names.insert(name.clone());
        self.seen.insert(inst, name.clone());
        self.queue.push_back(inst);
        Some(name)
    }

    /// Library functions whose own MIR is exported, so that the analysis follows them instead of
    /// relying on a hand-written model: Option/Result/ControlFlow combinators, iterator adaptors
    /// and provided Iterator methods, comparisons and conversions.
    fn expand(&self, def: DefId) -> bool {
        let tcx = self.tcx;
        let krate = tcx.crate_name(def.krate);
        let krate = krate.as_str();
        if !matches!(krate, "core" | "alloc" | "std") {
            return false;
        }
        if !tcx.is_mir_available(def) || tcx.is_constructor(def) {
            return false;
        }
        let full = format!("{}{}", krate, tcx.def_path(def).to_string_no_crate_verbose());
        const MODS: &[&str] = &[
            "core::option::",
            "core::result::",
            "core::ops::control_flow::",
            "core::ops::try_trait::",
            "core::iter::",
            "core::cmp::",
            "core::convert::",
            "core::bool::",
            "core::tuple::",
            "core::mem::replace",
            "core::mem::take",
            "core::mem::swap",
        ];
        if !MODS.iter().any(|m| full.starts_with(m)) {
            return false;
        }
        const NOT: &[&str] = &[
            "core::option::unwrap_failed",
            "core::option::expect_failed",
            "core::result::unwrap_failed",
            "core::iter::adapters::step_by::",
            "core::iter::range::",
            "core::iter::adapters::try_process",
            "core::iter::traits::collect::",
            "core::cmp::impls::",
        ];
        !NOT.iter().any(|m| full.starts_with(m))
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", f, lo.line))
    }

    fn instance(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let def = inst.def_id();
        let body: Body<'tcx> = match def.as_local() {
            Some(local) => {
                let body: Body<'static> = BODIES.with(|m| m.borrow().get(&local).unwrap().clone());
                unsafe { std::mem::transmute(body) }
            }
            None => tcx.optimized_mir(def).clone(),
        };
        let body: Body<'tcx> = tcx.instantiate_and_normalize_erasing_regions(
            inst.args,
            self.env,
            EarlyBinder::bind(tcx, body),
        );
        let name = self.seen[&inst].clone();
        let mut derived = false;
        let mut trait_of = String::new();
        let mut self_of = String::new();
        let parent = tcx.typeck_root_def_id(def);
        if let Some(imp) = tcx.impl_of_assoc(parent) {
            derived = tcx.is_automatically_derived(imp);
            self_of = format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip());
            if matches!(tcx.def_kind(imp), DefKind::Impl { of_trait: true }) {
                trait_of = format!("{}", tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip());
            }
        }
        let locals: Vec<J> = body.local_decls.iter().map(|d| J::n(self.ty(d.ty))).collect();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::Arr(vec![J::s(v.name.to_string()), self.place(&body, p)]));
            }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let rv = self.rvalue(&body, r);
                        st.push(J::Arr(vec![
                            J::s("="),
                            self.place(&body, p),
                            rv,
                            self.span(s.source_info.span),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![
                            J::s("setdisc"),
                            self.place(&body, place),
                            J::n(variant_index.as_usize()),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("dead"), J::n(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = self.term(&body, b.terminator());
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", t),
                ("c", J::Bool(b.is_cleanup)),
            ]));
        }
        let is_pub = tcx.visibility(parent).is_public();
        let kind = if tcx.is_closure_like(def) {
            if tcx.coroutine_kind(def).is_some() {
                "coroutine"
            } else {
                "closure"
            }
        } else {
            "fn"
        };
        Some(J::Obj(vec![
            ("name", J::s(name)),
            ("path", J::s(tcx.def_path_str(def))),
            ("root", J::s(tcx.def_path_str(parent))),
            ("kind", J::s(kind)),
            ("trait", J::s(trait_of)),
            ("self", J::s(self_of)),
            ("derived", J::Bool(derived)),
            ("pub", J::Bool(is_pub)),
            ("span", self.span(tcx.def_span(def))),
            ("argc", J::n(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::n(l.as_usize()))),
            ("locals", J::Arr(locals)),
            ("dbg", J::Arr(dbg)),
            ("blocks", J::Arr(blocks)),
        ]))
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::Obj(vec![("k", J::s("goto")), ("b", J::n(target.as_usize()))]),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                J::Obj(vec![("k", J::s("goto")), ("b", J::n(real_target.as_usize()))])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts: Vec<J> = targets
                    .iter()
                    .map(|(v, b)| J::Arr(vec![J::Int(v as i128), J::n(b.as_usize())]))
                    .collect();
                J::Obj(vec![
                    ("k", J::s("switch")),
                    ("d", self.operand(body, discr)),
                    ("ty", J::n(self.ty(discr.ty(body, self.tcx)))),
                    ("t", J::Arr(ts)),
                    ("o", J::n(targets.otherwise().as_usize())),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Return => J::Obj(vec![("k", J::s("ret"))]),
            TerminatorKind::Unreachable => J::Obj(vec![("k", J::s("unreachable"))]),
            TerminatorKind::UnwindResume
            | TerminatorKind::UnwindTerminate(_)
            | TerminatorKind::CoroutineDrop => J::Obj(vec![("k", J::s("resume"))]),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(body, self.tcx).ty;
                J::Obj(vec![
                    ("k", J::s("drop")),
                    ("p", self.place(body, place)),
                    ("ty", J::n(self.ty(pt))),
                    ("b", J::n(target.as_usize())),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(body, self.tcx);
                        J::n(self.ty(t))
                    })
                    .collect();
                let f = self.callee(body, func);
                let dt = destination.ty(body, self.tcx).ty;
                J::Obj(vec![
                    ("k", J::s("call")),
                    ("f", f),
                    ("a", J::Arr(a)),
                    ("at", J::Arr(at)),
                    ("dt", J::n(self.ty(dt))),
                    ("d", self.place(body, destination)),
                    ("b", target.map_or(J::Null, |b| J::n(b.as_usize()))),
                    ("op", J::Bool(matches!(call_source, CallSource::OverloadedOperator))),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (m, ops): (&str, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds", vec![self.operand(body, len), self.operand(body, index)])
                    }
                    AssertKind::Overflow(op, a, b) => (
                        "overflow",
                        vec![J::s(format!("{:?}", op)), self.operand(body, a), self.operand(body, b)],
                    ),
                    AssertKind::OverflowNeg(a) => ("neg", vec![self.operand(body, a)]),
                    AssertKind::DivisionByZero(a) => ("div0", vec![self.operand(body, a)]),
                    AssertKind::RemainderByZero(a) => ("rem0", vec![self.operand(body, a)]),
                    _ => ("other", vec![]),
                };
                J::Obj(vec![
                    ("k", J::s("assert")),
                    ("c", self.operand(body, cond)),
                    ("e", J::Bool(*expected)),
                    ("m", J::s(m)),
                    ("o", J::Arr(ops)),
                    ("b", J::n(target.as_usize())),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => J::Obj(vec![
                ("k", J::s("yield")),
                ("v", self.operand(body, value)),
                ("b", J::n(resume.as_usize())),
                ("p", self.place(body, resume_arg)),
                ("sp", sp),
            ]),
            TerminatorKind::TailCall { .. } | TerminatorKind::InlineAsm { .. } => {
                J::Obj(vec![("k", J::s("unsupported"))])
            }
        }
    }

    fn callee(&mut self, body: &Body<'tcx>, func: &Operand<'tcx>) -> J {
        let t = func.ty(body, self.tcx);
        match t.kind() {
            ty::FnDef(def, args) => self.fndef(*def, args.skip_binder()),
            _ => J::Obj(vec![("ptr", self.operand(body, func)), ("ty", J::n(self.ty(t)))]),
        }
    }

    fn fndef(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(J::n(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                targs.push(J::s(format!("{}", c)));
            }
        }
        let mut o = vec![("path", J::s(tcx.def_path_str(def))), ("args", J::Arr(targs))];
        let tr = tcx.trait_of_assoc(def);
        let mut tpath = String::new();
        if let Some(tr) = tr {
            tpath = tcx.def_path_str(tr);
            o.push(("trait", J::s(tpath.clone())));
        }
        let mname = tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default();
        o.push(("m", J::s(mname.clone())));
        if let Some(k) = self.iter_next(&tpath, &mname, args) {
            o.push(("next", k.1));
            if let Some(ii) = k.0 {
                o.push(("into_iter", ii));
            }
        }
        match Instance::try_resolve(tcx, self.env, def, args) {
            Ok(Some(i)) => {
                let k = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                    _ => "shim",
                };
                o.push(("kind", J::s(k)));
                if i.def_id() != def {
                    o.push(("resolved", J::s(tcx.def_path_str(i.def_id()))));
                }
                o.push(("crate", J::s(tcx.crate_name(i.def_id().krate).to_string())));
                if tcx.is_constructor(i.def_id()) {
                    o.push(("ctor", J::Bool(true)));
                }
                let mut i = i;
                if let (Some(t), InstanceKind::Item(d)) = (tr, i.def) {
                    // Provided Iterator methods: the provided body, not a specialised override.
                    if tcx.is_diagnostic_item(rustc_span::sym::Iterator, t)
                        && d.krate != rustc_hir::def_id::LOCAL_CRATE
                        && !matches!(mname.as_str(), "next" | "collect" | "size_hint" | "step_by" | "rev" | "is_sorted")
                        && tcx.defaultness(def).has_value()
                    {
                        i = Instance::new_raw(def, args);
                    }
                }
                if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = i.def {
                    if let Some(ty::Closure(d, a)) = args.types().next().map(|t| t.kind()) {
                        if let Some(n) = self.enqueue(Instance::new_raw(*d, a)) {
                            o.push(("once_inst", J::s(n)));
                        }
                    }
                }
                if let Some(n) = self.enqueue(i) {
                    o.push(("inst", J::s(n)));
                } else if !i.def_id().is_local() && self.doc_panics(i.def_id(), def) {
                    o.push(("panics", J::Bool(true)));
                }
                if !tcx.fn_sig(def).skip_binder().safety().is_safe() {
                    o.push(("unsafe", J::Bool(true)));
                }
            }
            _ => o.push(("kind", J::s("unresolved"))),
        }
        J::Obj(o)
    }

    fn doc_panics(&self, a: DefId, b: DefId) -> bool {
        for d in [a, b] {
            #[allow(deprecated)]
            for at in self.tcx.get_all_attrs(d) {
                if let Some(t) = at.doc_str() {
                    if t.as_str().contains("# Panics") {
                        return true;
                    }
                }
            }
        }
        false
    }

    /// For consumers of iterators: how to obtain the iterator and its next element.
    fn iter_next(
        &mut self,
        tpath: &str,
        m: &str,
        args: ty::GenericArgsRef<'tcx>,
    ) -> Option<(Option<J>, J)> {
        let tcx = self.tcx;
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        let next_def = {
            let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
            tcx.associated_items(it).in_definition_order().find(|x| x.name().as_str() == "next")?.def_id
        };
        let (source, iter): (Option<Ty<'tcx>>, Ty<'tcx>) = match (tpath, m) {
            ("std::iter::Iterator", "collect" | "step_by" | "rev") => (None, tys[0]),
            ("std::iter::FromIterator", "from_iter") => (Some(tys[tys.len() - 1]), tys[0]),
            ("std::iter::Extend", "extend") => (Some(tys[tys.len() - 1]), tys[0]),
            _ => return None,
        };
        let mut ii = None;
        let mut iter = iter;
        if let Some(src) = source {
            let into = tcx.lang_items().into_iter_fn()?;
            let tr = tcx.trait_of_assoc(into)?;
            let assoc = tcx
                .associated_items(tr)
                .in_definition_order()
                .find(|x| x.opt_name().map(|n| n.to_string()) == Some("IntoIter".to_string()))?
                .def_id;
            let a = tcx.mk_args(&[src.into()]);
            let proj = Ty::new_projection(tcx, rustc_middle::ty::IsRigid::No, assoc, a);
            iter = tcx
                .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(proj))
                .ok()?;
            ii = Some(self.fndef(into, a));
        }
        let a = tcx.mk_args(&[iter.into()]);
        let mut n = self.fndef(next_def, a);
        let out = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(next_def).instantiate(tcx, a).skip_norm_wip()).output();
        if let Ok(out) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(out)) {
            let t = self.ty(out);
            if let J::Obj(v) = &mut n {
                v.push(("rt", J::n(t)));
            }
        }
        Some((ii, n))
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(J::s("*")),
                ProjectionElem::Field(f, t) => {
                    v.push(J::Arr(vec![J::s("f"), J::n(f.as_usize()), J::n(self.ty(t))]))
                }
                ProjectionElem::Index(l) => v.push(J::Arr(vec![J::s("i"), J::n(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => v.push(J::Arr(vec![
                    J::s("ci"),
                    J::n(offset),
                    J::n(min_length),
                    J::Bool(from_end),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => v.push(J::Arr(vec![
                    J::s("sub"),
                    J::n(from),
                    J::n(to),
                    J::Bool(from_end),
                ])),
                ProjectionElem::Downcast(_, vi) => v.push(J::Arr(vec![J::s("d"), J::n(vi.as_usize())])),
                _ => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        let _ = pt;
        J::Arr(v)
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::Arr(vec![J::s("k"), self.konst(&c.const_, c.span)]),
            Operand::RuntimeChecks(_) => J::Arr(vec![J::s("rc")]),
        }
    }

    /// the bytes behind a fat pointer stored in memory
    fn fat_bytes(&self, id: AllocId, off: u64) -> Option<Vec<u8>> {
        let a = match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => a.inner(),
            _ => return None,
        };
        let at = |o: u64| -> u64 {
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..o as usize + 8);
            u64::from_le_bytes(b.try_into().unwrap())
        };
        if off + 16 > a.len() as u64 {
            return None;
        }
        let prov = *a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
        self.bytes_of(prov.alloc_id(), at(off), Some(at(off + 8)))
    }

    fn bytes_of(&self, id: AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.len() as u64;
                let end = len.map_or(total, |l| off + l);
                if end > total {
                    return None;
                }
                if a.provenance().ptrs().iter().next().is_some() {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("ty", J::n(self.ty(t)))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.fndef(*d, a.skip_binder())));
            return J::Obj(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("name", J::s(tcx.def_path_str(u.def))));
        }
        if let Ok(v) = c.eval(tcx, self.env, span) {
            self.konst_val(v, t, &mut o, 0);
        }
        J::Obj(o)
    }

    fn konst_val(&mut self, val: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, depth: usize) {
        let tcx = self.tcx;
        let compound = match t.kind() {
            ty::Adt(d, _) => !d.is_union(),
            ty::Tuple(x) => !x.is_empty(),
            ty::Array(e, n) => *e != tcx.types.u8 && n.try_to_target_usize(tcx).is_some_and(|n| n <= 64),
            _ => false,
        };
        if compound && depth < 6 {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                let mut fs = vec![];
                for (v, ft) in d.fields {
                    let mut oo = vec![("ty", J::n(self.ty(*ft)))];
                    self.konst_val(*v, *ft, &mut oo, depth + 1);
                    fs.push(J::Obj(oo));
                }
                o.push(("fs", J::Arr(fs)));
                if let Some(v) = d.variant {
                    o.push(("var", J::n(v.as_u32() as i128)));
                }
            }
        }
        if let (ConstValue::Indirect { alloc_id, offset }, ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) = (val, t.kind()) {
            if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                    let off = offset.bytes() as usize;
                    let n = l.size.bytes() as usize;
                    let a = a.inner();
                    if off + n <= a.len() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                        let mut v: u128 = 0;
                        for (i, x) in b.iter().enumerate() {
                            v |= (*x as u128) << (8 * i);
                        }
                        let v = match t.kind() {
                            ty::Int(_) => ((v << (128 - 8 * n)) as i128) >> (128 - 8 * n),
                            _ => v as i128,
                        };
                        o.push(("int", J::Int(v)));
                    }
                }
            }
        }
        match val {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                let v: i128 = match t.kind() {
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        ((bits << (128 - sz)) as i128) >> (128 - sz)
                    }
                    _ => bits as i128,
                };
                o.push(("int", J::Int(v)));
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => o.push(("static", J::s(tcx.def_path_str(d)))),
                    Some(GlobalAlloc::Function { instance }) => {
                        o.push(("fn", self.fndef(instance.def_id(), instance.args)))
                    }
                    _ => {
                        let is_bytes = match t.kind() {
                            ty::Ref(_, x, _) => match x.kind() {
                                ty::Array(e, _) => *e == tcx.types.u8,
                                _ => false,
                            },
                            _ => false,
                        };
                        if is_bytes {
                            if let Some(b) = self.bytes_of(id, off.bytes(), None) {
                                o.push(("bytes", J::Arr(b.iter().map(|x| J::n(*x as i128)).collect())));
                            }
                        } else if let (ty::Ref(_, x, _), Some(GlobalAlloc::Memory(_)), true) =
                            (t.kind(), tcx.try_get_global_alloc(id), depth < 4)
                        {
                            if matches!(x.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..) | ty::Int(..) | ty::Uint(..) | ty::Bool | ty::Ref(..)) {
                                let mut oo = vec![("ty", J::n(self.ty(*x)))];
                                self.konst_val(ConstValue::Indirect { alloc_id: id, offset: off }, *x, &mut oo, depth + 1);
                                o.push(("deref", J::Obj(oo)));
                            }
                        }
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes_of(alloc_id, 0, Some(meta)) {
                    o.push(("bytes", J::Arr(b.iter().map(|x| J::n(*x as i128)).collect())));
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
            ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Ref(_, x, _) = t.kind() {
                    let bytes = match x.kind() {
                        ty::Str => true,
                        ty::Slice(e) => *e == tcx.types.u8,
                        _ => false,
                    };
                    if bytes {
                        if let Some(b) = self.fat_bytes(alloc_id, offset.bytes()) {
                            o.push(("bytes", J::Arr(b.iter().map(|x| J::n(*x as i128)).collect())));
                        }
                    }
                }
                if let ty::Array(e, n) = t.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(n) = n.try_to_target_usize(tcx) {
                            if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), Some(n)) {
                                o.push(("abytes", J::Arr(b.iter().map(|x| J::n(*x as i128)).collect())));
                            }
                        }
                    }
                }
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = r.ty(body, tcx);
        let ty = self.ty(ty);
        let mut o: Vec<(&'static str, J)> = vec![("ty", J::n(ty))];
        match r {
            Rvalue::Use(x, ..) => {
                o.push(("k", J::s("use")));
                o.push(("o", self.operand(body, x)));
            }
            Rvalue::Repeat(x, n) => {
                o.push(("k", J::s("repeat")));
                o.push(("o", self.operand(body, x)));
                o.push(("n", n.try_to_target_usize(tcx).map_or(J::Null, |x| J::n(x))));
            }
            Rvalue::Ref(_, bk, p) => {
                o.push(("k", J::s("ref")));
                o.push(("p", self.place(body, p)));
                o.push(("mut", J::Bool(matches!(bk, BorrowKind::Mut { .. }))));
                o.push(("fake", J::Bool(matches!(bk, BorrowKind::Fake(..)))));
            }
            Rvalue::RawPtr(k, p) => {
                o.push(("k", J::s("rawptr")));
                o.push(("fake", J::Bool(matches!(k, RawPtrKind::FakeForPtrMetadata))));
                o.push(("p", self.place(body, p)));
            }
            Rvalue::ThreadLocalRef(d) => {
                o.push(("k", J::s("tls")));
                o.push(("n", J::s(tcx.def_path_str(*d))));
            }
            Rvalue::Cast(k, x, _) => {
                o.push(("k", J::s("cast")));
                o.push(("c", J::s(format!("{:?}", k))));
                let ot = x.ty(body, tcx);
                o.push(("from", J::n(self.ty(ot))));
                o.push(("o", self.operand(body, x)));
                if let CastKind::PointerCoercion(..) = k {
                    if let ty::Closure(d, a) = ot.kind() {
                        let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                        let _ = i;
                        let n = self.enqueue(Instance::new_raw(*d, a));
                        o.push(("closure", n.map_or(J::Null, |s| J::s(s))));
                    }
                }
            }
            Rvalue::BinaryOp(op, b) => {
                o.push(("k", J::s("bin")));
                o.push(("op", J::s(format!("{:?}", op))));
                o.push(("a", self.operand(body, &b.0)));
                o.push(("b", self.operand(body, &b.1)));
                let at = b.0.ty(body, tcx);
                o.push(("at", J::n(self.ty(at))));
            }
            Rvalue::UnaryOp(op, x) => {
                o.push(("k", J::s("un")));
                o.push(("op", J::s(format!("{:?}", op))));
                o.push(("o", self.operand(body, x)));
            }
            Rvalue::Discriminant(p) => {
                o.push(("k", J::s("disc")));
                o.push(("p", self.place(body, p)));
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(body, x)).collect();
                o.push(("v", J::Arr(v)));
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", J::s("array"))),
                    AggregateKind::Tuple => o.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        o.push(("k", J::s("adt")));
                        o.push(("adt", J::s(tcx.def_path_str(*d))));
                        o.push(("var", J::n(vi.as_usize())));
                    }
                    AggregateKind::Closure(d, a) => {
                        o.push(("k", J::s("closure")));
                        let n = self.enqueue(Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*a)));
                        o.push(("inst", n.map_or(J::Null, |s| J::s(s))));
                    }
                    AggregateKind::Coroutine(d, a) => {
                        o.push(("k", J::s("coroutine")));
                        let n = self.enqueue(Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*a)));
                        o.push(("inst", n.map_or(J::Null, |s| J::s(s))));
                    }
                    _ => o.push(("k", J::s("agg?"))),
                }
            }
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                o.push(("k", J::s("use")));
                o.push(("o", J::Arr(vec![J::s("c"), self.place(body, p)])));
            }
            Rvalue::WrapUnsafeBinder(..) => o.push(("k", J::s("unsupported"))),
        }
        J::Obj(o)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.tyout.len();
        self.tys.insert(t, id);
        self.tyout.push(J::Null);
        let s = format!("{}", t);
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::n(i.bit_width().unwrap_or(64))));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("uint")));
                o.push(("bits", J::n(i.bit_width().unwrap_or(64))));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("e", J::n(self.ty(*e))));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("e", J::n(self.ty(*e))));
                o.push(("n", n.try_to_target_usize(tcx).map_or(J::Null, |x| J::n(x))));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                o.push(("e", J::n(self.ty(*e))));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(e, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("e", J::n(self.ty(*e))));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("a", J::Arr(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", J::s("fndef")));
                let j = self.fndef(*d, a.skip_binder());
                o.push(("fn", j));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                let n = self.enqueue(Instance::new_raw(*d, a));
                o.push(("inst", n.map_or(J::Null, |s| J::s(s))));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", J::s("coroutine")));
                let n = self.enqueue(Instance::new_raw(*d, a));
                o.push(("inst", n.map_or(J::Null, |s| J::s(s))));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                let path = tcx.def_path_str(def.did());
                self.adts.insert(path.clone(), ());
                o.push(("path", J::s(path)));
                o.push(("crate", J::s(tcx.crate_name(def.did().krate).to_string())));
                let v: Vec<J> = args
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|x| J::n(self.ty(x)))
                    .collect();
                o.push(("a", J::Arr(v)));
                o.push((
                    "ak",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let local = def.did().is_local();
                let detail = local || def.is_enum() || {
                    let p = tcx.def_path_str(def.did());
                    ["std::ops::", "std::pin::Pin", "std::iter::", "std::option::", "std::result::"]
                        .iter()
                        .any(|x| p.starts_with(x))
                };
                if detail {
                    let mut vs = vec![];
                    let discrs: Vec<i128> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, d)| d.val as i128).collect()
                    } else {
                        vec![0]
                    };
                    for (i, v) in def.variants().iter().enumerate() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                let ft = tcx
                                    .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft))
                                    .unwrap_or(ft);
                                J::Arr(vec![
                                    J::s(f.name.to_string()),
                                    J::n(self.ty(ft)),
                                    J::Bool(f.vis.is_public()),
                                ])
                            })
                            .collect();
                        vs.push(J::Obj(vec![
                            ("n", J::s(v.name.to_string())),
                            ("d", J::Int(discrs[i])),
                            ("f", J::Arr(fs)),
                        ]));
                    }
                    o.push(("v", J::Arr(vs)));
                }
            }
            _ => o.push(("k", J::s("other"))),
        }
        self.tyout[id] = J::Obj(o);
        id
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("clippy-driver")) {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "rust_bit");
    if is_target && std::env::var("SA_OUT").is_ok() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
