//! Facts about a crate as it is (generic, not monomorphised): for each function what it calls, builds,
//! casts and touches, and who can see it; for each type its fields and their visibility.
use crate::js;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn tys(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))
}
fn span(tcx: TyCtxt<'_>, s: rustc_span::Span) -> String {
    // where it was written, not where the macro was defined
    let s = s.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

struct Look<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    body: &'a Body<'tcx>,
    calls: Vec<String>,
    casts: Vec<String>,
    aggs: Vec<String>,
    statics: Vec<String>,
    other: Vec<String>,
    closures: Vec<String>,
}

impl<'a, 'tcx> Look<'a, 'tcx> {
    fn callee(&mut self, t: Ty<'tcx>, sp: rustc_span::Span, how: &str) {
        let tcx = self.tcx;
        match *t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let (r, kind) = match Instance::try_resolve(tcx, self.te, d, args) {
                    Ok(Some(i)) => (
                        i.def_id(),
                        match i.def {
                            ty::InstanceKind::Virtual(..) => "virtual",
                            ty::InstanceKind::Intrinsic(_) => "intrinsic",
                            _ => "item",
                        },
                    ),
                    _ => (d, "open"),
                };
                if let DefKind::Ctor(..) = tcx.def_kind(r) {
                    let out = tcx.fn_sig(r).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
                    let (adt, v) = match out.kind() {
                        ty::Adt(a, _) => (path(tcx, a.did()), tys(out)),
                        _ => (String::new(), tys(out)),
                    };
                    self.aggs.push(format!("[{},{},{}]", js(&adt), js(&v), js(&span(tcx, sp))));
                }
                let sig = tcx.fn_sig(d).skip_binder();
                let targs: Vec<String> = args.types().map(|x| js(&tys(x))).collect();
                self.calls.push(format!(
                    "{{\"decl\":{},\"path\":{},\"krate\":{},\"kind\":\"{}\",\"unsafe\":{},\"foreign\":{},\"how\":\"{}\",\"args\":[{}],\"span\":{}}}",
                    js(&path(tcx, d)),
                    js(&path(tcx, r)),
                    js(tcx.crate_name(r.krate).as_str()),
                    kind,
                    !sig.safety().is_safe(),
                    tcx.is_foreign_item(r),
                    how,
                    targs.join(","),
                    js(&span(tcx, sp))
                ));
            }
            ty::Closure(d, _) => self.closures.push(js(&path(tcx, d))),
            _ => self.other.push(format!("[\"indirect\",{},{}]", js(&tys(t)), js(&span(tcx, sp)))),
        }
    }
}

impl<'a, 'tcx> Visitor<'tcx> for Look<'a, 'tcx> {
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        match &t.kind {
            TerminatorKind::Call { func, fn_span: _, .. } => {
                let ft = func.ty(&self.body.local_decls, self.tcx);
                self.callee(ft, t.source_info.span, "call");
            }
            TerminatorKind::InlineAsm { .. } => {
                self.other.push(format!("[\"asm\",\"\",{}]", js(&span(self.tcx, t.source_info.span))))
            }
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            self.callee(t, c.span, "mention");
        }
        let Ok(v) = c.const_.eval(self.tcx, self.te, c.span) else { return };
        if let ConstValue::Scalar(s) = v {
            if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                if let GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id()) {
                    self.statics.push(format!("[{},{}]", js(&path(self.tcx, d)), js(&span(self.tcx, c.span))));
                }
            }
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        let sp = self.body.source_info(l).span;
        match r {
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(&self.body.local_decls, self.tcx);
                self.casts.push(format!(
                    "[{},{},{},{}]",
                    js(&format!("{:?}", k)),
                    js(&tys(f)),
                    js(&tys(*t)),
                    js(&span(self.tcx, sp))
                ));
            }
            Rvalue::Aggregate(k, _) => match &**k {
                AggregateKind::Adt(d, _, args, ..) => {
                    let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                    self.aggs.push(format!("[{},{},{}]", js(&path(self.tcx, *d)), js(&tys(t)), js(&span(self.tcx, sp))));
                }
                AggregateKind::Closure(d, _) => self.closures.push(js(&path(self.tcx, *d))),
                _ => {}
            },
            Rvalue::ThreadLocalRef(d) => {
                self.statics.push(format!("[{},{}]", js(&path(self.tcx, *d)), js(&span(self.tcx, sp))))
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_place(&mut self, p: &Place<'tcx>, c: visit::PlaceContext, l: Location) {
        for (b, e) in p.iter_projections() {
            let t = b.ty(&self.body.local_decls, self.tcx).ty;
            match e {
                ProjectionElem::Deref if t.is_raw_ptr() => self.other.push(format!(
                    "[\"deref\",{},{}]",
                    js(&tys(t)),
                    js(&span(self.tcx, self.body.source_info(l).span))
                )),
                ProjectionElem::Field(..) if t.is_union() => self.other.push(format!(
                    "[\"union\",{},{}]",
                    js(&tys(t)),
                    js(&span(self.tcx, self.body.source_info(l).span))
                )),
                _ => {}
            }
        }
        self.super_place(p, c, l);
    }
}

pub fn facts(tcx: TyCtxt<'_>) -> String {
    let ev = tcx.effective_visibilities(());
    let mut fns = Vec::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let mut k = Look {
            tcx,
            te: TypingEnv::post_analysis(tcx, d),
            body,
            calls: vec![],
            casts: vec![],
            aggs: vec![],
            statics: vec![],
            other: vec![],
            closures: vec![],
        };
        k.visit_body(body);
        let (ins, out, is_unsafe) = if kind == DefKind::Closure {
            (vec![], String::new(), false)
        } else {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let is_unsafe = !sig.safety().is_safe();
            let sig = sig.skip_binder();
            (sig.inputs().iter().map(|t| js(&tys(*t))).collect(), tys(sig.output()), is_unsafe)
        };
        // of a trait?
        let mut tr = String::new();
        let mut selfty = String::new();
        if kind == DefKind::AssocFn {
            if let Some(im) = tcx.impl_of_assoc(d) {
                selfty = tys(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                if let Some(t) = tcx.impl_opt_trait_ref(im) {
                    tr = path(tcx, t.instantiate_identity().skip_norm_wip().def_id);
                }
            }
        }
        fns.push(format!(
            "{{\"path\":{},\"span\":{},\"kind\":\"{:?}\",\"exported\":{},\"unsafe\":{},\"trait\":{},\"self\":{},\"in\":[{}],\"out\":{},\"derived\":{},\"calls\":[{}],\"casts\":[{}],\"aggs\":[{}],\"statics\":[{}],\"other\":[{}],\"closures\":[{}]}}",
            js(&path(tcx, d)),
            js(&span(tcx, tcx.def_span(d))),
            kind,
            ev.is_reachable(ld),
            is_unsafe,
            js(&tr),
            js(&selfty),
            ins.join(","),
            js(&out),
            tcx.impl_of_assoc(d).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false),
            k.calls.join(","),
            k.casts.join(","),
            k.aggs.join(","),
            k.statics.join(","),
            k.other.join(","),
            k.closures.join(",")
        ));
    }
    let mut adts = Vec::new();
    let mut statics = Vec::new();
    let mut impls = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let mut fs = Vec::new();
                for v in def.variants() {
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(format!(
                            "[{},{},{},{}]",
                            js(v.name.as_str()),
                            js(f.name.as_str()),
                            js(&tys(t)),
                            f.vis.is_public()
                        ));
                    }
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let te = TypingEnv::post_analysis(tcx, d);
                adts.push(format!(
                    "{{\"path\":{},\"span\":{},\"exported\":{},\"enum\":{},\"transparent\":{},\"freeze\":{},\"fields\":[{}]}}",
                    js(&path(tcx, d)),
                    js(&span(tcx, tcx.def_span(d))),
                    ev.is_reachable(id),
                    def.is_enum(),
                    def.repr().transparent(),
                    t.is_freeze(tcx, te),
                    fs.join(",")
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "{{\"path\":{},\"span\":{},\"mut\":{},\"freeze\":{},\"local\":{}}}",
                    js(&path(tcx, d)),
                    js(&span(tcx, tcx.def_span(d))),
                    mutability.is_mut(),
                    t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)),
                    tcx.is_thread_local_static(d)
                ));
            }
            DefKind::Impl { of_trait: true } => {
                let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                impls.push(format!(
                    "{{\"trait\":{},\"ref\":{},\"self\":{},\"span\":{}}}",
                    js(&path(tcx, t.def_id)),
                    js(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))),
                    js(&tys(t.self_ty())),
                    js(&span(tcx, tcx.def_span(d)))
                ));
            }
            _ => {}
        }
    }
    format!(
        "{{\"fns\":[\n{}],\n\"adts\":[\n{}],\n\"statics\":[{}],\n\"impls\":[\n{}]}}\n",
        fns.join(",\n"),
        adts.join(",\n"),
        statics.join(",\n"),
        impls.join(",\n")
    )
}
