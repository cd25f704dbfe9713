//! Dumps, as JSON, the monomorphised MIR of everything reachable from the entry functions of the
//! harness crate. Used as RUSTC_WORKSPACE_WRAPPER: other crates are compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldsShape, Size, TagEncoding, Variants, VariantIdx};
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv,
};
mod facts;

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

/// one line of the substitution table: callee path (exact) -> harness function, generic arguments
struct Subst {
    path: String,
    target: String,
    args: Vec<usize>,
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    tymap: HashMap<Ty<'tcx>, usize>,
    types: Vec<String>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashMap<Instance<'tcx>, usize>,
    fns: Vec<(usize, String)>,
    stop: Vec<String>,
    substs: Vec<Subst>,
    local_fns: HashMap<String, DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        // the place in the user's file, not inside a macro definition of std
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, loc.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(String::new());
        let name = js(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())));
        let d = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => {
                let bits = it.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits());
                format!("\"k\":\"int\",\"bits\":{},\"s\":true", bits)
            }
            ty::Uint(it) => {
                let bits = it.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits());
                format!("\"k\":\"int\",\"bits\":{},\"s\":false", bits)
            }
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i128).unwrap_or(-1);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
            }
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(e), m.is_mut()),
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(e), m.is_mut()),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(self.tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args).skip_norm_wip();
                        let fty = self.tcx.normalize_erasing_regions(self.te, ty::Unnormalized::new_wip(fty));
                        fs.push(format!(
                            "[{},{},{}]",
                            js(f.name.as_str()),
                            self.ty(fty),
                            js(&format!("{:?}", f.vis))
                        ));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        js(v.name.as_str()),
                        discr,
                        fs.join(",")
                    ));
                }
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let repr = def.repr();
                format!(
                    "\"k\":\"{}\",\"p\":{},\"kr\":{},\"v\":[{}],\"a\":[{}],\"transparent\":{},\"reprc\":{}",
                    kind,
                    js(&self.path(def.did())),
                    js(self.tcx.crate_name(def.did().krate).as_str()),
                    vs.join(","),
                    a.join(","),
                    repr.transparent(),
                    repr.c()
                )
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"p\":{},\"f\":[{}]", js(&self.path(d)), ups.join(","))
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.skip_binder());
                format!("\"k\":\"fndef\",\"p\":{},\"c\":{}", js(&self.path(d)), c)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Pat(b, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(b)),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"name\":{},{}}}", name, d);
        i
    }

    /// (instance key or -1, declared path, resolved path, generic type arguments, kind)
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let decl = self.path(d);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let cargs: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_const())
            .map(|c| c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()))
            .collect();
        let mut kind = "item";
        let mut key: i64 = -1;
        let mut rpath = decl.clone();
        let mut rargs: Vec<String> = targs.clone();
        let mut var: i64 = -1;
        let subst = self.substitute(&decl, args);
        let resolved = match subst {
            Some(i) => Ok(Some(i)),
            None => Instance::try_resolve(self.tcx, self.te, d, args),
        };
        match resolved {
            Ok(Some(inst)) => {
                match inst.def {
                    InstanceKind::Intrinsic(_) => kind = "intrinsic",
                    InstanceKind::Virtual(..) => kind = "virtual",
                    _ => {}
                }
                rpath = self.path(inst.def_id());
                rargs = inst.args.types().map(|x| self.ty(x).to_string()).collect();
                if let DefKind::Ctor(of, _) = self.tcx.def_kind(inst.def_id()) {
                    kind = "ctor";
                    var = match of {
                        rustc_hir::def::CtorOf::Struct => 0,
                        rustc_hir::def::CtorOf::Variant => {
                            let v = self.tcx.parent(inst.def_id());
                            let e = self.tcx.parent(v);
                            self.tcx.adt_def(e).variant_index_with_id(v).as_u32() as i64
                        }
                    };
                }
                if kind == "item" {
                    if let Some(k) = self.want(inst) {
                        key = k as i64;
                    }
                }
            }
            _ => kind = "unresolved",
        }
        format!(
            "{{\"key\":{},\"decl\":{},\"path\":{},\"args\":[{}],\"rargs\":[{}],\"cargs\":[{}],\"kind\":\"{}\",\"var\":{}}}",
            key,
            js(&decl),
            js(&rpath),
            targs.join(","),
            rargs.join(","),
            cargs.join(","),
            kind,
            var
        )
    }

    /// the harness function that stands for a function of the standard library
    fn substitute(&mut self, p: &str, iargs: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let s = self.substs.iter().find(|s| s.path == p)?;
        let t = *self.local_fns.get(&s.target)?;
        // types and constants, in their order
        let types: Vec<ty::GenericArg<'tcx>> = iargs.iter().filter(|a| a.as_region().is_none()).collect();
        let mut it = s.args.iter().map(|i| types[*i]);
        let tcx = self.tcx;
        let args = ty::GenericArgs::for_item(tcx, t, |param, _| match param.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => it.next().expect("subst: not enough arguments"),
        });
        match Instance::try_resolve(self.tcx, self.te, t, args) {
            Ok(Some(i)) => Some(i),
            _ => panic!("cannot resolve substitute {}", s.target),
        }
    }

    fn stopped(&self, p: &str) -> bool {
        self.stop.iter().any(|s| p.contains(s.as_str()))
    }

    fn want(&mut self, inst: Instance<'tcx>) -> Option<usize> {
        let mut inst = inst;
        let p = self.path(inst.def_id());
        if let InstanceKind::Item(_) = inst.def {
            if let Some(i) = self.substitute(&p, inst.args) {
                inst = i;
            } else if self.stopped(&p) {
                return None;
            }
        } else if self.stopped(&p) {
            return None;
        }
        if let Some(k) = self.seen.get(&inst) {
            return Some(*k);
        }
        match inst.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return None;
                }
                if self.tcx.is_foreign_item(d) {
                    return None;
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => return None,
            _ => {}
        }
        let k = self.seen.len();
        self.seen.insert(inst, k);
        self.queue.push_back(inst);
        Some(k)
    }

    // ---- constants ----
    fn rd_scalar(&self, alloc: AllocId, off: Size, size: Size, ptr: bool) -> Option<Scalar> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => m
                .inner()
                .read_scalar(&self.tcx, AllocRange { start: off, size }, ptr)
                .ok(),
            _ => None,
        }
    }

    fn cval(&mut self, alloc: AllocId, off: Size, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 12 {
            return "[\"opaque\"]".into();
        }
        let Ok(layout) = self.tcx.layout_of(self.te.as_query_input(t)) else {
            return "[\"opaque\"]".into();
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match self.rd_scalar(alloc, off, layout.size, false).and_then(|s| s.try_to_scalar_int().ok()) {
                    Some(s) => self.int_const(s.to_bits(layout.size), t),
                    None => "[\"opaque\"]".into(),
                }
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let ps = self.tcx.data_layout.pointer_size();
                let p = self.rd_scalar(alloc, off, ps, true);
                match p {
                    Some(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        let meta = if layout.size == ps {
                            None
                        } else {
                            self.rd_scalar(alloc, off + ps, ps, false)
                                .and_then(|s| s.try_to_scalar_int().ok())
                                .map(|s| s.to_bits(ps) as u64)
                        };
                        self.pointee(prov.alloc_id(), o, e, meta, depth)
                    }
                    _ => "[\"opaque\"]".into(),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                self.carray(alloc, off, e, n, depth)
            }
            ty::Tuple(_) | ty::Closure(..) => {
                let mut v = Vec::new();
                for i in 0..layout.fields.count() {
                    let ft = layout.field(&ty::layout::LayoutCx::new(self.tcx, self.te), i);
                    v.push(self.cval(alloc, off + layout.fields.offset(i), ft.ty, depth + 1));
                }
                format!("[\"tuple\",[{}]]", v.join(","))
            }
            ty::Adt(def, _) if def.is_struct() || def.is_enum() => {
                let cx = ty::layout::LayoutCx::new(self.tcx, self.te);
                let vi: VariantIdx = match &layout.variants {
                    Variants::Single { index } => *index,
                    Variants::Empty => return "[\"opaque\"]".into(),
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let ts = tag.size(&self.tcx);
                        let to = off + layout.fields.offset(tag_field.as_usize());
                        let raw = self.rd_scalar(alloc, to, ts, matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_)));
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(b) = raw.and_then(|s| s.try_to_scalar_int().ok()).map(|s| s.to_bits(ts)) else {
                                    return "[\"opaque\"]".into();
                                };
                                match def.discriminants(self.tcx).find(|(_, d)| ts.truncate(d.val) == b) {
                                    Some((i, _)) => i,
                                    None => return "[\"opaque\"]".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match raw {
                                    Some(Scalar::Int(s)) => {
                                        let b = s.to_bits(ts);
                                        let rel = ts.truncate(b.wrapping_sub(*niche_start));
                                        let n0 = niche_variants.start.as_u32() as u128;
                                        let n1 = niche_variants.last.as_u32() as u128;
                                        if rel <= n1 - n0 {
                                            VariantIdx::from_u32((n0 + rel) as u32)
                                        } else {
                                            *untagged_variant
                                        }
                                    }
                                    Some(Scalar::Ptr(..)) => *untagged_variant,
                                    None => return "[\"opaque\"]".into(),
                                }
                            }
                        }
                        .min(VariantIdx::from_usize(variants.len() - 1))
                    }
                };
                let vl = layout.for_variant(&cx, vi);
                let mut v = Vec::new();
                let n = match vl.fields {
                    FieldsShape::Primitive => 0,
                    _ => vl.fields.count(),
                };
                for i in 0..n {
                    let ft = vl.field(&cx, i);
                    v.push(self.cval(alloc, off + vl.fields.offset(i), ft.ty, depth + 1));
                }
                format!("[\"adt\",{},[{}]]", vi.as_u32(), v.join(","))
            }
            ty::FnDef(d, args) => format!("[\"fn\",{}]", self.callee(d, args.skip_binder())),
            _ => "[\"opaque\"]".into(),
        }
    }

    fn carray(&mut self, alloc: AllocId, off: Size, e: Ty<'tcx>, n: u64, depth: usize) -> String {
        let Ok(el) = self.tcx.layout_of(self.te.as_query_input(e)) else {
            return "[\"opaque\"]".into();
        };
        if n > 4096 {
            return "[\"opaque\"]".into();
        }
        let v: Vec<String> =
            (0..n).map(|i| self.cval(alloc, off + el.size * i, e, depth + 1)).collect();
        format!("[\"array\",[{}]]", v.join(","))
    }

    fn pointee(&mut self, a: AllocId, o: Size, e: Ty<'tcx>, meta: Option<u64>, depth: usize) -> String {
        match *e.kind() {
            ty::Str => {
                let n = meta.unwrap_or(0);
                let v: Vec<String> = (0..n)
                    .map(|i| {
                        self.rd_scalar(a, o + Size::from_bytes(i), Size::from_bytes(1), false)
                            .and_then(|s| s.try_to_scalar_int().ok())
                            .map(|s| s.to_bits(Size::from_bytes(1)).to_string())
                            .unwrap_or("-1".into())
                    })
                    .collect();
                format!("[\"str\",[{}]]", v.join(","))
            }
            ty::Slice(el) => {
                let x = self.carray(a, o, el, meta.unwrap_or(0), depth);
                format!("[\"sliceref\",{}]", x)
            }
            _ => {
                let t = self.ty(e);
                let x = self.cval(a, o, e, depth + 1);
                format!("[\"ref\",{},{}]", t, x)
            }
        }
    }

    fn int_const(&self, bits: u128, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool => format!("[\"bool\",{}]", bits != 0),
            ty::Int(it) => {
                let w = it.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits()) as u32;
                let v = if w == 128 {
                    bits as i128
                } else if bits >> (w - 1) & 1 == 1 {
                    (bits as i128) - (1i128 << w)
                } else {
                    bits as i128
                };
                format!("[\"int\",{}]", v)
            }
            _ => format!("[\"int\",{}]", bits),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            return format!("[{},[\"fn\",{}]]", tid, self.callee(d, args.skip_binder()));
        }
        let v = match c.const_.eval(self.tcx, self.te, c.span) {
            Ok(v) => v,
            Err(_) => return format!("[{},[\"opaque\"]]", tid),
        };
        let s = match v {
            ConstValue::Scalar(Scalar::Int(s)) => match *t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                    self.int_const(s.to_bits(s.size()), t)
                }
                _ => self.scalar_as_mem(v, t, s.to_bits(s.size()), s.size()),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, o) = p.into_raw_parts();
                match *t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => self.pointee(prov.alloc_id(), o, e, None, 0),
                    _ => "[\"opaque\"]".into(),
                }
            }
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                ty::Ref(_, e, _) | ty::RawPtr(e, _) => self.pointee(alloc_id, Size::ZERO, e, Some(meta), 0),
                _ => "[\"opaque\"]".into(),
            },
            ConstValue::Indirect { alloc_id, offset } => self.cval(alloc_id, offset, t, 0),
        };
        format!("[{},{}]", tid, s)
    }

    /// a scalar constant of an aggregate type (newtype, fieldless enum, Option niche)
    fn scalar_as_mem(&mut self, _v: ConstValue, t: Ty<'tcx>, bits: u128, size: Size) -> String {
        use rustc_middle::mir::interpret::{AllocInit, Allocation};
        let mut a = Allocation::new(size, rustc_abi::Align::from_bytes(16).unwrap(), AllocInit::Zero, ());
        let _ = a.write_scalar(
            &self.tcx,
            AllocRange { start: Size::ZERO, size },
            Scalar::from_uint(bits, size),
        );
        a.mutability = rustc_middle::mir::Mutability::Not;
        let id = self.tcx.reserve_and_set_memory_alloc(self.tcx.mk_const_alloc(a));
        self.cval(id, Size::ZERO, t, 0)
    }

    fn zst(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.zst(x)).collect();
                format!("[\"tuple\",[{}]]", v.join(","))
            }
            ty::Closure(..) => "[\"tuple\",[]]".into(),
            ty::Array(_, _) => "[\"array\",[]]".into(),
            ty::FnDef(d, args) => format!("[\"fn\",{}]", self.callee(d, args.skip_binder())),
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = Vec::new();
                for f in def.non_enum_variant().fields.iter() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.normalize_erasing_regions(self.te, ty::Unnormalized::new_wip(ft));
                    v.push(self.zst(ft));
                }
                format!("[\"adt\",0,[{}]]", v.join(","))
            }
            ty::Adt(def, _) if def.is_enum() && def.variants().len() == 1 => "[\"adt\",0,[]]".into(),
            _ => "[\"opaque\"]".into(),
        }
    }

    // ---- bodies ----
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                ProjectionElem::PhantomDeref | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => "\"=\"".into(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i128).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(k, p) => {
                format!("[\"raw\",{},{}]", js(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", js(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.normalize_erasing_regions(self.te, ty::Unnormalized::new_wip(t));
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.as_u32(),
                            active.map(|x| x.as_u32() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, m) => {
                        format!("[\"rawptr\",{},{}]", self.ty(*t), m.is_mut())
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if let InstanceKind::Item(d) = inst.def {
            if !matches!(
                tcx.def_kind(d),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
            ) {
                return None;
            }
        }
        let body = tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.te,
            EarlyBinder::bind(tcx, body),
        );
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            if !bb.is_cleanup {
                for st in &bb.statements {
                    let s = match &st.kind {
                        StatementKind::Assign(b) => {
                            let p = self.place(&b.0);
                            let r = self.rvalue(&b.1);
                            format!("[\"=\",{},{},{}]", p, r, self.span(st.source_info.span))
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            format!("[\"sd\",{},{}]", self.place(place), variant_index.as_u32())
                        }
                        StatementKind::StorageDead(l) => format!("[\"x\",{}]", l.as_u32()),
                        StatementKind::StorageLive(l) => format!("[\"l\",{}]", l.as_u32()),
                        StatementKind::Intrinsic(i) => match &**i {
                            NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.operand(o)),
                            NonDivergingIntrinsic::CopyNonOverlapping(_) => "[\"unsup\",\"copy_nonoverlapping\"]".into(),
                        },
                        _ => continue,
                    };
                    ss.push(s);
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = if bb.is_cleanup {
                "[\"cleanup\"]".to_string()
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let v: Vec<String> =
                            targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                        format!(
                            "[\"switch\",{},[{}],{},{}]",
                            self.operand(discr),
                            v.join(","),
                            targets.otherwise().as_u32(),
                            sp
                        )
                    }
                    TerminatorKind::Return => "[\"ret\"]".into(),
                    TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", sp),
                    TerminatorKind::Drop { place, target, .. } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        format!("[\"drop\",{},{},{}]", self.place(place), target.as_u32(), self.ty(t))
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(func);
                        let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                        format!(
                            "[\"call\",{},[{}],{},{},{}]",
                            f,
                            a.join(","),
                            self.place(destination),
                            target.map(|b| b.as_u32() as i64).unwrap_or(-1),
                            sp
                        )
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds check".to_string(),
                            AssertKind::Overflow(op, ..) => format!("overflow in {:?}", op),
                            AssertKind::OverflowNeg(_) => "overflow in Neg".into(),
                            AssertKind::DivisionByZero(_) => "division by zero".into(),
                            AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                            _ => "other assertion".into(),
                        };
                        format!(
                            "[\"assert\",{},{},{},{},{}]",
                            self.operand(cond),
                            expected,
                            js(&m),
                            target.as_u32(),
                            sp
                        )
                    }
                    TerminatorKind::FalseEdge { real_target, .. }
                    | TerminatorKind::FalseUnwind { real_target, .. } => {
                        format!("[\"goto\",{}]", real_target.as_u32())
                    }
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"cleanup\"]".into(),
                    k => format!("[\"unsup\",{}]", js(&format!("{:?}", k))),
                }
            };
            blocks.push(format!("[[{}],{}]", ss.join(","), ts));
        }
        let locals = jl(body.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>().into_iter().map(|t| self.ty(t).to_string()));
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let did = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            k => {
                let s = format!("{:?}", k);
                s.split('(').next().unwrap_or("").to_string()
            }
        };
        let args: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
        let is_pub = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(did).is_public();
        Some(format!(
            "{{\"path\":{},\"krate\":{},\"kind\":{},\"args\":[{}],\"span\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{{{}}},\"pub\":{},\"blocks\":[{}]}}",
            js(&self.path(did)),
            js(tcx.crate_name(did.krate).as_str()),
            js(&kind),
            args.join(","),
            self.span(tcx.def_span(did)),
            body.arg_count,
            body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1),
            locals,
            names.iter().map(|(k, v)| format!("\"{}\":{}", k, js(v))).collect::<Vec<_>>().join(","),
            is_pub,
            blocks.join(",")
        ))
    }

    /// everything defined in the crate under analysis that has a body: name, visibility, safety
    fn crate_items(&mut self) -> String {
        let mut v = Vec::new();
        let tcx = self.tcx;
        for cnum in tcx.crates(()).iter() {
            if tcx.crate_name(*cnum).as_str() != "cbored" {
                continue;
            }
            let mut stack = vec![cnum.as_def_id()];
            let mut seen = std::collections::HashSet::new();
            while let Some(m) = stack.pop() {
                if !seen.insert(m) {
                    continue;
                }
                for ch in tcx.module_children(m) {
                    if let Some(d) = ch.res.opt_def_id() {
                        if d.krate != *cnum {
                            continue;
                        }
                        match tcx.def_kind(d) {
                            DefKind::Mod => stack.push(d),
                            DefKind::Struct | DefKind::Enum => {
                                v.push(format!("[\"type\",{}]", js(&self.path(d))));
                                for im in tcx.inherent_impls(d).iter() {
                                    for it in tcx.associated_item_def_ids(*im).iter() {
                                        if tcx.def_kind(*it) == DefKind::AssocFn {
                                            v.push(format!(
                                                "[\"method\",{},{}]",
                                                js(&self.path(*it)),
                                                tcx.visibility(*it).is_public()
                                            ));
                                        }
                                    }
                                }
                            }
                            DefKind::Fn => v.push(format!("[\"fn\",{},true]", js(&self.path(d)))),
                            DefKind::Static { .. } => v.push(format!("[\"static\",{}]", js(&self.path(d)))),
                            _ => {}
                        }
                    }
                }
            }
        }
        v.sort();
        format!("[{}]", v.join(","))
    }
}

struct Cb {
    out: String,
    stop: Vec<String>,
    substs: Vec<Subst>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut d = Dump {
            tcx,
            te: TypingEnv::fully_monomorphized(),
            tymap: HashMap::new(),
            types: vec![],
            queue: VecDeque::new(),
            seen: HashMap::new(),
            fns: vec![],
            stop: std::mem::take(&mut self.stop),
            substs: std::mem::take(&mut self.substs),
            local_fns: HashMap::new(),
        };
        let mut roots = Vec::new();
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let p = d.path(did);
                d.local_fns.insert(p.clone(), did);
            }
        }
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
                && tcx.generics_of(did).own_requires_monomorphization() == false
                && tcx.generics_of(did).parent.map(|p| !tcx.generics_of(p).requires_monomorphization(tcx)).unwrap_or(true)
            {
                let inst = Instance::mono(tcx, did);
                if let Some(k) = d.want(inst) {
                    roots.push((d.path(did), k));
                }
            }
        }
        while let Some(inst) = d.queue.pop_front() {
            let k = d.seen[&inst];
            if let Some(b) = d.body(inst) {
                d.fns.push((k, b));
            }
        }
        let items = d.crate_items();
        let mut o = String::new();
        o.push_str("{\"types\":[\n");
        o.push_str(&d.types.join(",\n"));
        o.push_str("],\n\"roots\":{");
        o.push_str(&roots.iter().map(|(p, k)| format!("{}:{}", js(p), k)).collect::<Vec<_>>().join(",\n"));
        o.push_str("},\n\"items\":");
        o.push_str(&items);
        o.push_str(",\n\"fns\":{\n");
        o.push_str(&d.fns.iter().map(|(k, b)| format!("\"{}\":{}", k, b)).collect::<Vec<_>>().join(",\n"));
        o.push_str("}}\n");
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}

struct Facts {
    out: String,
}
impl Callbacks for Facts {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        std::fs::write(&self.out, facts::facts(tcx)).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let (Ok(names), Ok(dir)) = (std::env::var("MIRDUMP_FACTS"), std::env::var("MIRDUMP_FACTS_DIR")) {
        for n in names.split(',') {
            if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == n) {
                let mut cb = Facts { out: format!("{}/{}.json", dir, n) };
                return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut cb));
            }
        }
        return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Plain));
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let lines = |v: &str| -> Vec<String> {
            match std::env::var(v) {
                Ok(f) if !f.is_empty() => std::fs::read_to_string(f)
                    .expect("config")
                    .lines()
                    .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
                    .map(|l| l.to_string())
                    .collect(),
                _ => vec![],
            }
        };
        let stop = lines("MIRDUMP_STOP");
        let substs = ["MIRDUMP_SUBST_MORE", "MIRDUMP_SUBST"]
            .iter()
            .flat_map(|v| lines(v))
            .map(|l: String| {
                let (p, r) = l.split_once(" => ").expect("subst line");
                let (target, rest) = r.split_once(" : ").unwrap_or((r, ""));
                let target = target.trim().to_string();
                let args = rest
                    .split(',')
                    .filter(|s| !s.trim().is_empty())
                    .map(|s| s.trim().parse().expect("subst arg"))
                    .collect();
                Subst { path: p.trim().to_string(), target, args }
            })
            .collect();
        let mut cb = Cb { out, stop, substs };
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Plain))
    }
}
