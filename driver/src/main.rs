//! mirdump: a rustc driver which, after type checking, writes the resolved
//! program of the analysed crate (MIR of every function reachable from it,
//! types, evaluated constants, trait facts) as one JSON file.  It decides
//! nothing; the rules live in ../analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, CastKind, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<String>>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    fns: Vec<(String, String)>,
    seen: HashSet<String>,
    work: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    env: TypingEnv<'tcx>,
    depth: usize,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, a)))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
}

/// Library code whose bodies may be followed (value-level combinators).
fn follow(krate: &str, p: &str) -> bool {
    if !(krate == "core" || krate == "alloc" || krate == "std") {
        return false;
    }
    const OK: &[&str] = &[
        "core::option", "core::result", "core::ops::function", "core::ops::control_flow",
        "core::ops::try_trait", "core::ops::range", "core::convert", "core::cmp", "core::bool", "core::clone",
        "core::default", "core::iter", "core::borrow", "core::mem::swap", "core::mem::take",
        "core::mem::replace", "core::array", "core::tuple", "core::any", "core::hint",
        "core::num::nonzero", "core::num", "core::internal_macros", "core::unit", "core::ops",
    ];
    let q = p.trim_start_matches(|c| c == '<' || c == '&');
    OK.iter().any(|o| q.contains(o))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, l.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push(None);
        let s = self.render_ty(t);
        self.types[i] = Some(s);
        i
    }
    fn render_ty(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let st = js(&tystr(t));
        match *t.kind() {
            TyKind::Bool => format!("{{\"k\":\"bool\",\"s\":{st}}}"),
            TyKind::Char => format!("{{\"k\":\"char\",\"s\":{st}}}"),
            TyKind::Int(i) => format!(
                "{{\"k\":\"int\",\"signed\":true,\"bits\":{},\"s\":{st}}}",
                i.bit_width().unwrap_or(64)
            ),
            TyKind::Uint(i) => format!(
                "{{\"k\":\"int\",\"signed\":false,\"bits\":{},\"s\":{st}}}",
                i.bit_width().unwrap_or(64)
            ),
            TyKind::Float(_) => format!("{{\"k\":\"float\",\"s\":{st}}}"),
            TyKind::Str => format!("{{\"k\":\"str\",\"s\":{st}}}"),
            TyKind::Never => format!("{{\"k\":\"never\",\"s\":{st}}}"),
            TyKind::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(tcx);
                format!(
                    "{{\"k\":\"array\",\"ty\":{e},\"len\":{},\"s\":{st}}}",
                    n.map(|n| n.to_string()).unwrap_or("null".into())
                )
            }
            TyKind::Slice(e) => {
                let e = self.ty(e);
                format!("{{\"k\":\"slice\",\"ty\":{e},\"s\":{st}}}")
            }
            TyKind::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"ty\":{e},\"s\":{st}}}", m.is_mut())
            }
            TyKind::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ref\",\"mut\":{},\"ty\":{e},\"s\":{st}}}", m.is_mut())
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"tys\":{},\"s\":{st}}}", list(&v))
            }
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"name\":{},\"s\":{st}}}", js(p.name.as_str())),
            TyKind::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{st}}}"),
            TyKind::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{st}}}"),
            TyKind::FnDef(d, a) => {
                let c = self.callee(d, a.skip_binder());
                format!("{{\"k\":\"fndef\",\"f\":{c},\"s\":{st}}}")
            }
            TyKind::Closure(d, a) => {
                let ca = a.as_closure();
                let up: Vec<String> = ca.upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = format!("{:?}", ca.kind());
                let inst = Instance::new_raw(d, a);
                let key = self.enqueue(inst);
                format!(
                    "{{\"k\":\"closure\",\"path\":{},\"key\":{},\"upvars\":{},\"kind\":{},\"s\":{st}}}",
                    js(&path(tcx, d)),
                    key.map(|k| js(&k)).unwrap_or("null".into()),
                    list(&up),
                    js(&kind)
                )
            }
            TyKind::Adt(def, args) => {
                let krate = tcx.crate_name(def.did().krate);
                let p = path(tcx, def.did());
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let expand = def.did().is_local()
                    || (krate.as_str() == "core" && !p.contains("::fmt::") && !def.is_union())
                    || p == "alloc::borrow::Cow";
                let mut vs = Vec::new();
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            let ft = self.ty(ft);
                            fs.push(format!(
                                "{{\"name\":{},\"ty\":{ft},\"pub\":{}}}",
                                js(f.name.as_str()),
                                f.vis.is_public()
                            ));
                        }
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            js(v.name.as_str()),
                            js(&d),
                            list(&fs)
                        ));
                    }
                }
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                format!(
                    "{{\"k\":\"adt\",\"path\":{},\"crate\":{},\"adt\":\"{kind}\",\"local\":{},\"box\":{},\"expanded\":{expand},\"args\":{},\"variants\":{},\"s\":{st}}}",
                    js(&p),
                    js(krate.as_str()),
                    def.did().is_local(),
                    def.is_box(),
                    list(&a),
                    list(&vs)
                )
            }
            TyKind::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{st}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{st}}}"),
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let krate = tcx.crate_name(d.krate);
        match inst.def {
            InstanceKind::Item(_) => {}
            _ => return None,
        }
        let p = path(tcx, d);
        let args = tcx.erase_and_anonymize_regions(inst.args);
        let key = if tcx.is_closure_like(d) {
            format!("{:?}|{}", d, args.iter().map(|a| format!("{a}")).collect::<Vec<_>>().join(","))
        } else {
            path_args(tcx, d, args)
        };
        let key = if d.is_local() { key } else { format!("{krate}|{key}") };
        if self.seen.contains(&key) {
            return Some(key);
        }
        let depth = self.depth + 1;
        if !d.is_local() {
            let base = tcx.typeck_root_def_id(d);
            let bp = path(tcx, base);
            let _ = &p;
            if !follow(krate.as_str(), &bp) || depth > 14 {
                return None;
            }
        }
        if !tcx.is_mir_available(d) {
            return None;
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            return None;
        }
        self.seen.insert(key.clone());
        let depth = if d.is_local() { 0 } else { depth };
        self.work.push_back((key.clone(), Instance { def: inst.def, args }, self.env, depth));
        Some(key)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let p = path(tcx, d);
        let krate = tcx.crate_name(d.krate);
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = format!(
            "{{\"path\":{},\"crate\":{},\"name\":{},\"args\":{}",
            js(&p),
            js(krate.as_str()),
            js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            list(&a)
        );
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, vi) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, VariantIdx::from_u32(0)),
                rustc_hir::def::CtorOf::Variant => {
                    let e = tcx.parent(parent);
                    (e, tcx.adt_def(e).variant_index_with_id(parent))
                }
            };
            let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let t = self.ty(t);
            let _ = write!(o, ",\"ctor\":[{t},{}]", vi.as_u32());
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let st = args.types().next();
            let s = st.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
            let _ = write!(o, ",\"trait\":{},\"self\":{s}", js(&path(tcx, tr)));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let s = self.ty(st).to_string();
            let _ = write!(o, ",\"self\":{s}");
            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                let _ = write!(o, ",\"trait\":{}", js(&path(tcx, tr)));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && !tcx.fn_sig(d).skip_binder().skip_binder().safety().is_safe()
        {
            o.push_str(",\"unsafe\":true");
        }
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item".to_string(),
                    InstanceKind::Intrinsic(_) => "intrinsic".into(),
                    InstanceKind::Virtual(..) => "virtual".into(),
                    InstanceKind::LlvmIntrinsic(_) => "llvm".into(),
                    InstanceKind::Shim(s) => {
                        let s = format!("{:?}", s);
                        s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
                    }
                };
                let id = inst.def_id();
                let ik = tcx.crate_name(id.krate);
                let ip = path(tcx, id);
                let key = self.enqueue(inst);
                let ist = tcx.impl_of_assoc(id).map(|im| {
                    let s = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    tystr(s)
                });
                let _ = write!(
                    o,
                    ",\"inst\":{{\"kind\":{},\"path\":{},\"crate\":{},\"key\":{},\"impl\":{}}}",
                    js(&kind),
                    js(&ip),
                    js(ik.as_str()),
                    key.map(|k| js(&k)).unwrap_or("null".into()),
                    ist.map(|k| js(&k)).unwrap_or("null".into()),
                );
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{t}]", f.as_u32())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(&v))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, c.span)),
            Operand::RuntimeChecks(k) => format!("[\"rt\",{}]", js(&format!("{:?}", k))),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, sp: Span) -> String {
        let t = c.ty();
        if let TyKind::FnDef(d, a) = *t.kind() {
            let ti = self.ty(t);
            return format!("{{\"ty\":{ti},\"fn\":{}}}", self.callee(d, a.skip_binder()));
        }
        let ti = self.ty(t);
        match c.eval(self.tcx, self.env, sp) {
            Ok(v) => {
                let r = self.cval(v, t, 0);
                format!("{{\"ty\":{ti},\"v\":{r}}}")
            }
            Err(_) => format!("{{\"ty\":{ti},\"uneval\":{}}}", js(&format!("{:?}", c))),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, d: usize) -> String {
        let tcx = self.tcx;
        if d > 12 {
            return "{\"opaque\":\"deep\"}".into();
        }
        // scalars
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int().or_else(|| self.read_int(v, t)) {
                    let signed = matches!(*t.kind(), TyKind::Int(_));
                    let val = if signed {
                        s.to_int(s.size()).to_string()
                    } else {
                        s.to_bits(s.size()).to_string()
                    };
                    return format!("{{\"int\":{}}}", js(&val));
                }
                return "{\"opaque\":\"scalar\"}".into();
            }
            TyKind::Ref(_, inner, _) => {
                match *inner.kind() {
                    TyKind::Str | TyKind::Slice(_) => {
                        let (alloc_id, off, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let a = match tcx.global_alloc(alloc_id) {
                                    GlobalAlloc::Memory(a) => a,
                                    _ => return "{\"opaque\":\"ind\"}".into(),
                                };
                                let ps = tcx.data_layout.pointer_size();
                                let p = a.inner().read_scalar(
                                    &tcx,
                                    mir::interpret::AllocRange { start: offset, size: ps },
                                    true,
                                );
                                let m = a.inner().read_scalar(
                                    &tcx,
                                    mir::interpret::AllocRange { start: offset + ps, size: ps },
                                    false,
                                );
                                match (p, m) {
                                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(m))) => {
                                        let (prov, o) = p.into_raw_parts();
                                        (prov.alloc_id(), o.bytes(), m.to_target_usize(tcx))
                                    }
                                    _ => return "{\"opaque\":\"wide\"}".into(),
                                }
                            }
                            _ => return "{\"opaque\":\"slice\"}".into(),
                        };
                        let a = match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => a,
                            _ => return "{\"opaque\":\"mem\"}".into(),
                        };
                        let (is_bytes, et) = match *inner.kind() {
                            TyKind::Str => (true, None),
                            TyKind::Slice(e) => (e == tcx.types.u8, Some(e)),
                            _ => unreachable!(),
                        };
                        if is_bytes {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                off as usize..(off + len) as usize,
                            );
                            return format!("{{\"ref\":{{\"bytes\":{}}}}}", js(&hex(b)));
                        }
                        let et = et.unwrap();
                        if len > 64 {
                            return "{\"opaque\":\"long\"}".into();
                        }
                        let es = match tcx.layout_of(self.env.as_query_input(et)) {
                            Ok(l) => l.size.bytes(),
                            Err(_) => return "{\"opaque\":\"layout\"}".into(),
                        };
                        let mut xs = Vec::new();
                        for i in 0..len {
                            let cv = ConstValue::Indirect {
                                alloc_id,
                                offset: rustc_abi::Size::from_bytes(off + i * es),
                            };
                            xs.push(self.cval(cv, et, d + 1));
                        }
                        return format!("{{\"ref\":{{\"arr\":{}}}}}", list(&xs));
                    }
                    TyKind::Dynamic(..) => return "{\"opaque\":\"dyn\"}".into(),
                    _ => {}
                }
                // thin reference
                let sc = match v {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => a
                            .inner()
                            .read_scalar(
                                &tcx,
                                mir::interpret::AllocRange {
                                    start: offset,
                                    size: tcx.data_layout.pointer_size(),
                                },
                                true,
                            )
                            .ok(),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(_) => {
                            let r = self.cval(
                                ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                inner,
                                d + 1,
                            );
                            return format!("{{\"ref\":{r}}}");
                        }
                        GlobalAlloc::Static(s) => {
                            return format!("{{\"ref\":{{\"static\":{}}}}}", js(&path(tcx, s)));
                        }
                        GlobalAlloc::Function { instance } => {
                            return format!("{{\"fnaddr\":{}}}", js(&path(tcx, instance.def_id())));
                        }
                        _ => {}
                    }
                }
                return "{\"opaque\":\"ref\"}".into();
            }
            TyKind::Array(e, n) if e == tcx.types.u8 => {
                if let (Some(n), ConstValue::Indirect { alloc_id, offset }) =
                    (n.try_to_target_usize(tcx), v)
                {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let o = offset.bytes_usize();
                        let b = a
                            .inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                        return format!("{{\"bytes\":{}}}", js(&hex(b)));
                    }
                }
            }
            _ => {}
        }
        match *t.kind() {
            TyKind::FnDef(dd, a) => {
                let c = self.callee(dd, a.skip_binder());
                return format!("{{\"fn\":{c}}}");
            }
            TyKind::Tuple(_) | TyKind::Adt(..) | TyKind::Array(..) => {
                if let TyKind::Adt(def, _) = *t.kind() {
                    if def.is_union() {
                        return "{\"opaque\":\"union\"}".into();
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = dc.variant.map(|v| v.as_u32()).unwrap_or(0);
                    let fs: Vec<String> =
                        dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, d + 1)).collect();
                    let k = if matches!(*t.kind(), TyKind::Array(..)) { "arr" } else { "fields" };
                    return format!("{{\"variant\":{vi},\"{k}\":{}}}", list(&fs));
                }
            }
            _ => {}
        }
        "{\"opaque\":\"other\"}".into()
    }

    fn read_int(&self, v: ConstValue, t: Ty<'tcx>) -> Option<ty::ScalarInt> {
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let size = self.tcx.layout_of(self.env.as_query_input(t)).ok()?.size;
            if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                return match a.inner().read_scalar(
                    &self.tcx,
                    mir::interpret::AllocRange { start: offset, size },
                    false,
                ) {
                    Ok(Scalar::Int(i)) => Some(i),
                    _ => None,
                };
            }
        }
        None
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &mir::Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "[\"repeat\",{},{}]",
                    self.operand(o),
                    n.map(|n| n.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", js(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::IntToInt => "IntToInt".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("Coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let from = o.ty(body, self.tcx);
                let from = self.ty(from);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{from},{t}]", js(&kk), self.operand(o))
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let t = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{t}]",
                    js(&format!("{:?}", op)),
                    self.operand(&ab.0),
                    self.operand(&ab.1)
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, self.tcx);
                let t = self.ty(t);
                format!("[\"un\",{},{},{t}]", js(&format!("{:?}", op)), self.operand(a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{t}]", self.place(p))
            }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|f| self.operand(f)).collect();
                let kk = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(t);
                        format!("[\"array\",{t}]")
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, act) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.ty(t);
                        format!(
                            "[\"adt\",{t},{},{}]",
                            vi.as_u32(),
                            act.map(|f: FieldIdx| f.as_u32().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, d, a);
                        let t = self.ty(t);
                        format!("[\"closure\",{t}]")
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{kk},{}]", list(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => raw.clone(),
        };
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut vars = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                vars.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, &body);
                        ss.push(format!("[\"=\",{p},{r},{}]", self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{p},{}]", variant_index.as_u32()));
                    }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"sl\",{}]", l.as_u32())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"sk\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"int\",{}]", js(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_u32())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body, tcx);
                    let t = self.ty(t);
                    let vals: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_u32()))
                        .collect();
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"ty\":{t},\"vals\":{},\"else\":{}}}",
                        self.operand(discr),
                        list(&vals),
                        targets.otherwise().as_u32()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    let t = self.ty(t);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{t},\"t\":{}}}", self.place(place), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match *c.const_.ty().kind() {
                            TyKind::FnDef(d, a) => self.callee(d, a.skip_binder()),
                            _ => format!("{{\"dyn\":{}}}", self.operand(func)),
                        },
                        _ => format!("{{\"dyn\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let rt = destination.ty(&body, tcx).ty;
                    let rt = self.ty(rt);
                    format!(
                        "{{\"k\":\"call\",\"f\":{f},\"args\":{},\"dest\":{},\"rty\":{rt},\"t\":{}}}",
                        list(&a),
                        self.place(destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",{},{},{}]",
                            js(&format!("{:?}", op)),
                            self.operand(a),
                            self.operand(b)
                        ),
                        AssertKind::OverflowNeg(_) => "[\"overflowneg\"]".into(),
                        AssertKind::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertKind::RemainderByZero(_) => "[\"rem0\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"exp\":{expected},\"msg\":{m},\"t\":{}}}",
                        self.operand(cond),
                        target.as_u32()
                    )
                }
                k => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t},\"sp\":{sp}}}", list(&ss)));
        }
        let o = format!(
            "{{\"path\":{},\"crate\":{},\"local\":{},\"closure\":{},\"span\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"vars\":{},\"blocks\":{}}}",
            js(&path(tcx, d)),
            js(tcx.crate_name(d.krate).as_str()),
            d.is_local(),
            tcx.is_closure_like(d),
            self.span(tcx.def_span(d)),
            body.arg_count,
            body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()),
            list(&locals),
            list(&vars),
            list(&blocks)
        );
        self.fns.push((key.to_string(), o));
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let env0 = TypingEnv::fully_monomorphized();
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        fns: vec![],
        seen: HashSet::new(),
        work: VecDeque::new(),
        env: env0,
        depth: 0,
    };
    let vis = tcx.effective_visibilities(());
    // all local functions
    let mut roots = Vec::new();
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    for ld in &keys {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        cx.env = env;
        cx.depth = 0;
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let inst = Instance::new_raw(d, args);
        let key = match cx.enqueue(inst) {
            Some(k) => k,
            None => continue,
        };
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
        let outp = cx.ty(sig.output());
        let mut impl_self = "null".to_string();
        let mut impl_trait = "null".to_string();
        let mut derived = false;
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            impl_self = cx.ty(st).to_string();
            if let Some(t) = tcx.impl_opt_trait_id(im) {
                impl_trait = js(&path(tcx, t));
            }
            derived = tcx.is_automatically_derived(im);
        }
        let names: Vec<String> = tcx
            .fn_arg_idents(d)
            .iter()
            .map(|i| js(i.map(|i| i.to_string()).unwrap_or_default().as_str()))
            .collect();
        roots.push(format!(
            "{{\"key\":{},\"path\":{},\"name\":{},\"exported\":{},\"reachable\":{},\"impl_self\":{impl_self},\"impl_trait\":{impl_trait},\"derived\":{derived},\"inputs\":{},\"arg_names\":{},\"output\":{outp},\"has_self\":{},\"span\":{}}}",
            js(&key),
            js(&path(tcx, d)),
            js(tcx.item_name(d).as_str()),
            vis.is_exported(*ld),
            vis.is_reachable(*ld),
            list(&ins),
            list(&names),
            tcx.opt_associated_item(d).map(|a| a.is_method()).unwrap_or(false),
            cx.span(tcx.def_span(d)),
        ));
        while let Some((key, inst, env, depth)) = cx.work.pop_front() {
            cx.env = env;
            cx.depth = depth;
            cx.body(&key, inst);
        }
    }
    // ADTs and trait facts
    let wanted = [
        "core::marker::Send", "core::marker::Sync", "core::marker::Copy", "core::clone::Clone",
        "core::fmt::Debug", "core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex",
        "core::fmt::Pointer", "core::fmt::Binary", "core::fmt::Octal", "core::fmt::LowerExp",
        "zeroize::Zeroize", "core::ops::drop::Drop", "serde::ser::Serialize", "serde_core::ser::Serialize",
        "alloc::string::ToString", "core::error::Error", "core::ops::deref::Deref",
        "core::convert::AsRef", "core::convert::From", "core::cmp::PartialEq", "zeroize::ZeroizeOnDrop",
    ];
    let mut traits = Vec::new();
    let mut crates: Vec<_> = tcx.crates(()).to_vec();
    crates.push(LOCAL_CRATE);
    for c in crates {
        for t in tcx.traits(c) {
            let p = path(tcx, *t);
            if wanted.contains(&p.as_str()) {
                traits.push((p, *t));
            }
        }
    }
    let mut adts = Vec::new();
    let items = tcx.hir_crate_items(());
    let mut defs: Vec<_> = items.definitions().collect();
    defs.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    for ld in &defs {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        cx.env = env;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ti = cx.ty(t);
        let mut tf = Vec::new();
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        for (p, td) in &traits {
            let g = tcx.generics_of(*td);
            if g.own_params.len() > 1 && p != "core::cmp::PartialEq" {
                continue;
            }
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
            let r = if p == "core::cmp::PartialEq" {
                infcx.type_implements_trait(*td, [t, t], penv)
            } else {
                infcx.type_implements_trait(*td, [t], penv)
            };
            if r.must_apply_modulo_regions() {
                tf.push(js(p));
            }
        }
        adts.push(format!(
            "{{\"path\":{},\"ty\":{ti},\"exported\":{},\"reachable\":{},\"traits\":{},\"needs_drop\":{},\"span\":{}}}",
            js(&path(tcx, d)),
            vis.is_exported(*ld),
            vis.is_reachable(*ld),
            list(&tf),
            t.needs_drop(tcx, env),
            cx.span(tcx.def_span(d))
        ));
    }
    // trait impls of the crate
    let mut impls = Vec::new();
    for (tr, list_) in tcx.all_local_trait_impls(()).iter() {
        for im in list_ {
            let d = im.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            cx.env = env;
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(st);
            let mut fs = Vec::new();
            for it in tcx.associated_items(d).in_definition_order() {
                if it.is_fn() {
                    fs.push(format!(
                        "[{},{}]",
                        js(it.name().as_str()),
                        js(&path_args(tcx, it.def_id, ty::GenericArgs::identity_for_item(tcx, it.def_id)))
                    ));
                }
            }
            impls.push(format!(
                "{{\"trait\":{},\"ty\":{ti},\"fns\":{},\"derived\":{},\"negative\":{},\"span\":{}}}",
                js(&path(tcx, *tr)),
                list(&fs),
                tcx.is_automatically_derived(d),
                tcx.impl_polarity(d) == ty::ImplPolarity::Negative,
                cx.span(tcx.def_span(d))
            ));
        }
    }
    impls.sort();
    // exported items (names as a user sees them)
    let mut exports = Vec::new();
    for ld in &defs {
        let d = ld.to_def_id();
        if vis.is_exported(*ld) {
            let k = tcx.def_kind(d);
            if matches!(
                k,
                DefKind::Struct | DefKind::Enum | DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Trait
            ) {
                exports.push(format!("[{},{}]", js(&format!("{:?}", k)), js(&path(tcx, d))));
            }
        }
    }
    while let Some((key, inst, env, depth)) = cx.work.pop_front() {
        cx.env = env;
        cx.depth = depth;
        cx.body(&key, inst);
    }
    let mut o = String::new();
    o.push_str("{\"types\":[\n");
    let tys: Vec<String> = cx.types.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
    o.push_str(&tys.join(",\n"));
    o.push_str("],\n\"fns\":{\n");
    let fs: Vec<String> = cx.fns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&fs.join(",\n"));
    o.push_str("},\n\"roots\":[\n");
    o.push_str(&roots.join(",\n"));
    o.push_str("],\n\"adts\":[\n");
    o.push_str(&adts.join(",\n"));
    o.push_str("],\n\"impls\":[\n");
    o.push_str(&impls.join(",\n"));
    o.push_str("],\n\"exports\":[\n");
    o.push_str(&exports.join(",\n"));
    o.push_str("]}\n");
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(&tmp, out).expect("rename dump");
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    args.remove(0);
    if args.is_empty() {
        eprintln!("mirdump: use as RUSTC_WORKSPACE_WRAPPER");
        std::process::exit(2);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is = true;
        }
    }
    let out = if is { std::env::var("MIRDUMP_OUT").ok() } else { None };
    if is {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        // no alignment and null checks of the pointers the compiler itself derives
        args.push("-Zub-checks=no".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
