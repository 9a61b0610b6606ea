//! Dumps the monomorphised, type-resolved MIR of a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <args...>`. For the crates named in
//! `MIRDUMP_CRATES` (comma separated) the dump is written to `MIRDUMP_OUT/<crate>.<kind>.json`.
#![feature(rustc_private)]
#![allow(rustc::potential_query_instability)]

extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::Mutex;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

static COROUTINES: Mutex<Vec<(u32, usize)>> = Mutex::new(Vec::new());

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b { let _ = write!(o, "{:02x}", x); }
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_meta: Vec<String>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    bodies: BTreeMap<usize, String>,
    inline: Vec<String>,
    statics: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() { return "?".into(); }
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, loc.line)
    }
    fn path(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.krate == LOCAL_CRATE { format!("{}::{}", k, p) } else { p }
    }
    fn tyname(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let name = js(&self.tyname(t));
        let s = match *t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"n\":{name}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"n\":{name}}}"),
            ty::Int(i) => format!("{{\"k\":\"int\",\"n\":{name},\"s\":true,\"b\":{}}}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("{{\"k\":\"int\",\"n\":{name},\"s\":false,\"b\":{}}}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => format!("{{\"k\":\"float\",\"n\":{name}}}"),
            ty::Str => format!("{{\"k\":\"str\",\"n\":{name}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"n\":{name}}}"),
            ty::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"n\":{name},\"e\":{e}}}") }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(tcx).unwrap_or(u64::MAX);
                format!("{{\"k\":\"array\",\"n\":{name},\"e\":{e},\"len\":{n}}}")
            }
            ty::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"n\":{name},\"e\":{e},\"mut\":{}}}", m.is_mut()) }
            ty::RawPtr(e, m) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"n\":{name},\"e\":{e},\"mut\":{}}}", m.is_mut()) }
            ty::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"n\":{name},\"f\":[{}]}}", v.join(","))
            }
            ty::Closure(d, args) => {
                let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                format!("{{\"k\":\"closure\",\"n\":{name},\"p\":{},\"f\":[{}]}}", js(&self.path(d)), v.join(","))
            }
            ty::Coroutine(d, args) => {
                let v: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let inst = Instance::new_raw(d, args);
                let i = self.inst(inst);
                format!("{{\"k\":\"coroutine\",\"n\":{name},\"p\":{},\"f\":[{}],\"i\":{i}}}", js(&self.path(d)), v.join(","))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let r = if tcx.is_constructor(d) { None } else {
                    Instance::try_resolve(tcx, self.env, d, args).ok().flatten()
                };
                let i = match r { Some(i) => self.inst(i).to_string(), None => "null".into() };
                format!("{{\"k\":\"fndef\",\"n\":{name},\"p\":{},\"i\":{i}{}}}", js(&self.path(d)), self.ctor(d))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"n\":{name}}}"),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{name}}}"),
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let t = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        let pubv = f.vis.is_public();
                        format!("[{},{},{}]", js(f.name.as_str()), self.ty(t), pubv)
                    }).collect();
                    vs.push(format!("{{\"n\":{},\"d\":{d},\"f\":[{}]}}", js(v.name.as_str()), fs.join(",")));
                }
                let ga: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                format!("{{\"k\":\"{kind}\",\"n\":{name},\"p\":{},\"v\":[{}],\"a\":[{}],\"local\":{}}}",
                    js(&self.path(def.did())), vs.join(","), ga.join(","), def.did().is_local())
            }
            _ => format!("{{\"k\":\"other\",\"n\":{name}}}"),
        };
        self.ty_out[id] = s;
        id
    }
    fn ctor(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if !tcx.is_constructor(d) { return String::new(); }
        // A tuple struct / variant constructor used as a function.
        let p = tcx.parent(d);
        let (adt, idx) = match tcx.def_kind(p) {
            DefKind::Variant => {
                let adt = tcx.parent(p);
                (adt, tcx.adt_def(adt).variant_index_with_id(p).as_usize())
            }
            _ => (p, 0),
        };
        format!(",\"ctor\":[{},{}]", js(&self.path(adt)), idx)
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.inst_meta.len();
        self.insts.insert(i, id);
        self.inst_meta.push(String::new());
        let tcx = self.tcx;
        let d = i.def_id();
        let path = self.path(d);
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", i));
        let (kind, body) = match i.def {
            InstanceKind::Item(_) => ("item", true),
            InstanceKind::Intrinsic(_) => ("intrinsic", false),
            InstanceKind::Virtual(..) => ("virtual", false),
            _ => ("shim", true),
        };
        let shim = match i.def {
            InstanceKind::Item(_) | InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => "\"\"".to_string(),
            ref o => js(&format!("{:?}", o).split('(').next().unwrap_or("").to_string()),
        };
        let is_ctor = tcx.is_constructor(d);
        let foreign = tcx.is_foreign_item(d);
        let local = d.is_local();
        let wanted = local || self.inline.iter().any(|p| path.starts_with(p.as_str()) || (path.starts_with('<') && path.contains(p.as_str())));
        let avail = body && !is_ctor && !foreign && (kind == "shim" || tcx.is_mir_available(d));
        if avail && (wanted || kind == "shim") {
            self.queue.push_back((id, i));
        }
        // trait item this implements, if any
        let tr = tcx.trait_item_of(d).map(|t| self.path(t));
        let tr = match tr { Some(t) => js(&t), None => "null".into() };
        let self_ty = tcx.impl_of_assoc(d).map(|im| {
            let t = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
            tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(t))
        });
        let self_ty = match self_ty {
            Some(t) => self.ty(t).to_string(),
            None => if tcx.trait_of_assoc(d).is_some() && !i.args.is_empty() {
                match i.args[0].as_type() { Some(t) => self.ty(t).to_string(), None => "null".into() }
            } else { "null".into() },
        };
        let ga: Vec<String> = i.args.types().map(|e| self.ty(e).to_string()).collect();
        let vis = if local && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            tcx.effective_visibilities(()).is_reachable(d.expect_local())
        } else { false };
        let sp = self.span(tcx.def_span(d));
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let derived = tcx.impl_of_assoc(d).map_or(false, |im| tcx.is_automatically_derived(im));
        self.inst_meta[id] = format!(
            "\"id\":{id},\"path\":{},\"full\":{},\"name\":{},\"kind\":\"{kind}\",\"shim\":{shim},\"local\":{local},\"pub\":{vis},\"derived\":{derived},\"trait\":{tr},\"self\":{self_ty},\"ga\":[{}],\"span\":{}{}",
            js(&path), js(&full), js(&name), ga.join(","), js(&sp), self.ctor(d));
        id
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                let v = match t.kind() {
                    ty::Int(_) => i.to_int(size).to_string(),
                    _ => i.to_bits(size).to_string(),
                };
                format!("{{\"i\":{v}}}")
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off, t, None)
            }
        }
    }
    fn pointee(&mut self, a: interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, meta: Option<u64>) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(a) {
            GlobalAlloc::Static(d) => {
                let st = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let frozen = st.is_freeze(self.tcx, self.env) && !self.tcx.is_mutable_static(d);
                format!("{{\"static\":{},\"frozen\":{frozen}}}", js(&self.path(d)))
            }
            GlobalAlloc::Function { instance } => format!("{{\"fn\":{}}}", self.inst(instance)),
            GlobalAlloc::VTable(..) | GlobalAlloc::TypeId { .. } => "{\"vtable\":1}".into(),
            GlobalAlloc::Memory(m) => {
                let pt = match t.kind() {
                    ty::Ref(_, p, _) | ty::RawPtr(p, _) => *p,
                    _ => return "{\"opaque\":\"ptr\"}".into(),
                };
                match pt.kind() {
                    ty::Str | ty::Slice(_) => {
                        let n = match meta { Some(n) => n, None => return "{\"opaque\":\"thin\"}".into() };
                        let et = match pt.kind() { ty::Slice(e) => *e, _ => tcx.types.u8 };
                        if et == tcx.types.u8 {
                            let al = m.inner();
                            let st = off.bytes_usize();
                            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                            return format!("{{\"b\":\"{}\"}}", hex(b));
                        }
                        let sz = match tcx.layout_of(self.env.as_query_input(et)) { Ok(l) => l.size, Err(_) => return "{\"opaque\":\"layout\"}".into() };
                        let mut v = Vec::new();
                        for i in 0..n {
                            v.push(self.cval(ConstValue::Indirect { alloc_id: a, offset: off + sz * i }, et));
                        }
                        format!("{{\"ref\":{{\"a\":[{}]}}}}", v.join(","))
                    }
                    ty::Dynamic(..) => "{\"opaque\":\"dyn\"}".into(),
                    _ => {
                        let inner = self.cval(ConstValue::Indirect { alloc_id: a, offset: off }, pt);
                        format!("{{\"ref\":{inner}}}")
                    }
                }
            }
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        if let ty::FnDef(..) = t.kind() { return format!("{{\"fnty\":{}}}", self.ty(t)); }
        match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.agg(v, t),
                ty::Closure(..) => format!("{{\"zst\":{}}}", self.ty(t)),
                _ => format!("{{\"zst\":{}}}", self.ty(t)),
            },
            ConstValue::Scalar(s) => match t.kind() {
                ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.agg(v, t),
                _ => self.scalar(s, t),
            },
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, rustc_abi::Size::ZERO, t, Some(meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                match t.kind() {
                    ty::Adt(..) | ty::Tuple(_) => return self.agg(v, t),
                    ty::Array(e, n) => {
                        if *e == tcx.types.u8 || *e == tcx.types.i8 {
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                let st = offset.bytes_usize();
                                let al = m.inner();
                                if st + n <= al.len() {
                                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n);
                                    if b.len() > 64 && b.iter().all(|x| *x == b[0]) {
                                        return format!("{{\"rep\":{{\"i\":{}}},\"n\":{n}}}", b[0]);
                                    }
                                    return format!("{{\"ab\":\"{}\"}}", hex(b));
                                }
                            }
                        }
                        return self.agg(v, t);
                    }
                    _ => {}
                }
                let l = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l, Err(_) => return "{\"opaque\":\"layout\"}".into() };
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let al = m.inner();
                    let ps = tcx.data_layout.pointer_size();
                    let rd = |o: rustc_abi::Size, sz: rustc_abi::Size, prov: bool| al.read_scalar(&tcx, interpret::alloc_range(o, sz), prov);
                    match t.kind() {
                        ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                            let fat = matches!(p.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..));
                            let ptr = rd(offset, ps, true);
                            let meta = if fat { rd(offset + ps, ps, false).ok().and_then(|s| s.to_target_usize(&tcx).discard_err()) } else { None };
                            if let Ok(Scalar::Ptr(p, _)) = ptr {
                                let (prov, off) = p.into_raw_parts();
                                return self.pointee(prov.alloc_id(), off, t, meta);
                            }
                            if fat && meta == Some(0) {
                                return "{\"b\":\"\"}".into();
                            }
                            return "{\"opaque\":\"ptrread\"}".into();
                        }
                        ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                            if let Ok(s) = rd(offset, l.size, false) { return self.scalar(s, t); }
                        }
                        _ => {}
                    }
                }
                "{\"opaque\":\"indirect\"}".into()
            }
        }
    }
    fn agg(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        if let ty::Adt(d, _) = t.kind() {
            if d.is_union() { return "{\"opaque\":\"union\"}".into(); }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(dc) => {
                let fs: Vec<String> = dc.fields.iter().map(|(c, t)| self.cval(*c, *t)).collect();
                let tid = self.ty(t);
                match t.kind() {
                    ty::Array(..) => format!("{{\"a\":[{}]}}", fs.join(",")),
                    _ => format!("{{\"adt\":{tid},\"v\":{},\"f\":[{}]}}", dc.variant.map(|x| x.as_usize()).unwrap_or(0), fs.join(",")),
                }
            }
            None => "{\"opaque\":\"agg\"}".into(),
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let val = if let ty::FnDef(..) = t.kind() {
            format!("{{\"fnty\":{tid}}}")
        } else {
            match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(v) => self.cval(v, t),
                Err(_) => "{\"opaque\":\"eval\"}".into(),
            }
        };
        // Name of the constant item, if any
        let nm = if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() { format!(",\"cn\":{}", js(&self.path(u.def))) } else { String::new() }
        } else { String::new() };
        format!("{{\"t\":{tid},\"v\":{val}{nm}}}")
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { s.push(','); }
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); let _ = write!(s, "[\"f\",{},{}]", f.as_usize(), t); }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(s, "[\"ci\",{offset},{min_length},{from_end}]"); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"ss\",{from},{to},{from_end}]"); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(s, "[\"d\",{}]", v.as_usize()); }
                ProjectionElem::OpaqueCast(_) => s.push_str("\"oc\""),
                ProjectionElem::UnwrapUnsafeBinder(_) => s.push_str("\"ub\""),
                _ => s.push_str("\"?\""),
            }
        }
        s.push_str("]]");
        s
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap_or("").to_string() + if ks.contains("Unsize") { ":Unsize" } else { "" };
                let st = {
                    // source type is needed for integer casts
                    match o {
                        Operand::Constant(c) => self.ty(c.const_.ty()).to_string(),
                        _ => "null".into(),
                    }
                };
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&ks), self.operand(o), t, st)
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(t));
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.as_usize(), f.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let inst = Instance::new_raw(*d, args);
                        let i = self.inst(inst);
                        format!("[\"closure\",{},{}]", self.ty(t), i)
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        let inst = Instance::new_raw(*d, args);
                        let i = self.inst(inst);
                        format!("[\"coroutine\",{},{}]", self.ty(t), i)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{kk},[{}]]", os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
        }
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>, b: &Body<'tcx>) {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", b.arg_count);
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 { o.push(','); }
            let t = self.ty(l.ty);
            let _ = write!(o, "{t}");
        }
        let _ = write!(o, "],\"spread\":{}", b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        o.push_str(",\"dbg\":{");
        let mut first = true;
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), js(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"bbs\":[");
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let sp = st.source_info.span;
                let t = match &st.kind {
                    StatementKind::Assign(a) => format!("[\"=\",{},{}", self.place(&a.0), self.rvalue(&a.1)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}", self.place(place), variant_index.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => format!("[\"assume\",{}", self.operand(op)),
                        _ => format!("[\"intr\",{}", js(&format!("{:?}", i))),
                    },
                    StatementKind::StorageDead(l) => format!("[\"sdead\",{}", l.as_usize()),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                let _ = write!(o, "{t},{}]", js(&self.span(sp)));
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let sp = js(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    let dt = self.ty(discr.ty(&b.local_decls, tcx));
                    format!("[\"switch\",{},{dt},[{}],{},{sp}]", self.operand(discr), v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty;
                    let t = self.ty(t);
                    format!("[\"drop\",{},{t},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let callee = match *ft.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.skip_binder();
                            if tcx.is_constructor(d) {
                                format!("{{\"ctor\":{}}}", self.ty(ft))
                            } else {
                            match Instance::try_resolve(tcx, self.env, d, ga) {
                                Ok(Some(i)) => format!("{{\"i\":{},\"d\":{}}}", self.inst(i), js(&self.path(d))),
                                _ => format!("{{\"u\":{},\"d\":{}}}", js(&self.tyname(ft)), js(&self.path(d))),
                            }
                            }
                        }
                        _ => format!("{{\"op\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{callee},[{}],[{}],{},{dt},{},{sp}]", a.join(","), at.join(","), self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        AssertKind::Overflow(op, a, bb) => format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a), self.operand(bb)),
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a)),
                        _ => "[\"otherassert\"]".into(),
                    };
                    format!("[\"assert\",{},{},{m},{},{sp}]", self.operand(cond), expected, target.as_usize())
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", self.operand(value), resume.as_usize(), self.place(resume_arg))
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&t);
            let _ = write!(o, ",\"c\":{}}}", bb.is_cleanup);
        }
        o.push(']');
        let _ = inst;
        self.bodies.insert(id, o);
    }
    fn run_queue(&mut self) {
        let tcx = self.tcx;
        while let Some((id, inst)) = self.queue.pop_front() {
            let d = inst.def_id();
            let saved = if let (InstanceKind::Item(_), Some(l)) = (inst.def, d.as_local()) {
                COROUTINES.lock().unwrap().iter().find(|(k, _)| *k == l.local_def_index.as_u32()).map(|(_, p)| *p)
            } else { None };
            let body: Body<'tcx> = match saved {
                // SAFETY: boxed and leaked below with the same 'tcx
                Some(p) => unsafe { (*(p as *const Body<'tcx>)).clone() },
                None => tcx.instance_mir(inst.def).clone(),
            };
            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
            self.body(id, inst, &body);
        }
    }
}

fn save_coroutine<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    if tcx.is_coroutine(def.to_def_id()) {
        tcx.ensure_done().mir_coroutine_witnesses(def);
        if !tcx.is_synthetic_mir(def) {
            let _ = tcx.mir_borrowck(tcx.typeck_root_def_id_local(def));
        }
        let (b, _) = tcx.mir_promoted(def);
        let c = Box::leak(Box::new(b.borrow().clone()));
        COROUTINES.lock().unwrap().push((def.local_def_index.as_u32(), c as *const Body<'tcx> as usize));
    }
    let p = *rustc_interface::DEFAULT_QUERY_PROVIDERS;
    (p.queries.mir_drops_elaborated_and_const_checked)(tcx, def)
}

struct Cb { out: Option<String> }
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        if self.out.is_some() {
            config.override_queries = Some(|_s, p| { p.queries.mir_drops_elaborated_and_const_checked = save_coroutine; });
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Some(out) = self.out.clone() else { return rustc_driver::Compilation::Continue };
        let inline = std::env::var("MIRDUMP_INLINE").unwrap_or_default();
        let mut d = Dump {
            tcx, env: TypingEnv::fully_monomorphized(), tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(),
            inst_meta: vec![], queue: VecDeque::new(), bodies: BTreeMap::new(),
            inline: inline.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), statics: vec![],
        };
        let mut roots = vec![];
        let mut generic = vec![];
        let mut unsafe_items: Vec<String> = vec![];
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(did);
                    if g.requires_monomorphization(tcx) {
                        generic.push(js(&d.path(did)));
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let i = Instance::new_raw(did, args);
                    roots.push(d.inst(i).to_string());
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let fr = t.is_freeze(tcx, d.env);
                    d.statics.push(format!("{{\"p\":{},\"mut\":{},\"freeze\":{fr},\"ty\":{},\"span\":{}}}", js(&d.path(did)), mutability.is_mut(), js(&d.tyname(t)), js(&d.span(tcx.def_span(did)))));
                }
                _ => {}
            }
        }
        // Unsafe code in this crate
        struct V<'a, 'tcx> { d: &'a Dump<'tcx>, out: &'a mut Vec<String> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.d.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    let foreign = b.span.from_expansion() && b.span.ctxt().outer_expn_data().macro_def_id.map(|m| !m.is_local()).unwrap_or(false);
                    self.out.push(format!("{{\"kind\":\"block\",\"foreign_macro\":{foreign},\"span\":{}}}", js(&self.d.span(b.span))));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        {
            let mut v = V { d: &d, out: &mut unsafe_items };
            tcx.hir_walk_toplevel_module(&mut v);
        }
        d.run_queue();
        let mut s = String::new();
        s.push_str("{\"crate\":");
        s.push_str(&js(tcx.crate_name(LOCAL_CRATE).as_str()));
        let _ = write!(s, ",\"roots\":[{}],\"generic\":[{}],\"statics\":[{}],\"unsafe\":[{}],\"types\":[\n", roots.join(","), generic.join(","), d.statics.join(","), unsafe_items.join(","));
        s.push_str(&d.ty_out.join(",\n"));
        s.push_str("],\"fns\":[\n");
        for (i, m) in d.inst_meta.iter().enumerate() {
            if i > 0 { s.push_str(",\n"); }
            s.push('{');
            s.push_str(m);
            if let Some(b) = d.bodies.get(&i) { s.push_str(",\"body\":{"); s.push_str(b); s.push('}'); }
            s.push('}');
        }
        s.push_str("]}\n");
        let tmp = format!("{out}.tmp{}", std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &out).expect("rename dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let out = if crates.split(',').any(|c| c == name) && !is_test {
        std::env::var("MIRDUMP_OUT").ok().map(|o| format!("{o}/{name}.json"))
    } else { None };
    if out.is_some() {
        for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Zinline-mir=no"] { args.push(f.into()); }
    }
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }));
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
