//! mirdump: a rustc driver that dumps the type-checked, monomorphised MIR of the crates named in
//! MIRDUMP_CRATES as JSON (one file per crate in MIRDUMP_OUT).  It is injected with RUSTC_WRAPPER; for
//! every other crate it behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    vtables: HashMap<(Ty, Ty), String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

const NO_BODY: &[&str] = &[
    "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking::", "std::panicking::", "std::io::", "std::rt::",
    "alloc::alloc::", "alloc::raw_vec::", "std::alloc::", "core::str::", "alloc::string::", "core::slice::sort",
    "std::thread::", "std::sys::", "core::unicode", "core::char", "clap", "rand::", "std::env::", "core::num::flt2dec", "core::num::dec2flt", "std::sync::",
];

impl Cx {
    fn span(&mut self, s: Span) -> String {
        // the place where a macro is used, not where it is defined
        let s = rustc_middle::ty::tls::with(|tcx| rustc_public::rustc_internal::stable(rustc_public::rustc_internal::internal(tcx, s).source_callsite()));
        let f = s.get_filename();
        let l = s.get_lines();
        let n = self.file_list.len();
        let id = *self.files.entry(f.clone()).or_insert(n);
        if id == n {
            self.file_list.push(f);
        }
        format!("[{},{}]", id, l.start_line)
    }
    fn ga(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(esc(&format!("const {}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into())))),
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let name = esc(&format!("{}", t));
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(x) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", int_bits(x)),
                RigidTy::Uint(x) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", uint_bits(x)),
                RigidTy::Float(x) => format!("\"k\":\"float\",\"bits\":{}", match x { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            let id = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name), id));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            format!("{}", def.discriminant_for_variant(v.idx()).val)
                        } else {
                            format!("{}", vi)
                        };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name()), esc(&d), arr(fs)));
                    }
                    let k = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let ga = self.ga(&args);
                    format!("\"k\":\"adt\",\"kind\":\"{}\",\"def\":{},\"box\":{},\"args\":{},\"variants\":{}", k, esc(&def.name()), def.is_box(), ga, arr(vs))
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(e), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let inst = if has_param(t) { "null".into() } else { match Instance::resolve(d, &a) { Ok(x) => self.inst(x).to_string(), Err(_) => "null".into() } };
                    let ga = self.ga(&a);
                    format!("\"k\":\"fndef\",\"def\":{},\"inst\":{},\"args\":{}", esc(&d.name()), inst, ga)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let mut out = format!("\"k\":\"closure\",\"def\":{}", esc(&d.name()));
                    if !has_param(t) { for (k, n) in [(ClosureKind::Fn, "fn"), (ClosureKind::FnMut, "fnmut"), (ClosureKind::FnOnce, "fnonce")] {
                        if let Ok(x) = Instance::resolve_closure(d, &a, k) {
                            if x.kind == InstanceKind::Item {
                                let id = self.inst(x);
                                let _ = write!(out, ",\"{}\":{}", n, id);
                                break;
                            }
                        }
                    } }
                    // upvar types: last generic arg is the tuple of upvars
                    if let Some(GenericArgKind::Type(t)) = a.0.last() {
                        let id = self.ty(*t);
                        let _ = write!(out, ",\"upvars\":{}", id);
                    }
                    out
                }
                RigidTy::Dynamic(p, _) => {
                    let mut n = String::new();
                    for x in &p {
                        if let ExistentialPredicate::Trait(t) = &x.value {
                            n = t.def_id.name();
                        }
                    }
                    format!("\"k\":\"dyn\",\"trait\":{}", esc(&n))
                }
                RigidTy::Never => "\"k\":\"never\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(&p.name)),
            TyKind::Alias(..) => "\"k\":\"alias\"".into(),
            TyKind::Bound(..) => "\"k\":\"bound\"".into(),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", name, s);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let n = self.inst_list.len();
        self.insts.insert(i, n);
        self.inst_list.push(i);
        n
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", vi(*v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{},{}]", self.ty(c.const_.ty()), self.mconst(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }
    fn mconst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0, 0),
            ConstantKind::ZeroSized => "\"zst\"".into(),
            ConstantKind::Ty(t) => match t.eval_target_usize() { Ok(x) => format!("{{\"i\":\"{}\"}}", x), Err(_) => "{\"opaque\":\"tyconst\"}".into() },
            ConstantKind::Param(p) => format!("{{\"opaque\":{}}}", esc(&format!("param {}", p.name))),
            ConstantKind::Unevaluated(u) => format!("{{\"uneval\":{}}}", esc(&u.def.name())),
        }
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        self.decode0(t, a, off, depth).unwrap_or_else(|| "{\"opaque\":\"const\"}".to_string())
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut x: u128 = 0;
        for i in 0..n {
            let b = (*a.bytes.get(off + i)?)?;
            x |= (b as u128) << (8 * i);
        }
        Some(x)
    }
    fn decode0(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        Some(match r {
            RigidTy::Bool => format!("{{\"b\":{}}}", self.rd(a, off, 1)? != 0),
            RigidTy::Char => format!("{{\"i\":\"{}\"}}", self.rd(a, off, 4)?),
            RigidTy::Int(x) => {
                let n = int_bits(x);
                let v = self.rd(a, off, n / 8)?;
                let sh = 128 - n;
                format!("{{\"i\":\"{}\"}}", ((v << sh) as i128) >> sh)
            }
            RigidTy::Uint(x) => format!("{{\"i\":\"{}\"}}", self.rd(a, off, uint_bits(x) / 8)?),
            RigidTy::Float(FloatTy::F64) => format!("{{\"f\":\"{:016x}\"}}", self.rd(a, off, 8)?),
            RigidTy::Float(FloatTy::F32) => {
                let v = f32::from_bits(self.rd(a, off, 4)? as u32) as f64;
                format!("{{\"f\":\"{:016x}\"}}", v.to_bits())
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                if n > 4096 { return None; }
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(e, a, off + i * sz, depth + 1));
                }
                format!("{{\"a\":{}}}", arr(v))
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let FieldsShape::Arbitrary { offsets } = sh.fields else {
                    if ts.is_empty() { return Some("{\"s\":[]}".into()); }
                    return None;
                };
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    v.push(self.decode(*e, a, off + offsets[i].bytes(), depth + 1));
                }
                format!("{{\"s\":{}}}", arr(v))
            }
            RigidTy::Adt(def, args) => {
                let sh = t.layout().ok()?.shape();
                if def.kind() == AdtKind::Union { return None; }
                let (vidx, offsets): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => (vi(*index), offsets.iter().map(|x| x.bytes()).collect()),
                        FieldsShape::Primitive => (vi(*index), vec![]),
                        _ => return None,
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return None };
                        let tsz = scalar_size(tag);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let tg = self.rd(a, off + toff, tsz)?;
                                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                def.variants().iter().position(|v| (def.discriminant_for_variant(v.idx()).val & mask) == tg)?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                // a pointer niche holding provenance is the untagged variant
                                if a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff) {
                                    vi(*untagged_variant)
                                } else {
                                    let tg = self.rd(a, off + toff, tsz)?;
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tg.wrapping_sub(*niche_start) & mask;
                                    let lo = vi(*niche_variants.start());
                                    let hi = vi(*niche_variants.end());
                                    if rel <= (hi - lo) as u128 { lo + rel as usize } else { vi(*untagged_variant) }
                                }
                            }
                        };
                        (idx, variants[idx].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let var = def.variants().into_iter().nth(vidx)?;
                let mut v = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    v.push(self.decode(ft, a, off + *offsets.get(i)?, depth + 1));
                }
                if def.kind() == AdtKind::Enum {
                    format!("{{\"e\":{},\"s\":{}}}", vidx, arr(v))
                } else {
                    format!("{{\"s\":{}}}", arr(v))
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.clone());
                let Some(prov) = prov else { return Some(format!("{{\"addr\":\"{}\"}}", self.rd(a, off, 8)?)); };
                let o = self.rd(a, off, 8)? as usize;
                let ga = GlobalAlloc::from(prov.0);
                match ga {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = self.rd(a, off + 8, 8)? as usize;
                            let mut b = vec![];
                            for i in 0..n { b.push((*m.bytes.get(o + i)?)?); }
                            format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = self.rd(a, off + 8, 8)? as usize;
                            if n > 4096 { return None; }
                            let sz = el.layout().ok()?.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..n { v.push(self.decode(el, &m, o + i * sz, depth + 1)); }
                            format!("{{\"ref\":{{\"a\":{}}}}}", arr(v))
                        }
                        _ => format!("{{\"ref\":{}}}", self.decode(e, &m, o, depth + 1)),
                    },
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    GlobalAlloc::Static(s) => {
                        let m = s.eval_initializer().ok();
                        match m { Some(m) => format!("{{\"static\":{},\"mut\":{},\"ref\":{}}}", esc(&s.name()), m.mutability == Mutability::Mut, self.decode(e, &m, o, depth + 1)), None => return None }
                    }
                    _ => return None,
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.clone())?;
                match GlobalAlloc::from(prov.0) { GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)), _ => return None }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "\"zst\"".into(),
            _ => return None,
        })
    }
    fn pointee(&self, t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
            TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|x| match x { GenericArgKind::Type(t) => Some(*t), _ => None }),
            _ => None,
        }
    }
    fn vtable(&mut self, from: Ty, to: Ty) -> String {
        let (Some(s), Some(d)) = (self.pointee(from), self.pointee(to)) else { return "null".into() };
        let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = d.kind() else { return "null".into() };
        if has_param(s) || has_param(d) || matches!(s.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { return "null".into(); }
        if let Some(x) = self.vtables.get(&(s, d)) {
            return x.clone();
        }
        let mut out = "null".to_string();
        for p in &preds {
            if let ExistentialPredicate::Trait(t) = &p.value {
                let tr = TraitRef::new(t.def_id, s, &t.generic_args);
                let mut v = vec![];
                for e in tr.vtable_entries() {
                    v.push(match e { VtblEntry::Method(i) => self.inst(i).to_string(), _ => "null".into() });
                }
                out = format!("{{\"src\":{},\"m\":{}}}", self.ty(s), arr(v));
            }
        }
        self.vtables.insert((s, d), out.clone());
        out
    }
    fn rvalue(&mut self, r: &Rvalue, body: &Body) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi(*v), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, arr(o))
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body.locals()).ok();
                let vt = match (k, from) { (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) => self.vtable(f, *t), _ => "null".into() };
                let fr = from.map(|f| self.ty(f).to_string()).unwrap_or("null".into());
                format!("[\"cast\",{},{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t), fr, vt)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(p), *m == Mutability::Mut),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name())),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bl = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for s in &blk.statements {
                let sp = self.span(s.source_info.span);
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, b), sp),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{}]", self.place(place), vi(*variant_index), sp),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => continue,
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!("[\"cno\",{},{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), sp),
                    _ => continue,
                };
                st.push(t);
            }
            let sp = self.span(blk.terminator.source_info.span);
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(br), targets.otherwise(), sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok();
                    let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", self.place(place), target, ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let f = self.operand(func);
                    let fty = func.ty(b.locals()).ok();
                    let ft = fty.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{}]", f, ft, arr(a), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "overflow",
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "divzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", self.operand(cond), expected, m, target, sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bl.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), t));
        }
        let spread = spread_arg(b);
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, esc(&v.name)));
                }
            }
        }
        format!("{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"span\":{},\"blocks\":{}}}", b.arg_locals().len(), spread, arr(locals), arr(names), self.span(b.span), arr(bl))
    }
}
fn has_param(t: Ty) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    rustc_middle::ty::tls::with(|tcx| {
        let t = rustc_public::rustc_internal::internal(tcx, t);
        t.has_param() || t.has_escaping_bound_vars()
    })
}
fn spread_arg(b: &Body) -> String {
    b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into())
}
fn vi(v: VariantIdx) -> usize {
    v.to_index()
}
fn int_bits(x: IntTy) -> usize {
    match x { IntTy::Isize => 64, IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 => 64, IntTy::I128 => 128 }
}
fn uint_bits(x: UintTy) -> usize {
    match x { UintTy::Usize => 64, UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 => 64, UintTy::U128 => 128 }
}
fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar, IntegerLength};
    let p = match s { Scalar::Initialized { value, .. } => *value, Scalar::Union { value } => *value };
    match p {
        Primitive::Int { length, .. } => match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 },
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate().name;
    let mut cx = Cx::default();
    let mut items = vec![];
    let local: Vec<CrateItem> = rustc_public::all_local_items();
    for it in &local {
        let kind = it.kind();
        let sp = cx.span(it.span());
        let generic = it.requires_monomorphization();
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        let dk = format!("{:?}", tcx.def_kind(did));
        let named = ["Fn", "AssocFn", "Const", "AssocConst", "Static"].iter().any(|p| dk == *p || dk.starts_with(&format!("{} ", p)));
        if !named && !dk.starts_with("Closure") && !dk.starts_with("Ctor") {
            continue;
        }
        let vis = named && tcx.visibility(did).is_public();
        let eff = did.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let head = format!("\"name\":{},\"kind\":\"{:?}\",\"generic\":{},\"pub\":{},\"reach\":{},\"span\":{}", esc(&it.name()), kind, generic, vis, eff, sp);
        match kind {
            ItemKind::Const | ItemKind::Static => {
                let ty = it.ty();
                let mut val = "null".to_string();
                if kind == ItemKind::Const && !generic {
                    if let Ok(inst) = Instance::try_from(*it) {
                        if let Ok(a) = inst.try_const_eval(ty) {
                            val = cx.decode(ty, &a, 0, 0);
                        }
                    }
                }
                let t = cx.ty(ty);
                let mutbl = kind == ItemKind::Static && tcx.is_mutable_static(did);
                items.push(format!("{{{},\"ty\":{},\"value\":{},\"mutstatic\":{}}}", head, t, val, mutbl));
            }
            ItemKind::Fn | ItemKind::Ctor(_) => {
                let mut extra = String::new();
                if generic {
                    if let Some(b) = it.body() {
                        extra = format!(",\"body\":{}", cx.body(&b));
                    }
                } else if let Ok(inst) = Instance::try_from(*it) {
                    extra = format!(",\"inst\":{}", cx.inst(inst));
                }
                items.push(format!("{{{}{}}}", head, extra));
            }
        }
    }
    let max: usize = std::env::var("MIRDUMP_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(20000);
    let mut out = vec![];
    let mut k = 0;
    while k < cx.inst_list.len() {
        let i = cx.inst_list[k];
        k += 1;
        let name = i.name();
        let def = i.def.name();
        let mut kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", InstanceKind::LlvmIntrinsic => "intrinsic" }.to_string();
        let mut extra = String::new();
        if let InstanceKind::Virtual { idx } = i.kind {
            extra = format!(",\"idx\":{}", idx);
        }
        if i.is_empty_shim() { kind = "emptydrop".into(); }
        let skip = k > max || i.kind == InstanceKind::Intrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_foreign_item()
            || (NO_BODY.iter().any(|p| def.starts_with(p)) && !def.contains("fmt::rt::Argument::<'_>::new_") && !(def.contains(" for &") && def.ends_with("::fmt")))
            || (i.kind == InstanceKind::Shim && name.contains("drop_in_place"));
        if !skip && i.has_body() {
            if let Some(b) = i.body() {
                extra = format!("{},\"body\":{}", extra, cx.body(&b));
            }
        }
        let args = i.args();
        let ga = cx.ga(&args);
        let kr = i.def.krate().name;
        out.push(format!("{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"args\":{}{}}}", k - 1, esc(&name), esc(&def), esc(&kr), kind, ga, extra));
    }
    let files: Vec<String> = cx.file_list.iter().map(|x| esc(x)).collect();
    let o = format!("{{\"crate\":{},\"items\":{},\"insts\":{},\n\"types\":{},\n\"files\":{}}}\n", esc(&krate), arr(items), out.join(",\n").replace('\u{0}', "").as_str().to_string().pipe_arr(), arr(cx.ty_out.clone()), arr(files));
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or("/tmp".into());
    let kind = if std::env::args().any(|a| a == "bin") { "bin" } else { "lib" };
    std::fs::write(format!("{}/{}.{}.json", dir, krate, kind), o).expect("write dump");
    ControlFlow::Continue(())
}
trait PipeArr { fn pipe_arr(self) -> String; }
impl PipeArr for String { fn pipe_arr(self) -> String { format!("[{}]", self) } }

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut real = String::from("rustc");
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        real = args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let want = want.split(',').any(|w| w == krate) && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    if !want {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&real).args(&args[1..]).exec();
        eprintln!("mirdump: cannot exec {}: {}", real, e);
        std::process::exit(1);
    }
    let r = rustc_public::run_with_tcx!(&args, dump);
    std::process::exit(match r { Ok(_) => 0, Err(rustc_public::CompilerError::Skipped) => 0, Err(rustc_public::CompilerError::Interrupted(_)) => 0, _ => 1 });
}
