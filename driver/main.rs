// MIR fact extractor for tiny-spice-rs.
//
// Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`: compiles the
// workspace crate exactly as rustc would and, after type checking, writes the
// monomorphised MIR of every function of the crate (plus closures, generic
// instances reached from them, type layouts by name) as JSON into
// $TSV_DUMP_DIR/<crate>.json.  It never runs anything of the analysed crate.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    types: BTreeMap<String, String>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    local_crate: String,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> String {
        let name = format!("{}", t);
        if !self.types.contains_key(&name) {
            self.types.insert(name.clone(), String::new());
            let d = self.ty_def(t);
            self.types.insert(name.clone(), d);
        }
        name
    }
    fn ty_def(&mut self, t: Ty) -> String {
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"k\":\"other\"}".into() };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":{}}}", esc(&format!("{:?}", i))),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"n\":{}}}", esc(&format!("{:?}", i))),
            RigidTy::Float(i) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(&format!("{:?}", i))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", esc(&e),
                    n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            RigidTy::Slice(e) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"slice\",\"e\":{}}}", esc(&e))
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", esc(&e), matches!(m, Mutability::Mut))
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ptr\",\"e\":{},\"mut\":{}}}", esc(&e), matches!(m, Mutability::Mut))
            }
            RigidTy::Tuple(es) => {
                let es: Vec<String> = es.iter().map(|e| esc(&self.ty(*e))).collect();
                format!("{{\"k\":\"tuple\",\"es\":[{}]}}", es.join(","))
            }
            RigidTy::FnDef(d, a) => {
                let i = self.inst_ref(*d, a);
                format!("{{\"k\":\"fndef\",\"f\":{}}}", i)
            }
            RigidTy::Closure(d, a) => {
                let id = self.closure(*d, a);
                let up = self.upvars(a);
                format!("{{\"k\":\"closure\",\"f\":{},\"up\":[{}]}}", esc(&id), up)
            }
            RigidTy::Dynamic(..) => "{\"k\":\"dyn\"}".into(),
            RigidTy::Adt(d, a) => {
                let mut args = vec![];
                for x in &a.0 {
                    match x {
                        GenericArgKind::Type(t) => { let s = self.ty(*t); args.push(esc(&s)) }
                        GenericArgKind::Const(c) => args.push(esc(&format!("{:?}", c.eval_target_usize().ok()))),
                        _ => {}
                    }
                }
                let local = d.krate().name == self.local_crate;
                let mut vs = vec![];
                let small = d.num_variants() <= 64;
                if small {
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let t = f.ty_with_args(a);
                            // only expand types that can matter: local ADTs and Option/Result
                            let nm = format!("{}", d.name());
                            let expand = local || nm.contains("tiny_spice") || nm.starts_with("std::option")
                                || nm.starts_with("std::result") || nm.starts_with("std::ops")
                                || nm.starts_with("core::option") || nm.starts_with("core::result")
                                || nm.starts_with("core::ops");
                            let ts = if expand { self.ty(t) } else { format!("{}", t) };
                            fs.push(format!("[{},{}]", esc(&format!("{}", f.name)), esc(&ts)));
                        }
                        let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), disc, fs.join(",")));
                    }
                }
                format!("{{\"k\":\"adt\",\"n\":{},\"kind\":\"{:?}\",\"local\":{},\"args\":[{}],\"v\":[{}]}}",
                    esc(&d.name()), d.kind(), local, args.join(","), vs.join(","))
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            _ => "{\"k\":\"other\"}".into(),
        }
    }
    fn upvars(&mut self, a: &GenericArgs) -> String {
        if let Some(GenericArgKind::Type(t)) = a.0.last() {
            if let Some(RigidTy::Tuple(es)) = t.kind().rigid() {
                return es.iter().map(|e| esc(&self.ty(*e))).collect::<Vec<_>>().join(",");
            }
        }
        String::new()
    }
    fn closure(&mut self, d: ClosureDef, a: &GenericArgs) -> String {
        match Instance::resolve_closure(d, a, ClosureKind::Fn) {
            Ok(i) => {
                let id = i.mangled_name();
                if d.krate().name == self.local_crate {
                    self.enqueue(i);
                }
                id
            }
            Err(_) => String::from("?"),
        }
    }
    fn enqueue(&mut self, i: Instance) {
        let id = i.mangled_name();
        if self.seen.insert(id) {
            self.queue.push_back(i);
        }
    }
    fn inst_ref(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let mut args = vec![];
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x { let s = self.ty(*t); args.push(esc(&s)) }
        }
        match Instance::resolve(d, a) {
            Ok(i) => {
                let krate = match i.kind { InstanceKind::Virtual{..} => String::new(), _ => d.krate().name };
                let rk = rustc_public::CrateItem::try_from(i).map(|c| c.krate().name).unwrap_or(krate);
                let local = rk == self.local_crate;
                if local && i.has_body() { self.enqueue(i); }
                format!("{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"args\":[{}]}}",
                    esc(&i.mangled_name()), esc(&i.name()), esc(&d.name()), esc(&rk),
                    esc(&format!("{:?}", i.kind)), args.join(","))
            }
            Err(_) => format!("{{\"id\":\"?\",\"name\":{},\"def\":{},\"crate\":\"?\",\"kind\":\"?\",\"args\":[{}]}}",
                esc(&d.name()), esc(&d.name()), args.join(",")),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"f\",{},{}]", i, esc(&t));
                }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => { let _ = write!(o, "[\"d\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(_) => o.push_str("[\"oc\"]"),
            }
        }
        o.push(']');
        o
    }
    fn alloc(&mut self, a: &Allocation, t: Ty, depth: usize) -> String {
        // decoded constant
        let bytes: Vec<Option<u8>> = a.bytes.clone();
        self.alloc_at(a, &bytes, 0, t, depth)
    }
    fn alloc_at(&mut self, a: &Allocation, b: &[Option<u8>], off: usize, t: Ty, depth: usize) -> String {
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for i in 0..n {
                v |= ((*b.get(o + i)?)? as u128) << (8 * i);
            }
            Some(v)
        };
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"k\":\"?\"}".into() };
        match r {
            RigidTy::Bool => match rd(off, 1) { Some(v) => format!("{{\"k\":\"bool\",\"v\":{}}}", v), None => "{\"k\":\"?\"}".into() },
            RigidTy::Char => match rd(off, 4) { Some(v) => format!("{{\"k\":\"char\",\"v\":{}}}", v), None => "{\"k\":\"?\"}".into() },
            RigidTy::Uint(_) | RigidTy::Int(_) => {
                let n = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(8);
                match rd(off, n) {
                    Some(v) => {
                        let sv: i128 = if matches!(r, RigidTy::Int(_)) && n < 16 {
                            let sh = 128 - 8 * n as u32;
                            ((v << sh) as i128) >> sh
                        } else { v as i128 };
                        format!("{{\"k\":\"int\",\"v\":{}}}", sv)
                    }
                    None => "{\"k\":\"?\"}".into(),
                }
            }
            RigidTy::Float(FloatTy::F64) => match rd(off, 8) {
                Some(v) => format!("{{\"k\":\"f64\",\"v\":{}}}", esc(&format!("{:?}", f64::from_bits(v as u64)))),
                None => "{\"k\":\"?\"}".into(),
            },
            RigidTy::Float(FloatTy::F32) => match rd(off, 4) {
                Some(v) => format!("{{\"k\":\"f64\",\"v\":{}}}", esc(&format!("{:?}", f32::from_bits(v as u32) as f64))),
                None => "{\"k\":\"?\"}".into(),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let e = *e;
                let pv = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(id) = pv else { return "{\"k\":\"?ptr\"}".into() };
                if depth > 6 { return "{\"k\":\"?deep\"}".into() }
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => {
                        let bs = m.bytes.clone();
                        let inner_off = rd(off, 8).unwrap_or(0) as usize;
                        match e.kind().rigid() {
                            Some(RigidTy::Str) => {
                                let len = rd(off + 8, 8).unwrap_or(0) as usize;
                                let raw: Vec<u8> = bs[inner_off..inner_off + len].iter().map(|x| x.unwrap_or(0)).collect();
                                format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&raw)))
                            }
                            Some(RigidTy::Slice(el)) => {
                                let el = *el;
                                let len = rd(off + 8, 8).unwrap_or(0) as usize;
                                let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                                let mut es = vec![];
                                for i in 0..len.min(512) { es.push(self.alloc_at(&m, &bs, inner_off + i * sz, el, depth + 1)); }
                                format!("{{\"k\":\"ref\",\"to\":{{\"k\":\"arr\",\"v\":[{}]}}}}", es.join(","))
                            }
                            _ => format!("{{\"k\":\"ref\",\"to\":{}}}", self.alloc_at(&m, &bs, inner_off, e, depth + 1)),
                        }
                    }
                    GlobalAlloc::Static(s) => format!("{{\"k\":\"static\",\"n\":{}}}", esc(&s.name())),
                    GlobalAlloc::Function(f) => format!("{{\"k\":\"fnaddr\",\"n\":{}}}", esc(&f.name())),
                    _ => "{\"k\":\"?alloc\"}".into(),
                }
            }
            RigidTy::Array(el, n) => {
                let el = *el;
                let len = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                if len > 512 { return "{\"k\":\"?big\"}".into() }
                let mut es = vec![];
                for i in 0..len { es.push(self.alloc_at(a, b, off + i * sz, el, depth + 1)); }
                format!("{{\"k\":\"arr\",\"v\":[{}]}}", es.join(","))
            }
            RigidTy::Tuple(es) if es.is_empty() => "{\"k\":\"unit\"}".into(),
            _ => {
                if depth < 8 {
                    if let Some(x) = self.agg_at(a, b, off, t, depth + 1) { return x; }
                }
                // anything else: raw bytes only
                let mut raw = String::new();
                for x in b.iter().skip(off).take(64) {
                    match x { Some(v) => { let _ = write!(raw, "{:02x}", v); } None => raw.push_str("__") }
                }
                format!("{{\"k\":\"raw\",\"v\":{}}}", esc(&raw))
            }
        }
    }
    // a tuple, structure or enum constant, by the type's layout
    fn agg_at(&mut self, a: &Allocation, b: &[Option<u8>], off: usize, t: Ty, depth: usize) -> Option<String> {
        use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
        let sh = t.layout().ok()?.shape();
        let offs = |f: &FieldsShape| match f {
            FieldsShape::Arbitrary { offsets, .. } => Some(offsets.iter().map(|x| x.bytes()).collect::<Vec<usize>>()),
            FieldsShape::Primitive => Some(vec![]),
            _ => None,
        };
        let k = t.kind();
        match k.rigid()? {
            RigidTy::Tuple(es) => {
                let o = offs(&sh.fields)?;
                let mut r = vec![];
                for (i, e) in es.iter().enumerate() { r.push(self.alloc_at(a, b, off + *o.get(i)?, *e, depth)); }
                Some(format!("{{\"k\":\"tuple\",\"v\":[{}]}}", r.join(",")))
            }
            RigidTy::Adt(d, args) => {
                let (vi, vo): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => (index.to_index(), offs(&sh.fields)?),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let at = off + *offs(&sh.fields)?.get(*tag_field)?;
                        let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                        let (n, ptr) = match value {
                            Primitive::Int { length, .. } => (length.bits() / 8, false),
                            Primitive::Pointer(_) => (8, true),
                            _ => return None,
                        };
                        let somewhere = ptr && a.provenance.ptrs.iter().any(|(o, _)| *o == at);
                        let mut raw = 0u128;
                        for j in 0..n { raw |= ((*b.get(at + j)?)? as u128) << (8 * j); }
                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut hit = None;
                                for v in 0..d.num_variants() {
                                    let ix = VariantIdx::to_val(v);
                                    if d.discriminant_for_variant(ix).val & mask == raw { hit = Some(v); }
                                }
                                hit?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                if !somewhere && rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants.get(vi)?.offsets.iter().map(|x| x.bytes()).collect())
                    }
                    _ => return None,
                };
                let v = d.variant(VariantIdx::to_val(vi))?;
                let mut r = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    r.push(self.alloc_at(a, b, off + *vo.get(i)?, f.ty_with_args(args), depth));
                }
                let ts = self.ty(t);
                Some(format!("{{\"k\":\"adt\",\"t\":{},\"i\":{},\"v\":[{}]}}", esc(&ts), vi, r.join(",")))
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ts = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, t, 0),
            ConstantKind::ZeroSized => match t.kind().rigid() {
                Some(RigidTy::FnDef(d, a)) => format!("{{\"k\":\"fn\",\"f\":{}}}", self.inst_ref(*d, a)),
                _ => "{\"k\":\"zst\"}".into(),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.alloc(a, *t2, 0),
                _ => "{\"k\":\"?tc\"}".into(),
            },
            _ => "{\"k\":\"?\"}".into(),
        };
        format!("{{\"c\":{},\"t\":{}}}", v, esc(&ts))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "{\"c\":{\"k\":\"bool\",\"v\":1},\"t\":\"bool\"}".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), esc(match k { BorrowKind::Mut{..} => "mut", BorrowKind::Shared => "shared", _ => "fake" })),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},\"raw\"]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, esc(&t)) }
            Rvalue::BinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"bin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"cbin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::UnaryOp(u, x) => { let x = self.op(x); format!("[\"un\",\"{:?}\",{}]", u, x) }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => { let o = self.op(o); format!("[\"repeat\",{},{}]", o, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)) }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, os) => {
                let ops: Vec<String> = os.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"adt\",{},{},{}]", esc(&t), v.to_index(), af.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let id = self.closure(*d, a);
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{},{}]", esc(&id), esc(&t))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, ops.join(","))
            }
        }
    }
    fn body(&mut self, i: Instance) -> Option<String> {
        let b = i.body()?;
        let mut o = String::new();
        let krate = rustc_public::CrateItem::try_from(i).map(|c| (c.krate().name, c.name())).unwrap_or_default();
        let _ = write!(o, "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"argc\":{},\"spread\":{},\"span\":{},\"locals\":[",
            esc(&i.mangled_name()), esc(&i.name()), esc(&krate.1), esc(&krate.0), b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1), esc(&b.span.diagnostic()));
        for (n, l) in b.locals().iter().enumerate() {
            if n > 0 { o.push(','); }
            let t = self.ty(l.ty);
            o.push_str(&esc(&t));
        }
        o.push_str("],\"vars\":[");
        let mut first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first { o.push(','); }
                first = false;
                let p = self.place(p);
                let _ = write!(o, "[{},{}]", esc(&v.name), p);
            }
        }
        o.push_str("],\"blocks\":[");
        for (n, bb) in b.blocks.iter().enumerate() {
            if n > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); format!("[{},{},{}]", p, r, esc(&s.source_info.span.diagnostic())) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); format!("[{},[\"setdiscr\",{}],{}]", p, variant_index.to_index(), esc(&s.source_info.span.diagnostic())) }
                    StatementKind::Intrinsic(_) => "[\"intrinsic\"]".to_string(),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let t = &bb.terminator;
            let sp = esc(&t.source_info.span.diagnostic());
            let s = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let bs: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{},{}]", d, bs.join(","), targets.otherwise(), sp)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind().rigid() {
                            Some(RigidTy::FnDef(d, a)) => self.inst_ref(*d, a),
                            _ => format!("{{\"ind\":{}}}", self.op(func)),
                        },
                        _ => format!("{{\"ind\":{}}}", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(x)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, target.map(|x| x as i64).unwrap_or(-1), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let mk = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) => "overflow",
                        AssertMessage::OverflowNeg(..) => "overflow",
                        AssertMessage::DivisionByZero(..) => "divzero",
                        AssertMessage::RemainderByZero(..) => "remzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(mk), target, sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&s);
            o.push('}');
        }
        o.push_str("]}");
        Some(o)
    }
}

fn analyze() -> ControlFlow<()> {
    let Ok(dir) = std::env::var("TSV_DUMP_DIR") else { return ControlFlow::Continue(()) };
    let kr = rustc_public::local_crate();
    let mut cx = Cx { types: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new(), local_crate: kr.name.clone() };
    let mut generic = vec![];
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(esc(&it.name()));
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    if i.has_body() { cx.enqueue(i); }
                }
            }
            ItemKind::Static => statics.push(esc(&it.name())),
            _ => {}
        }
    }
    let mut bodies = vec![];
    while let Some(i) = cx.queue.pop_front() {
        if let Some(b) = cx.body(i) { bodies.push(b); }
    }
    let entry = rustc_public::entry_fn().map(|e| e.name()).unwrap_or_default();
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"entry\":{},\"generic\":[{}],\"statics\":[{}],\"types\":{{", esc(&kr.name), esc(&entry), generic.join(","), statics.join(","));
    let mut first = true;
    for (k, v) in &cx.types {
        if !first { o.push(','); }
        first = false;
        let _ = write!(o, "{}:{}", esc(k), v);
    }
    o.push_str("},\n\"fns\":[\n");
    o.push_str(&bodies.join(",\n"));
    o.push_str("\n]}\n");
    let kind = if entry.is_empty() { "lib" } else { "bin" };
    std::fs::write(format!("{}/{}-{}.json", dir, kr.name, kind), o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    use std::os::unix::process::CommandExt;
    let mut args: Vec<String> = std::env::args().collect();
    let cn = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1).cloned()).unwrap_or_default();
    let probe = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"))
        || cn.is_empty() || cn == "___" || cn.starts_with("build_script");
    if args.len() > 1 && !args[1].starts_with('-') && !args[1].ends_with(".rs") {
        if probe {
            let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
            panic!("exec: {}", e);
        }
        args.remove(1); // wrapper mode: argv[1] is the real rustc
    }
    args[0] = "rustc".into();
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
