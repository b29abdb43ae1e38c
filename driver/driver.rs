// MIR extraction driver. Acts as RUSTC_WRAPPER: for the probe crate it runs the real
// compiler and, after analysis, writes the monomorphic MIR reachable from the probe's
// root functions as JSON lines to $VERIF_MIR_OUT. For every other crate it execs rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    out: std::io::BufWriter<std::fs::File>,
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    fns: HashMap<String, usize>,
    fnq: VecDeque<(usize, Instance)>,
    files: HashMap<String, usize>,
    shapes: HashMap<Ty, Option<LayoutShape>>,
    nfns: usize,
    depth: usize,
    locals: Vec<LocalDecl>,
    vts: HashSet<(Ty, Ty)>,
}

impl Cx {
    fn emit(&mut self, s: String) { self.out.write_all(s.as_bytes()).unwrap(); self.out.write_all(b"\n").unwrap(); }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        let key = match i.kind { InstanceKind::Virtual { idx } => format!("virt{}:{}", idx, i.name()), _ => format!("{}", i.mangled_name()) };
        if let Some(x) = self.fns.get(&key) { return *x; }
        let n = self.fns.len();
        self.fns.insert(key, n);
        self.fnq.push_back((n, i));
        n
    }
    fn span(&mut self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let n = self.files.len();
        let mut newf = None;
        let id = *self.files.entry(f.clone()).or_insert_with(|| { newf = Some(n); n });
        if let Some(n) = newf { let l = format!("{{\"k\":\"file\",\"id\":{},\"p\":{}}}", n, js(&f)); self.emit(l); }
        format!("[{},{}]", id, s.get_lines().start_line)
    }
    fn shape(&mut self, t: Ty) -> Option<LayoutShape> {
        if let Some(s) = self.shapes.get(&t) { return s.clone(); }
        let s = t.layout().ok().map(|l| l.shape());
        self.shapes.insert(t, s.clone());
        s
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().map(|g| match g {
            GenericArgKind::Type(t) => format!("{}", self.ty(*t)),
            GenericArgKind::Const(c) => match c.eval_target_usize() { Ok(n) => format!("{{\"c\":{}}}", n), Err(_) => "null".to_string() },
            GenericArgKind::Lifetime(_) => "\"lt\"".into(),
        }).collect();
        format!("[{}]", v.join(","))
    }
    fn dump_ty(&mut self, t: Ty) {
        let id = self.tys[&t];
        let k = t.kind();
        let size = self.shape(t).map(|s| if s.is_sized() { s.size.bytes() as i64 } else { -1 }).unwrap_or(-2);
        let body = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"t\":\"bool\"".to_string(),
                RigidTy::Char => "\"t\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"t\":\"int\",\"w\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"t\":\"uint\",\"w\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"t\":\"float\",\"w\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Str => "\"t\":\"str\"".to_string(),
                RigidTy::Never => "\"t\":\"never\"".to_string(),
                RigidTy::Array(e, n) => { let e = self.ty(*e); format!("\"t\":\"array\",\"e\":{},\"len\":{}", e, n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())) }
                RigidTy::Slice(e) => { let e = self.ty(*e); format!("\"t\":\"slice\",\"e\":{}", e) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(*e); format!("\"t\":\"ptr\",\"e\":{},\"m\":{}", e, (*m == Mutability::Mut) as u8) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(*e); format!("\"t\":\"ref\",\"e\":{},\"m\":{}", e, (*m == Mutability::Mut) as u8) }
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("\"t\":\"tuple\",\"f\":[{}]", v.join(",")) }
                RigidTy::Pat(b, _) => { let b = self.ty(*b); format!("\"t\":\"pat\",\"e\":{}", b) }
                RigidTy::FnDef(d, a) => {
                    let i = Instance::resolve(*d, a).ok().map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"t\":\"fndef\",\"fn\":{},\"p\":{}", i, js(&d.name()))
                }
                RigidTy::FnPtr(_) => "\"t\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(..) => format!("\"t\":\"dyn\",\"p\":{}", js(&format!("{}", t))),
                RigidTy::Closure(d, a) => {
                    let n = a.0.len();
                    let up = a.0.get(n.wrapping_sub(1)).and_then(|g| g.ty().copied());
                    let kd = a.0.get(n.wrapping_sub(3)).and_then(|g| g.ty().copied());
                    let ups = match up.map(|u| u.kind()) { Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts, _ => vec![] };
                    let fs: Vec<String> = ups.iter().map(|t| self.ty(*t).to_string()).collect();
                    let kind = match kd.map(|k| k.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I8))) => ClosureKind::Fn,
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I16))) => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let ks = match kind { ClosureKind::Fn => "Fn", ClosureKind::FnMut => "FnMut", ClosureKind::FnOnce => "FnOnce" };
                    let i = Instance::resolve_closure(*d, a, kind).ok().map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"t\":\"closure\",\"f\":[{}],\"fn\":{},\"ck\":{},\"p\":{}", fs.join(","), i, js(ks), js(&d.name()))
                }
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let mut vs = vec![];
                    let is_enum = d.kind() == AdtKind::Enum;
                    for v in d.variants() {
                        let fs: Vec<String> = v.fields().iter().map(|f| { let ft = f.ty_with_args(a); format!("[{},{}]", js(&f.name), self.ty(ft)) }).collect();
                        let dv = if is_enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(&v.name()), dv, fs.join(",")));
                    }
                    let drop = Instance::resolve_drop_in_place(t);
                    let hasdrop = !drop.is_empty_shim();
                    let a = self.args(a);
                    let repr = d.repr();
                    let rep = format!("{:?}", repr);
                    format!("\"t\":{},\"p\":{},\"v\":[{}],\"a\":{},\"box\":{},\"drop\":{},\"repr\":{}", js(kind), js(&d.name()), vs.join(","), a, d.is_box() as u8, hasdrop as u8, js(&rep))
                }
                other => format!("\"t\":\"other\",\"p\":{}", js(&format!("{:?}", other))),
            },
            other => format!("\"t\":\"other\",\"p\":{}", js(&format!("{:?}", other))),
        };
        let l = format!("{{\"k\":\"ty\",\"id\":{},\"s\":{},\"n\":{},{}}}", id, size, js(&format!("{}", t)), body);
        self.emit(l);
    }

    // ---- constants
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() { return None; }
        a.read_partial_uint(off..off + n).ok()
    }
    fn val(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        self.depth += 1;
        let r = if self.depth > 40 { "{\"o\":\"depth\"}".to_string() } else { self.val_(t, a, off) };
        self.depth -= 1;
        r
    }
    fn val_(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        let Some(shape) = self.shape(t) else { return "{\"o\":\"nolayout\"}".into() };
        let sz = shape.size.bytes();
        let k = t.kind();
        let TyKind::RigidTy(r) = &k else { return "{\"o\":\"kind\"}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) => {
                if a.provenance.ptrs.iter().any(|(o, _)| *o == off) { return "{\"o\":\"ptrint\"}".into(); }
                match self.rd(a, off, sz) { Some(n) => format!("{{\"i\":\"{}\"}}", n), None => "{\"o\":\"uninit\"}".into() }
            }
            RigidTy::Float(_) => match self.rd(a, off, sz) { Some(n) => format!("{{\"f\":\"{}\"}}", n), None => "{\"o\":\"uninit\"}".into() },
            RigidTy::Pat(b, _) => self.val(*b, a, off),
            RigidTy::Never => "{\"o\":\"never\"}".into(),
            RigidTy::FnDef(..) => "{\"z\":1}".into(),
            RigidTy::Tuple(ts) => {
                let offs = self.offsets(&shape, ts.len());
                let v: Vec<String> = ts.iter().zip(offs).map(|(t, o)| self.val(*t, a, off + o)).collect();
                format!("{{\"s\":[{}]}}", v.join(","))
            }
            RigidTy::Closure(_, ga) => {
                let n = ga.0.len();
                let ups = match ga.0.get(n.wrapping_sub(1)).and_then(|g| g.ty().copied()).map(|u| u.kind()) { Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts, _ => vec![] };
                let offs = self.offsets(&shape, ups.len());
                let v: Vec<String> = ups.iter().zip(offs).map(|(t, o)| self.val(*t, a, off + o)).collect();
                format!("{{\"s\":[{}]}}", v.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                self.arr(*e, a, off, n)
            }
            RigidTy::RawPtr(p, _) | RigidTy::Ref(_, p, _) => self.ptr(*p, a, off),
            RigidTy::FnPtr(_) => {
                if let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) { return format!("{{\"fn\":{}}}", self.inst(i)); }
                }
                "{\"o\":\"fnptr\"}".into()
            }
            RigidTy::Adt(d, ga) => {
                match d.kind() {
                    AdtKind::Struct => {
                        let v = d.variants()[0];
                        let fs = v.fields();
                        let offs = self.offsets(&shape, fs.len());
                        let vs: Vec<String> = fs.iter().zip(offs).map(|(f, o)| self.val(f.ty_with_args(ga), a, off + o)).collect();
                        format!("{{\"s\":[{}]}}", vs.join(","))
                    }
                    AdtKind::Union => {
                        let any = off + sz <= a.bytes.len() && a.bytes[off..off + sz].iter().any(|b| b.is_some());
                        if any {
                            // decode via the first field with the full size
                            let v = d.variants()[0];
                            for (i, f) in v.fields().iter().enumerate() {
                                let ft = f.ty_with_args(ga);
                                if self.shape(ft).map(|s| s.size.bytes()) == Some(sz) && sz > 0 {
                                    let x = self.val(ft, a, off);
                                    return format!("{{\"u\":{},\"x\":{}}}", i, x);
                                }
                            }
                        }
                        "{\"o\":\"uninit\"}".into()
                    }
                    AdtKind::Enum => {
                        let (vi, offs) = match &shape.variants {
                            VariantsShape::Empty => return "{\"o\":\"empty\"}".into(),
                            VariantsShape::Single { index } => {
                                let n = d.variants()[to_usize(*index)].fields().len();
                                (to_usize(*index), self.offsets(&shape, n))
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                                let (tsz, isptr) = match tag {
                                    Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                        Primitive::Int { length, .. } => (length.bits() / 8, false),
                                        Primitive::Float { length } => (match length { rustc_public::abi::FloatLength::F16 => 2, rustc_public::abi::FloatLength::F32 => 4, rustc_public::abi::FloatLength::F64 => 8, _ => 16 }, false),
                                        Primitive::Pointer(_) => (8, true),
                                    },
                                };
                                let hasprov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let tagv = self.rd(a, off + toff, tsz);
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let Some(tv) = tagv else { return "{\"o\":\"uninit\"}".into() };
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        match d.variants().iter().position(|v| d.discriminant_for_variant(v.idx()).val & mask == tv) { Some(p) => p, None => return "{\"o\":\"badtag\"}".into() }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if isptr && hasprov { to_usize(*untagged_variant) } else {
                                            let Some(tv) = tagv else { return "{\"o\":\"uninit\"}".into() };
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let s = to_usize(*niche_variants.start());
                                            let e = to_usize(*niche_variants.end());
                                            if rel <= (e - s) as u128 { s + rel as usize } else { to_usize(*untagged_variant) }
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>())
                            }
                        };
                        let v = d.variants()[vi];
                        let vs: Vec<String> = v.fields().iter().zip(offs).map(|(f, o)| self.val(f.ty_with_args(ga), a, off + o)).collect();
                        format!("{{\"e\":{},\"s\":[{}]}}", vi, vs.join(","))
                    }
                }
            }
            _ => "{\"o\":\"ty\"}".into(),
        }
    }
    fn offsets(&mut self, shape: &LayoutShape, n: usize) -> Vec<usize> {
        match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; n] }
    }
    fn arr(&mut self, e: Ty, a: &Allocation, off: usize, n: usize) -> String {
        let Some(es) = self.shape(e) else { return "{\"o\":\"nolayout\"}".into() };
        let sz = es.size.bytes();
        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) && off + n <= a.bytes.len() && a.bytes[off..off + n].iter().all(|b| b.is_some()) {
            let mut h = String::new();
            for b in &a.bytes[off..off + n] { let _ = write!(h, "{:02x}", b.unwrap()); }
            return format!("{{\"b\":\"{}\"}}", h);
        }
        if n > 512 { return "{\"o\":\"big\"}".into(); }
        let v: Vec<String> = (0..n).map(|i| self.val(e, a, off + i * sz)).collect();
        format!("{{\"a\":[{}]}}", v.join(","))
    }
    fn ptr(&mut self, p: Ty, a: &Allocation, off: usize) -> String {
        let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off).cloned() else {
            return match self.rd(a, off, 8) { Some(n) => format!("{{\"addr\":\"{}\"}}", n), None => "{\"o\":\"uninit\"}".into() };
        };
        let o2 = self.rd(a, off, 8).unwrap_or(0) as usize;
        let meta = if a.bytes.len() >= off + 16 { self.rd(a, off + 8, 8) } else { None };
        self.pointee(p, prov.0, o2, meta)
    }
    fn pointee(&mut self, p: Ty, id: AllocId, off: usize, meta: Option<u128>) -> String {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => match p.kind() {
                TyKind::RigidTy(RigidTy::Str) => { let n = meta.unwrap_or(0) as usize; let u8t = Ty::unsigned_ty(UintTy::U8); format!("{{\"ref\":{},\"n\":{}}}", self.arr(u8t, &m, off, n), n) }
                TyKind::RigidTy(RigidTy::Slice(e)) => { let n = meta.unwrap_or(0) as usize; format!("{{\"ref\":{},\"n\":{}}}", self.arr(e, &m, off, n), n) }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"o\":\"dyn\"}".into(),
                TyKind::RigidTy(RigidTy::Adt(d, ga)) if self.shape(p).map(|s| s.is_unsized()).unwrap_or(true) => {
                    // newtype over str / slice
                    let fs = d.variants()[0].fields();
                    if fs.len() == 1 { let ft = fs[0].ty_with_args(&ga); let inner = self.pointee(ft, id, off, meta); format!("{{\"wrap\":{}}}", inner) } else { "{\"o\":\"unsized\"}".into() }
                }
                _ => format!("{{\"ref\":{}}}", self.val(p, &m, off)),
            },
            GlobalAlloc::Static(s) => format!("{{\"static\":{},\"ty\":{}}}", js(&s.name()), self.ty(s.ty())),
            GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
            GlobalAlloc::VTable(t, _) => format!("{{\"vt\":{}}}", self.ty(t)),
            _ => "{\"o\":\"galloc\"}".into(),
        }
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"d\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, *from_end as u8),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, *from_end as u8),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", to_usize(*v)),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }).collect();
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::RuntimeChecks(c) => format!("[\"rc\",{}]", js(&format!("{:?}", c))),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = match c.const_.kind() {
                    ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
                    ConstantKind::Allocated(a) => self.val(t, a, 0),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(t2, a) => self.val(*t2, a, 0),
                        TyConstKind::ZSTValue(_) => "{\"z\":1}".to_string(),
                        _ => match tc.eval_target_usize() { Ok(n) => format!("{{\"i\":\"{}\"}}", n), Err(_) => "{\"o\":\"tyconst\"}".into() },
                    },
                    k => format!("{{\"o\":{}}}", js(&format!("{:?}", k).chars().take(80).collect::<String>())),
                };
                format!("[\"k\",{},{}]", self.ty(t), v)
            }
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p), (b.to_mutable_lossy() == Mutability::Mut) as u8),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); format!("[\"adt\",{},{},{}]", self.ty(t), to_usize(*v), f.map(|f| f.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, o.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => { if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k { if let Ok(st) = o.ty(&self.locals) { self.vtable(st, *t, 0); } } format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), self.ty(*t)) },
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", js(&c.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }
    // the methods behind a pointer that forgets its type
    fn vtable(&mut self, s: Ty, d: Ty, n: usize) {
        if n > 6 { return; }
        match (s.kind(), d.kind()) {
            (TyKind::RigidTy(RigidTy::Ref(_, a, _) | RigidTy::RawPtr(a, _)), TyKind::RigidTy(RigidTy::Ref(_, b, _) | RigidTy::RawPtr(b, _))) => self.vtable(a, b, n + 1),
            (TyKind::RigidTy(RigidTy::Dynamic(..)), _) => {}
            (_, TyKind::RigidTy(RigidTy::Dynamic(ps, _))) => {
                if !self.vts.insert((s, d)) { return; }
                for p in &ps {
                    if !p.bound_vars.is_empty() { continue; }
                    if let ExistentialPredicate::Trait(t) = p.clone().skip_binder() {
                        let es = t.with_self_ty(s).vtable_entries();
                        let v: Vec<String> = es.iter().map(|e| match e { VtblEntry::Method(i) => self.inst(*i).to_string(), _ => "null".into() }).collect();
                        let (a, b) = (self.ty(s), self.ty(d));
                        self.emit(format!("{{\"k\":\"vt\",\"ty\":{},\"dyn\":{},\"m\":[{}]}}", a, b, v.join(",")));
                    }
                }
            }
            (TyKind::RigidTy(RigidTy::Adt(x, a)), TyKind::RigidTy(RigidTy::Adt(y, b))) if x == y => {
                for (p, q) in a.0.iter().zip(b.0.iter()) {
                    if let (Some(p), Some(q)) = (p.ty(), q.ty()) { if p != q { self.vtable(*p, *q, n + 1); } }
                }
            }
            _ => {}
        }
    }
    fn dump_fn(&mut self, id: usize, i: Instance) {
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let intr = i.intrinsic_name().map(|s| js(&s)).unwrap_or("null".into());
        let name = i.name();
        let args = i.args();
        let foreign = i.is_foreign_item();
        let def = i.def;
        let _ = def;
        let krate = { let d: DefIdWrap = DefIdWrap(i); d.krate() };
        let aj = self.args(&args);
        let path = i.trimmed_name();
        let fty = i.ty();
        let defname = match fty.kind() { TyKind::RigidTy(RigidTy::FnDef(d, _)) => d.name(), TyKind::RigidTy(RigidTy::Closure(d, _)) => d.name(), _ => name.clone() };
        let vidx = match i.kind { InstanceKind::Virtual { idx } => idx.to_string(), _ => "null".into() };
        let mut head = format!("{{\"k\":\"fn\",\"vidx\":{},\"id\":{},\"n\":{},\"p\":{},\"d\":{},\"kind\":{},\"intr\":{},\"foreign\":{},\"krate\":{},\"args\":{}", vidx, id, js(&name), js(&path), js(&defname), js(kind), intr, foreign as u8, js(&krate), aj);
        let skip = matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) || (i.kind != InstanceKind::Shim && !i.has_body());
        let body = if skip { None } else { i.body() };
        if let Some(b) = body {
            let sp = self.span(b.span);
            let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
            let _ = write!(head, ",\"sp\":{},\"nargs\":{},\"spread\":{},\"locals\":[{}]", sp, b.arg_locals().len(), b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()), locals.join(","));
            let mut names: Vec<String> = vec![];
            for v in &b.var_debug_info { if let Some(l) = v.local() { names.push(format!("[{},{}]", l, js(&v.name))); } }
            let _ = write!(head, ",\"names\":[{}]", names.join(","));
            let mut blocks = vec![];
            self.locals = b.locals().to_vec();
            for bb in &b.blocks {
                let mut st = vec![];
                for s in &bb.statements {
                    let sp = self.span(s.source_info.span);
                    match &s.kind {
                        StatementKind::Assign(p, r) => { let a = self.place(p); let r = self.rv(r); st.push(format!("[\"=\",{},{},{}]", a, r, sp)); }
                        StatementKind::SetDiscriminant { place, variant_index } => { let a = self.place(place); st.push(format!("[\"sd\",{},{},{}]", a, to_usize(*variant_index), sp)); }
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let a = self.op(&c.src); let d = self.op(&c.dst); let n = self.op(&c.count); st.push(format!("[\"cpy\",{},{},{},{}]", a, d, n, sp)); }
                        _ => {}
                    }
                }
                let t = &bb.terminator;
                let sp = self.span(t.source_info.span);
                let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".into() };
                let term = match &t.kind {
                    TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let d = self.op(discr);
                        let ty = discr.ty(b.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                        let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                        format!("[\"switch\",{},[{}],{},{}]", d, br.join(","), targets.otherwise(), ty)
                    }
                    TerminatorKind::Return => "[\"ret\"]".into(),
                    TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                    TerminatorKind::Resume => "[\"resume\"]".into(),
                    TerminatorKind::Abort => "[\"abort\"]".into(),
                    TerminatorKind::Drop { place, target, unwind } => {
                        let pt = place.ty(b.locals()).unwrap();
                        let di = Instance::resolve_drop_in_place(pt);
                        let pj = self.place(place);
                        let tj = self.ty(pt);
                        let fj = if di.is_empty_shim() { "null".to_string() } else { self.inst(di).to_string() };
                        format!("[\"drop\",{},{},{},{},{}]", pj, tj, fj, target, uw(unwind))
                    }
                    TerminatorKind::Call { func, args, destination, target, unwind } => {
                        let fty = func.ty(b.locals()).unwrap();
                        let f = match fty.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) { Ok(i) => self.inst(i).to_string(), Err(_) => format!("{{\"unres\":{}}}", js(&d.name())) },
                            _ => format!("{{\"op\":{}}}", self.op(func)),
                        };
                        let aj: Vec<String> = args.iter().map(|a| self.op(a)).collect();
                        let dj = self.place(destination);
                        format!("[\"call\",{},[{}],{},{},{}]", f, aj.join(","), dj, target.map(|t| t.to_string()).unwrap_or("null".into()), uw(unwind))
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                        let c = self.op(cond);
                        let m = msg.description().unwrap_or("assert");
                        format!("[\"assert\",{},{},{},{},{}]", c, *expected as u8, js(m), target, uw(unwind))
                    }
                    TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                };
                blocks.push(format!("{{\"s\":[{}],\"t\":{},\"sp\":{}}}", st.join(","), term, sp));
            }
            let _ = write!(head, ",\"blocks\":[{}]", blocks.join(","));
        }
        head.push('}');
        self.emit(head);
        self.nfns += 1;
    }
}

struct DefIdWrap(Instance);
impl DefIdWrap {
    fn krate(&self) -> String {
        match self.0.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => d.krate().name.to_string(),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => d.krate().name.to_string(),
            _ => String::new(),
        }
    }
}

fn to_usize(v: VariantIdx) -> usize { use rustc_public_bridge::IndexedVal; v.to_index() }

fn run() -> ControlFlow<()> {
    let path = std::env::var("VERIF_MIR_OUT").expect("VERIF_MIR_OUT");
    let tmp = format!("{path}.tmp");
    let f = std::fs::File::create(&tmp).unwrap();
    let mut cx = Cx { out: std::io::BufWriter::new(f), tys: HashMap::new(), tyq: VecDeque::new(), fns: HashMap::new(), fnq: VecDeque::new(), files: HashMap::new(), shapes: HashMap::new(), nfns: 0, depth: 0, locals: vec![], vts: HashSet::new() };
    let mut roots = HashSet::new();
    for item in rustc_public::all_local_items() {
        if item.requires_monomorphization() { continue; }
        let n = item.name();
        if !n.contains("root_") || n.contains("{closure") || n.contains("{impl") { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.inst(i);
            if roots.insert(id) { let l = format!("{{\"k\":\"root\",\"id\":{},\"n\":{}}}", id, js(&n)); cx.emit(l); }
        }
    }
    loop {
        if let Some((id, i)) = cx.fnq.pop_front() { cx.dump_fn(id, i); continue; }
        if let Some(t) = cx.tyq.pop_front() { cx.dump_ty(t); continue; }
        break;
    }
    let l = format!("{{\"k\":\"end\",\"fns\":{},\"tys\":{},\"roots\":{}}}", cx.nfns, cx.tys.len(), roots.len());
    cx.emit(l);
    cx.out.flush().unwrap();
    drop(cx);
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the real rustc
    let rest: Vec<String> = args[1..].to_vec();
    let want = std::env::var("VERIF_CRATE").unwrap_or_else(|_| "probe".into());
    let is_probe = rest.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_probe && std::env::var("VERIF_MIR_OUT").is_ok() {
        let r = rustc_public::run!(&rest, run);
        match r { Ok(_) => {} Err(e) => { eprintln!("driver: {:?}", e); std::process::exit(1) } }
    } else {
        let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
}
