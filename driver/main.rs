//! mirdump: rustc driver that, for the crate named in VERIF_ROOT_CRATE, walks the resolved
//! (monomorphic) call graph from that crate's functions and writes every reachable MIR body,
//! type and constant as JSON lines to VERIF_MIR_OUT.  Every other crate is compiled normally.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    types: HashMap<Ty, usize>,
    tqueue: VecDeque<Ty>,
    fns: HashMap<Instance, usize>,
    fqueue: VecDeque<Instance>,
    skip: Vec<String>,
    out: std::io::BufWriter<std::fs::File>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        let n = self.types.len();
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        self.types.insert(t, n);
        self.tqueue.push_back(t);
        n
    }
    fn inst(&mut self, i: Instance) -> usize {
        let n = self.fns.len();
        if let Some(k) = self.fns.get(&i) {
            return *k;
        }
        self.fns.insert(i, n);
        self.fqueue.push_back(i);
        n
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(format!("[\"c\",{}]", n)),
                    Err(_) => v.push(format!("[\"c\",{}]", esc(&format!("{:?}", c)))),
                },
            }
        }
        format!("[{}]", v.join(","))
    }

    fn emit_type(&mut self, id: usize, t: Ty) {
        let shown = esc(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"b\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"b\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                        }
                        let d = if kind == "enum" {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},[{}],{}]", esc(&v.name()), fs.join(","), d));
                    }
                    let a = self.args(&args);
                    format!(
                        "\"k\":\"adt\",\"ak\":\"{}\",\"name\":{},\"crate\":{},\"args\":{},\"vs\":[{}]",
                        kind,
                        esc(&def.name()),
                        esc(&def.krate().name),
                        a,
                        vs.join(",")
                    )
                }
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, _) => format!("\"k\":\"ptr\",\"e\":{}", self.ty(e)),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(e), matches!(m, Mutability::Mut)),
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let i = match Instance::resolve(def, &args) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"i\":{}", esc(&def.name()), a, i)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(def, args) => {
                    let a = self.args(&args);
                    // the closure body itself: resolve with the kind that needs no shim
                    let mut got = "null".to_string();
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                            if i.kind == InstanceKind::Item {
                                got = self.inst(i).to_string();
                                break;
                            }
                        }
                    }
                    format!("\"k\":\"closure\",\"name\":{},\"args\":{},\"i\":{}", esc(&def.name()), a, got)
                }
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"es\":[{}]", v.join(","))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        writeln!(self.out, "{{\"T\":{},\"s\":{},{}}}", id, shown, body).unwrap();
    }

    fn rd(alloc: &Allocation, off: usize, n: usize) -> Option<u128> {
        alloc.read_partial_uint(off..off + n).ok()
    }

    /// decode a constant of type `t` stored at `off` in `alloc`
    fn val(&mut self, alloc: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 40 {
            return "[\"?\",\"depth\"]".into();
        }
        let kind = t.kind();
        let r = match kind {
            TyKind::RigidTy(r) => r,
            _ => return "[\"?\",\"nonrigid\"]".into(),
        };
        match r {
            RigidTy::Bool => match Self::rd(alloc, off, 1) {
                Some(v) => format!("[\"i\",\"{}\"]", v),
                None => "[\"u\"]".into(),
            },
            RigidTy::Char => match Self::rd(alloc, off, 4) {
                Some(v) => format!("[\"i\",\"{}\"]", v),
                None => "[\"u\"]".into(),
            },
            RigidTy::Int(i) => match Self::rd(alloc, off, i.num_bytes()) {
                Some(v) => {
                    let b = i.num_bytes() * 8;
                    let s = if b < 128 && (v >> (b - 1)) & 1 == 1 { v as i128 - (1i128 << b) } else { v as i128 };
                    format!("[\"i\",\"{}\"]", s)
                }
                None => "[\"u\"]".into(),
            },
            RigidTy::Uint(i) => match Self::rd(alloc, off, i.num_bytes()) {
                Some(v) => format!("[\"i\",\"{}\"]", v),
                None => "[\"u\"]".into(),
            },
            RigidTy::Float(rustc_public::ty::FloatTy::F64) => match Self::rd(alloc, off, 8) {
                Some(v) => format!("[\"d\",\"{}\"]", v),
                None => "[\"u\"]".into(),
            },
            RigidTy::Float(_) => "[\"?\",\"float\"]".into(),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.ptr_val(alloc, off, e, depth),
            RigidTy::FnPtr(_) => {
                for (o, p) in &alloc.provenance.ptrs {
                    if *o == off {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                            return format!("[\"f\",{}]", self.inst(i));
                        }
                    }
                }
                "[\"?\",\"fnptr\"]".into()
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                let sz = e.layout().map(|l| l.shape().size).map(|s| s.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n as usize).map(|k| self.val(alloc, off + k * sz, e, depth + 1)).collect();
                format!("[\"A\",[{}]]", v.join(","))
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return "[\"a\",0,[]]".into();
                }
                let sh = t.layout().unwrap().shape();
                let mut v = vec![];
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    for (k, ft) in ts.iter().enumerate() {
                        v.push(self.val(alloc, off + offsets[k].bytes(), *ft, depth + 1));
                    }
                }
                format!("[\"a\",0,[{}]]", v.join(","))
            }
            RigidTy::FnDef(..) => format!("[\"z\",{}]", self.ty(t)),
            RigidTy::Closure(..) => {
                let sz = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                if sz == 0 { format!("[\"z\",{}]", self.ty(t)) } else { "[\"?\",\"closure\"]".into() }
            }
            RigidTy::Adt(def, args) => {
                let sh = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return "[\"?\",\"layout\"]".into(),
                };
                let ptr = 8usize;
                let _ = ptr;
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return "[\"?\",\"empty\"]".into(),
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            FieldsShape::Union(n) => vec![0usize; n.get()],
                            _ => vec![],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value,
                            rustc_public::abi::Scalar::Union { value } => value,
                        };
                        let tsz = match prim {
                            rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        };
                        let isptr = alloc.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let raw = Self::rd(alloc, off + toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = match raw { Some(r) => r, None => return "[\"u\"]".into() };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let mut f = None;
                                for v in def.variants() {
                                    if def.discriminant_for_variant(v.idx()).val & mask == raw {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                match f { Some(x) => x, None => return "[\"?\",\"tag\"]".into() }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr {
                                    untagged_variant.to_index()
                                } else {
                                    let raw = match raw { Some(r) => r, None => return "[\"u\"]".into() };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let s = niche_variants.start().to_index();
                                    let e = niche_variants.end().to_index();
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let vs = def.variants();
                let mut v = vec![];
                for (k, f) in vs[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let fo = offs.get(k).copied().unwrap_or(0);
                    v.push(self.val(alloc, off + fo, ft, depth + 1));
                }
                format!("[\"a\",{},[{}]]", vi, v.join(","))
            }
            _ => "[\"?\",\"kind\"]".into(),
        }
    }

    fn ptr_val(&mut self, alloc: &Allocation, off: usize, e: Ty, depth: usize) -> String {
        let addend = Self::rd(alloc, off, 8).unwrap_or(0) as usize;
        let prov = alloc.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let p = match prov {
            Some(p) => p,
            None => return format!("[\"p\",{}]", addend),
        };
        match GlobalAlloc::from(p) {
            GlobalAlloc::Memory(a) => match e.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = Self::rd(alloc, off + 8, 8).unwrap_or(0) as usize;
                    let b: Vec<u8> = a.bytes[addend..addend + n].iter().map(|x| x.unwrap_or(b'?')).collect();
                    format!("[\"s\",{}]", esc(&String::from_utf8_lossy(&b)))
                }
                TyKind::RigidTy(RigidTy::Slice(el)) => {
                    let n = Self::rd(alloc, off + 8, 8).unwrap_or(0) as usize;
                    let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..n).map(|k| self.val(&a, addend + k * sz, el, depth + 1)).collect();
                    format!("[\"R\",[\"A\",[{}]]]", v.join(","))
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"?\",\"dyn\"]".into(),
                _ => {
                    let inner = self.val(&a, addend, e, depth + 1);
                    format!("[\"r\",{}]", inner)
                }
            },
            GlobalAlloc::Function(i) => format!("[\"f\",{}]", self.inst(i)),
            GlobalAlloc::Static(s) => {
                let nm = s.name();
                match s.eval_initializer() {
                    Ok(a) => {
                        let inner = self.val(&a, addend, e, depth + 1);
                        format!("[\"S\",{},{}]", esc(&nm), inner)
                    }
                    Err(_) => format!("[\"S\",{},[\"?\",\"static\"]]", esc(&nm)),
                }
            }
            _ => "[\"?\",\"galloc\"]".into(),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{}]", v.join(","))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.val(a, 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => format!("[\"z\",{}]", tid),
                TyKind::RigidTy(RigidTy::Array(..)) => "[\"A\",[]]".into(),
                TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                    let mut v = vec![];
                    for f in def.variants()[0].fields() {
                        let ft = f.ty_with_args(&args);
                        let e = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                        v.push(self.val(&e, 0, ft, 1));
                    }
                    format!("[\"a\",0,[{}]]", v.join(","))
                }
                _ => "[\"a\",0,[]]".into(),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.val(&a.clone(), 0, t, 0),
                TyConstKind::ZSTValue(_) => "[\"a\",0,[]]".into(),
                _ => "[\"?\",\"tyconst\"]".into(),
            },
            ConstantKind::Unevaluated(u) => format!("[\"?\",{}]", esc(&format!("unevaluated {}", u.def.name()))),
            ConstantKind::Param(_) => "[\"?\",\"param\"]".into(),
        };
        format!("[\"k\",{},{}]", tid, v)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"A\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"t\"]".into(),
                    AggregateKind::Adt(def, vi, args, _, fi) => {
                        let t = self.ty(def.ty_with_args(args));
                        format!("[\"a\",{},{},{}]", t, vi.to_index(), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        format!("[\"cl\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rp\",{}]", self.ty(*t)),
                    _ => "[\"?\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => "Reify".to_string(),
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => "ClosureFn".to_string(),
                    CastKind::PointerCoercion(c) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }

    fn emit_fn(&mut self, id: usize, i: Instance) {
        let name = i.name();
        let def_name = i.def.name();
        let krate = i.def.krate().name;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let a = i.args();
        let args = self.args(&a);
        let span = i.def.span();
        let li = span.get_lines();
        let file = span.get_filename().to_string();
        let head = format!(
            "\"F\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"args\":{},\"at\":{}",
            id,
            esc(&name),
            esc(&def_name),
            esc(&krate),
            kind,
            args,
            esc(&format!("{}:{}", file, li.start_line))
        );
        let skipped = self.skip.iter().any(|p| {
            def_name.starts_with(p.as_str()) || (p.starts_with('@') && krate == p[1..])
        });
        if skipped || matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) || (kind == "shim" && name.contains("drop")) {
            writeln!(self.out, "{{{}}}", head).unwrap();
            return;
        }
        let body = match i.body() {
            Some(b) => b,
            None => {
                // a constructor used as a function has a result type but no body
                let mut res = "null".to_string();
                if let TyKind::RigidTy(RigidTy::FnDef(..)) = i.ty().kind() {
                    if let Some(sig) = i.ty().kind().fn_sig() {
                        let o = sig.skip_binder().output();
                        if matches!(o.kind(), TyKind::RigidTy(RigidTy::Adt(..))) {
                            res = self.ty(o).to_string();
                        }
                    }
                }
                writeln!(self.out, "{{{},\"res\":{}}}", head, res).unwrap();
                return;
            }
        };
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bbs = vec![];
        for b in &body.blocks {
            let mut ss = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(p);
                        let rv = self.rvalue(r);
                        let ln = s.source_info.span.get_lines().start_line;
                        ss.push(format!("[\"=\",{},{},{}]", pl, rv, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (x, y, z) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                        ss.push(format!("[\"cpy\",{},{},{}]", x, y, z))
                    }
                    _ => {}
                }
            }
            let ln = b.terminator.source_info.span.get_lines().start_line;
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(x, t)| format!("[\"{}\",{}]", x, t)).collect();
                    let dt = discr.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"sw\",{},{},[{}],{}]", self.op(discr), dt, v.join(","), targets.otherwise())
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body.locals()).unwrap();
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                            let i = match Instance::resolve(def, &ga) {
                                Ok(i) => self.inst(i).to_string(),
                                Err(_) => "null".into(),
                            };
                            let g = self.args(&ga);
                            format!("[\"d\",{},{},{}]", esc(&def.name()), g, i)
                        }
                        _ => format!("[\"v\",{}]", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(x)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        callee,
                        a.join(","),
                        d,
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = msg.description().unwrap_or("assert").to_string();
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, target, esc(&m), ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bbs.push(format!("[[{}],{}]", ss.join(","), t));
        }
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", p.local, esc(&v.name)));
                }
            }
        }
        writeln!(
            self.out,
            "{{{},\"n\":{},\"spread\":{},\"locals\":[{}],\"dbg\":[{}],\"bbs\":[{}]}}",
            head,
            body.arg_locals().len(),
            body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","),
            dbg.join(","),
            bbs.join(",")
        )
        .unwrap();
    }
}

fn dump() -> ControlFlow<(), ()> {
    let path = std::env::var("VERIF_MIR_OUT").unwrap();
    let skip = std::env::var("VERIF_MIR_SKIP").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let tmp = format!("{}.tmp", path);
    let mut cx = Cx {
        types: HashMap::new(),
        tqueue: VecDeque::new(),
        fns: HashMap::new(),
        fqueue: VecDeque::new(),
        skip,
        out: std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap()),
    };
    let mut nroots = 0;
    for item in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(item) {
            if item.kind() == rustc_public::ItemKind::Fn {
                cx.inst(i);
                nroots += 1;
            }
        }
    }
    let wanted: Vec<String> = std::env::var("VERIF_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    for k in rustc_public::external_crates() {
        if wanted.iter().any(|w| *w == k.name) {
            for f in k.fn_defs() {
                let it = rustc_public::CrateItem::try_from_fn(f);
                if let Some(i) = it {
                    cx.inst(i);
                }
            }
        }
    }
    loop {
        if let Some(i) = cx.fqueue.pop_front() {
            let id = cx.fns[&i];
            cx.emit_fn(id, i);
        } else if let Some(t) = cx.tqueue.pop_front() {
            let id = cx.types[&t];
            cx.emit_type(id, t);
        } else {
            break;
        }
    }
    writeln!(cx.out, "{{\"END\":1,\"types\":{},\"fns\":{},\"roots\":{}}}", cx.types.len(), cx.fns.len(), nroots).unwrap();
    cx.out.flush().unwrap();
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

trait TryFromFn {
    fn try_from_fn(f: FnDef) -> Option<Instance>;
}
impl TryFromFn for rustc_public::CrateItem {
    /// non-generic function of an analysed crate -> its only instance
    fn try_from_fn(f: FnDef) -> Option<Instance> {
        let ty = f.ty();
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, args)) => {
                if args.0.iter().all(|a| matches!(a, GenericArgKind::Lifetime(_))) {
                    Instance::resolve(d, &args).ok().filter(|i| i.has_body())
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let root = std::env::var("VERIF_ROOT_CRATE").unwrap_or_default();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    if !root.is_empty() && cname == root {
        args[0] = real;
        let r = run!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let st = std::process::Command::new(real).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
