// mirdump: compiles one crate and writes, as JSON, the monomorphic MIR of every function that can
// be reached from its `r_*` functions (roots), across crates, with all callees resolved by rustc.
//
//   MIRDUMP_OUT=out.json [MIRDUMP_LEAF=regexless-prefix-list] mirdump <rustc args>
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding, Primitive, Scalar};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::Location;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn num<T: std::fmt::Display>(n: T) -> String { format!("\"{}\"", n) }

struct Ctx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    inst: BTreeMap<String, Instance>,
    queue: VecDeque<(String, Instance)>,
    models: HashMap<String, FnDef>,
    overrides: HashMap<String, String>,
    impls: HashMap<String, (String, Vec<i64>)>,
    leaf: Vec<String>,
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> String {
        if let Some(i) = self.tys.get(&t) { return i.to_string(); }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let mut f: Vec<(String, String)> = vec![("str".into(), q(&format!("{}", t)))];
        let mut put = |k: &str, v: String| f.push((k.to_string(), v));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => put("k", q("bool")),
                RigidTy::Char => put("k", q("char")),
                RigidTy::Int(x) => { put("k", q("int")); put("bits", int_bits(x).to_string()); }
                RigidTy::Uint(x) => { put("k", q("uint")); put("bits", uint_bits(x).to_string()); }
                RigidTy::Float(x) => { put("k", q("float")); put("bits", format!("{}", match x { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 })); }
                RigidTy::Str => put("k", q("str")),
                RigidTy::Never => put("k", q("never")),
                RigidTy::Array(e, n) => {
                    put("k", q("array"));
                    let e = self.ty(e); put("elem", e);
                    put("n", n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()));
                }
                RigidTy::Slice(e) => { put("k", q("slice")); let e = self.ty(e); put("elem", e); }
                RigidTy::Ref(_, e, m) => { put("k", q("ref")); let e = self.ty(e); put("elem", e); put("mut", (m == Mutability::Mut).to_string()); }
                RigidTy::RawPtr(e, m) => { put("k", q("ptr")); let e = self.ty(e); put("elem", e); put("mut", (m == Mutability::Mut).to_string()); }
                RigidTy::Tuple(es) => { put("k", q("tuple")); let es = es.into_iter().map(|e| self.ty(e)).collect(); put("elems", arr(es)); }
                RigidTy::FnDef(d, a) => {
                    put("k", q("fndef")); put("def", q(&d.name()));
                    if let Ok(i) = Instance::resolve(d, &a) { let k = self.want(i); put("inst", q(&k)); }
                }
                RigidTy::FnPtr(_) => put("k", q("fnptr")),
                RigidTy::Closure(d, a) => {
                    put("k", q("closure")); put("def", q(&d.name()));
                    // upvar tuple type is the last generic argument
                    if let Some(GenericArgKind::Type(u)) = a.0.last() { let u = self.ty(*u); put("upvars", u); }
                    // its body, even when the only caller is a function that is not followed; the kind is third from last
                    let n = a.0.len();
                    let kind = if n >= 3 { match &a.0[n - 3] {
                        GenericArgKind::Type(t) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => Some(ClosureKind::Fn),
                            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => Some(ClosureKind::FnMut),
                            TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => Some(ClosureKind::FnOnce),
                            _ => None,
                        }, _ => None } } else { None };
                    if let Some(kind) = kind { if let Ok(i) = Instance::resolve_closure(d, &a, kind) { self.want(i); } }
                }
                RigidTy::Dynamic(..) => put("k", q("dyn")),
                RigidTy::Foreign(_) => put("k", q("foreign")),
                RigidTy::Adt(d, a) => {
                    put("k", q("adt")); put("def", q(&d.name()));
                    put("kind", q(&format!("{:?}", d.kind())));
                    let args = a.0.iter().map(|g| match g {
                        GenericArgKind::Type(t) => self.ty(*t),
                        GenericArgKind::Const(c) => q(&cstr(c)),
                        GenericArgKind::Lifetime(_) => "null".to_string(),
                    }).collect();
                    put("args", arr(args));
                    let vs = d.variants().into_iter().enumerate().map(|(i, v)| {
                        let fs = v.fields().into_iter().map(|f| arr(vec![q(&f.name), self.ty(f.ty_with_args(&a))])).collect();
                        let dv = if d.kind() == AdtKind::Enum { format!("{}", d.discriminant_for_variant(VariantIdx::to_val(i)).val) } else { "0".into() };
                        format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", q(&v.name()), num(dv), arr(fs))
                    }).collect();
                    put("variants", arr(vs));
                }
                other => put("k", q(&format!("other:{:?}", other).chars().take(60).collect::<String>())),
            },
            other => put("k", q(&format!("other:{:?}", other).chars().take(60).collect::<String>())),
        }
        self.ty_out[i] = format!("{{{}}}", f.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","));
        i.to_string()
    }

    fn want(&mut self, i: Instance) -> String {
        let k = format!("{}", i.mangled_name());
        let k = if matches!(i.kind, InstanceKind::Virtual { .. }) { format!("virtual:{}", k) } else { k };
        let k = if matches!(i.kind, InstanceKind::Shim) { format!("shim:{}:{}", k, i.name()) } else { k };
        if !self.inst.contains_key(&k) {
            self.inst.insert(k.clone(), i);
            self.queue.push_back((k.clone(), i));
        }
        k
    }

    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> Option<Instance> {
        let n = d.name();
        if let Some(m) = self.overrides.get(&n).cloned() {
            if let Some(md) = self.models.get(&m).copied() {
                if let Ok(i) = Instance::resolve(md, a) { return Some(i); }
            }
        }
        let i = Instance::resolve(d, a).ok()?;
        if let Some((m, sel)) = self.impls.get(&i.def.name()).cloned() {
            if let Some(md) = self.models.get(&m).copied() {
                let ts: Vec<GenericArgKind> = i.args().0.iter().filter(|g| matches!(g, GenericArgKind::Type(_))).cloned().collect();
                let pick: Option<Vec<GenericArgKind>> = sel.iter().map(|k| { let n = if *k < 0 { ts.len() as i64 + k } else { *k }; ts.get(n as usize).cloned() }).collect();
                if let Some(p) = pick { if let Ok(j) = Instance::resolve(md, &GenericArgs(p)) { return Some(j); } }
            }
        }
        Some(i)
    }

    fn place(&mut self, p: &Place) -> String {
        let ps = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => q("*"),
            ProjectionElem::Field(i, t) => arr(vec![q("f"), i.to_string(), self.ty(*t)]),
            ProjectionElem::Index(l) => arr(vec![q("i"), l.to_string()]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => arr(vec![q("ci"), offset.to_string(), min_length.to_string(), from_end.to_string()]),
            ProjectionElem::Subslice { from, to, from_end } => arr(vec![q("sub"), from.to_string(), to.to_string(), from_end.to_string()]),
            ProjectionElem::Downcast(v) => arr(vec![q("v"), v.to_index().to_string()]),
            other => arr(vec![q(&format!("{:?}", other))]),
        }).collect();
        arr(vec![p.local.to_string(), arr(ps)])
    }

    fn bytes(&self, a: &Allocation, off: usize, len: usize) -> Option<Vec<u8>> {
        if off + len > a.bytes.len() { return None; }
        a.bytes[off..off + len].iter().map(|b| *b).collect()
    }
    fn uint(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let b = self.bytes(a, off, len)?;
        let mut n: u128 = 0;
        for (i, x) in b.iter().enumerate() { n |= (*x as u128) << (8 * i); }
        Some(n)
    }

    // decode a constant value of type t at offset off
    fn value(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return "null".into(); }
        let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return "null".into() };
        let size = lay.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) =>
                    match self.uint(a, off, size) { Some(n) => arr(vec![q("n"), num(n)]), None => "null".into() },
                RigidTy::Int(_) => match self.uint(a, off, size) {
                    Some(n) => { let s = (128 - 8 * size) as u32; arr(vec![q("n"), num(if size == 16 { n as i128 } else { ((n << s) as i128) >> s })]) }
                    None => "null".into() },
                RigidTy::FnDef(..) | RigidTy::Closure(..) if size == 0 => arr(vec![q("zst"), self.ty(t)]),
                RigidTy::Tuple(es) => match lay.fields {
                    FieldsShape::Arbitrary { ref offsets } => {
                        let vs = es.iter().enumerate().map(|(i, e)| self.value(a, off + offsets[i].bytes(), *e, depth + 1)).collect();
                        arr(vec![q("agg"), "0".into(), arr(vs)])
                    }
                    _ => arr(vec![q("agg"), "0".into(), "[]".into()]),
                },
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if n > 4096 { return "null".into(); }
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let vs = (0..n).map(|i| self.value(a, off + i * es, e, depth + 1)).collect();
                    arr(vec![q("arr"), arr(vs)])
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let base = self.uint(a, off, 8).unwrap_or(0) as usize;
                    let alloc = match prov { Some(id) => GlobalAlloc::from(id), None => {
                        return match e.kind() {
                            TyKind::RigidTy(RigidTy::Slice(_)) => arr(vec![q("ref"), arr(vec![q("arr"), "[]".into()])]),
                            TyKind::RigidTy(RigidTy::Str) => arr(vec![q("ref"), arr(vec![q("str"), q("")])]),
                            _ => "null".into() } } };
                    let mem = match alloc {
                        GlobalAlloc::Memory(m) => m,
                        GlobalAlloc::Static(s) => match s.eval_initializer() { Ok(m) => m, Err(_) => return "null".into() },
                        _ => return "null".into() };
                    match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            match self.bytes(&mem, base, len) {
                                Some(b) => arr(vec![q("ref"), arr(vec![q("str"), q(&String::from_utf8_lossy(&b))])]),
                                None => "null".into() }
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let len = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            if len > 4096 { return "null".into(); }
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let vs = (0..len).map(|i| self.value(&mem, base + i * es, e, depth + 1)).collect();
                            arr(vec![q("ref"), arr(vec![q("arr"), arr(vs)])])
                        }
                        _ => { let v = self.value(&mem, base, e, depth + 1); arr(vec![q("ref"), v]) }
                    }
                }
                RigidTy::Adt(d, ref args) => {
                    let (vidx, offs): (usize, Vec<usize>) = match &lay.variants {
                        VariantsShape::Empty => return "null".into(),
                        VariantsShape::Single { index } => (index.to_index(), match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            FieldsShape::Union(_) => return "null".into(),
                            _ => vec![] }),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return "null".into() };
                            let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                            let tlen = match prim { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => return "null".into() };
                            let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = match self.uint(a, off + toff, tlen) { Some(n) => n, None => return "null".into() };
                            let v = match tag_encoding {
                                TagEncoding::Direct => (0..d.variants().len()).find(|i| {
                                    let dv = d.discriminant_for_variant(VariantIdx::to_val(*i)).val;
                                    let mask = if tlen == 16 { u128::MAX } else { (1u128 << (8 * tlen)) - 1 };
                                    dv & mask == raw }).unwrap_or(0),
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if tlen == 16 { u128::MAX } else { (1u128 << (8 * tlen)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let (lo, hi) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                    if !is_ptr && rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                }
                            };
                            let os = variants[v].offsets.iter().map(|o| o.bytes()).collect();
                            (v, os)
                        }
                    };
                    let var = match d.variants().get(vidx).copied() { Some(v) => v, None => return "null".into() };
                    let fs: Vec<Ty> = var.fields().into_iter().map(|f| f.ty_with_args(args)).collect();
                    let vs = fs.iter().enumerate().map(|(i, ft)| match offs.get(i) { Some(o) => self.value(a, off + o, *ft, depth + 1), None => "null".into() }).collect();
                    arr(vec![q("agg"), vidx.to_string(), arr(vs)])
                }
                _ => "null".into(),
            },
            _ => "null".into(),
        }
    }

    fn constant(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let ty = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => { let a = a.clone(); self.value(&a, 0, t, 0) }
            ConstantKind::ZeroSized => arr(vec![q("zst"), ty.clone()]),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => arr(vec![q("n"), num(n)]), Err(_) => "null".into() },
            _ => "null".into(),
        };
        arr(vec![q("k"), ty, v])
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => arr(vec![q("c"), self.place(p)]),
            Operand::Move(p) => arr(vec![q("m"), self.place(p)]),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            other => arr(vec![q("rt"), q(&format!("{:?}", other))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => arr(vec![q("use"), self.operand(o)]),
            Rvalue::Ref(_, k, p) => arr(vec![q("ref"), q(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::AddressOf(_, p) => arr(vec![q("ref"), q("raw"), self.place(p)]),
            Rvalue::CopyForDeref(p) => arr(vec![q("use"), arr(vec![q("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => arr(vec![q("discr"), self.place(p)]),
            Rvalue::Len(p) => arr(vec![q("len"), self.place(p)]),
            Rvalue::Repeat(o, n) => arr(vec![q("repeat"), self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())]),
            Rvalue::BinaryOp(b, x, y) => arr(vec![q("bin"), q(&format!("{:?}", b)), self.operand(x), self.operand(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => arr(vec![q("cbin"), q(&format!("{:?}", b)), self.operand(x), self.operand(y)]),
            Rvalue::UnaryOp(u, x) => arr(vec![q("un"), q(&format!("{:?}", u)), self.operand(x)]),
            Rvalue::Cast(k, o, t) => arr(vec![q("cast"), q(&format!("{:?}", k)), self.operand(o), self.ty(*t)]),
            Rvalue::Aggregate(k, os) => {
                let ks = match k {
                    AggregateKind::Array(_) => arr(vec![q("array")]),
                    AggregateKind::Tuple => arr(vec![q("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone())));
                        arr(vec![q("adt"), t, v.to_index().to_string(), f.map(|x| x.to_string()).unwrap_or("null".into())])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone())));
                        arr(vec![q("closure"), t])
                    }
                    other => arr(vec![q(&format!("{:?}", other).chars().take(40).collect::<String>())]),
                };
                let os = os.iter().map(|o| self.operand(o)).collect();
                arr(vec![q("agg"), ks, arr(os)])
            }
            other => arr(vec![q("other"), q(&format!("{:?}", other).chars().take(80).collect::<String>())]),
        }
    }

    fn span(s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn body(&mut self, b: &Body, locals_named: bool) -> String {
        let mut o = String::new();
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let _ = write!(o, "\"argc\":{},\"locals\":{}", b.arg_locals().len(), arr(locals));
        if let Some(s) = b.spread_arg() { let _ = write!(o, ",\"spread\":{}", s); }
        if locals_named {
            let mut names = vec![];
            for v in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.push(arr(vec![p.local.to_string(), q(&v.name)])); } }
            }
            let _ = write!(o, ",\"names\":{}", arr(names));
        }
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let l = Self::span(&s.source_info.span); ss.push(arr(vec![q("="), self.place(p), self.rvalue(r), q(&l)])) }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(arr(vec![q("sd"), self.place(place), variant_index.to_index().to_string()])),
                    StatementKind::StorageLive(l) => ss.push(arr(vec![q("sl"), l.to_string()])),
                    StatementKind::StorageDead(l) => ss.push(arr(vec![q("dead"), l.to_string()])),
                    StatementKind::Intrinsic(i) => ss.push(arr(vec![q("intr"), q(&format!("{:?}", i).chars().take(100).collect::<String>())])),
                    _ => {}
                }
            }
            let sp = q(&Self::span(&bb.terminator.source_info.span));
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => arr(vec![q("goto"), target.to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let bs = targets.branches().map(|(v, t)| arr(vec![num(v), t.to_string()])).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or("null".into());
                    arr(vec![q("switch"), self.operand(discr), arr(bs), targets.otherwise().to_string(), dt])
                }
                TerminatorKind::Resume => arr(vec![q("resume")]),
                TerminatorKind::Abort => arr(vec![q("abort")]),
                TerminatorKind::Return => arr(vec![q("ret")]),
                TerminatorKind::Unreachable => arr(vec![q("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => arr(vec![q("drop"), self.place(place), target.to_string()]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind: String = m.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    let kind = if kind == "Overflow" { m.split(',').next().unwrap_or("Overflow").to_string() } else { kind };
                    arr(vec![q("assert"), self.operand(cond), expected.to_string(), q(&kind), target.to_string()])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).ok();
                    let callee = match ft.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            let orig = d.name();
                            match self.callee(d, &a) {
                                Some(i) => { let k = self.want(i); arr(vec![q("fn"), q(&k), q(&orig)]) }
                                None => arr(vec![q("unresolved"), q(&orig)]),
                            }
                        }
                        _ => arr(vec![q("ptr"), self.operand(func)]),
                    };
                    let as_ = args.iter().map(|o| self.operand(o)).collect();
                    arr(vec![q("call"), callee, arr(as_), self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into())])
                }
                other => arr(vec![q(&format!("{:?}", other).chars().take(40).collect::<String>())]),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(ss), t, sp));
        }
        let _ = write!(o, ",\"blocks\":{}", arr(bbs));
        o
    }
}

fn int_bits(x: IntTy) -> u32 { match x { IntTy::Isize => 64, IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 => 64, IntTy::I128 => 128 } }
fn uint_bits(x: UintTy) -> u32 { match x { UintTy::Usize => 64, UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 => 64, UintTy::U128 => 128 } }

trait VI { fn to_val(i: usize) -> VariantIdx; fn to_index(&self) -> usize; }
impl VI for VariantIdx {
    fn to_val(i: usize) -> VariantIdx { <VariantIdx as rustc_public_bridge::IndexedVal>::to_val(i) }
    fn to_index(&self) -> usize { <VariantIdx as rustc_public_bridge::IndexedVal>::to_index(self) }
}

fn cstr(c: &TyConst) -> String { match c.eval_target_usize() { Ok(n) => n.to_string(), Err(_) => format!("{:?}", c) } }

// every body of the compiled crate: what it calls, which statics it names, how it casts
struct Eff { calls: Vec<String>, statics: Vec<String>, casts: Vec<String>, span: String }
impl MirVisitor for Eff {
    fn visit_span(&mut self, s: &rustc_public::ty::Span) { self.span = Ctx::span(s); }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        self.span = Ctx::span(&t.source_info.span);
        self.super_terminator(t, l);
    }
    fn visit_statement(&mut self, s: &Statement, l: Location) {
        self.span = Ctx::span(&s.source_info.span);
        self.super_statement(s, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Cast(k, _, t) = r { self.casts.push(arr(vec![q(&format!("{:?}", k)), q(&format!("{}", t)), q(&self.span)])); }
        if let Rvalue::ThreadLocalRef(i) = r { self.statics.push(arr(vec![q(&i.name()), q("thread"), q(&self.span)])); }
        self.super_rvalue(r, l);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, _l: Location) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = c.const_.ty().kind() {
            let own = d.krate().is_local;
            self.calls.push(arr(vec![q(&d.name()), q(&Ctx::span(&c.span)), own.to_string()]));
        }
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(d) = GlobalAlloc::from(p.0) { self.statics.push(arr(vec![q(&d.name()), q("static"), q(&Ctx::span(&c.span))])); }
            }
        }
    }
}

fn has_cell(t: Ty, depth: usize) -> bool {
    if depth > 12 { return true; }
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(d, a) => d.name().ends_with("UnsafeCell") || d.variants().into_iter().any(|v| v.fields().into_iter().any(|f| has_cell(f.ty_with_args(&a), depth + 1))),
            RigidTy::Array(e, _) | RigidTy::Slice(e) => has_cell(e, depth + 1),
            RigidTy::Tuple(es) => es.into_iter().any(|e| has_cell(e, depth + 1)),
            _ => false,
        },
        _ => false,
    }
}

fn effects(out: &str) -> ControlFlow<()> {
    let mut os = vec![];
    for it in rustc_public::all_local_items() {
        let k = format!("{:?}", it.kind());
        let cell = if k == "Static" { has_cell(it.ty(), 0) } else { false };
        let ty = if k == "Static" { format!("{}", it.ty()) } else { String::new() };
        let mut e = Eff { calls: vec![], statics: vec![], casts: vec![], span: String::new() };
        let mut n = 0;
        if let Some(b) = it.body() { n = b.blocks.len(); e.visit_body(&b); }
        os.push(format!("{{\"name\":{},\"kind\":{},\"ty\":{},\"cell\":{},\"span\":{},\"blocks\":{},\"calls\":{},\"statics\":{},\"casts\":{}}}",
            q(&it.name()), q(&k), q(&ty), cell, q(&Ctx::span(&it.span())), n, arr(e.calls), arr(e.statics), arr(e.casts)));
    }
    std::fs::write(out, format!("[{}]", os.join(",\n"))).expect("write dump");
    ControlFlow::Continue(())
}

fn go() -> ControlFlow<()> {
    if let Ok(d) = std::env::var("EFFECTS_OUT") {
        let n = rustc_public::local_crate().name.to_string();
        return effects(&format!("{}/{}.json", d, n));
    }
    let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let mut c = Ctx { tys: HashMap::new(), ty_out: vec![], inst: BTreeMap::new(), queue: VecDeque::new(), models: HashMap::new(), overrides: HashMap::new(), impls: HashMap::new(), leaf: vec![] };
    if let Ok(p) = std::env::var("MIRDUMP_LEAF") {
        for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            if let Some((a, b)) = l.split_once("=>") {
                if let Some((m, sel)) = b.split_once('[') {
                    let sel = sel.trim_end_matches(']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
                    c.impls.insert(a.trim().to_string(), (m.trim().to_string(), sel));
                    continue;
                } c.overrides.insert(a.trim().to_string(), b.trim().to_string()); }
            else { c.leaf.push(l.to_string()); }
        }
    }
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("m_") {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() { c.models.insert(last.clone(), d); }
        }
        if last.starts_with("r_") {
            if let Ok(i) = Instance::try_from(it) { let k = c.want(i); roots.push((last, k)); }
        }
        // local impls (derive output) are roots too when MIRDUMP_IMPLS is set
    }
    let mut outs = vec![];
    while let Some((k, i)) = c.queue.pop_front() {
        let name = i.name();
        let def = i.def.name();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let mut gens = vec![];
        for g in i.args().0.iter() { match g { GenericArgKind::Type(t) => { let s = c.ty(*t); gens.push(s) } GenericArgKind::Const(k) => gens.push(q(&cstr(k))), _ => {} } }
        let is_leaf = c.leaf.iter().any(|p| def.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let body = if kind == "intrinsic" || kind == "virtual" || is_leaf { None } else { i.body() };
        let b = match body { Some(b) => { let s = c.body(&b, true); let sp = q(&Ctx::span(&b.span)); format!(",{},\"span\":{}", s, sp) } None => String::new() };
        let ty = c.ty(i.ty());
        let fsig = match i.fn_abi() { Ok(abi) => {
            let a = abi.args.iter().map(|x| c.ty(x.ty)).collect(); let r = c.ty(abi.ret.ty); format!(",\"sig\":[{},{}]", arr(a), r) } Err(_) => String::new() };
        outs.push(format!("{}:{{\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"gen\":{},\"ty\":{}{}{}}}", q(&k), q(&name), q(&def), q(&krate), q(kind), arr(gens), ty, fsig, b));
    }
    let rs = roots.iter().map(|(n, k)| format!("{}:{}", q(n), q(k))).collect::<Vec<_>>().join(",");
    let s = format!("{{\"roots\":{{{}}},\n\"types\":[{}],\n\"fns\":{{\n{}\n}}}}", rs, c.ty_out.join(",\n"), outs.join(",\n"));
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run!(&args, go);
    match r { Ok(()) => {} Err(_) => std::process::exit(1) }
}
