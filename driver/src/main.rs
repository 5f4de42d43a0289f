//! Compiler driver: dumps the resolved, monomorphised MIR of the crate being compiled as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. If the crate being compiled is the one named by
//! MIRDUMP_CRATE, the dump is written to MIRDUMP_OUT; otherwise this behaves like rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_hir;

mod json;
use json::J;
use rustc_public::crate_def::CrateDef;
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding, Scalar, Primitive};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use rustc_public::CrateItem;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut real = None;
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        real = Some(args.remove(1));
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut crate_name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            crate_name = it.next().cloned();
        }
    }
    let is_target = crate_name.as_deref() == Some(&want) && !want.is_empty()
        && std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    if !is_target {
        let st = std::process::Command::new(real.expect("run as a rustc wrapper"))
            .args(&args[1..]).status().expect("run rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let prefixes: Vec<String> = std::env::var("MIRDUMP_STD").unwrap_or_default()
        .split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    let r = rustc_public::run_with_tcx!(&args, |tcx| {
        let _ = tcx;
        let mut d = Dumper::new(prefixes.clone());
        let j = d.run(tcx);
        let tmp = format!("{}.tmp", out);
        std::fs::write(&tmp, j.to_string()).expect("write dump");
        std::fs::rename(&tmp, &out).expect("rename dump");
        ControlFlow::<(), ()>::Continue(())
    });
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}

struct Dumper {
    prefixes: Vec<String>,
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<J>,
    ty_queue: VecDeque<(Ty, usize)>,
    inst_ids: HashMap<Instance, usize>,
    inst_queue: VecDeque<Instance>,
    fns: Vec<(usize, J)>,
    cur: String,
    generic_depth: bool,
}

fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::N(x.try_into().ok().unwrap()) }
macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) } }

impl Dumper {
    fn new(prefixes: Vec<String>) -> Self {
        Dumper { prefixes, ty_ids: HashMap::new(), tys: vec![], ty_queue: VecDeque::new(),
            inst_ids: HashMap::new(), inst_queue: VecDeque::new(), fns: vec![], cur: String::new(), generic_depth: false }
    }
    fn ty(&mut self, t: Ty) -> J { n(self.ty_id(t) as i128) }
    fn ty_id(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i; }
        let i = self.tys.len();
        self.ty_ids.insert(t, i);
        self.tys.push(J::Null);
        self.ty_queue.push_back((t, i));
        i
    }
    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t)),
                GenericArgKind::Const(c) => v.push(obj!{"const": s(format!("{:?}", c.eval_target_usize().ok()))}),
                GenericArgKind::Lifetime(_) => (),
            }
        }
        J::A(v)
    }
    fn is_poly(t: Ty) -> bool {
        fn args(a: &GenericArgs, d: u32) -> bool {
            a.0.iter().any(|x| match x {
                GenericArgKind::Type(t) => go(*t, d),
                GenericArgKind::Const(c) => matches!(c.kind(), TyConstKind::Param(_) | TyConstKind::Unevaluated(..)),
                _ => false })
        }
        fn go(t: Ty, d: u32) -> bool {
            if d == 0 { return false }
            match t.kind() {
                TyKind::Param(_) | TyKind::Alias(..) | TyKind::Bound(..) => true,
                TyKind::RigidTy(r) => match r {
                    RigidTy::Adt(_, a) | RigidTy::FnDef(_, a) | RigidTy::Closure(_, a)
                        | RigidTy::Coroutine(_, a) | RigidTy::CoroutineClosure(_, a) | RigidTy::CoroutineWitness(_, a) => args(&a, d - 1),
                    RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) | RigidTy::Pat(t, _) => go(t, d - 1),
                    RigidTy::Tuple(ts) => ts.iter().any(|t| go(*t, d - 1)),
                    RigidTy::FnPtr(sig) => { let sg = sig.skip_binder(); sg.inputs_and_output.iter().any(|t| go(*t, d - 1)) }
                    _ => false,
                },
            }
        }
        go(t, 12)
    }
    fn args_poly(a: &GenericArgs) -> bool {
        a.0.iter().any(|x| match x {
            GenericArgKind::Type(t) => Self::is_poly(*t),
            GenericArgKind::Const(c) => matches!(c.kind(), TyConstKind::Param(_) | TyConstKind::Unevaluated(..)),
            _ => false })
    }
    fn drain_types(&mut self) {
        while let Some((t, i)) = self.ty_queue.pop_front() {
            let j = self.dump_ty(t);
            self.tys[i] = j;
        }
    }
    fn dump_ty(&mut self, t: Ty) -> J {
        let name = format!("{}", TyName(t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => obj!{"k": s("bool")},
                RigidTy::Char => obj!{"k": s("char")},
                RigidTy::Int(x) => obj!{"k": s("int"), "signed": J::B(true), "bits": n(x.num_bytes() as i128 * 8), "n": s(name)},
                RigidTy::Uint(x) => obj!{"k": s("int"), "signed": J::B(false), "bits": n(x.num_bytes() as i128 * 8), "n": s(name)},
                RigidTy::Float(_) => obj!{"k": s("float")},
                RigidTy::Str => obj!{"k": s("str")},
                RigidTy::Never => obj!{"k": s("never")},
                RigidTy::Adt(def, a) => {
                    let local = def.krate().is_local;
                    let dname = def.name();
                    let mut vs = vec![];
                    let kind = format!("{:?}", def.kind());
                    let poly = Self::args_poly(&a);
                    let enumy = def.kind().is_enum();
                    let krate = def.krate().name;
                    let expand = local || enumy || krate == "core" || krate == "alloc" || krate == "std" || krate == "crossterm" ;
                    if expand {
                        for v in def.variants_iter() {
                            let d = if enumy { def.discriminant_for_variant(v.idx()).val as i128 } else { 0 };
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = if poly { f.ty() } else { f.ty_with_args(&a) };
                                fs.push(J::A(vec![s(f.name.clone()), self.ty(ft)]));
                            }
                            vs.push(obj!{"name": s(v.name()), "d": n(d), "f": J::A(fs)});
                        }
                    }
                    obj!{"k": s("adt"), "def": s(dname), "n": s(name), "kind": s(kind), "local": J::B(local), "args": self.args(&a), "v": J::A(vs), "exp": J::B(expand), "poly": J::B(poly)}
                }
                RigidTy::Array(e, l) => obj!{"k": s("array"), "e": self.ty(e), "len": match l.eval_target_usize() { Ok(x) => n(x), _ => J::Null }},
                RigidTy::Slice(e) => obj!{"k": s("slice"), "e": self.ty(e)},
                RigidTy::RawPtr(e, m) => obj!{"k": s("ptr"), "e": self.ty(e), "mut": J::B(m == Mutability::Mut)},
                RigidTy::Ref(_, e, m) => obj!{"k": s("ref"), "e": self.ty(e), "mut": J::B(m == Mutability::Mut)},
                RigidTy::Tuple(ts) => obj!{"k": s("tuple"), "f": J::A(ts.iter().map(|t| self.ty(*t)).collect())},
                RigidTy::FnDef(d, a) => { let i = self.callee(d, &a, false); obj!{"k": s("fndef"), "fn": i} }
                RigidTy::FnPtr(_) => obj!{"k": s("fnptr"), "n": s(name)},
                RigidTy::Closure(d, a) => {
                    let i = self.closure_inst(d, &a);
                    obj!{"k": s("closure"), "def": s(d.name()), "fn": i, "up": self.upvars(&a)}
                }
                RigidTy::Coroutine(d, a) => {
                    let i = self.coroutine_inst(d, &a);
                    obj!{"k": s("coroutine"), "def": s(d.name()), "fn": i, "n": s(name)}
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut v = vec![];
                    for p in &preds {
                        match p.clone().skip_binder() {
                            ExistentialPredicate::Trait(t) => v.push(s(t.def_id.name())),
                            ExistentialPredicate::AutoTrait(t) => v.push(s(t.name())),
                            _ => (),
                        }
                    }
                    obj!{"k": s("dyn"), "traits": J::A(v)}
                }
                _ => obj!{"k": s("other"), "n": s(name)},
            },
            TyKind::Param(p) => obj!{"k": s("param"), "n": s(p.name)},
            _ => obj!{"k": s("alias"), "n": s(name)},
        }
    }
    fn upvars(&mut self, a: &GenericArgs) -> J {
        // last generic argument of a closure is the tuple of captured types
        for x in a.0.iter().rev() {
            if let GenericArgKind::Type(t) = x {
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                    return J::A(ts.iter().map(|t| self.ty(*t)).collect());
                }
                break;
            }
        }
        J::Null
    }
    fn closure_kind(a: &GenericArgs) -> ClosureKind {
        let tys: Vec<Ty> = a.0.iter().filter_map(|x| x.ty().copied()).collect();
        let k = tys[tys.len() - 3];
        match k.kind() {
            TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
            _ => ClosureKind::FnOnce,
        }
    }
    fn closure_inst(&mut self, d: ClosureDef, a: &GenericArgs) -> J {
        if Self::args_poly(a) {
            return self.poly_fn(d.def_id().name(), d.krate().is_local, d.body(), "closure");
        }
        match Instance::resolve_closure(d, a, Self::closure_kind(a)) {
            Ok(i) => self.inst(i),
            Err(_) => J::Null,
        }
    }
    fn coroutine_inst(&mut self, d: CoroutineDef, _a: &GenericArgs) -> J {
        let b = d.body();
        self.poly_fn(d.def_id().name(), d.krate().is_local, b, "coroutine")
    }
    /// A body used in its generic form. Identified by its path.
    fn poly_fn(&mut self, name: String, local: bool, body: Option<Body>, kind: &str) -> J {
        let key = format!("poly:{}", name);
        if local && !self.fns_poly().contains(&key) {
            POLY.with(|p| p.borrow_mut().insert(key.clone()));
            if let Some(b) = body {
                let id = POLY_BASE + POLY_IDS.with(|p| { let mut p = p.borrow_mut(); let l = p.len(); p.insert(key.clone(), l); l });
                let j = self.dump_fn(id, &name, &name, local, kind, &GenericArgs(vec![]), Some(b), true, J::Null);
                self.fns.push((id, j));
            }
        }
        match POLY_IDS.with(|p| p.borrow().get(&key).copied()) {
            Some(i) => n((POLY_BASE + i) as i128),
            None => J::Null,
        }
    }
    fn fns_poly(&self) -> HashSet<String> { POLY.with(|p| p.borrow().clone()) }
    fn inst(&mut self, i: Instance) -> J {
        let l = self.inst_ids.len();
        if let Some(x) = self.inst_ids.get(&i) { return n(*x as i128); }
        self.inst_ids.insert(i, l);
        self.inst_queue.push_back(i);
        n(l as i128)
    }
    /// What a function item refers to: an instance id, or a description of an unresolved path.
    fn callee(&mut self, d: FnDef, a: &GenericArgs, for_ptr: bool) -> J {
        if Self::args_poly(a) {
            // a local generic function: refer to its generic body
            if d.krate().is_local && d.has_body() {
                let assoc_trait = matches!(d.associated_item().map(|x| x.container), Some(AssocContainer::Trait));
                if !assoc_trait {
                    return self.poly_fn(d.name(), true, d.body(), "fn");
                }
            }
            return obj!{"unres": s(d.name()), "args": self.args(a), "local": J::B(d.krate().is_local), "krate": s(d.krate().name)};
        }
        let r = if for_ptr { Instance::resolve_for_fn_ptr(d, a) } else { Instance::resolve(d, a) };
        match r {
            Ok(i) => self.inst(i),
            Err(_) => obj!{"unres": s(d.name()), "args": self.args(a), "local": J::B(d.krate().is_local), "krate": s(d.krate().name)},
        }
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local as i128)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(*i as i128), self.ty(*t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), n(*offset), n(*min_length), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(*from), n(*to), J::B(*from_end)]),
                ProjectionElem::Downcast(vi) => J::A(vec![s("d"), n(vi.to_index() as i128)]),
                ProjectionElem::OpaqueCast(t) => J::A(vec![s("oc"), self.ty(*t)]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let v = self.constant(&c.const_);
                J::A(vec![s("k"), v, self.ty(c.const_.ty())])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }
    fn constant(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ty.kind() {
            return obj!{"fn": self.callee(d, &a, false), "path": s(d.name()), "ga": self.args(&a)};
        }
        match c.kind() {
            ConstantKind::ZeroSized => obj!{"zst": J::B(true)},
            ConstantKind::Allocated(a) => self.decode(a, 0, ty, 6),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 6),
                TyConstKind::ZSTValue(_) => obj!{"zst": J::B(true)},
                _ => obj!{"opaque": s(format!("{:?}", tc.kind()))},
            },
            // a constant that does not depend on the parameters of the generic body it is used in has a value all the same
            ConstantKind::Unevaluated(u) if u.promoted.is_none() && u.args.0.is_empty() => {
                match Instance::try_from(CrateItem(u.def.def_id())).ok().and_then(|i| i.try_const_eval(ty).ok()) {
                    Some(a) => self.decode(&a, 0, ty, 6),
                    None => obj!{"opaque": s(format!("uneval {:?} -1", u.def.name()))},
                }
            }
            ConstantKind::Unevaluated(u) => obj!{"opaque": s(format!("uneval {:?} {}", u.def.name(), u.promoted.map(|x| x as i64).unwrap_or(-1)))},
            ConstantKind::Param(p) => obj!{"opaque": s(format!("param {}", p.name))},
        }
    }
    fn int_at(a: &Allocation, off: usize, sz: usize) -> Option<u128> {
        if sz == 0 || off + sz > a.bytes.len() { return None }
        let mut v = 0u128;
        for i in (0..sz).rev() {
            v = (v << 8) | (a.bytes[off + i]? as u128);
        }
        Some(v)
    }
    fn opaque(t: Ty) -> J { obj!{"opaque": s(format!("const of {}", TyName(t)))} }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: u32) -> J {
        if depth == 0 { return Self::opaque(t) }
        let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return Self::opaque(t) };
        let sz = lay.size;
        let szb = sz.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match Self::int_at(a, off, 1) { Some(x) => obj!{"b": J::B(x != 0)}, None => Self::opaque(t) },
                RigidTy::Char => match Self::int_at(a, off, 4) { Some(x) => obj!{"c": n(x as i128)}, None => Self::opaque(t) },
                RigidTy::Uint(_) => match Self::int_at(a, off, szb) { Some(x) => obj!{"i": J::S(x.to_string())}, None => Self::opaque(t) },
                RigidTy::Int(_) => match Self::int_at(a, off, szb) {
                    Some(x) => { let sh = 128 - 8 * szb as u32; let v = ((x << sh) as i128) >> sh; obj!{"i": J::S(v.to_string())} }
                    None => Self::opaque(t) },
                RigidTy::Tuple(ts) => {
                    let offs = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect::<Vec<_>>(), _ => vec![] };
                    if ts.is_empty() { return obj!{"zst": J::B(true)} }
                    if offs.len() != ts.len() { return Self::opaque(t) }
                    obj!{"agg": J::A(ts.iter().zip(offs).map(|(t, o)| self.decode(a, off + o, *t, depth - 1)).collect())}
                }
                RigidTy::Array(e, l) => {
                    let len = match l.eval_target_usize() { Ok(x) => x as usize, _ => return Self::opaque(t) };
                    let es = match e.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return Self::opaque(t) };
                    if len > 4096 { return Self::opaque(t) }
                    obj!{"arr": J::A((0..len).map(|i| self.decode(a, off + i * es, e, depth - 1)).collect())}
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                    let Some((_, prov)) = prov else { 
                        return match Self::int_at(a, off, 8) { Some(x) => obj!{"addr": J::S(x.to_string())}, None => Self::opaque(t) } };
                    let base = Self::int_at(a, off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(prov.0) {
                        GlobalAlloc::Function(i) => obj!{"fn": self.inst(i)},
                        GlobalAlloc::Static(sd) => obj!{"static": s(sd.name())},
                        GlobalAlloc::VTable(..) => Self::opaque(t),
                        GlobalAlloc::TypeId { ty } => obj!{"typeid": self.ty(ty)},
                        GlobalAlloc::Memory(m) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let len = Self::int_at(a, off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = (0..len).filter_map(|i| m.bytes.get(base + i).copied().flatten()).collect();
                                obj!{"str": s(String::from_utf8_lossy(&b).into_owned())}
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let len = Self::int_at(a, off + 8, 8).unwrap_or(0) as usize;
                                let es = match el.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return Self::opaque(t) };
                                if len > 4096 { return Self::opaque(t) }
                                obj!{"ref": obj!{"arr": J::A((0..len).map(|i| self.decode(&m, base + i * es, el, depth - 1)).collect())}}
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => Self::opaque(t),
                            _ => obj!{"ref": self.decode(&m, base, e, depth - 1), "t": self.ty(e)},
                        },
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                    match prov.map(|p| GlobalAlloc::from(p.1.0)) {
                        Some(GlobalAlloc::Function(i)) => obj!{"fn": self.inst(i)},
                        _ => Self::opaque(t),
                    }
                }
                RigidTy::FnDef(d, ar) => obj!{"fn": self.callee(d, &ar, false), "path": s(d.name())},
                RigidTy::Adt(def, ar) => {
                    if def.kind().is_union() { return Self::opaque(t) }
                    let (vidx, offs) = match &lay.variants {
                        VariantsShape::Empty => return Self::opaque(t),
                        VariantsShape::Single { index } => {
                            let offs = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect::<Vec<_>>(), _ => vec![] };
                            (index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return Self::opaque(t) };
                            let prim = match tag { Scalar::Initialized { value, .. } => value.clone(), Scalar::Union { value } => value.clone() };
                            let tsz = match prim { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
                            let raw = Self::int_at(a, off + toff, tsz);
                            let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = match raw { Some(x) => x, None => return Self::opaque(t) };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut found = None;
                                    for v in def.variants_iter() {
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        if def.discriminant_for_variant(v.idx()).val & mask == raw { found = Some(v.idx().to_index()); break }
                                    }
                                    match found { Some(x) => x, None => return Self::opaque(t) }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_ptr { untagged_variant.to_index() } else {
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        let (st, en) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                        if rel <= en - st { (st + rel) as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let Some(v) = def.variants_iter().nth(vidx) else { return Self::opaque(t) };
                    let fs = v.fields();
                    if offs.len() < fs.len() { 
                        if fs.is_empty() || sz.bytes() == 0 { return obj!{"adt": n(vidx as i128), "f": J::A(fs.iter().map(|_| obj!{"zst": J::B(true)}).collect())} }
                        return Self::opaque(t) }
                    let mut out = vec![];
                    for (f, o) in fs.iter().zip(offs) {
                        let ft = f.ty_with_args(&ar);
                        out.push(self.decode(a, off + o, ft, depth - 1));
                    }
                    obj!{"adt": n(vidx as i128), "f": J::A(out)}
                }
                _ => if szb == 0 { obj!{"zst": J::B(true)} } else { Self::opaque(t) },
            },
            _ => Self::opaque(t),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, fi) => {
                        let t = d.ty_with_args(a);
                        J::A(vec![s("adt"), self.ty(t), n(vi.to_index() as i128), match fi { Some(x) => n(*x as i128), None => J::Null }])
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); J::A(vec![s("closure"), self.ty(t)]) }
                    AggregateKind::Coroutine(d, a) => { let t = Ty::new_coroutine(*d, a.clone()); J::A(vec![s("coroutine"), self.ty(t)]) }
                    AggregateKind::CoroutineClosure(..) => J::A(vec![s("other")]),
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                };
                J::A(vec![s("agg"), kj, J::A(ops.iter().map(|o| self.operand(o)).collect())])
            }
            Rvalue::BinaryOp(op, a, b) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => J::A(vec![s("cbin"), s(format!("{:?}", op)), self.operand(a), self.operand(b)]),
            Rvalue::Cast(k, o, t) => {
                let k2 = match k { CastKind::PointerCoercion(p) => format!("PC:{:?}", p), x => format!("{:?}", x) };
                J::A(vec![s("cast"), s(k2), self.operand(o), self.ty(*t)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(match k { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "f", BorrowKind::Mut { .. } => "m" }), self.place(p)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("rep"), self.operand(o), match c.eval_target_usize() { Ok(x) => n(x), Err(_) => J::Null }]),
            Rvalue::ThreadLocalRef(i) => J::A(vec![s("tls"), s(i.name())]),
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o)]),
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), s("m"), self.place(p)]),
        }
    }
    fn unwind(u: &UnwindAction) -> J { match u { UnwindAction::Cleanup(b) => n(*b as i128), _ => J::Null } }
    fn loc(sp: Span) -> J {
        let l = sp.get_lines();
        n(l.start_line as i128)
    }
    #[allow(clippy::too_many_arguments)]
    fn dump_fn(&mut self, id: usize, name: &str, path: &str, local: bool, kind: &str, a: &GenericArgs, body: Option<Body>, poly: bool, extra: J) -> J {
        let mut o = vec![("id".to_string(), n(id as i128)), ("name".into(), s(name)), ("path".into(), s(path)), ("local".into(), J::B(local)),
            ("kind".into(), s(kind)), ("poly".into(), J::B(poly)), ("args".into(), self.args(a)), ("x".into(), extra)];
        if let Some(b) = body {
            o.push(("file".into(), s(b.span.get_filename())));
            o.push(("line".into(), Self::loc(b.span)));
            o.push(("endline".into(), n(b.span.get_lines().end_line as i128)));
            o.push(("argc".into(), n(b.arg_locals().len() as i128)));
            o.push(("spread".into(), match b.spread_arg() { Some(x) => n(x as i128), None => J::Null }));
            o.push(("locals".into(), J::A(b.locals().iter().map(|l| self.ty(l.ty)).collect())));
            let mut vars = vec![];
            for v in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &v.value {
                    vars.push(J::A(vec![s(v.name.clone()), self.place(p)]));
                }
            }
            o.push(("vars".into(), J::A(vars)));
            let mut bl = vec![];
            for blk in &b.blocks {
                let mut st = vec![];
                for x in &blk.statements {
                    let line = Self::loc(x.source_info.span);
                    match &x.kind {
                        StatementKind::Assign(p, r) => st.push(J::A(vec![s("="), self.place(p), self.rvalue(r), line])),
                        StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![s("sd"), self.place(place), n(variant_index.to_index() as i128), line])),
                        StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(*l as i128)])),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push(J::A(vec![s("copynonoverlapping")])),
                        _ => (),
                    }
                }
                let line = Self::loc(blk.terminator.source_info.span);
                let t = match &blk.terminator.kind {
                    TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target as i128)]),
                    TerminatorKind::SwitchInt { discr, targets } => J::A(vec![s("switch"), self.operand(discr),
                        J::A(targets.branches().map(|(v, t)| J::A(vec![J::S(v.to_string()), n(t as i128)])).collect()), n(targets.otherwise() as i128), line]),
                    TerminatorKind::Resume => J::A(vec![s("resume")]),
                    TerminatorKind::Abort => J::A(vec![s("abort")]),
                    TerminatorKind::Return => J::A(vec![s("ret")]),
                    TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                    TerminatorKind::Drop { place, target, unwind } => {
                        let pt = place.ty(b.locals()).ok();
                        J::A(vec![s("drop"), self.place(place), n(*target as i128), Self::unwind(unwind), match pt { Some(t) => self.ty(t), None => J::Null }, line])
                    }
                    TerminatorKind::Call { func, args, destination, target, unwind } => {
                        let f = self.operand(func);
                        J::A(vec![s("call"), f, J::A(args.iter().map(|a| self.operand(a)).collect()), self.place(destination),
                            match target { Some(t) => n(*t as i128), None => J::Null }, Self::unwind(unwind), line])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                        let m = match msg {
                            AssertMessage::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len), self.operand(index)]),
                            AssertMessage::Overflow(op, x, y) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(x), self.operand(y)]),
                            AssertMessage::OverflowNeg(x) => J::A(vec![s("neg"), self.operand(x)]),
                            AssertMessage::DivisionByZero(x) => J::A(vec![s("div0"), self.operand(x)]),
                            AssertMessage::RemainderByZero(x) => J::A(vec![s("rem0"), self.operand(x)]),
                            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
                        };
                        J::A(vec![s("assert"), self.operand(cond), J::B(*expected), m, n(*target as i128), Self::unwind(unwind), line])
                    }
                    TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
                };
                bl.push(J::A(vec![J::A(st), t]));
            }
            o.push(("blocks".into(), J::A(bl)));
        }
        J::O(o)
    }
    fn run(&mut self, tcx: rustc_middle::ty::TyCtxt<'_>) -> J {
        let krate = rustc_public::local_crate();
        let mut items = vec![];
        let mut public = vec![];
        let ev = tcx.effective_visibilities(());
        let mut statics = vec![];
        for it in rustc_public::all_local_items() {
            match it.kind() {
                rustc_public::ItemKind::Fn => {
                    let name = it.name();
                    let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
                    if did.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false) { public.push(s(name.clone())); }
                    let e = if it.requires_monomorphization() {
                        self.poly_fn(name.clone(), true, it.body(), "fn")
                    } else {
                        match Instance::try_from(it) { Ok(i) => self.inst(i), Err(_) => J::Null }
                    };
                    items.push(J::A(vec![s(name), e]));
                }
                rustc_public::ItemKind::Static => statics.push(J::A(vec![s(it.name()), self.ty(it.ty())])),
                _ => (),
            }
        }
        let mut impls = vec![];
        for im in krate.trait_impls() {
            let tr = im.trait_impl().value;
            let selfty = tr.self_ty();
            let mut ms = vec![];
            for ai in im.associated_items() {
                if let AssocKind::Fn { name, .. } = &ai.kind {
                    ms.push(J::A(vec![s(name.clone()), s(ai.def_id.name())]));
                }
            }
            impls.push(obj!{"trait": s(tr.def_id.name()), "self": self.ty(selfty), "methods": J::A(ms), "args": self.args(tr.args())});
        }
        let mut adts = vec![];
        for a in krate.adts() {
            let t = a.ty();
            adts.push(J::A(vec![s(a.name()), self.ty(t)]));
        }
        loop {
            self.drain_types();
            let Some(i) = self.inst_queue.pop_front() else { break };
            let id = self.inst_ids[&i];
            let name = i.name();
            let path = i.def.name();
            let local = i.def.krate().is_local;
            let kname = i.def.krate().name;
            self.cur = name.clone();
            let (kind, extra) = match i.kind {
                InstanceKind::Item => ("item", J::Null),
                InstanceKind::Intrinsic => ("intrinsic", s(i.intrinsic_name().unwrap_or_default())),
                InstanceKind::LlvmIntrinsic => ("llvm", J::Null),
                InstanceKind::Virtual { idx } => ("virtual", n(idx as i128)),
                InstanceKind::Shim => ("shim", J::Null),
            };
            let want = match i.kind {
                InstanceKind::Item => local || self.prefixes.iter().any(|p| {
                    path.starts_with(p.as_str()) || (p.starts_with('~') && path.contains(&p[1..])) 
                }),
                InstanceKind::Shim => {
                    // calls through a reference to a closure or function item
                    path.starts_with("std::ops::Fn") || path.starts_with("core::ops::Fn") || local
                },
                _ => false,
            };
            let body = if want { i.body() } else { None };
            let a = i.args();
            let mut j = self.dump_fn(id, &name, &path, local, kind, &a, body, false, extra);
            if let J::O(v) = &mut j { v.push(("krate".into(), s(kname)));
                // signature
                let t = i.ty();
                if let Some(sig) = t.kind().fn_sig() {
                    let sg = sig.skip_binder();
                    let io = J::A(sg.inputs_and_output.iter().map(|t| self.ty(*t)).collect());
                    v.push(("sig".into(), io));
                }
            }
            self.fns.push((id, j));
        }
        self.drain_types();
        let mut fns = std::mem::take(&mut self.fns);
        fns.sort_by_key(|x| x.0);
        obj!{
            "crate": s(krate.name.clone()),
            "items": J::A(items), "public": J::A(public), "statics": J::A(statics), "impls": J::A(impls), "adts": J::A(adts),
            "types": J::A(std::mem::take(&mut self.tys)),
            "fns": J::O(fns.into_iter().map(|(i, j)| (i.to_string(), j)).collect()),
        }
    }
}

const POLY_BASE: usize = 1_000_000;
thread_local! {
    static POLY: std::cell::RefCell<HashSet<String>> = std::cell::RefCell::new(HashSet::new());
    static POLY_IDS: std::cell::RefCell<HashMap<String, usize>> = std::cell::RefCell::new(HashMap::new());
}

#[allow(dead_code)]
trait Idx { fn to_index(&self) -> usize; }
impl Idx for VariantIdx { fn to_index(&self) -> usize { rustc_public_bridge::IndexedVal::to_index(self) } }

struct TyName(Ty);
impl std::fmt::Display for TyName {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
