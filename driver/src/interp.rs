//! Interprocedural value-flow construction over monomorphised MIR.
//!
//! Each function reached from a law is analysed block by block in the order
//! given by its control-flow graph. Memory is a set of allocations holding
//! value numbers (terms) at byte offsets. At a branch whose condition is not a
//! compile-time constant both sides are analysed up to the immediate
//! post-dominator and the resulting memories are *joined*: slots that differ
//! receive a gating term (gated SSA). Nothing is executed and no path is ever
//! enumerated to a solver; loops are only accepted when constant propagation
//! decides their exit (all loops of the crate run over dimension constants).
use crate::term::*;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::CrateDefType;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    T(Id),
    /// alloc 0 = no provenance: `off` is the address
    Ptr(u32, i64),
    Fn(Instance),
    Ite(Id, Rc<Val>, Rc<Val>),
    Opaque,
    /// the vtable of a concrete type behind a trait object
    Vt(Ty),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Leaf {
    F32,
    F64,
    Int(u16, bool),
    Bool,
    Char,
    Ptr,
}

impl Leaf {
    pub fn size(self) -> u32 {
        match self {
            Leaf::F32 | Leaf::Char => 4,
            Leaf::F64 | Leaf::Ptr => 8,
            Leaf::Int(b, _) => b as u32 / 8,
            Leaf::Bool => 1,
        }
    }
    pub fn sort(self) -> Sort {
        match self {
            Leaf::F32 | Leaf::F64 => Sort::Real,
            Leaf::Int(bits, signed) => Sort::Int { bits, signed },
            Leaf::Bool => Sort::Bool,
            Leaf::Char => Sort::Int { bits: 32, signed: false },
            Leaf::Ptr => Sort::Int { bits: 64, signed: false },
        }
    }
}

pub type Slots = BTreeMap<i64, (u32, Val)>;

#[derive(Clone, Debug, Default)]
pub struct Blob(pub Vec<(i64, u32, Val)>);

impl Blob {
    pub fn one(size: u32, v: Val) -> Blob {
        Blob(vec![(0, size, v)])
    }
    pub fn get(&self, off: i64) -> Option<&(i64, u32, Val)> {
        self.0.iter().find(|x| x.0 == off)
    }
}

#[derive(Clone, Default)]
pub struct State {
    allocs: BTreeMap<u32, Rc<Slots>>,
}

const CONST_BASE: u32 = 1 << 30;
const EXIT: usize = usize::MAX;

pub struct TyInfo {
    pub ty: Ty,
    pub kind: TyKind,
    pub shape: LayoutShape,
    pub size: u32,
}

pub struct BodyInfo {
    pub body: Body,
    pub ipdom: Vec<usize>,
    pub name: String,
    pub rust_call: bool,
    pub nargs: usize,
}

#[derive(Clone, Debug)]
pub struct PanicAt {
    pub pc: Vec<(Id, bool)>,
    pub nguards: usize,
    pub what: String,
    pub site: String,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Obligation {
    pub path: String,
    pub gates: Vec<(Id, bool)>,
    pub nguards: usize,
    pub goal: crate::nf::Goal,
    pub group: u32,
}

pub fn site_of(sp: rustc_public::ty::Span) -> u32 {
    let l = sp.get_lines();
    ((l.start_line as u32) << 12) | (l.start_col as u32 & 0xfff)
}

pub struct Interp {
    pub ar: Arena,
    /// the unknowns that are wide floats
    pub wide: std::collections::HashSet<Id>,
    pub st: State,
    pub pc: Vec<(Id, bool)>,
    pub panics: Vec<PanicAt>,
    pub facts: Vec<(Id, bool)>,
    /// conditions that hold whenever the law's execution got this far
    pub guards: Vec<Id>,
    pub obligations: Vec<Obligation>,
    pub may_panic: bool,
    /// source position of the call being made
    pub site: Option<rustc_public::ty::Span>,
    /// unit-vector relations: list of symbol terms whose squares sum to one
    pub units: Vec<Vec<Id>>,
    pub fuel: u64,
    pub reached: BTreeSet<String>,
    pub law_calls: BTreeSet<String>,
    depth: u32,
    next_alloc: u32,
    tyc: HashMap<Ty, Rc<TyInfo>>,
    bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    resolve_cache: HashMap<(FnDef, GenericArgs), Instance>,
    closure_ptrs: std::collections::HashSet<Instance>,
    pub spans: std::collections::BTreeSet<String>,
    consts: Vec<Rc<Allocation>>,
    const_ids: HashMap<AllocId, u32>,
    stack: Vec<String>,
    names: HashMap<Instance, Rc<str>>,
    /// functions of the law crate that stand in for functions of the standard library without MIR
    pub shims: HashMap<String, Instance>,
    /// looking for undefined behaviour: accesses are checked against the extent of what they touch
    pub audit: bool,
    /// memory behind shared references
    pub frozen: std::collections::HashSet<u32>,
}

struct Frame<'a> {
    bi: &'a BodyInfo,
    locals: Vec<u32>,
}

#[derive(Clone, Debug)]
struct PlaceV {
    ptr: Val,
    meta: Option<Val>,
    ty: Ty,
    variant: Option<usize>,
}

enum Outcome {
    Reached,
    Diverged,
}

pub fn leaf_of(k: &TyKind) -> Option<Leaf> {
    Some(match k {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => Leaf::Bool,
            RigidTy::Char => Leaf::Char,
            RigidTy::Int(i) => Leaf::Int(i.num_bytes() as u16 * 8, true),
            RigidTy::Uint(i) => Leaf::Int(i.num_bytes() as u16 * 8, false),
            RigidTy::Float(FloatTy::F32) => Leaf::F32,
            RigidTy::Float(FloatTy::F64) => Leaf::F64,
            RigidTy::FnPtr(_) => Leaf::Ptr,
            _ => return None,
        },
        _ => return None,
    })
}

/// The type that decides the metadata of a pointer to `t`.
fn tail(t: Ty) -> Ty {
    let mut t = t;
    loop {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind().is_struct() => {
                let vs = d.variants();
                match vs[0].fields().last() {
                    Some(f) => t = f.ty_with_args(&a),
                    None => return t,
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) if !ts.is_empty() => t = ts[ts.len() - 1],
            _ => return t,
        }
    }
}

/// The parts in which an unsizing coercion changes the type: the last fields, as long as both sides are the same struct.
fn tails(a: Ty, b: Ty) -> (Ty, Ty) {
    let (mut a, mut b) = (a, b);
    loop {
        match (a.kind(), b.kind()) {
            (TyKind::RigidTy(RigidTy::Adt(d, x)), TyKind::RigidTy(RigidTy::Adt(e, y))) if d == e && d.kind().is_struct() => {
                let vs = d.variants();
                match vs[0].fields().last() {
                    Some(f) => (a, b) = (f.ty_with_args(&x), f.ty_with_args(&y)),
                    None => return (a, b),
                }
            }
            (TyKind::RigidTy(RigidTy::Tuple(x)), TyKind::RigidTy(RigidTy::Tuple(y))) if !x.is_empty() && x.len() == y.len() => {
                (a, b) = (x[x.len() - 1], y[y.len() - 1])
            }
            _ => return (a, b),
        }
    }
}

fn is_slice_like(k: &TyKind) -> bool {
    matches!(k, TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str))
}

impl Interp {
    pub fn new() -> Self {
        Interp {
            ar: Arena::new(),
            st: State::default(),
            pc: vec![],
            panics: vec![],
            facts: vec![],
            guards: vec![],
            obligations: vec![],
            may_panic: false,
            site: None,
            units: vec![],
            fuel: 0,
            reached: BTreeSet::new(),
            law_calls: BTreeSet::new(),
            depth: 0,
            next_alloc: 1,
            tyc: HashMap::new(),
            bodies: HashMap::new(),
            wide: Default::default(),
            resolve_cache: HashMap::new(),
            closure_ptrs: Default::default(),
            spans: Default::default(),
            consts: vec![],
            const_ids: HashMap::new(),
            stack: vec![],
            names: HashMap::new(),
            shims: HashMap::new(),
            audit: false,
            frozen: Default::default(),
        }
    }
    pub fn reset(&mut self, fuel: u64) {
        self.ar = Arena::new();
        self.wide.clear();
        self.st = State::default();
        self.pc.clear();
        self.panics.clear();
        self.facts.clear();
        self.guards.clear();
        self.obligations.clear();
        self.may_panic = false;
        self.units.clear();
        self.fuel = fuel;
        self.reached.clear();
        self.law_calls.clear();
        self.depth = 0;
        self.next_alloc = 1;
        self.stack.clear();
    }

    pub fn ti(&mut self, ty: Ty) -> R<Rc<TyInfo>> {
        if let Some(t) = self.tyc.get(&ty) {
            return Ok(t.clone());
        }
        let shape = ty.layout().map_err(|e| format!("layout of {ty:?}: {e:?}"))?.shape();
        let size = shape.size.bytes() as u32;
        let t = Rc::new(TyInfo { ty, kind: ty.kind(), shape, size });
        self.tyc.insert(ty, t.clone());
        Ok(t)
    }

    /// Types of the fields of a struct, tuple, array or enum variant.
    pub fn fields(&mut self, t: &TyInfo, variant: usize) -> R<Vec<(i64, Ty)>> {
        let offs: Vec<i64> = match (&t.shape.variants, &t.shape.fields) {
            (VariantsShape::Multiple { variants, .. }, _) => {
                variants[variant].offsets.iter().map(|s| s.bytes() as i64).collect()
            }
            (_, FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|s| s.bytes() as i64).collect(),
            (_, FieldsShape::Array { stride, count }) => {
                (0..*count).map(|i| i as i64 * stride.bytes() as i64).collect()
            }
            (_, FieldsShape::Union(n)) => vec![0; n.get()],
            (_, FieldsShape::Primitive) => vec![],
        };
        let tys: Vec<Ty> = match &t.kind {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let vs = def.variants();
                if vs.is_empty() {
                    vec![]
                } else {
                    vs[variant].fields().iter().map(|f| f.ty_with_args(args)).collect()
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.clone(),
            TyKind::RigidTy(RigidTy::Array(e, _)) => vec![*e; offs.len()],
            _ => vec![],
        };
        Ok(offs.into_iter().zip(tys).collect())
    }

    pub fn fresh_alloc(&mut self) -> u32 {
        self.new_alloc()
    }

    fn new_alloc(&mut self) -> u32 {
        let a = self.next_alloc;
        self.next_alloc += 1;
        self.st.allocs.insert(a, Rc::new(Slots::new()));
        a
    }

    pub fn is_const(a: u32) -> bool {
        a >= CONST_BASE
    }
    pub fn alive(&self, a: u32) -> bool {
        self.st.allocs.contains_key(&a)
    }
    /// Was anything stored outside the first `size` bytes?
    pub fn beyond(&self, a: u32, size: u32) -> bool {
        self.st.allocs.get(&a).map_or(false, |m| m.iter().any(|(o, (n, _))| *o < 0 || *o + *n as i64 > size as i64))
    }
    pub fn put(&mut self, p: &Val, size: u32, b: &Blob) -> R<()> {
        self.write_range(p, size, b)
    }
    pub fn peek(&mut self, p: &Val, size: u32) -> R<Blob> {
        self.read_raw(p, size)
    }

    // ---- memory ------------------------------------------------------

    pub fn decode_const(&mut self, al: &Allocation, off: i64, leaf: Leaf) -> R<Option<Val>> {
        let sz = leaf.size() as usize;
        let off = off as usize;
        if off + sz > al.bytes.len() {
            return Err("constant read out of bounds".into());
        }
        if let Some((_, prov)) = al.provenance.ptrs.iter().find(|(o, _)| *o as usize == off) {
            let addr = al.read_partial_uint(off..off + 8).map_err(|e| format!("{e:?}"))? as i64;
            return Ok(Some(self.global_ptr(prov.0, addr)?));
        }
        if al.bytes[off..off + sz].iter().any(|b| b.is_none()) {
            return Ok(None);
        }
        let raw = al.read_partial_uint(off..off + sz).map_err(|e| format!("{e:?}"))?;
        Ok(Some(match leaf {
            Leaf::F32 => Val::T(self.ar.float(f32::from_bits(raw as u32) as f64, true)),
            Leaf::F64 => Val::T(self.ar.float(f64::from_bits(raw as u64), false)),
            Leaf::Bool => Val::T(self.ar.boolean(raw != 0)),
            Leaf::Ptr => Val::Ptr(0, raw as i64),
            _ => Val::T(self.ar.int(raw as i128, leaf.sort())),
        }))
    }

    fn global_ptr(&mut self, id: AllocId, off: i64) -> R<Val> {
        if let Some(&k) = self.const_ids.get(&id) {
            return Ok(Val::Ptr(k, off));
        }
        let al = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Static(d) => d.eval_initializer().map_err(|e| format!("{e:?}"))?,
            GlobalAlloc::Function(i) => return Ok(Val::Fn(i)),
            _ => return Ok(Val::Opaque),
        };
        let k = CONST_BASE + self.consts.len() as u32;
        self.consts.push(Rc::new(al));
        self.const_ids.insert(id, k);
        Ok(Val::Ptr(k, off))
    }

    /// Leaf scalars of a type inside constant memory (active variant only).
    fn const_blob(&mut self, al: &Allocation, base: i64, ty: Ty, rel: i64, out: &mut Blob) -> R<()> {
        let t = self.ti(ty)?;
        if t.size == 0 {
            return Ok(());
        }
        if let Some(l) = leaf_of(&t.kind) {
            if let Some(v) = self.decode_const(al, base + rel, l)? {
                out.0.push((rel, l.size(), v));
            }
            return Ok(());
        }
        match &t.kind {
            TyKind::RigidTy(RigidTy::Ref(..) | RigidTy::RawPtr(..)) => {
                if let Some(v) = self.decode_const(al, base + rel, Leaf::Ptr)? {
                    out.0.push((rel, 8, v));
                }
                if t.size == 16 {
                    if let Some(v) = self.decode_const(al, base + rel + 8, Leaf::Int(64, false))? {
                        out.0.push((rel + 8, 8, v));
                    }
                }
                return Ok(());
            }
            TyKind::RigidTy(RigidTy::Pat(inner, _)) => return self.const_blob(al, base, *inner, rel, out),
            _ => {}
        }
        match &t.shape.variants {
            VariantsShape::Multiple { .. } => {
                let (toff, tleaf) = self.tag_pos(&t)?;
                let tv = match self.decode_const(al, base + rel + toff, tleaf)? {
                    Some(v) => v,
                    None => return Ok(()),
                };
                out.0.push((rel + toff, tleaf.size(), tv.clone()));
                let v = self.variant_of_tag(&t, &tv)?;
                if let Val::T(id) = v {
                    if let Some(k) = self.ar.as_int(id) {
                        for (o, fty) in self.fields(&t, k as usize)? {
                            if rel + o == rel + toff && tleaf.size() == self.ti(fty)?.size {
                                continue;
                            }
                            self.const_blob(al, base, fty, rel + o, out)?;
                        }
                        return Ok(());
                    }
                }
                Err("constant enum with unknown tag".into())
            }
            VariantsShape::Single { index } => {
                let idx = index.to_index_();
                let is_union = matches!(&t.shape.fields, FieldsShape::Union(_));
                let fs = self.fields(&t, idx)?;
                if is_union {
                    // take the largest field
                    let mut best: Option<(i64, Ty, u32)> = None;
                    for (o, f) in fs {
                        let s = self.ti(f)?.size;
                        if best.as_ref().map_or(true, |b| s > b.2) {
                            best = Some((o, f, s));
                        }
                    }
                    if let Some((o, f, _)) = best {
                        self.const_blob(al, base, f, rel + o, out)?;
                    }
                    return Ok(());
                }
                for (o, f) in fs {
                    self.const_blob(al, base, f, rel + o, out)?;
                }
                Ok(())
            }
            VariantsShape::Empty => Ok(()),
        }
    }

    fn read_range(&mut self, ptr: &Val, size: u32, ty: Ty) -> R<Blob> {
        if size == 0 {
            return Ok(Blob::default());
        }
        match ptr {
            Val::Ptr(a, off) => {
                if *a >= CONST_BASE {
                    let al = self.consts[(*a - CONST_BASE) as usize].clone();
                    let mut b = Blob::default();
                    self.const_blob(&al, *off, ty, 0, &mut b)?;
                    return Ok(b);
                }
                let sl = self.st.allocs.get(a).ok_or("UB: read through a dangling or null pointer")?;
                let mut b = Blob::default();
                for (o, (s, v)) in sl.range(*off..*off + size as i64) {
                    b.0.push((*o - *off, *s, v.clone()));
                }
                Ok(b)
            }
            Val::Ite(c, x, y) => {
                let bx = self.read_range(x, size, ty)?;
                let by = self.read_range(y, size, ty)?;
                Ok(self.merge_blob(*c, bx, by))
            }
            _ => Err("read through a non-pointer".into()),
        }
    }

    fn merge_blob(&mut self, c: Id, x: Blob, y: Blob) -> Blob {
        let mut mx: BTreeMap<i64, (u32, Val)> = x.0.into_iter().map(|(o, s, v)| (o, (s, v))).collect();
        for (o, s, v) in y.0 {
            match mx.remove(&o) {
                Some((s1, v1)) if s1 == s => {
                    let m = self.merge_val(c, v1, v);
                    mx.insert(o, (s, m));
                }
                Some(other) => {
                    mx.insert(o, other);
                }
                None => {
                    mx.insert(o, (s, v));
                }
            }
        }
        Blob(mx.into_iter().map(|(o, (s, v))| (o, s, v)).collect())
    }

    fn merge_val(&mut self, c: Id, a: Val, b: Val) -> Val {
        if a == b {
            return a;
        }
        match (&a, &b) {
            (Val::T(x), Val::T(y)) if self.ar.sort(*x) == self.ar.sort(*y) => Val::T(self.ar.ite(c, *x, *y)),
            (Val::Opaque, _) | (_, Val::Opaque) => Val::Opaque,
            _ => Val::Ite(c, Rc::new(a), Rc::new(b)),
        }
    }

    fn write_range(&mut self, ptr: &Val, size: u32, b: &Blob) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        match ptr {
            Val::Ptr(a, off) => {
                if *a >= CONST_BASE || *a == 0 {
                    return Err("UB: write to constant or null memory".into());
                }
                if self.audit && self.frozen.contains(a) {
                    return Err("UB: write through a shared reference".into());
                }
                let sl = self.st.allocs.get_mut(a).ok_or("UB: write through a dangling pointer")?;
                let m = Rc::make_mut(sl);
                let keys: Vec<i64> = m.range(*off..*off + size as i64).map(|x| *x.0).collect();
                for k in keys {
                    m.remove(&k);
                }
                for (o, s, v) in &b.0 {
                    m.insert(*off + *o, (*s, v.clone()));
                }
                Ok(())
            }
            Val::Ite(c, x, y) => {
                for (p, pol) in [(x, true), (y, false)] {
                    let old = self.read_raw(p, size)?;
                    let nb = if pol {
                        self.merge_blob(*c, b.clone(), old)
                    } else {
                        self.merge_blob(*c, old, b.clone())
                    };
                    self.write_range(p, size, &nb)?;
                }
                Ok(())
            }
            _ => Err("write through a non-pointer".into()),
        }
    }

    fn read_raw(&mut self, ptr: &Val, size: u32) -> R<Blob> {
        match ptr {
            Val::Ptr(a, off) => {
                let sl = self.st.allocs.get(a).ok_or("UB: dangling pointer")?;
                Ok(Blob(
                    sl.range(*off..*off + size as i64).map(|(o, (s, v))| (*o - *off, *s, v.clone())).collect(),
                ))
            }
            Val::Ite(c, x, y) => {
                let bx = self.read_raw(x, size)?;
                let by = self.read_raw(y, size)?;
                Ok(self.merge_blob(*c, bx, by))
            }
            _ => Err("read through a non-pointer".into()),
        }
    }

    fn merge_states(&mut self, c: Id, a: State, b: State) -> State {
        let mut out = State::default();
        let mut bm = b.allocs;
        for (k, sa) in a.allocs {
            match bm.remove(&k) {
                None => {
                    out.allocs.insert(k, sa);
                }
                Some(sb) => {
                    if Rc::ptr_eq(&sa, &sb) {
                        out.allocs.insert(k, sa);
                    } else {
                        let xa = Blob(sa.iter().map(|(o, (s, v))| (*o, *s, v.clone())).collect());
                        let xb = Blob(sb.iter().map(|(o, (s, v))| (*o, *s, v.clone())).collect());
                        let m = self.merge_blob(c, xa, xb);
                        out.allocs.insert(k, Rc::new(m.0.into_iter().map(|(o, s, v)| (o, (s, v))).collect()));
                    }
                }
            }
        }
        for (k, s) in bm {
            out.allocs.insert(k, s);
        }
        out
    }

    // ---- enums -------------------------------------------------------

    pub fn tag_pos(&mut self, t: &TyInfo) -> R<(i64, Leaf)> {
        if let VariantsShape::Multiple { tag, tag_field, .. } = &t.shape.variants {
            let off = match &t.shape.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as i64,
                _ => 0,
            };
            use rustc_public::abi::{Primitive, Scalar};
            let prim = match tag {
                Scalar::Initialized { value, .. } => value,
                Scalar::Union { value } => value,
            };
            let leaf = match prim {
                Primitive::Int { length, signed } => Leaf::Int(int_bits(*length), *signed),
                Primitive::Pointer(_) => Leaf::Ptr,
                Primitive::Float { .. } => return Err("float tag".into()),
            };
            return Ok((off, leaf));
        }
        Err("no tag".into())
    }

    /// Variant index (as an int term, possibly gated) encoded by a tag value.
    pub fn variant_of_tag(&mut self, t: &TyInfo, v: &Val) -> R<Val> {
        let VariantsShape::Multiple { tag_encoding, .. } = &t.shape.variants else {
            return Err("no tag".into());
        };
        if let Val::Ite(c, a, b) = v {
            let x = self.variant_of_tag(t, a)?;
            let y = self.variant_of_tag(t, b)?;
            return Ok(self.merge_val(*c, x, y));
        }
        match tag_encoding {
            TagEncoding::Direct => {
                let TyKind::RigidTy(RigidTy::Adt(def, _)) = &t.kind else {
                    return Err("tag on non-adt".into());
                };
                let Val::T(id) = v else { return Err("pointer as direct tag".into()) };
                let n = def.num_variants();
                if let Node::Ite(c, a, b) = *self.ar.n(*id) {
                    // a payload read under a gate may carry the niche value of
                    // the enclosing enum on the infeasible side
                    let x = self.variant_of_tag(t, &Val::T(a));
                    let y = self.variant_of_tag(t, &Val::T(b));
                    return match (x, y) {
                        (Ok(x), Ok(y)) => Ok(self.merge_val(c, x, y)),
                        (Ok(x), Err(_)) => Ok(x),
                        (Err(_), y) => y,
                    };
                }
                if let Some(k) = self.ar.as_int(*id) {
                    let s = self.ar.sort(*id);
                    for i in 0..n {
                        let d = def.discriminant_for_variant(vidx(i)).val as i128;
                        if Arena::wrap(d, s) == Arena::wrap(k, s) {
                            return Ok(Val::T(self.ar.usize_(i as i128)));
                        }
                    }
                    return Err("bad tag".into());
                }
                // symbolic tag: chain over variants
                let s = self.ar.sort(*id);
                let mut acc = self.ar.usize_(n as i128 - 1);
                for i in (0..n - 1).rev() {
                    let d = def.discriminant_for_variant(vidx(i)).val as i128;
                    let di = self.ar.int(d, s);
                    let c = self.ar.cmp(COp::Eq, *id, di);
                    let iv = self.ar.usize_(i as i128);
                    acc = self.ar.ite(c, iv, acc);
                }
                Ok(Val::T(acc))
            }
            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                let un = untagged_variant.to_index_() as i128;
                let lo = niche_variants.start().to_index_() as i128;
                let hi = niche_variants.end().to_index_() as i128;
                match v {
                    Val::Ptr(0, a) => {
                        let rel = (*a as i128) - (*niche_start as i128);
                        let k = if rel >= 0 && rel <= hi - lo { lo + rel } else { un };
                        Ok(Val::T(self.ar.usize_(k)))
                    }
                    Val::T(id) => {
                        if let Node::Ite(c, a, b) = *self.ar.n(*id) {
                            let x = self.variant_of_tag(t, &Val::T(a))?;
                            let y = self.variant_of_tag(t, &Val::T(b))?;
                            return Ok(self.merge_val(c, x, y));
                        }
                        if let Some(k) = self.ar.as_int(*id) {
                            let (_, leaf) = self.tag_pos(t)?;
                            let bits = leaf.size() * 8;
                            let us = Sort::Int { bits: bits as u16, signed: false };
                            let rel = Arena::wrap(k.wrapping_sub(*niche_start as i128), us);
                            let k = if rel >= 0 && rel <= hi - lo { lo + rel } else { un };
                            return Ok(Val::T(self.ar.usize_(k)));
                        }
                        Ok(Val::T(self.ar.usize_(un)))
                    }
                    _ => Ok(Val::T(self.ar.usize_(un))),
                }
            }
        }
    }

    pub fn variant_blob(&mut self, t: &TyInfo, b: &Blob) -> R<Val> {
        match &t.shape.variants {
            VariantsShape::Single { index } => Ok(Val::T(self.ar.usize_(index.to_index_() as i128))),
            VariantsShape::Empty => Err("empty enum".into()),
            VariantsShape::Multiple { .. } => {
                let (off, _) = self.tag_pos(t)?;
                let v = b.get(off).ok_or("uninitialised enum tag")?.2.clone();
                self.variant_of_tag(t, &v)
            }
        }
    }

    fn discriminant(&mut self, p: &PlaceV) -> R<Val> {
        let t = self.ti(p.ty)?;
        let dty = match &t.kind {
            TyKind::RigidTy(r) => r.discriminant_ty(),
            _ => return Err("discriminant of opaque type".into()),
        };
        let dl = leaf_of(&dty.kind()).ok_or("odd discriminant type")?;
        let TyKind::RigidTy(RigidTy::Adt(def, _)) = &t.kind else {
            return Ok(Val::T(self.ar.int(0, dl.sort())));
        };
        let vi = match &t.shape.variants {
            VariantsShape::Single { index } => Val::T(self.ar.usize_(index.to_index_() as i128)),
            VariantsShape::Empty => return Err("empty enum".into()),
            VariantsShape::Multiple { .. } => {
                let b = self.read_range(&p.ptr, t.size, p.ty)?;
                self.variant_blob(&t, &b)?
            }
        };
        let Val::T(id) = vi else { return Err("odd variant index".into()) };
        let def = *def;
        if !def.kind().is_enum() {
            return Ok(Val::T(self.ar.int(0, dl.sort())));
        }
        Ok(Val::T(self.map_int(id, dl.sort(), &|ar, k| {
            let d = def.discriminant_for_variant(vidx(k as usize)).val as i128;
            ar.int(d, dl.sort())
        })?))
    }

    fn map_int(&mut self, id: Id, s: Sort, f: &dyn Fn(&mut Arena, i128) -> Id) -> R<Id> {
        match self.ar.n(id).clone() {
            Node::Int(k, _) => Ok(f(&mut self.ar, k)),
            Node::Ite(c, a, b) => {
                let x = self.map_int(a, s, f)?;
                let y = self.map_int(b, s, f)?;
                Ok(self.ar.ite(c, x, y))
            }
            _ => Err("symbolic discriminant".into()),
        }
    }

    fn set_tag(&mut self, t: &TyInfo, variant: usize, b: &mut Blob) -> R<()> {
        if let VariantsShape::Multiple { tag_encoding, .. } = &t.shape.variants {
            let (off, leaf) = self.tag_pos(t)?;
            match tag_encoding {
                TagEncoding::Direct => {
                    let TyKind::RigidTy(RigidTy::Adt(def, _)) = &t.kind else { return Err("tag".into()) };
                    let d = def.discriminant_for_variant(vidx(variant)).val as i128;
                    let v = self.ar.int(d, leaf.sort());
                    b.0.retain(|x| x.0 != off);
                    b.0.push((off, leaf.size(), Val::T(v)));
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if variant != untagged_variant.to_index_() {
                        let k = (variant as i128 - niche_variants.start().to_index_() as i128)
                            .wrapping_add(*niche_start as i128);
                        let v = if leaf == Leaf::Ptr {
                            Val::Ptr(0, k as i64)
                        } else {
                            Val::T(self.ar.int(k, leaf.sort()))
                        };
                        b.0.retain(|x| x.0 != off);
                        b.0.push((off, leaf.size(), v));
                    }
                }
            }
        }
        Ok(())
    }

    // ---- places and operands -----------------------------------------

    fn ptr_add(&mut self, p: &Val, d: i64) -> R<Val> {
        Ok(match p {
            Val::Ptr(a, o) => Val::Ptr(*a, *o + d),
            Val::Ite(c, x, y) => {
                let a = self.ptr_add(x, d)?;
                let b = self.ptr_add(y, d)?;
                Val::Ite(*c, Rc::new(a), Rc::new(b))
            }
            Val::T(id) => {
                let k = self.ar.as_int(*id).ok_or("arithmetic on a symbolic address")?;
                Val::Ptr(0, k as i64 + d)
            }
            _ => return Err("arithmetic on opaque pointer".into()),
        })
    }

    fn local_place(&mut self, f: &Frame, l: usize) -> PlaceV {
        PlaceV { ptr: Val::Ptr(f.locals[l], 0), meta: None, ty: f.bi.body.locals()[l].ty, variant: None }
    }

    fn place(&mut self, f: &Frame, p: &Place) -> R<PlaceV> {
        let mut cur = self.local_place(f, p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let pointee = match cur.ty.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
                        _ => return Err(format!("deref of {:?}", cur.ty)),
                    };
                    let t = self.ti(cur.ty)?;
                    let b = self.read_range(&cur.ptr, t.size, cur.ty)?;
                    let p0 = b.get(0).ok_or("uninitialised pointer")?.2.clone();
                    let meta = b.get(8).map(|x| x.2.clone());
                    cur = PlaceV { ptr: p0, meta, ty: pointee, variant: None };
                }
                ProjectionElem::Field(i, fty) => {
                    let off = match &cur.ty.kind() {
                        TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Tuple(_) | RigidTy::Closure(..)) => {
                            let t = self.ti(cur.ty)?;
                            match (&t.shape.variants, &t.shape.fields, cur.variant) {
                                (VariantsShape::Multiple { variants, .. }, _, Some(v)) => {
                                    variants[v].offsets[*i].bytes() as i64
                                }
                                (_, FieldsShape::Arbitrary { offsets }, _) => offsets[*i].bytes() as i64,
                                (_, FieldsShape::Array { stride, .. }, _) => stride.bytes() as i64 * *i as i64,
                                (_, FieldsShape::Union(_), _) => 0,
                                _ => return Err("field of primitive".into()),
                            }
                        }
                        _ => 0,
                    };
                    let ptr = self.ptr_add(&cur.ptr, off)?;
                    let keep = {
                        let k = tail(*fty).kind();
                        is_slice_like(&k) || matches!(k, TyKind::RigidTy(RigidTy::Dynamic(..)))
                    };
                    cur = PlaceV { ptr, meta: if keep { cur.meta } else { None }, ty: *fty, variant: None };
                }
                ProjectionElem::Index(l) => {
                    let lp = self.local_place(f, *l);
                    let iv = self.load_term(&lp)?;
                    cur = self.index(cur, iv)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let k = if *from_end {
                        let n = self.place_len(&cur)?;
                        self.ar.as_int(n).ok_or("symbolic slice length")? - *offset as i128
                    } else {
                        *offset as i128
                    };
                    let iv = self.ar.usize_(k);
                    cur = self.index(cur, iv)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.place_len(&cur)?;
                    let n = self.ar.as_int(n).ok_or("symbolic slice length")?;
                    let hi = if *from_end { n - *to as i128 } else { *to as i128 };
                    let elem = elem_ty(&cur.ty.kind()).ok_or("subslice of non-slice")?;
                    let es = self.ti(elem)?.size as i64;
                    let ptr = self.ptr_add(&cur.ptr, es * *from as i64)?;
                    let len = hi - *from as i128;
                    let (ty, meta) = match cur.ty.kind() {
                        TyKind::RigidTy(RigidTy::Array(..)) => {
                            (Ty::try_new_array(elem, len as u64).map_err(|e| format!("{e:?}"))?, None)
                        }
                        _ => (cur.ty, Some(Val::T(self.ar.usize_(len)))),
                    };
                    cur = PlaceV { ptr, meta, ty, variant: None };
                }
                ProjectionElem::Downcast(v) => {
                    cur.variant = Some(v.to_index_());
                }
                ProjectionElem::OpaqueCast(t) => cur.ty = *t,
            }
        }
        Ok(cur)
    }

    fn index(&mut self, cur: PlaceV, iv: Id) -> R<PlaceV> {
        let elem = elem_ty(&cur.ty.kind()).ok_or("index of non-array")?;
        let es = self.ti(elem)?.size as i64;
        let n = self.place_len(&cur)?;
        let n = self.ar.as_int(n);
        let ptr = self.index_ptr(&cur.ptr, iv, es, n)?;
        Ok(PlaceV { ptr, meta: None, ty: elem, variant: None })
    }

    fn index_ptr(&mut self, p: &Val, iv: Id, es: i64, n: Option<i128>) -> R<Val> {
        if let Some(k) = self.ar.as_int(iv) {
            return self.ptr_add(p, k as i64 * es);
        }
        if let Node::Ite(c, a, b) = *self.ar.n(iv) {
            let x = self.index_ptr(p, a, es, n)?;
            let y = self.index_ptr(p, b, es, n)?;
            return Ok(Val::Ite(c, Rc::new(x), Rc::new(y)));
        }
        // symbolic index: gate over all in-range positions
        if let Some(n) = n {
            if n >= 1 && n <= 16 {
                let mut acc = self.ptr_add(p, (n as i64 - 1) * es)?;
                for k in (0..n - 1).rev() {
                    let s = self.ar.sort(iv);
                    let kv = self.ar.int(k, s);
                    let c = self.ar.cmp(COp::Eq, iv, kv);
                    let here = self.ptr_add(p, k as i64 * es)?;
                    acc = Val::Ite(c, Rc::new(here), Rc::new(acc));
                }
                return Ok(acc);
            }
        }
        Err("symbolic index".into())
    }

    fn place_len(&mut self, p: &PlaceV) -> R<Id> {
        match p.ty.kind() {
            TyKind::RigidTy(RigidTy::Array(_, n)) => {
                let k = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                Ok(self.ar.usize_(k as i128))
            }
            _ => match &p.meta {
                Some(Val::T(t)) => Ok(*t),
                Some(Val::Ite(..)) => Err("gated slice length".into()),
                _ => Err("length of unsized place without metadata".into()),
            },
        }
    }

    fn load(&mut self, p: &PlaceV) -> R<Blob> {
        let t = self.ti(p.ty)?;
        self.read_range(&p.ptr, t.size, p.ty)
    }

    fn load_term(&mut self, p: &PlaceV) -> R<Id> {
        let b = self.load(p)?;
        let k = p.ty.kind();
        let leaf = leaf_of(&k).ok_or("not a scalar")?;
        self.scalar(&b, leaf)
    }

    pub fn scalar(&mut self, b: &Blob, leaf: Leaf) -> R<Id> {
        let v = b.get(0).ok_or("UB: use of an uninitialised value")?.2.clone();
        self.val_to_term(&v, leaf)
    }

    fn val_to_term(&mut self, v: &Val, leaf: Leaf) -> R<Id> {
        match v {
            Val::T(id) => {
                let s = self.ar.sort(*id);
                let want = leaf.sort();
                if s == want {
                    return Ok(*id);
                }
                match (s, want) {
                    (Sort::Int { .. }, Sort::Int { .. }) => self.int_cast(*id, want),
                    (Sort::Bool, Sort::Int { .. }) => self.int_cast(*id, want),
                    (Sort::Int { .. }, Sort::Bool) => {
                        let z = self.ar.int(0, s);
                        let e = self.ar.cmp(COp::Eq, *id, z);
                        Ok(self.ar.not(e))
                    }
                    (Sort::Real, Sort::Int { bits, signed }) => {
                        if let Some((0, 1)) = self.ar.as_rat(*id) {
                            return Ok(self.ar.int(0, want));
                        }
                        Ok(self.ar.fun("to_bits", vec![*id], Sort::Int { bits, signed }))
                    }
                    (Sort::Int { .. }, Sort::Real) => {
                        if let Some(0) = self.ar.as_int(*id) {
                            return Ok(self.ar.rat(0, 1));
                        }
                        if let Node::Fun("to_bits", a, _) = self.ar.n(*id).clone() {
                            return Ok(a[0]);
                        }
                        if let Some(k) = self.ar.as_int(*id) {
                            return Ok(if leaf == Leaf::F32 {
                                self.ar.float(f32::from_bits(k as u32) as f64, true)
                            } else {
                                self.ar.float(f64::from_bits(k as u64), false)
                            });
                        }
                        Ok(self.ar.fun("from_bits", vec![*id], Sort::Real))
                    }
                    _ => Err("scalar sort mismatch".into()),
                }
            }
            Val::Ptr(0, a) => Ok(self.ar.int(*a as i128, leaf.sort())),
            Val::Ite(c, x, y) => {
                let a = self.val_to_term(x, leaf)?;
                let b = self.val_to_term(y, leaf)?;
                Ok(self.ar.ite(*c, a, b))
            }
            Val::Ptr(a, o) => {
                // an address as an integer: only differences/equality matter
                Ok(self.ar.int(((*a as i128) << 32) + *o as i128, leaf.sort()))
            }
            _ => Err("opaque value used as a scalar".into()),
        }
    }

    fn const_operand(&mut self, c: &ConstOperand) -> R<(Blob, Ty)> {
        let ty = c.const_.ty();
        match c.const_.kind() {
            ConstantKind::Allocated(al) => {
                let mut b = Blob::default();
                self.const_blob(al, 0, ty, 0, &mut b)?;
                Ok((b, ty))
            }
            ConstantKind::ZeroSized => Ok((Blob::default(), ty)),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, al) => {
                    let mut b = Blob::default();
                    self.const_blob(al, 0, ty, 0, &mut b)?;
                    Ok((b, ty))
                }
                TyConstKind::ZSTValue(_) => Ok((Blob::default(), ty)),
                k => Err(format!("type constant {k:?}")),
            },
            k => Err(format!("unevaluated constant {k:?}")),
        }
    }

    fn operand(&mut self, f: &Frame, o: &Operand) -> R<(Blob, Ty)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pv = self.place(f, p)?;
                let b = self.load(&pv)?;
                Ok((b, pv.ty))
            }
            Operand::Constant(c) => self.const_operand(c),
            Operand::RuntimeChecks(_) => {
                let v = self.ar.boolean(false);
                Ok((Blob::one(1, Val::T(v)), Ty::bool_ty()))
            }
        }
    }

    fn op_term(&mut self, f: &Frame, o: &Operand) -> R<(Id, Leaf)> {
        let (b, ty) = self.operand(f, o)?;
        let leaf = leaf_of(&ty.kind()).ok_or_else(|| format!("scalar operand expected, got {ty:?}"))?;
        Ok((self.scalar(&b, leaf)?, leaf))
    }

    // ---- rvalues -----------------------------------------------------

    pub fn int_cast(&mut self, id: Id, want: Sort) -> R<Id> {
        match self.ar.n(id).clone() {
            Node::Int(k, _) => Ok(self.ar.int(k, want)),
            Node::Bool(b) => Ok(self.ar.int(b as i128, want)),
            Node::Ite(c, a, b) => {
                let x = self.int_cast(a, want)?;
                let y = self.int_cast(b, want)?;
                Ok(self.ar.ite(c, x, y))
            }
            _ => {
                if self.ar.sort(id) == Sort::Bool {
                    let o = self.ar.int(1, want);
                    let z = self.ar.int(0, want);
                    return Ok(self.ar.ite(id, o, z));
                }
                Ok(self.ar.fun("icast", vec![id], want))
            }
        }
    }

    pub fn blob_ptr(&self, b: &Blob) -> R<Val> {
        Ok(b.get(0).ok_or("uninitialised pointer")?.2.clone())
    }

    fn cmp_ptr(&mut self, op: BinOp, a: &Val, b: &Val) -> R<Id> {
        if let Val::Ite(c, x, y) = a {
            let l = self.cmp_ptr(op, x, b)?;
            let r = self.cmp_ptr(op, y, b)?;
            return Ok(self.ar.ite(*c, l, r));
        }
        if let Val::Ite(c, x, y) = b {
            let l = self.cmp_ptr(op, a, x)?;
            let r = self.cmp_ptr(op, a, y)?;
            return Ok(self.ar.ite(*c, l, r));
        }
        match (a, b) {
            (Val::Ptr(x, ox), Val::Ptr(y, oy)) => {
                let same = x == y;
                let r = match op {
                    BinOp::Eq => same && ox == oy,
                    BinOp::Ne => !(same && ox == oy),
                    _ if !same => return Err("ordering of unrelated pointers".into()),
                    BinOp::Lt => ox < oy,
                    BinOp::Le => ox <= oy,
                    BinOp::Gt => ox > oy,
                    BinOp::Ge => ox >= oy,
                    _ => return Err("pointer arithmetic operator".into()),
                };
                Ok(self.ar.boolean(r))
            }
            (Val::Fn(x), Val::Fn(y)) => Ok(self.ar.boolean((x == y) == (op == BinOp::Eq))),
            _ => Err("comparison of opaque pointers".into()),
        }
    }

    fn binop_terms(&mut self, op: BinOp, a: Id, b: Id) -> R<Id> {
        Ok(match op {
            BinOp::Add | BinOp::AddUnchecked => self.ar.add(a, b),
            BinOp::Sub | BinOp::SubUnchecked => self.ar.sub(a, b),
            BinOp::Mul | BinOp::MulUnchecked => self.ar.mul(a, b),
            BinOp::Div => self.ar.div(a, b),
            BinOp::Rem => self.ar.bin(BOp::Rem, a, b),
            BinOp::BitXor => self.ar.bin(BOp::Xor, a, b),
            BinOp::BitAnd => self.ar.bin(BOp::And, a, b),
            BinOp::BitOr => self.ar.bin(BOp::Or, a, b),
            BinOp::Shl | BinOp::ShlUnchecked => self.ar.bin(BOp::Shl, a, b),
            BinOp::Shr | BinOp::ShrUnchecked => self.ar.bin(BOp::Shr, a, b),
            BinOp::Eq => self.ar.cmp(COp::Eq, a, b),
            BinOp::Ne => {
                let e = self.ar.cmp(COp::Eq, a, b);
                self.ar.not(e)
            }
            BinOp::Lt => self.ar.cmp(COp::Lt, a, b),
            BinOp::Le => self.ar.cmp(COp::Le, a, b),
            BinOp::Gt => self.ar.cmp(COp::Lt, b, a),
            BinOp::Ge => self.ar.cmp(COp::Le, b, a),
            BinOp::Cmp => {
                let s = Sort::Int { bits: 8, signed: true };
                let m = self.ar.int(-1, s);
                let z = self.ar.int(0, s);
                let o = self.ar.int(1, s);
                let lt = self.ar.cmp(COp::Lt, a, b);
                let eq = self.ar.cmp(COp::Eq, a, b);
                let r = self.ar.ite(eq, z, o);
                self.ar.ite(lt, m, r)
            }
            BinOp::Offset => return Err("offset".into()),
        })
    }

    fn overflow_flag(&mut self, op: BinOp, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.ar.as_int(a), self.ar.as_int(b)) {
            let s = self.ar.sort(a);
            let v = match op {
                BinOp::Add => x.checked_add(y),
                BinOp::Sub => x.checked_sub(y),
                BinOp::Mul => x.checked_mul(y),
                _ => Some(0),
            };
            let o = match v {
                Some(v) => Arena::wrap(v, s) != v,
                None => true,
            };
            return self.ar.boolean(o);
        }
        // assumption: symbolic integers stay in range (documented)
        self.ar.boolean(false)
    }

    fn rvalue(&mut self, f: &Frame, rv: &Rvalue, dest_ty: Ty) -> R<Blob> {
        match rv {
            Rvalue::Use(o, _) => Ok(self.operand(f, o)?.0),
            Rvalue::CopyForDeref(p) => {
                let pv = self.place(f, p)?;
                self.load(&pv)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let pv = self.place(f, p)?;
                let mut b = Blob::one(8, pv.ptr.clone());
                if let Some(m) = pv.meta {
                    b.0.push((8, 8, m));
                }
                Ok(b)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (ba, ta) = self.operand(f, a)?;
                let (bb, tb) = self.operand(f, b)?;
                let ka = ta.kind();
                let is_ptr = matches!(ka, TyKind::RigidTy(RigidTy::RawPtr(..) | RigidTy::FnPtr(..) | RigidTy::Ref(..)));
                if *op == BinOp::Offset {
                    let pointee = match ka {
                        TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
                        _ => return Err("offset on non-pointer".into()),
                    };
                    let es = self.ti(pointee)?.size as i64;
                    let leaf = leaf_of(&tb.kind()).ok_or("offset count")?;
                    let k = self.scalar(&bb, leaf)?;
                    let p = self.blob_ptr(&ba)?;
                    return Ok(Blob::one(8, self.index_ptr(&p, k, es, None)?));
                }
                if is_ptr {
                    let pa = self.blob_ptr(&ba)?;
                    let pb = self.blob_ptr(&bb)?;
                    let r = self.cmp_ptr(*op, &pa, &pb)?;
                    return Ok(Blob::one(1, Val::T(r)));
                }
                let la = leaf_of(&ka).ok_or_else(|| format!("binary op on {ta:?}"))?;
                let lb = leaf_of(&tb.kind()).ok_or("binary op operand")?;
                let x = self.scalar(&ba, la)?;
                let mut y = self.scalar(&bb, lb)?;
                if la != lb && matches!(la, Leaf::Int(..)) {
                    y = self.int_cast(y, la.sort())?;
                }
                let r = self.binop_terms(*op, x, y)?;
                let size = match self.ar.sort(r) {
                    Sort::Bool => 1,
                    Sort::Int { bits, .. } => bits as u32 / 8,
                    Sort::Real => la.size(),
                };
                Ok(Blob::one(size, Val::T(r)))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, la) = self.op_term(f, a)?;
                let (mut y, lb) = self.op_term(f, b)?;
                if la != lb {
                    y = self.int_cast(y, la.sort())?;
                }
                let r = self.binop_terms(*op, x, y)?;
                let o = self.overflow_flag(*op, x, y);
                let t = self.ti(dest_ty)?;
                let fs = self.fields(&t, 0)?;
                Ok(Blob(vec![(fs[0].0, la.size(), Val::T(r)), (fs[1].0, 1, Val::T(o))]))
            }
            Rvalue::UnaryOp(op, a) => match op {
                UnOp::PtrMetadata => {
                    let (b, _) = self.operand(f, a)?;
                    match b.get(8) {
                        Some(x) => Ok(Blob::one(8, x.2.clone())),
                        None => Ok(Blob::default()),
                    }
                }
                UnOp::Not => {
                    let (x, l) = self.op_term(f, a)?;
                    Ok(Blob::one(l.size(), Val::T(self.ar.not(x))))
                }
                UnOp::Neg => {
                    let (x, l) = self.op_term(f, a)?;
                    Ok(Blob::one(l.size(), Val::T(self.ar.neg(x))))
                }
            },
            Rvalue::Cast(kind, o, ty) => self.cast(f, kind, o, *ty),
            Rvalue::Len(p) => {
                let pv = self.place(f, p)?;
                Ok(Blob::one(8, Val::T(self.place_len(&pv)?)))
            }
            Rvalue::Discriminant(p) => {
                let pv = self.place(f, p)?;
                let v = self.discriminant(&pv)?;
                let t = self.ti(dest_ty)?;
                Ok(Blob::one(t.size, v))
            }
            Rvalue::Repeat(o, n) => {
                let (b, ty) = self.operand(f, o)?;
                let es = self.ti(ty)?.size as i64;
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let mut out = Blob::default();
                for i in 0..n as i64 {
                    for (o, s, v) in &b.0 {
                        out.0.push((i * es + o, *s, v.clone()));
                    }
                }
                Ok(out)
            }
            Rvalue::Aggregate(kind, ops) => {
                let mut parts = vec![];
                for o in ops {
                    parts.push(self.operand(f, o)?);
                }
                match kind {
                    AggregateKind::RawPtr(..) => {
                        let mut b = Blob::one(8, self.blob_ptr(&parts[0].0)?);
                        if let Some(m) = parts[1].0.get(0) {
                            b.0.push((8, 8, m.2.clone()));
                        }
                        Ok(b)
                    }
                    AggregateKind::Array(t) => {
                        let es = self.ti(*t)?.size as i64;
                        let mut out = Blob::default();
                        for (i, (b, _)) in parts.iter().enumerate() {
                            for (o, s, v) in &b.0 {
                                out.0.push((i as i64 * es + o, *s, v.clone()));
                            }
                        }
                        Ok(out)
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) | AggregateKind::Adt(..) => {
                        let t = self.ti(dest_ty)?;
                        let (variant, active) = match kind {
                            AggregateKind::Adt(_, v, _, _, a) => (v.to_index_(), *a),
                            _ => (0, None),
                        };
                        let offs: Vec<i64> = match (&t.shape.variants, &t.shape.fields) {
                            (VariantsShape::Multiple { variants, .. }, _) => {
                                variants[variant].offsets.iter().map(|s| s.bytes() as i64).collect()
                            }
                            (_, FieldsShape::Arbitrary { offsets }) => {
                                offsets.iter().map(|s| s.bytes() as i64).collect()
                            }
                            (_, FieldsShape::Array { stride, count }) => {
                                (0..*count).map(|i| i as i64 * stride.bytes() as i64).collect()
                            }
                            (_, FieldsShape::Union(n)) => vec![0; n.get()],
                            _ => vec![0; ops.len()],
                        };
                        let mut out = Blob::default();
                        for (i, (b, _)) in parts.iter().enumerate() {
                            let fi = active.unwrap_or(i);
                            if b.0.is_empty() {
                                continue;
                            }
                            let off = *offs.get(fi).ok_or_else(|| format!("field {fi} of {dest_ty} ({:?})", t.shape))?;
                            for (o, s, v) in &b.0 {
                                out.0.push((off + o, *s, v.clone()));
                            }
                        }
                        self.set_tag(&t, variant, &mut out)?;
                        Ok(out)
                    }
                    k => Err(format!("aggregate {k:?}")),
                }
            }
            Rvalue::ThreadLocalRef(_) => Err("thread local".into()),
        }
    }

    fn cast(&mut self, f: &Frame, kind: &CastKind, o: &Operand, ty: Ty) -> R<Blob> {
        let (b, from) = self.operand(f, o)?;
        match kind {
            CastKind::IntToInt => {
                let fl = leaf_of(&from.kind()).or(Some(Leaf::Int(64, true))).unwrap();
                let x = self.scalar(&b, fl)?;
                let tl = leaf_of(&ty.kind()).ok_or("int cast target")?;
                Ok(Blob::one(tl.size(), Val::T(self.int_cast(x, tl.sort())?)))
            }
            CastKind::IntToFloat => {
                let fl = leaf_of(&from.kind()).ok_or("cast source")?;
                let x = self.scalar(&b, fl)?;
                let tl = leaf_of(&ty.kind()).ok_or("cast target")?;
                let r = self.i2r(x);
                Ok(Blob::one(tl.size(), Val::T(r)))
            }
            CastKind::FloatToFloat => {
                let fl = leaf_of(&from.kind()).ok_or("cast source")?;
                let mut x = self.scalar(&b, fl)?;
                let tl = leaf_of(&ty.kind()).ok_or("cast target")?;
                if tl.size() > fl.size() {
                    x = self.widen(x);
                }
                Ok(Blob::one(tl.size(), Val::T(x)))
            }
            CastKind::FloatToInt => {
                let fl = leaf_of(&from.kind()).ok_or("cast source")?;
                let x = self.scalar(&b, fl)?;
                let tl = leaf_of(&ty.kind()).ok_or("cast target")?;
                let r = self.r2i(x, tl.sort());
                Ok(Blob::one(tl.size(), Val::T(r)))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let t = self.ti(ty)?;
                let mut nb = b;
                if t.size == 8 {
                    nb.0.retain(|x| x.0 == 0);
                }
                Ok(nb)
            }
            CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => Ok(b),
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                // reinterpretation: scalar leaves are converted when the target is scalar
                let tk = ty.kind();
                if let Some(l) = leaf_of(&tk) {
                    if let Some(x) = b.get(0) {
                        if let Val::T(_) = x.2 {
                            if l != Leaf::Ptr && x.1 == l.size() {
                                let id = self.scalar(&b, l)?;
                                return Ok(Blob::one(l.size(), Val::T(id)));
                            }
                        }
                    }
                }
                if matches!(tk, TyKind::RigidTy(RigidTy::RawPtr(..) | RigidTy::Ref(..))) {
                    let mut nb = b.clone();
                    for x in nb.0.iter_mut() {
                        if x.0 == 0 {
                            if let Val::T(id) = x.2 {
                                if let Some(k) = self.ar.as_int(id) {
                                    x.2 = Val::Ptr(0, k as i64);
                                }
                            }
                        }
                    }
                    return Ok(nb);
                }
                Ok(b)
            }
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        let i = Instance::resolve_for_fn_ptr(d, &a).map_err(|e| format!("{e:?}"))?;
                        Ok(Blob::one(8, Val::Fn(i)))
                    }
                    _ => Err("reify of non-fn".into()),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?;
                        self.closure_ptrs.insert(i);
                        Ok(Blob::one(8, Val::Fn(i)))
                    }
                    _ => Err("closure coercion".into()),
                },
                PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer => Ok(b),
                PointerCoercion::ArrayToPointer => Ok(b),
                PointerCoercion::Unsize => {
                    let inner = |t: Ty| match t.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
                        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| match g {
                            GenericArgKind::Type(t) => Some(*t),
                            _ => None,
                        }),
                        _ => None,
                    };
                    match (inner(from), inner(ty)) {
                        (Some(a), Some(s)) => {
                            let (a, s) = tails(a, s);
                            let mut nb = Blob::one(8, self.blob_ptr(&b)?);
                            if let Some(m) = b.get(8) {
                                // already a wide pointer (upcast or lifetime change)
                                nb.0.push((8, 8, m.2.clone()));
                                return Ok(nb);
                            }
                            if let (TyKind::RigidTy(RigidTy::Array(_, n)), true) = (a.kind(), is_slice_like(&s.kind())) {
                                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                                nb.0.push((8, 8, Val::T(self.ar.usize_(n as i128))));
                                return Ok(nb);
                            }
                            nb.0.push((8, 8, Val::Vt(a)));
                            Ok(nb)
                        }
                        _ => Err("unsize coercion".into()),
                    }
                }
            },
        }
    }

    pub fn i2r(&mut self, x: Id) -> Id {
        match self.ar.n(x).clone() {
            Node::Int(k, _) => self.ar.rat(k, 1),
            Node::Ite(c, a, b) => {
                let l = self.i2r(a);
                let r = self.i2r(b);
                self.ar.ite(c, l, r)
            }
            _ => self.ar.fun("i2r", vec![x], Sort::Real),
        }
    }
    /// A narrow float made from wide ones has lost digits by the time it is a wide one again; one made from narrow floats and
    /// constants has not.
    fn widen(&mut self, x: Id) -> Id {
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![x];
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            if self.wide.contains(&i) {
                return self.ar.fun("f32", vec![x], Sort::Real);
            }
            match self.ar.n(i) {
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) => todo.extend([*a, *b]),
                Node::Neg(a) | Node::Not(a) => todo.push(*a),
                Node::Fun(_, v, _) => todo.extend(v.iter().copied()),
                Node::Ite(a, b, c) => todo.extend([*a, *b, *c]),
                _ => {}
            }
        }
        x
    }
    pub fn r2i(&mut self, x: Id, s: Sort) -> Id {
        if let Some((p, q)) = self.ar.as_rat(x) {
            let v = p / q;
            if Arena::wrap(v, s) == v {
                return self.ar.int(v, s);
            }
        }
        self.ar.fun("r2i", vec![x], s)
    }

    // ---- control -----------------------------------------------------

    fn body_of(&mut self, inst: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&inst) {
            return b.clone();
        }
        let r = inst.body().map(|body| {
            let ipdom = postdoms(&body);
            let rust_call = match inst.ty().kind() {
                TyKind::RigidTy(RigidTy::Closure(..)) => true,
                k => k.fn_sig().map_or(false, |s| matches!(s.skip_binder().abi, Abi::RustCall)),
            };
            let nargs = body.arg_locals().len();
            Rc::new(BodyInfo { body, ipdom, name: inst.name(), rust_call, nargs })
        });
        self.bodies.insert(inst, r.clone());
        r
    }

    fn known(&self, c: Id) -> Option<bool> {
        for (k, v) in self.pc.iter().rev() {
            if *k == c {
                return Some(*v);
            }
        }
        None
    }

    /// Resolve gates in `c` that the current branch context already decides.
    fn simplify(&mut self, c: Id) -> Id {
        if self.pc.is_empty() {
            return c;
        }
        if let Some(b) = self.known(c) {
            return self.ar.boolean(b);
        }
        match self.ar.n(c).clone() {
            Node::Ite(g, a, b) => {
                let g2 = self.simplify(g);
                match self.ar.as_bool(g2) {
                    Some(true) => self.simplify(a),
                    Some(false) => self.simplify(b),
                    None => {
                        let x = self.simplify(a);
                        let y = self.simplify(b);
                        self.ar.ite(g2, x, y)
                    }
                }
            }
            Node::Not(x) => {
                let y = self.simplify(x);
                self.ar.not(y)
            }
            _ => c,
        }
    }

    fn run(&mut self, f: &Frame, start: usize, stop: usize) -> R<Outcome> {
        let mut bb = start;
        loop {
            if bb == stop {
                return Ok(Outcome::Reached);
            }
            if bb == EXIT {
                return Err("reached function exit before join point".into());
            }
            if self.fuel == 0 {
                return Err("analysis budget exhausted (unbounded loop?)".into());
            }
            self.fuel -= 1;
            let blk = &f.bi.body.blocks[bb];
            for s in &blk.statements {
                self.statement(f, s)?;
            }
            match &blk.terminator.kind {
                TerminatorKind::Goto { target } => bb = *target,
                TerminatorKind::Return => bb = EXIT,
                TerminatorKind::Unreachable => return Ok(Outcome::Diverged),
                TerminatorKind::Resume | TerminatorKind::Abort => return Ok(Outcome::Diverged),
                TerminatorKind::Drop { place, target, .. } => {
                    let mut pv = self.place(f, place)?;
                    if let (TyKind::RigidTy(RigidTy::Dynamic(..)), Some(Val::Vt(t))) = (pv.ty.kind(), pv.meta.clone()) {
                        pv = PlaceV { ty: t, meta: None, ..pv };
                    }
                    let inst = Instance::resolve_drop_in_place(pv.ty);
                    if !inst.is_empty_shim() {
                        let mut b = Blob::one(8, pv.ptr.clone());
                        if let Some(m) = pv.meta.clone() {
                            b.0.push((8, 8, m));
                        }
                        let pty = Ty::new_ptr(pv.ty, rustc_public::mir::Mutability::Mut);
                        if self.call_inst(inst, vec![(b, pty)], Ty::new_tuple(&[]), false)?.is_none() {
                            return Ok(Outcome::Diverged);
                        }
                    }
                    bb = *target
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (c, _) = self.op_term(f, cond)?;
                    let c = self.simplify(c);
                    let ok = if *expected { c } else { self.ar.not(c) };
                    match self.ar.as_bool(ok) {
                        Some(true) => bb = *target,
                        Some(false) => {
                            self.panic_here(format!("assert {}", assert_name(msg)));
                            return Ok(Outcome::Diverged);
                        }
                        // exact integer arithmetic: overflow is outside the model
                        None if matches!(msg, AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_)) => bb = *target,
                        None => {
                            self.pc.push((ok, false));
                            self.panic_here(format!("assert {}", assert_name(msg)));
                            self.pc.pop();
                            self.guard(ok, true);
                            bb = *target;
                        }
                    }
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let (b, ty) = self.operand(f, discr)?;
                    let leaf = leaf_of(&ty.kind()).ok_or("switch on non-scalar")?;
                    let d = self.scalar(&b, leaf)?;
                    let d = self.simplify(d);
                    let list: Vec<(u128, usize)> = targets.branches().collect();
                    if let Some(k) = self.ar.as_int(d) {
                        let s = leaf.sort();
                        let mut t = targets.otherwise();
                        for (v, tt) in &list {
                            let w = Arena::wrap(*v as i128, s);
                            if w == k {
                                t = *tt;
                                break;
                            }
                        }
                        bb = t;
                        continue;
                    }
                    let join = f.bi.ipdom[bb];
                    if join == bb {
                        return Err("switch without join".into());
                    }
                    match self.switch(f, d, &list, targets.otherwise(), join)? {
                        Outcome::Diverged => return Ok(Outcome::Diverged),
                        Outcome::Reached => bb = join,
                    }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut vals = vec![];
                    for a in args {
                        vals.push(self.operand(f, a)?);
                    }
                    let dest = self.place(f, destination)?;
                    let (fb, fty) = self.operand(f, func)?;
                    self.site = Some(blk.terminator.source_info.span);
                    let r = self.call(&fb, fty, vals, dest.ty, f)?;
                    match r {
                        None => return Ok(Outcome::Diverged),
                        Some(b) => {
                            let t = self.ti(dest.ty)?;
                            self.write_range(&dest.ptr, t.size, &b)?;
                            match target {
                                Some(t) => bb = *t,
                                None => return Ok(Outcome::Diverged),
                            }
                        }
                    }
                }
                TerminatorKind::InlineAsm { .. } => return Err("inline assembly".into()),
            }
        }
    }

    fn panic_here(&mut self, what: String) {
        let site = self.stack.last().cloned().unwrap_or_default();
        let path = self.stack.join(" > ");
        self.panics.push(PanicAt { pc: self.pc.clone(), nguards: self.guards.len(), what, site, path });
    }

    fn switch(&mut self, f: &Frame, d: Id, list: &[(u128, usize)], otherwise: usize, join: usize) -> R<Outcome> {
        if list.is_empty() {
            return self.run(f, otherwise, join);
        }
        if self.pc.len() > 400 {
            return Err("branch nesting too deep (symbolic loop?)".into());
        }
        let (v, t) = list[0];
        let s = self.ar.sort(d);
        let c = if s == Sort::Bool {
            if v == 0 {
                self.ar.not(d)
            } else {
                d
            }
        } else {
            let vi = self.ar.int(v as i128, s);
            self.ar.cmp(COp::Eq, d, vi)
        };
        let c = self.simplify(c);
        match self.ar.as_bool(c) {
            Some(true) => return self.run(f, t, join),
            Some(false) => return self.switch(f, d, &list[1..], otherwise, join),
            None => {}
        }
        // split compound gates so that branch contexts are atomic
        if let Node::Ite(g, _, _) = *self.ar.n(c) {
            return self.fork(g, |me| me.switch(f, d, list, otherwise, join));
        }
        let (atom, pol) = match *self.ar.n(c) {
            Node::Not(x) => (x, false),
            _ => (c, true),
        };
        self.fork2(
            atom,
            |me| if pol { me.run(f, t, join) } else { me.switch(f, d, &list[1..], otherwise, join) },
            |me| if pol { me.switch(f, d, &list[1..], otherwise, join) } else { me.run(f, t, join) },
        )
    }

    /// Execution continues only where `c` has the given truth value.
    pub fn guard(&mut self, c: Id, want: bool) {
        let mut g = if want { c } else { self.ar.not(c) };
        let t = self.ar.boolean(true);
        for (p, b) in self.pc.clone().into_iter().rev() {
            g = if b { self.ar.ite(p, g, t) } else { self.ar.ite(p, t, g) };
        }
        self.guards.push(g);
    }

    /// Field-by-field equality obligations for two values of one type.
    pub fn pair_goals(
        &mut self,
        ty: Ty,
        a: &Blob,
        b: &Blob,
        path: &str,
        gates: &[(Id, bool)],
        out: &mut Vec<(String, Vec<(Id, bool)>, crate::nf::Goal)>,
    ) -> R<()> {
        let t = self.ti(ty)?;
        if t.size == 0 {
            return Ok(());
        }
        if let TyKind::RigidTy(RigidTy::Ref(_, p, _)) = &t.kind {
            let pt = self.ti(*p)?;
            let (pa, pb) = (self.blob_ptr(a)?, self.blob_ptr(b)?);
            let x = self.read_range(&pa, pt.size, *p)?;
            let y = self.read_range(&pb, pt.size, *p)?;
            return self.pair_goals(*p, &x, &y, path, gates, out);
        }
        if let Some(l) = leaf_of(&t.kind) {
            let x = self.scalar(a, l).map_err(|e| format!("{path}: {e}"))?;
            let y = self.scalar(b, l).map_err(|e| format!("{path}: {e}"))?;
            out.push((path.to_string(), gates.to_vec(), crate::nf::Goal::Same(x, y)));
            return Ok(());
        }
        let sub = |b: &Blob, o: i64, s: i64| {
            Blob(b.0.iter().filter(|x| x.0 >= o && x.0 < o + s).map(|x| (x.0 - o, x.1, x.2.clone())).collect())
        };
        if let VariantsShape::Multiple { .. } = &t.shape.variants {
            let (Val::T(x), Val::T(y)) = (self.variant_blob(&t, a)?, self.variant_blob(&t, b)?) else {
                return Err("odd variant index".into());
            };
            let (x, y) = (self.simplify(x), self.simplify(y));
            out.push((format!("{path}.variant"), gates.to_vec(), crate::nf::Goal::Same(x, y)));
            let TyKind::RigidTy(RigidTy::Adt(def, _)) = &t.kind else { return Err("enum".into()) };
            for v in 0..def.num_variants() {
                let vi = self.ar.usize_(v as i128);
                let cx = self.ar.cmp(COp::Eq, x, vi);
                let cy = self.ar.cmp(COp::Eq, y, vi);
                if self.ar.as_bool(cx) == Some(false) || self.ar.as_bool(cy) == Some(false) {
                    continue;
                }
                let mut g = gates.to_vec();
                for c in [cx, cy] {
                    if self.ar.as_bool(c).is_none() {
                        g.push((c, true));
                    }
                }
                let vn = def.variants()[v].name().to_string();
                for (i, (o, fty)) in self.fields(&t, v)?.into_iter().enumerate() {
                    let fs = self.ti(fty)?.size as i64;
                    let (p, q) = (sub(a, o, fs), sub(b, o, fs));
                    self.pair_goals(fty, &p, &q, &format!("{path}.{vn}.{i}"), &g, out)?;
                }
            }
            return Ok(());
        }
        for (i, (o, fty)) in self.fields(&t, 0)?.into_iter().enumerate() {
            let fs = self.ti(fty)?.size as i64;
            let (p, q) = (sub(a, o, fs), sub(b, o, fs));
            self.pair_goals(fty, &p, &q, &format!("{path}.{i}"), gates, out)?;
        }
        Ok(())
    }

    fn fork(&mut self, c: Id, go: impl Fn(&mut Self) -> R<Outcome>) -> R<Outcome> {
        self.fork2(c, |me| go(me), |me| go(me))
    }

    fn fork2(
        &mut self,
        c: Id,
        yes: impl FnOnce(&mut Self) -> R<Outcome>,
        no: impl FnOnce(&mut Self) -> R<Outcome>,
    ) -> R<Outcome> {
        if let Node::Not(x) = *self.ar.n(c) {
            return self.fork2(x, no, yes);
        }
        let saved = self.st.clone();
        self.pc.push((c, true));
        let r1 = crate::grow(|| yes(self))?;
        self.pc.pop();
        let s1 = std::mem::replace(&mut self.st, saved);
        self.pc.push((c, false));
        let r2 = crate::grow(|| no(self))?;
        self.pc.pop();
        match (r1, r2) {
            (Outcome::Diverged, Outcome::Diverged) => Ok(Outcome::Diverged),
            (Outcome::Diverged, Outcome::Reached) => {
                self.guard(c, false);
                Ok(Outcome::Reached)
            }
            (Outcome::Reached, Outcome::Diverged) => {
                self.guard(c, true);
                self.st = s1;
                Ok(Outcome::Reached)
            }
            (Outcome::Reached, Outcome::Reached) => {
                let s2 = std::mem::take(&mut self.st);
                self.st = self.merge_states(c, s1, s2);
                Ok(Outcome::Reached)
            }
        }
    }

    fn statement(&mut self, f: &Frame, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, rv) => {
                let dest = self.place(f, p)?;
                let b = self.rvalue(f, rv, dest.ty)?;
                let t = self.ti(dest.ty)?;
                self.write_range(&dest.ptr, t.size, &b)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let dest = self.place(f, place)?;
                let t = self.ti(dest.ty)?;
                let mut b = self.read_range(&dest.ptr, t.size, dest.ty)?;
                self.set_tag(&t, variant_index.to_index_(), &mut b)?;
                self.write_range(&dest.ptr, t.size, &b)
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => Ok(()),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let (src, sty) = self.operand(f, &c.src)?;
                let (dst, _) = self.operand(f, &c.dst)?;
                let (n, _) = self.op_term(f, &c.count)?;
                let pointee = match sty.kind() {
                    TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
                    _ => return Err("copy source".into()),
                };
                self.mem_copy(&src, &dst, n, pointee)
            }
            _ => Ok(()),
        }
    }

    pub fn mem_copy(&mut self, src: &Blob, dst: &Blob, n: Id, pointee: Ty) -> R<()> {
        let n = self.ar.as_int(n).ok_or("symbolic copy length")?;
        let es = self.ti(pointee)?.size;
        let sp = self.blob_ptr(src)?;
        let dp = self.blob_ptr(dst)?;
        let mut blobs = vec![];
        for i in 0..n as i64 {
            let p = self.ptr_add(&sp, i * es as i64)?;
            blobs.push(self.read_range(&p, es, pointee)?);
        }
        for (i, b) in blobs.into_iter().enumerate() {
            let p = self.ptr_add(&dp, i as i64 * es as i64)?;
            self.write_range(&p, es, &b)?;
        }
        Ok(())
    }

    pub fn inst_name(&mut self, i: Instance) -> Rc<str> {
        if let Some(n) = self.names.get(&i) {
            return n.clone();
        }
        let n: Rc<str> = i.name().into();
        self.names.insert(i, n.clone());
        n
    }

    fn call(&mut self, fb: &Blob, fty: Ty, args: Vec<(Blob, Ty)>, ret_ty: Ty, f: &Frame) -> R<Option<Blob>> {
        match fty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                let key = (def, ga);
                let inst = match self.resolve_cache.get(&key) {
                    Some(i) => *i,
                    None => {
                        let i = Instance::resolve(key.0, &key.1).map_err(|e| format!("{e:?}"))?;
                        self.resolve_cache.insert(key.clone(), i);
                        i
                    }
                };
                let caller_rc = matches!(key.0.fn_sig().skip_binder().abi, Abi::RustCall);
                let _ = f;
                self.call_inst(inst, args, ret_ty, caller_rc)
            }
            TyKind::RigidTy(RigidTy::FnPtr(sig)) => {
                let v = self.blob_ptr(fb)?;
                let rc = matches!(sig.skip_binder().abi, Abi::RustCall);
                self.call_val(&v, args, ret_ty, rc)
            }
            k => Err(format!("call of {k:?}")),
        }
    }

    fn call_val(&mut self, v: &Val, args: Vec<(Blob, Ty)>, ret_ty: Ty, rc: bool) -> R<Option<Blob>> {
        match v {
            Val::Fn(i) => {
                let mut args = args;
                if self.closure_ptrs.contains(i) {
                    // a capture-free closure called as a plain function: supply its empty environment
                    let bi = self.body_of(*i).ok_or("closure without MIR")?;
                    args.insert(0, (Blob::default(), bi.body.locals()[1].ty));
                }
                self.call_inst(*i, args, ret_ty, rc)
            }
            _ => Err("call through a value-dependent function pointer".into()),
        }
    }

    pub fn call_inst(&mut self, inst: Instance, args: Vec<(Blob, Ty)>, ret_ty: Ty, caller_rc: bool) -> R<Option<Blob>> {
        let name = self.inst_name(inst);
        if let Some(r) = crate::hooks::hook(self, inst, &name, &args, ret_ty)? {
            return Ok(r);
        }
        if let InstanceKind::Virtual { .. } = inst.kind {
            let mut args = args;
            let (conc, thin) = match args.first().map(|a| (a.0.get(0), a.0.get(8))) {
                Some((Some(p), Some((_, _, Val::Vt(t))))) => (*t, Blob::one(8, p.2.clone())),
                _ => return Err(format!("dynamic dispatch to {name}")),
            };
            let mut ga = inst.args();
            ga.0[0] = GenericArgKind::Type(conc);
            let def = FnDef(inst.def.def_id());
            let real = Instance::resolve(def, &ga).map_err(|e| format!("{e:?}"))?;
            let rty = match args[0].1.kind() {
                TyKind::RigidTy(RigidTy::Ref(r, _, m)) => Ty::new_ref(r, conc, m),
                TyKind::RigidTy(RigidTy::RawPtr(_, m)) => Ty::new_ptr(conc, m),
                _ => return Err(format!("dynamic dispatch to {name} by value")),
            };
            args[0] = (thin, rty);
            return self.call_inst(real, args, ret_ty, caller_rc);
        }
        if inst.is_empty_shim() {
            return Ok(Some(Blob::default()));
        }
        if !self.shims.is_empty() && matches!(inst.def.krate().name.as_str(), "core" | "alloc" | "std") {
            if let Some(s) = crate::hooks::shim_name(&name).and_then(|k| self.shims.get(&k)) {
                let s = *s;
                return self.call_inst(s, args, ret_ty, caller_rc);
            }
        }
        let bi = self.body_of(inst).ok_or_else(|| format!("no MIR for {name}"))?;
        self.enter(inst, &bi, args, caller_rc)
    }

    pub fn enter(&mut self, inst: Instance, bi: &Rc<BodyInfo>, args: Vec<(Blob, Ty)>, caller_rc: bool) -> R<Option<Blob>> {
        if self.depth > 300 {
            return Err("call depth exceeded (recursion?)".into());
        }
        let krate = inst.def.krate().name;
        if krate.starts_with("cglinalg") {
            if !self.reached.contains(&*bi.name) {
                self.reached.insert(bi.name.clone());
                let sp = bi.body.span;
                let l = sp.get_lines();
                self.spans.insert(format!("{}:{}:{}", sp.get_filename(), l.start_line, l.start_col));
            }
            if self.stack.iter().all(|s| s.starts_with("laws::") || s.contains("laws::")) {
                let sp = bi.body.span;
                let l = sp.get_lines();
                self.law_calls.insert(format!("{} ({}:{})", bi.name, sp.get_filename(), l.start_line));
            }
        }
        // rust-call ABI: untuple the trailing argument tuple when needed
        let mut args = args;
        let spread = bi.body.spread_arg();
        if caller_rc && spread.is_none() && bi.nargs != args.len() {
            let (tb, tt) = args.pop().ok_or("rust-call without arguments")?;
            let t = self.ti(tt)?;
            let fs = self.fields(&t, 0)?;
            for (o, fty) in fs {
                let fsz = self.ti(fty)?.size as i64;
                let b = Blob(
                    tb.0.iter().filter(|x| x.0 >= o && x.0 < o + fsz).map(|x| (x.0 - o, x.1, x.2.clone())).collect(),
                );
                args.push((b, fty));
            }
        } else if let Some(sp) = spread {
            if !caller_rc || args.len() != bi.nargs {
                // collect trailing arguments into the spread tuple
                let k = sp - 1;
                let rest = args.split_off(k);
                let tt = bi.body.locals()[sp].ty;
                let t = self.ti(tt)?;
                let fs = self.fields(&t, 0)?;
                let mut b = Blob::default();
                for ((o, _), (rb, _)) in fs.iter().zip(rest) {
                    for (ro, s, v) in rb.0 {
                        b.0.push((o + ro, s, v));
                    }
                }
                args.push((b, tt));
            }
        }
        if args.len() != bi.nargs {
            // closures called with their environment elided
            if args.len() + 1 == bi.nargs {
                args.insert(0, (Blob::default(), bi.body.locals()[1].ty));
            } else {
                return Err(format!("arity mismatch calling {} ({} vs {})", bi.name, args.len(), bi.nargs));
            }
        }
        let nlocals = bi.body.locals().len();
        let mut locals = Vec::with_capacity(nlocals);
        for _ in 0..nlocals {
            locals.push(self.new_alloc());
        }
        for (i, (b, _)) in args.iter().enumerate() {
            let lty = bi.body.locals()[i + 1].ty;
            let t = self.ti(lty)?;
            self.write_range(&Val::Ptr(locals[i + 1], 0), t.size, b)?;
        }
        let f = Frame { bi, locals };
        self.depth += 1;
        self.stack.push(bi.name.clone());
        let r = crate::grow(|| self.run(&f, 0, EXIT));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                if !e.contains(" [in ") {
                    return Err(format!("{e} [in {}]", self.stack.join(" > ")));
                }
                return Err(e);
            }
        };
        self.stack.pop();
        self.depth -= 1;
        let out = match r {
            Outcome::Diverged => None,
            Outcome::Reached => {
                let rt = bi.body.locals()[0].ty;
                let t = self.ti(rt)?;
                Some(self.read_range(&Val::Ptr(f.locals[0], 0), t.size, rt)?)
            }
        };
        for (i, l) in f.locals.iter().enumerate() {
            if self.audit {
                let size = self.ti(bi.body.locals()[i].ty)?.size;
                if self.beyond(*l, size) {
                    return Err(format!("UB: a write outside a local value [in {}]", bi.name));
                }
            }
            self.st.allocs.remove(l);
        }
        Ok(out)
    }

    pub fn record_panic(&mut self, what: &str) {
        self.panic_here(what.to_string());
    }

    /// Read a scalar through a `&T` argument.
    pub fn deref_scalar(&mut self, b: &Blob, ty: Ty) -> R<(Id, Leaf)> {
        let pointee = match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
            _ => {
                let l = leaf_of(&ty.kind()).ok_or("scalar expected")?;
                return Ok((self.scalar(b, l)?, l));
            }
        };
        let l = leaf_of(&pointee.kind()).ok_or_else(|| format!("scalar reference expected, got {ty:?}"))?;
        let p = self.blob_ptr(b)?;
        let pb = self.read_range(&p, l.size(), pointee)?;
        Ok((self.scalar(&pb, l)?, l))
    }

    pub fn ptr_of(&self, b: &Blob) -> R<Val> {
        self.blob_ptr(b)
    }
    pub fn read_at(&mut self, p: &Val, ty: Ty) -> R<Blob> {
        let t = self.ti(ty)?;
        self.read_range(p, t.size, ty)
    }
    pub fn write_at(&mut self, p: &Val, ty: Ty, b: &Blob) -> R<()> {
        let t = self.ti(ty)?;
        self.write_range(p, t.size, b)
    }
    pub fn padd(&mut self, p: &Val, d: i64) -> R<Val> {
        self.ptr_add(p, d)
    }
    pub fn pcmp(&mut self, op: BinOp, a: &Val, b: &Val) -> R<Id> {
        self.cmp_ptr(op, a, b)
    }
    pub fn pindex(&mut self, p: &Val, iv: Id, es: i64) -> R<Val> {
        self.index_ptr(p, iv, es, None)
    }

    /// Does the type have invalid bit patterns: zero (or, for uninitialised memory, any)?
    pub fn has_niche(&mut self, ty: Ty, any: bool) -> R<bool> {
        let t = self.ti(ty)?;
        if t.size == 0 {
            return Ok(false);
        }
        if let Some(l) = leaf_of(&t.kind) {
            return Ok(any || l == Leaf::Ptr);
        }
        match &t.kind {
            TyKind::RigidTy(RigidTy::Ref(..) | RigidTy::Pat(..)) => return Ok(true),
            TyKind::RigidTy(RigidTy::RawPtr(..)) => return Ok(any),
            _ => {}
        }
        if matches!(&t.shape.fields, FieldsShape::Union(_)) {
            return Ok(false);
        }
        if !matches!(&t.shape.variants, VariantsShape::Single { .. }) {
            return Ok(any);
        }
        for (_, f) in self.fields(&t, 0)? {
            if self.has_niche(f, any)? {
                return Ok(true);
            }
        }
        Ok(false)
    }

    /// Blob of zero bytes for a type (mem::zeroed).
    pub fn zero_blob(&mut self, ty: Ty, rel: i64, out: &mut Blob) -> R<()> {
        let t = self.ti(ty)?;
        if t.size == 0 {
            return Ok(());
        }
        if let Some(l) = leaf_of(&t.kind) {
            let v = match l {
                Leaf::F32 | Leaf::F64 => Val::T(self.ar.rat(0, 1)),
                Leaf::Bool => Val::T(self.ar.boolean(false)),
                Leaf::Ptr => Val::Ptr(0, 0),
                _ => Val::T(self.ar.int(0, l.sort())),
            };
            out.0.push((rel, l.size(), v));
            return Ok(());
        }
        match &t.kind {
            TyKind::RigidTy(RigidTy::Ref(..) | RigidTy::RawPtr(..)) => {
                out.0.push((rel, 8, Val::Ptr(0, 0)));
                return Ok(());
            }
            TyKind::RigidTy(RigidTy::Pat(inner, _)) => return self.zero_blob(*inner, rel, out),
            _ => {}
        }
        let variant = match &t.shape.variants {
            VariantsShape::Single { index } => index.to_index_(),
            VariantsShape::Multiple { .. } => {
                let (off, l) = self.tag_pos(&t)?;
                let v = if l == Leaf::Ptr { Val::Ptr(0, 0) } else { Val::T(self.ar.int(0, l.sort())) };
                out.0.push((rel + off, l.size(), v));
                return Ok(());
            }
            VariantsShape::Empty => return Ok(()),
        };
        let fs = self.fields(&t, variant)?;
        if matches!(&t.shape.fields, FieldsShape::Union(_)) {
            let mut best: Option<(i64, Ty, u32)> = None;
            for (o, f) in fs {
                let s = self.ti(f)?.size;
                if best.as_ref().map_or(true, |b| s > b.2) {
                    best = Some((o, f, s));
                }
            }
            if let Some((o, f, _)) = best {
                self.zero_blob(f, rel + o, out)?;
            }
            return Ok(());
        }
        for (o, f) in fs {
            self.zero_blob(f, rel + o, out)?;
        }
        Ok(())
    }

    // ---- law inputs ----------------------------------------------------

    /// Fresh symbolic value of a type. Wrapper types of the laws crate carry
    /// assumptions: `Pos` (> 0), `NonZero` (!= 0), `UVec2/3/4` (unit length).
    pub fn symbolize(&mut self, ty: Ty, name: &str, rel: i64, out: &mut Blob) -> R<()> {
        let t = self.ti(ty)?;
        if t.size == 0 {
            return Ok(());
        }
        if let Some(l) = leaf_of(&t.kind) {
            if l == Leaf::Ptr {
                return Err("symbolic function pointer".into());
            }
            let id = self.ar.sym(name.to_string(), l.sort());
            if l.sort() == Sort::Real && l.size() == 8 {
                self.wide.insert(id);
            }
            out.0.push((rel, l.size(), Val::T(id)));
            return Ok(());
        }
        if let VariantsShape::Multiple { .. } = &t.shape.variants {
            return Err(format!("symbolic enum input {ty:?}"));
        }
        let before = out.0.len();
        let fnames: Vec<String> = match &t.kind {
            TyKind::RigidTy(RigidTy::Adt(def, _)) => def.variants()[0].fields().iter().map(|f| f.name.to_string()).collect(),
            _ => vec![],
        };
        let fs = self.fields(&t, 0)?;
        let single = fs.len() == 1;
        for (i, (o, fty)) in fs.into_iter().enumerate() {
            let fname = if single {
                name.to_string()
            } else {
                match fnames.get(i) {
                    Some(n) => format!("{name}.{n}"),
                    None => format!("{name}[{i}]"),
                }
            };
            self.symbolize(fty, &fname, rel + o, out)?;
        }
        if let TyKind::RigidTy(RigidTy::Adt(def, _)) = &t.kind {
            let dn = def.trimmed_name();
            let mut ids = vec![];
            for x in &out.0[before..] {
                if let Val::T(i) = x.2 {
                    ids.push(i);
                }
            }
            match &*dn {
                "Pos" => {
                    for i in ids {
                        let z = self.ar.rat(0, 1);
                        let c = self.ar.cmp(COp::Lt, z, i);
                        self.facts.push((c, true));
                    }
                }
                "NonZero" => {
                    for i in ids {
                        let z = self.ar.rat(0, 1);
                        let c = self.ar.cmp(COp::Eq, i, z);
                        self.facts.push((c, false));
                    }
                }
                "UVec2" | "UVec3" | "UVec4" => self.units.push(ids),
                _ => {}
            }
        }
        Ok(())
    }
}

fn elem_ty(k: &TyKind) -> Option<Ty> {
    match k {
        TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => Some(*t),
        _ => None,
    }
}

fn assert_name(m: &AssertMessage) -> &'static str {
    match m {
        AssertMessage::BoundsCheck { .. } => "bounds check",
        AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "overflow check",
        AssertMessage::DivisionByZero(_) => "division by zero",
        AssertMessage::RemainderByZero(_) => "remainder by zero",
        _ => "runtime check",
    }
}

pub fn index_of(i: &VariantIdx) -> usize {
    i.to_index_()
}
pub fn vidx(i: usize) -> VariantIdx {
    use rustc_public_bridge::IndexedVal;
    VariantIdx::to_val(i)
}

pub trait ToIdx {
    fn to_index_(&self) -> usize;
}
impl ToIdx for VariantIdx {
    fn to_index_(&self) -> usize {
        use rustc_public_bridge::IndexedVal;
        self.to_index()
    }
}

fn int_bits(l: rustc_public::abi::IntegerLength) -> u16 {
    l.bits() as u16
}

/// Immediate post-dominators over the normal (non-unwind) edges that can reach
/// a return. Blocks that cannot return keep `EXIT`.
fn postdoms(b: &Body) -> Vec<usize> {
    let n = b.blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, blk) in b.blocks.iter().enumerate() {
        succ[i] = match &blk.terminator.kind {
            TerminatorKind::Goto { target } => vec![*target],
            TerminatorKind::SwitchInt { targets, .. } => {
                let mut v = targets.all_targets();
                v.sort();
                v.dedup();
                v
            }
            TerminatorKind::Return => vec![n],
            TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
            TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
            _ => vec![],
        };
    }
    // which blocks reach exit
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        for &s in &succ[i] {
            pred[s].push(i);
        }
    }
    // reverse post order on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((x, k)) = stack.pop() {
        if k < pred[x].len() {
            stack.push((x, k + 1));
            let y = pred[x][k];
            if !seen[y] {
                seen[y] = true;
                stack.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, x) in order.iter().enumerate() {
        num[*x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().skip(1) {
            let mut new = usize::MAX;
            for &s in &succ[x] {
                if !seen[s] || idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut c) = (new, s);
                    while a != c {
                        while num[a] > num[c] {
                            a = idom[a];
                        }
                        while num[c] > num[a] {
                            c = idom[c];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == n { EXIT } else { idom[i] }).collect()
}
