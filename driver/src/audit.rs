//! Soundness of the functions that contain unsafe operations. Each such function is
//! interpreted at every instantiation of its generic parameters (within the probes
//! below) that its bounds admit, on arguments that own exactly the memory their types
//! say, and every access, every result and every argument left behind must stay inside it.
use crate::interp::{leaf_of, Blob, Interp, Val, R};
use crate::{esc, list};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{Body, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArg, Ty, TyCtxt};
use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::Mutability;
use rustc_public::ty::{RigidTy, TyKind};
use rustc_public::rustc_internal as internal;
use rustc_span::def_id::{DefId, LocalDefId};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

struct Ops {
    sites: Vec<String>,
    calls: Vec<DefId>,
}

fn place_ops<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>, out: &mut Vec<&'static str>) {
    let mut t = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
    for e in p.projection {
        match e {
            ProjectionElem::Deref if t.ty.is_raw_ptr() => out.push("raw pointer dereference"),
            ProjectionElem::Field(..) if t.ty.is_union() => out.push("union field access"),
            _ => {}
        }
        t = t.projection_ty(tcx, e);
    }
}

fn ops<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Ops {
    let mut o = Ops { sites: vec![], calls: vec![] };
    if !tcx.is_mir_available(d) {
        return o;
    }
    let body = tcx.instance_mir(ty::InstanceKind::Item(d));
    let at = |sp| tcx.sess.source_map().span_to_diagnostic_string(sp);
    for b in body.basic_blocks.iter() {
        for s in &b.statements {
            if let StatementKind::Assign(bx) = &s.kind {
                let mut w = vec![];
                place_ops(tcx, body, &bx.0, &mut w);
                let mut op = |x: &Operand<'tcx>, w: &mut Vec<_>| {
                    if let Operand::Copy(p) | Operand::Move(p) = x {
                        place_ops(tcx, body, p, w)
                    }
                };
                match &bx.1 {
                    Rvalue::Cast(rustc_middle::mir::CastKind::Transmute, x, _) => {
                        op(x, &mut w);
                        w.push("transmute");
                    }
                    Rvalue::Use(x, ..) | Rvalue::Repeat(x, _) | Rvalue::Cast(_, x, _) | Rvalue::UnaryOp(_, x) => op(x, &mut w),
                    Rvalue::BinaryOp(_, x) => {
                        op(&x.0, &mut w);
                        op(&x.1, &mut w);
                    }
                    Rvalue::Aggregate(_, xs) => xs.iter().for_each(|x| op(x, &mut w)),
                    Rvalue::Ref(_, _, p) | Rvalue::Discriminant(p) => place_ops(tcx, body, p, &mut w),
                    _ => {}
                }
                for k in w {
                    o.sites.push(format!("{k} at {}", at(s.source_info.span)));
                }
            }
        }
        if let TerminatorKind::Call { func, args, .. } | TerminatorKind::TailCall { func, args, .. } = &b.terminator().kind {
            let mut w = vec![];
            for a in args.iter() {
                if let Operand::Copy(p) | Operand::Move(p) = &a.node {
                    place_ops(tcx, body, p, &mut w)
                }
            }
            for k in w {
                o.sites.push(format!("{k} at {}", at(b.terminator().source_info.span)));
            }
            let t = func.ty(&body.local_decls, tcx);
            if let ty::FnDef(c, _) = t.kind() {
                o.calls.push(*c);
            }
            if t.is_fn() && t.fn_sig(tcx).safety().is_unsafe() {
                let n = match t.kind() {
                    ty::FnDef(c, _) => tcx.def_path_str(*c),
                    _ => "a function pointer".into(),
                };
                if n.contains("fmt::Arguments") || n.contains("fmt::rt") {
                    continue; // what format_args! expands to
                }
                o.sites.push(format!("call of unsafe {n} at {}", at(b.terminator().source_info.span)));
            }
        }
        if let TerminatorKind::InlineAsm { .. } = &b.terminator().kind {
            o.sites.push(format!("inline assembly at {}", at(b.terminator().source_info.span)));
        }
    }
    o
}

/// Choices made while building arguments: an odometer over small numbers.
#[derive(Default)]
struct Choice {
    at: usize,
    v: Vec<(usize, usize)>,
}

impl Choice {
    fn pick(&mut self, n: usize) -> usize {
        if self.at == self.v.len() {
            self.v.push((0, n));
        }
        self.at += 1;
        self.v[self.at - 1].0
    }
    fn next(&mut self) -> bool {
        self.at = 0;
        while let Some((i, n)) = self.v.pop() {
            if i + 1 < n {
                self.v.push((i + 1, n));
                return true;
            }
        }
        false
    }
}

const NUMBERS: [i128; 7] = [0, 1, 2, 3, 4, 5, u64::MAX as i128];

struct Arg {
    alloc: u32,
    ty: rustc_public::ty::Ty,
    input: usize,
    size: u32,
}

struct Run<'a> {
    /// every index, or the first only
    all: bool,
    /// integers that are not the scalar type take small values
    /// the scalar types among whole numbers; other whole numbers are enumerated
    ints: Option<Vec<rustc_public::ty::Ty>>,
    /// this floating-point component (or every one) is not a number
    nan: Option<usize>,
    floats: usize,
    it: &'a mut Interp,
    ch: &'a mut Choice,
    args: Vec<Arg>,
}

impl Run<'_> {
    fn build(&mut self, ty: rustc_public::ty::Ty, name: &str, input: usize, rel: i64, out: &mut Blob) -> R<()> {
        let t = self.it.ti(ty)?;
        if t.size == 0 {
            return Ok(());
        }
        if let TyKind::RigidTy(RigidTy::Uint(rustc_public::ty::UintTy::Usize)) = &t.kind {
            let k = if self.all { NUMBERS[self.ch.pick(NUMBERS.len())] } else { 0 };
            let id = self.it.ar.usize_(k);
            out.0.push((rel, 8, Val::T(id)));
            return Ok(());
        }
        if let Some(l) = leaf_of(&t.kind) {
            if matches!(l, crate::interp::Leaf::F32 | crate::interp::Leaf::F64) {
                self.floats += 1;
                if self.nan.map_or(false, |k| k == usize::MAX || k + 1 == self.floats) {
                    let id = self.it.ar.mk(crate::term::Node::NaN);
                    out.0.push((rel, l.size(), Val::T(id)));
                    return Ok(());
                }
            }
            if self.ints.as_ref().map_or(false, |own| !own.contains(&ty)) && matches!(&t.kind, TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_))) {
                let signed = matches!(&t.kind, TyKind::RigidTy(RigidTy::Int(_)));
                let k = self.ch.pick(if signed { 13 } else { 8 });
                let id = self.it.ar.int([0, 1, 2, 3, 4, 5, 7, 8, -1, -2, -3, -4, -7][k], l.sort());
                out.0.push((rel, l.size(), Val::T(id)));
                return Ok(());
            }
            return self.it.symbolize(ty, name, rel, out);
        }
        match &t.kind {
            TyKind::RigidTy(RigidTy::Pat(inner, _)) => return self.build(*inner, name, input, rel, out),
            TyKind::RigidTy(RigidTy::RawPtr(..)) => {
                out.0.push((rel, 8, Val::Ptr(u32::MAX >> 3, 0)));
                if t.size > 8 {
                    out.0.push((rel + 8, 8, Val::Opaque));
                }
                return Ok(());
            }
            TyKind::RigidTy(RigidTy::Ref(_, p, m)) => {
                let a = self.it.fresh_alloc();
                let mut b = Blob::default();
                let size = match p.kind() {
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let es = self.it.ti(e)?.size as i64;
                        let n = self.ch.pick(6);
                        for i in 0..n {
                            self.build(e, &format!("{name}[{i}]"), input, i as i64 * es, &mut b)?;
                        }
                        let len = self.it.ar.usize_(n as i128);
                        out.0.push((rel + 8, 8, Val::T(len)));
                        (n as i64 * es) as u32
                    }
                    _ => {
                        if t.size > 8 {
                            return Err(format!("an argument of type {ty}"));
                        }
                        self.build(*p, name, input, 0, &mut b)?;
                        self.it.ti(*p)?.size
                    }
                };
                let ps = Val::Ptr(a, 0);
                if !b.0.is_empty() {
                    self.it.put(&ps, size, &b)?;
                }
                if *m == Mutability::Not {
                    self.it.frozen.insert(a);
                }
                self.args.push(Arg { alloc: a, ty: *p, input, size });
                out.0.push((rel, 8, ps));
                return Ok(());
            }
            _ => {}
        }
        if matches!(&t.shape.fields, FieldsShape::Union(_)) {
            return Ok(());
        }
        if let VariantsShape::Multiple { .. } = &t.shape.variants {
            return Err(format!("an argument of type {ty}"));
        }
        for (i, (o, f)) in self.it.fields(&t, 0)?.into_iter().enumerate() {
            self.build(f, &format!("{name}.{i}"), input, rel + o, out)?;
        }
        Ok(())
    }

    /// Every scalar of `ty` is there, every reference points into memory that is.
    fn check(&mut self, ty: rustc_public::ty::Ty, b: &Blob, rel: i64, depth: u32, owners: &mut BTreeSet<usize>) -> R<()> {
        let t = self.it.ti(ty)?;
        if t.size == 0 || depth > 6 {
            return Ok(());
        }
        let at = |o: i64, n: u32| b.0.iter().find(|x| x.0 == o && x.1 == n).map(|x| x.2.clone());
        if let Some(l) = leaf_of(&t.kind) {
            let Some(v) = at(rel, l.size()) else {
                return Err(format!("UB: the {} at byte {rel} is not initialised memory of the value it is read from", show(ty)));
            };
            if l == crate::interp::Leaf::Ptr && matches!(v, Val::Ptr(0, 0)) {
                return Err("UB: a null function pointer".into());
            }
            return Ok(());
        }
        match &t.kind {
            TyKind::RigidTy(RigidTy::Pat(inner, _)) => {
                self.check(*inner, b, rel, depth, owners)?;
                let s = self.it.ti(*inner)?.size;
                if let Some(Val::T(i)) = at(rel, s) {
                    if self.it.ar.as_int(i) == Some(0) {
                        return Err(format!("UB: the invalid value zero of {}", show(ty)));
                    }
                }
                return Ok(());
            }
            TyKind::RigidTy(RigidTy::RawPtr(..)) => return Ok(()),
            TyKind::RigidTy(RigidTy::Ref(_, p, m)) => {
                let Some(v) = at(rel, 8) else { return Err("UB: an uninitialised reference".into()) };
                let meta = at(rel + 8, 8);
                return self.check_ref(&v, meta, *p, *m == Mutability::Mut, depth, owners);
            }
            _ => {}
        }
        if matches!(&t.shape.fields, FieldsShape::Union(_)) {
            return Ok(());
        }
        let variant = match &t.shape.variants {
            VariantsShape::Single { index } => rustc_index(index),
            VariantsShape::Multiple { .. } => {
                let size = t.size as i64;
                let part = Blob(b.0.iter().filter(|x| x.0 >= rel && x.0 < rel + size).map(|x| (x.0 - rel, x.1, x.2.clone())).collect());
                match self.it.variant_blob(&t, &part) {
                    Ok(Val::T(i)) => match self.it.ar.as_int(i) {
                        Some(k) => k as usize,
                        None => return Ok(()),
                    },
                    _ => return Ok(()),
                }
            }
            VariantsShape::Empty => return Ok(()),
        };
        for (o, f) in self.it.fields(&t, variant)? {
            self.check(f, b, rel + o, depth, owners)?;
        }
        Ok(())
    }

    fn check_ref(&mut self, v: &Val, meta: Option<Val>, p: rustc_public::ty::Ty, mutable: bool, depth: u32, owners: &mut BTreeSet<usize>) -> R<()> {
        match v {
            Val::Ite(_, x, y) => {
                self.check_ref(x, meta.clone(), p, mutable, depth, owners)?;
                self.check_ref(y, meta, p, mutable, depth, owners)
            }
            Val::Ptr(a, off) => {
                let (elem, n) = match p.kind() {
                    TyKind::RigidTy(RigidTy::Slice(e)) => match meta {
                        Some(Val::T(i)) => match self.it.ar.as_int(i) {
                            Some(k) => (e, k as i64),
                            None => return Err("a slice of unknown length".into()),
                        },
                        _ => return Err("a slice of unknown length".into()),
                    },
                    TyKind::RigidTy(RigidTy::Str | RigidTy::Dynamic(..)) => return Ok(()),
                    _ => (p, 1),
                };
                let t = self.it.ti(elem)?;
                let size = t.size as i64;
                let total = size.checked_mul(n).filter(|x| *x >= 0 && *x < 1 << 20).ok_or("UB: a slice longer than its memory")?;
                if Interp::is_const(*a) {
                    return if mutable && total > 0 { Err("UB: a mutable reference to constant memory".into()) } else { Ok(()) };
                }
                if !self.it.alive(*a) {
                    return if total == 0 { Ok(()) } else { Err(format!("UB: a dangling reference to {}", show(p))) };
                }
                if let Some(g) = self.args.iter().find(|g| g.alloc == *a) {
                    owners.insert(g.input);
                    if total > 0 {
                        let have = match g.ty.kind() {
                            TyKind::RigidTy(RigidTy::Slice(e)) => e,
                            _ => g.ty,
                        };
                        let (at, size) = (self.it.ti(have)?.shape.abi_align, g.size as i64);
                        if *off < 0 || off + total > size {
                            return Err(format!("UB: a reference to {} bytes ({}) at byte {off} of {} bytes ({})", total, show(p), size, show(g.ty)));
                        }
                        if t.shape.abi_align > at || *off as u64 % t.shape.abi_align as u64 != 0 {
                            return Err(format!("UB: a reference to {} (alignment {}) at byte {off} of {} (alignment {at})", show(p), t.shape.abi_align, show(g.ty)));
                        }
                    }
                }
                if mutable && total > 0 && self.it.frozen.contains(a) {
                    return Err("UB: a mutable reference made from a shared one".into());
                }
                if total == 0 {
                    return Ok(());
                }
                for k in 0..n {
                    let q = Val::Ptr(*a, off + k * size);
                    let b = self.it.read_at(&q, elem).or_else(|_| self.it.peek(&q, size as u32))?;
                    self.check(elem, &b, 0, depth + 1, owners)?;
                }
                Ok(())
            }
            Val::Opaque => Ok(()),
            _ => Err("a reference of unknown origin".into()),
        }
    }
}

fn show(t: rustc_public::ty::Ty) -> String {
    format!("{t}")
}

fn rustc_index(i: &rustc_public::ty::VariantIdx) -> usize {
    crate::interp::index_of(i)
}

fn region<'tcx>(t: Ty<'tcx>) -> Option<ty::Region<'tcx>> {
    match t.kind() {
        ty::Ref(r, ..) => Some(*r),
        _ => None,
    }
}

fn key(d: LocalDefId) -> u32 {
    d.local_def_index.as_u32()
}

fn unkey(k: u32) -> LocalDefId {
    LocalDefId { local_def_index: rustc_span::def_id::DefIndex::from_u32(k) }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut out = String::new();
    let ev = tcx.effective_visibilities(());
    let mut found: BTreeMap<u32, Ops> = BTreeMap::new();
    let mut nbodies = 0;
    for o in tcx.hir_body_owners() {
        if !matches!(tcx.def_kind(o), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        nbodies += 1;
        let root = key(tcx.typeck_root_def_id(o.to_def_id()).expect_local());
        let x = ops(tcx, o.to_def_id());
        let e = found.entry(root).or_insert(Ops { sites: vec![], calls: vec![] });
        e.sites.extend(x.sites);
        e.calls.extend(x.calls);
    }
    let unsafe_fn = |d: LocalDefId| tcx.fn_sig(d).skip_binder().safety().is_unsafe();
    let open = |d: LocalDefId| {
        let p = tcx.opt_parent(d.to_def_id());
        ev.is_reachable(d) || p.map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true } | DefKind::Trait))
    };
    // private safe functions answer for their unsafe operations through their callers
    let mut roots: BTreeMap<u32, Vec<String>> = BTreeMap::new();
    let mut todo: Vec<(LocalDefId, Vec<String>)> = found.iter().filter(|x| !x.1.sites.is_empty()).map(|x| (unkey(*x.0), x.1.sites.clone())).collect();
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let nsites: usize = todo.iter().map(|x| x.1.len()).sum();
    let nfns = todo.len();
    while let Some((d, sites)) = todo.pop() {
        if unsafe_fn(d) {
            continue;
        }
        if open(d) {
            roots.entry(key(d)).or_default().extend(sites);
        } else if seen.insert(key(d)) {
            for (c, o) in &found {
                if o.calls.contains(&d.to_def_id()) {
                    todo.push((unkey(*c), sites.clone()));
                }
            }
        }
    }
    let _ = writeln!(out, "{{\"k\":\"summary\",\"bodies\":{nbodies},\"unsafe_functions\":{nfns},\"unsafe_operations\":{nsites},\"roots\":{}}}", roots.len());
    for (d, sites) in roots {
        out.push_str(&root(tcx, unkey(d), sites));
    }
    out
}

fn root(tcx: TyCtxt<'_>, d: LocalDefId, sites: Vec<String>) -> String {
    let id = d.to_def_id();
    let gens = tcx.generics_of(id);
    let mut cands: Vec<Vec<GenericArg<'_>>> = vec![];
    let nz = tcx.get_diagnostic_item(rustc_span::sym::NonZero).map(|n| Ty::new_adt(tcx, tcx.adt_def(n), tcx.mk_args(&[tcx.types.u32.into()])));
    let mut probes: Vec<Ty<'_>> = vec![tcx.types.u8, tcx.types.f64];
    probes.extend(nz);
    let (mut viol, mut open): (BTreeSet<String>, BTreeSet<String>) = Default::default();
    let nconst = (0..gens.count()).filter(|i| matches!(gens.param_at(*i, tcx).kind, ty::GenericParamDefKind::Const { .. })).count();
    let dims: &[u64] = if nconst >= 3 { &[0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16] } else { &[0, 1, 2, 3, 4, 5, 6] };
    for i in 0..gens.count() {
        let p = gens.param_at(i, tcx);
        cands.push(match p.kind {
            ty::GenericParamDefKind::Lifetime => vec![tcx.lifetimes.re_erased.into()],
            ty::GenericParamDefKind::Type { .. } => {
                let mut v: Vec<GenericArg<'_>> = probes.iter().map(|t| (*t).into()).collect();
                for f in crate::audit::functions(tcx, id, i, &probes) {
                    v.push(f.into());
                }
                v
            }
            ty::GenericParamDefKind::Const { .. } => {
                let t = tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip();
                if t == tcx.types.usize {
                    dims.iter().map(|n| ty::Const::from_target_usize(tcx, *n).into()).collect()
                } else if t == tcx.types.bool {
                    [false, true].iter().map(|b| ty::Const::from_bool(tcx, *b).into()).collect()
                } else {
                    open.insert(format!("a constant parameter of type {t}"));
                    vec![]
                }
            }
        });
    }
    let sig = tcx.liberate_late_bound_regions(id, tcx.fn_sig(id).instantiate_identity().skip_norm_wip());
    let out_region = region(sig.output());
    let in_regions: Vec<_> = sig.inputs().iter().map(|t| region(*t)).collect();
    let (mut ninst, mut nruns, mut ntry) = (0u32, 0u32, 0u64);
    let mut idx = vec![0usize; cands.len()];
    let mut it = Interp::new();
    it.audit = true;
    'all: loop {
        if cands.iter().any(|c| c.is_empty()) || ntry > 60_000 {
            break;
        }
        ntry += 1;
        let args = tcx.mk_args(&idx.iter().zip(&cands).map(|(i, c)| c[*i]).collect::<Vec<_>>());
        if !tcx.instantiate_and_check_impossible_clauses((id, args)) {
            ninst += 1;
            let inst: Instance = internal::stable(ty::Instance::new_raw(id, args));
            let mut ch = Choice::default();
            let mut n = 0;
            loop {
                nruns += 1;
                n += 1;
                let what = format!("<{}>", args.iter().filter(|a| a.as_region().is_none()).map(|a| format!("{a}")).collect::<Vec<_>>().join(", "));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| once(&mut it, &mut ch, inst)));
                match r.unwrap_or_else(|_| Err("the analyser failed on this construct".into())) {
                    Ok(owners) => {
                        for o in owners {
                            let (Some(Some(i)), Some(r)) = (in_regions.get(o), out_region) else { continue };
                            if *i != r && !outlives(tcx, id, *i, r) {
                                viol.insert(format!("the reference returned lives for {r} but points into an argument borrowed for {i}"));
                            }
                        }
                    }
                    Err(e) if e.contains("UB: ") => {
                        let e = e.split(" [in ").next().unwrap_or("").replace("UB: ", "");
                        viol.insert(format!("at {what}: {e}"));
                    }
                    Err(e) => {
                        open.insert(format!("at {what}: {e}"));
                    }
                }
                if viol.len() >= 4 {
                    break 'all;
                }
                if n >= 400 || open.len() >= 40 || !ch.next() {
                    break;
                }
            }
        }
        let mut k = 0;
        while k < idx.len() {
            idx[k] += 1;
            if idx[k] < cands[k].len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == idx.len() {
            break;
        }
    }
    let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(id));
    format!(
        "{{\"k\":\"root\",\"path\":{},\"loc\":{},\"sites\":{},\"instances\":{ninst},\"runs\":{nruns},\"violations\":{},\"undecided\":{}}}\n",
        esc(&tcx.def_path_str(id)),
        esc(&sp),
        list(&sites),
        list(&viol),
        list(&open)
    )
}

/// Function items that can stand for a parameter bounded by one of the Fn traits.
pub fn functions<'tcx>(tcx: TyCtxt<'tcx>, id: DefId, index: usize, probes: &[Ty<'tcx>]) -> Vec<Ty<'tcx>> {
    let mut fnlike = false;
    for p in tcx.param_env(id).caller_bounds() {
        if let ty::ClauseKind::Trait(t) = p.kind().skip_binder() {
            if tcx.fn_trait_kind_from_def_id(t.def_id()).is_some() {
                if let ty::Param(q) = t.self_ty().kind() {
                    fnlike |= q.index as usize == index;
                }
            }
        }
    }
    let Some(f) = (if fnlike { identity(tcx) } else { None }) else { return vec![] };
    probes.iter().map(|t| Ty::new_fn_def(tcx, f, ty::Binder::dummy([GenericArg::from(*t)]))).collect()
}

/// core::convert::identity
fn identity(tcx: TyCtxt<'_>) -> Option<DefId> {
    let core = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "core")?.as_def_id();
    let m = tcx.module_children(core).iter().find(|c| c.ident.as_str() == "convert" && c.res.mod_def_id().is_some())?.res.mod_def_id()?;
    tcx.module_children(m).iter().find(|c| c.ident.as_str() == "identity")?.res.opt_def_id()
}

fn outlives<'tcx>(tcx: TyCtxt<'tcx>, id: DefId, long: ty::Region<'tcx>, short: ty::Region<'tcx>) -> bool {
    if long.is_static() {
        return true;
    }
    tcx.param_env(id).caller_bounds().any(|c| match c.kind().skip_binder() {
        ty::ClauseKind::RegionOutlives(o) => o.0 == long && o.1 == short,
        _ => false,
    })
}

fn once(it: &mut Interp, ch: &mut Choice, inst: Instance) -> R<BTreeSet<usize>> {
    it.reset(2_000_000);
    it.frozen.clear();
    ch.at = 0;
    let body = inst.body().ok_or("no body")?;
    let mut r = Run { all: true, ints: None, nan: None, floats: 0, it, ch, args: vec![] };
    let mut args = vec![];
    for (i, l) in body.arg_locals().iter().enumerate() {
        let mut b = Blob::default();
        r.build(l.ty, &format!("a{i}"), i, 0, &mut b)?;
        args.push((b, l.ty));
    }
    let rt = body.ret_local().ty;
    let res = r.it.call_inst(inst, args, rt, false)?;
    let mut owners = BTreeSet::new();
    if let Some(b) = res {
        r.check(rt, &b, 0, 0, &mut owners)?;
    }
    let left: Vec<(u32, rustc_public::ty::Ty, u32)> = r.args.iter().map(|g| (g.alloc, g.ty, g.size)).collect();
    for (a, t, size) in left {
        if r.it.beyond(a, size) {
            return Err(format!("UB: a write outside the {size} bytes of {}", show(t)));
        }
        if let (false, true) = (matches!(t.kind(), TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..))), r.it.alive(a)) {
            let b = r.it.peek(&Val::Ptr(a, 0), size)?;
            r.check(t, &b, 0, 0, &mut BTreeSet::new()).map_err(|e| format!("{e} (left behind in an argument)"))?;
        }
    }
    Ok(owners)
}

/// The library's type of that name over doubles, with the given dimension.
fn library<'tcx>(tcx: TyCtxt<'tcx>, krate: &str, name: &str, dim: Option<u64>) -> Option<Ty<'tcx>> {
    let k = if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == krate {
        rustc_span::def_id::LOCAL_CRATE
    } else {
        *tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == krate)?
    };
    let id = if k == rustc_span::def_id::LOCAL_CRATE {
        tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).find(|d| matches!(tcx.def_kind(*d), DefKind::Struct) && tcx.item_name(*d).as_str() == name)?
    } else {
        tcx.module_children(k.as_def_id()).iter().find(|c| c.ident.as_str() == name && matches!(c.res.opt_def_id().map(|d| tcx.def_kind(d)), Some(DefKind::Struct)))?.res.opt_def_id()?
    };
    if tcx.generics_of(id).count() == 0 {
        return Some(Ty::new_adt(tcx, tcx.adt_def(id), ty::List::empty()));
    }
    let mut a: Vec<GenericArg<'tcx>> = vec![tcx.types.f64.into()];
    for d in dim {
        a.push(ty::Const::from_target_usize(tcx, d).into());
    }
    if tcx.generics_of(id).count() != a.len() {
        return None;
    }
    Some(Ty::new_adt(tcx, tcx.adt_def(id), tcx.mk_args(&a)))
}

/// Every exported safe function, at scalar and library types and small dimensions: the panics it can reach.
pub fn total(tcx: TyCtxt<'_>) -> (String, Vec<crate::Job>) {
    let ev = tcx.effective_visibilities(());
    let mut text = String::new();
    let mut jobs = vec![];
    let mut scalars = vec![tcx.types.f64, tcx.types.i32];
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        scalars.extend([tcx.types.f32, tcx.types.u8, tcx.types.i128]);
    }
    let mut wide = scalars.clone();
    for (k, n, d) in [
        ("cglinalg_trigonometry", "Radians", None),
        ("cglinalg_trigonometry", "Degrees", None),
        ("cglinalg_core", "Vector", Some(3)),
        ("cglinalg_core", "Vector", Some(2)),
        ("cglinalg_core", "Quaternion", None),
        ("cglinalg_core", "Complex", None),
        ("cglinalg_core", "L1Norm", None),
        ("cglinalg_core", "L2Norm", None),
        ("cglinalg_core", "LpNorm", None),
        ("cglinalg_core", "LinfNorm", None),
    ] {
        wide.extend(library(tcx, k, n, d));
    }
    let mut it = Interp::new();
    for o in tcx.hir_body_owners() {
        let id = o.to_def_id();
        if !matches!(tcx.def_kind(o), DefKind::Fn | DefKind::AssocFn) || tcx.fn_sig(o).skip_binder().safety().is_unsafe() {
            continue;
        }
        let p = tcx.opt_parent(id);
        let of_trait = p.map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true } | DefKind::Trait));
        if !(ev.is_reachable(o) || of_trait) {
            continue;
        }
        let path = tcx.def_path_str(id);
        let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(id));
        let (mut n, mut runs, mut open) = (0u32, 0u32, BTreeSet::new());
        for probes in [&scalars, &wide] {
            each(tcx, id, probes, &[1, 2, 3, 4], |args| {
                n += 1;
                let inst: Instance = internal::stable(ty::Instance::new_raw(id, args));
                let what = args.iter().filter(|a| a.as_region().is_none()).map(|a| format!("{a}")).collect::<Vec<_>>().join(", ");
                // a whole number that is not the scalar type, such as an exponent, is tried at small values
                let own: Option<Vec<rustc_public::ty::Ty>> = args.types().next().is_some().then(|| args.types().filter(|t| t.is_integral()).map(|t| internal::stable(t)).collect());
                // first with unknown numbers, then with the components that are not numbers: all, then the outer ones of each argument
                let mut plan: Vec<Option<usize>> = vec![None];
                let mut k = 0;
                while k < plan.len() {
                    let nan = plan[k];
                    k += 1;
                    let mut ch = Choice::default();
                    for _ in 0..50 {
                        runs += 1;
                        let mut floats = vec![];
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| free(&mut it, &mut ch, inst, own.clone(), nan, &mut floats)));
                        match r.unwrap_or_else(|_| Err("the analyser failed on this construct".into())) {
                            Err(e) => {
                                open.insert(format!("at <{what}>{}: {e}", if nan.is_some() { " not a number" } else { "" }));
                            }
                            Ok(()) if it.panics.is_empty() => {}
                            Ok(()) => jobs.push(job(&mut it, format!("{path} at <{what}>{}", if nan.is_some() { " with an argument that is not a number" } else { "" }), sp.clone())),
                        }
                        if plan.len() == 1 {
                            let mut ks = BTreeSet::new();
                            let mut from = 0;
                            for f in floats {
                                if f > from {
                                    ks.extend([from, f - 1]);
                                }
                                from = f;
                            }
                            plan.extend(if from > 1 { Some(Some(usize::MAX)) } else { None });
                            plan.extend(ks.into_iter().map(Some));
                        }
                        if !ch.next() {
                            break;
                        }
                    }
                }
            });
            if n > 0 {
                break;
            }
        }
        let _ = writeln!(text, "{{\"k\":\"fn\",\"path\":{},\"loc\":{},\"instances\":{n},\"runs\":{runs},\"undecided\":{}}}", esc(&path), esc(&sp), list(&open));
    }
    (text, jobs)
}

fn job(it: &mut Interp, law: String, loc: String) -> crate::Job {
    use crate::nf::{Cond, Goal};
    let f = it.ar.boolean(false);
    let base = it.facts.iter().map(|(t, b)| Cond::Term(*t, *b)).collect();
    let obs = it
        .panics
        .iter()
        .map(|p| {
            let mut asm: Vec<Cond> = it.guards[..p.nguards].iter().map(|g| Cond::Term(*g, true)).collect();
            asm.extend(p.pc.iter().map(|(t, b)| Cond::Term(*t, *b)));
            crate::Ob { path: format!("{} via {}", p.what, p.path), asm, goal: Goal::True(f), group: u32::MAX }
        })
        .collect();
    crate::Job { law, loc, ar: std::mem::take(&mut it.ar), units: vec![], base, obs, calls: BTreeSet::new(), reached: BTreeSet::new(), error: None, want: BTreeSet::new() }
}

fn free(it: &mut Interp, ch: &mut Choice, inst: Instance, ints: Option<Vec<rustc_public::ty::Ty>>, nan: Option<usize>, floats: &mut Vec<usize>) -> R<()> {
    it.reset(400_000);
    it.frozen.clear();
    it.ar.spreads = nan.is_some();
    ch.at = 0;
    let body = inst.body().ok_or("no body")?;
    let mut r = Run { all: false, ints, nan, floats: 0, it, ch, args: vec![] };
    let mut args = vec![];
    for (i, l) in body.arg_locals().iter().enumerate() {
        let mut b = Blob::default();
        r.build(l.ty, &format!("a{i}"), i, 0, &mut b)?;
        args.push((b, l.ty));
        floats.push(r.floats);
    }
    let rt = body.ret_local().ty;
    r.it.call_inst(inst, args, rt, false).map(|_| ())
}

/// Every admitted choice of type and constant arguments.
fn each<'tcx>(tcx: TyCtxt<'tcx>, id: DefId, probes: &[Ty<'tcx>], dims: &[u64], mut go: impl FnMut(ty::GenericArgsRef<'tcx>)) {
    let gens = tcx.generics_of(id);
    let nconst = (0..gens.count()).filter(|i| matches!(gens.param_at(*i, tcx).kind, ty::GenericParamDefKind::Const { .. })).count();
    let more: Vec<u64> = [1, 2, 3, 4, 5, 6, 8, 9, 12, 16].to_vec();
    let dims: &[u64] = if nconst >= 3 { &more } else { dims };
    let mut cands: Vec<Vec<GenericArg<'tcx>>> = vec![];
    for i in 0..gens.count() {
        let p = gens.param_at(i, tcx);
        cands.push(match p.kind {
            ty::GenericParamDefKind::Lifetime => vec![tcx.lifetimes.re_erased.into()],
            ty::GenericParamDefKind::Type { .. } => {
                let mut v: Vec<GenericArg<'tcx>> = probes.iter().map(|t| (*t).into()).collect();
                v.extend(functions(tcx, id, i, probes).into_iter().map(GenericArg::from));
                v
            }
            ty::GenericParamDefKind::Const { .. } => dims.iter().map(|n| ty::Const::from_target_usize(tcx, *n).into()).collect(),
        });
    }
    let mut idx = vec![0usize; cands.len()];
    let mut ntry = 0u64;
    loop {
        ntry += 1;
        if cands.iter().any(|c| c.is_empty()) || ntry > 100_000 {
            return;
        }
        let args = tcx.mk_args(&idx.iter().zip(&cands).map(|(i, c)| c[*i]).collect::<Vec<_>>());
        if !tcx.instantiate_and_check_impossible_clauses((id, args)) {
            go(args);
        }
        let mut k = 0;
        while k < idx.len() {
            idx[k] += 1;
            if idx[k] < cands[k].len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == idx.len() {
            return;
        }
    }
}
