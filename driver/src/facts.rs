//! Facts about every item of a crate: signatures, field visibility, layout
//! attributes, callees and statics. Rules over these facts are in vlib/rules.py.
use crate::{esc, list};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{CastKind, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, TyCtxt};
use std::collections::BTreeSet;
use std::fmt::Write as _;

fn loc(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> String {
    let sp = tcx.def_span(d);
    tcx.sess.source_map().span_to_diagnostic_string(sp)
}

fn bspan(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> String {
    if !tcx.is_mir_available(d) {
        return String::new();
    }
    let sp = tcx.instance_mir(ty::InstanceKind::Item(d)).span;
    tcx.sess.source_map().span_to_diagnostic_string(sp)
}

/// Items this body mentions that are defined outside `core`: in the allocating or hosted parts of the standard library.
fn hosted(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    if !(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d)) {
        return out;
    }
    let body = tcx.instance_mir(ty::InstanceKind::Item(d));
    let mut at = |t: ty::Ty<'_>, sp: rustc_span::Span| {
        for x in hosted_in(tcx, t) {
            out.insert(format!("{x} at {}", tcx.sess.source_map().span_to_diagnostic_string(sp.source_callsite())));
        }
    };
    for l in body.local_decls.iter() {
        at(l.ty, l.source_info.span);
    }
    for b in body.basic_blocks.iter() {
        if let TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } = &b.terminator().kind {
            at(func.ty(&body.local_decls, tcx), b.terminator().source_info.span);
        }
    }
    for c in body.required_consts().iter() {
        at(c.const_.ty(), c.span);
    }
    out
}

fn hosted_in(tcx: TyCtxt<'_>, t: ty::Ty<'_>) -> Vec<String> {
    let mut v = vec![];
    for g in t.walk() {
        let id = match g.as_type().map(|t| t.kind()) {
            Some(ty::Adt(a, _)) => a.did(),
            Some(ty::FnDef(c, _)) => *c,
            Some(ty::Closure(c, _)) => *c,
            _ => continue,
        };
        if matches!(tcx.crate_name(id.krate).as_str(), "alloc" | "std") {
            v.push(tcx.def_path_str(id));
        }
    }
    v
}

type Effects = (BTreeSet<String>, bool, BTreeSet<String>, BTreeSet<String>);

fn effects(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> Effects {
    let (mut calls, mut asm, mut tls, mut casts) = (BTreeSet::new(), false, BTreeSet::new(), BTreeSet::new());
    let body = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d) {
        tcx.instance_mir(ty::InstanceKind::Item(d))
    } else {
        return (calls, asm, tls, casts);
    };
    for b in body.basic_blocks.iter() {
        for s in &b.statements {
            if let StatementKind::Assign(bx) = &s.kind {
                match &bx.1 {
                    Rvalue::ThreadLocalRef(x) => {
                        tls.insert(tcx.def_path_str(*x));
                    }
                    Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => {
                        casts.insert(tcx.sess.source_map().span_to_diagnostic_string(s.source_info.span));
                    }
                    _ => {}
                }
            }
        }
        match &b.terminator().kind {
            TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } => match func.ty(&body.local_decls, tcx).kind() {
                ty::FnDef(c, _) => {
                    calls.insert(tcx.def_path_str(*c));
                }
                k => {
                    calls.insert(format!("<indirect {k:?}>"));
                }
            },
            TerminatorKind::InlineAsm { .. } => asm = true,
            _ => {}
        }
    }
    (calls, asm, tls, casts)
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut out = String::new();
    let ev = tcx.effective_visibilities(());
    let mut all: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    for o in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(o), DefKind::Closure) && !all.contains(&o) {
            all.push(o);
        }
    }
    for ld in all {
        let d = ld.to_def_id();
        let path = tcx.def_path_str(d);
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::non_body_analysis(tcx, d));
                let _ = writeln!(
                    out,
                    "{{\"k\":\"static\",\"path\":{},\"loc\":{},\"mut\":{},\"freeze\":{}}}",
                    esc(&path),
                    esc(&loc(tcx, d)),
                    mutability.is_mut(),
                    freeze
                );
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let r = a.repr();
                let hosted: BTreeSet<String> = a.all_fields().flat_map(|f| hosted_in(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip())).collect();
                let fields: Vec<String> = a
                    .all_fields()
                    .map(|f| {
                        format!(
                            "{{\"name\":{},\"public\":{},\"ty\":{}}}",
                            esc(f.name.as_str()),
                            f.vis.is_public(),
                            esc(&format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                        )
                    })
                    .collect();
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::non_body_analysis(tcx, d));
                let _ = writeln!(
                    out,
                    "{{\"k\":\"adt\",\"path\":{},\"loc\":{},\"exported\":{},\"c\":{},\"transparent\":{},\"packed\":{},\"align\":{},\"freeze\":{},\"drop\":{},\"hosted\":{},\"fields\":[{}]}}",
                    esc(&path),
                    esc(&loc(tcx, d)),
                    ev.is_reachable(ld),
                    r.c(),
                    r.transparent(),
                    r.packed(),
                    r.align.is_some(),
                    freeze,
                    a.has_dtor(tcx),
                    list(&hosted),
                    fields.join(",")
                );
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| format!("{t}")).collect();
                let assoc = tcx.opt_associated_item(d);
                let has_self = assoc.map_or(false, |a| a.is_method());
                let parent = tcx.opt_parent(d);
                let (mut self_ty, mut tr) = (String::new(), String::new());
                if let Some(p) = parent {
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                        self_ty = format!("{}", tcx.type_of(p).instantiate_identity().skip_norm_wip());
                        if let Some(t) = tcx.impl_opt_trait_ref(p) {
                            tr = tcx.def_path_str(t.skip_binder().def_id);
                        }
                    }
                }
                let (calls, asm, tls, casts) = effects(tcx, d);
                let o = sig.output();
                let mut mut_out = false;
                for g in o.walk() {
                    if let Some(t) = g.as_type() {
                        match t.kind() {
                            ty::Ref(_, _, m) if m.is_mut() => mut_out = true,
                            ty::RawPtr(_, m) if m.is_mut() => mut_out = true,
                            _ => {}
                        }
                    }
                }
                let _ = writeln!(
                    out,
                    "{{\"k\":\"fn\",\"span\":{},\"path\":{},\"loc\":{},\"exported\":{},\"unsafe\":{},\"self\":{},\"impl\":{},\"trait\":{},\"inputs\":{},\"output\":{},\"mut_out\":{},\"asm\":{},\"tls\":{},\"casts\":{},\"calls\":{},\"hosted\":{}}}",
                    esc(&bspan(tcx, d)),
                    esc(&path),
                    esc(&loc(tcx, d)),
                    ev.is_reachable(ld) || !tr.is_empty(),
                    sig.safety().is_unsafe(),
                    has_self,
                    esc(&self_ty),
                    esc(&tr),
                    list(&ins),
                    esc(&format!("{o}")),
                    mut_out,
                    asm,
                    list(&tls),
                    list(&casts),
                    list(&calls),
                    list(&hosted(tcx, d))
                );
            }
            DefKind::Closure => {
                let (calls, asm, tls, casts) = effects(tcx, d);
                let _ = writeln!(
                    out,
                    "{{\"k\":\"body\",\"path\":{},\"loc\":{},\"asm\":{},\"tls\":{},\"casts\":{},\"calls\":{},\"hosted\":{}}}",
                    esc(&path),
                    esc(&loc(tcx, d)),
                    asm,
                    list(&tls),
                    list(&casts),
                    list(&calls),
                    list(&hosted(tcx, d))
                );
            }
            DefKind::ForeignMod => {
                let _ = writeln!(out, "{{\"k\":\"foreign\",\"path\":{},\"loc\":{}}}", esc(&path), esc(&loc(tcx, d)));
            }
            _ => {}
        }
    }
    out
}
