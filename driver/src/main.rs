#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

mod audit;
mod facts;
mod hooks;
mod interp;
mod nf;
mod num;
mod poly;
mod term;

use nf::{Cond, Goal, Nf};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use term::*;

pub fn grow<T>(f: impl FnOnce() -> T) -> T {
    f()
}

fn main() {
    unsafe { std::env::set_var("RUST_MIN_STACK", "2147483648") };
    let args: Vec<String> = std::env::args().collect();
    let _ = rustc_public::run_with_tcx!(&args, |tcx| analysis(tcx));
}

struct Ob {
    path: String,
    asm: Vec<Cond>,
    goal: Goal,
    group: u32,
}

struct Job {
    law: String,
    loc: String,
    ar: Arena,
    units: Vec<Vec<u32>>,
    base: Vec<Cond>,
    obs: Vec<Ob>,
    calls: BTreeSet<String>,
    reached: BTreeSet<String>,
    error: Option<String>,
    want: BTreeSet<u32>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<'a>(it: impl IntoIterator<Item = &'a String>) -> String {
    format!("[{}]", it.into_iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

/// The obligations written in the law's own body: source position, and whether it is one that must not be reached.
fn law_sites(body: &rustc_public::mir::Body) -> Vec<(u32, bool)> {
    use rustc_public::mir::TerminatorKind;
    use rustc_public::ty::{RigidTy, TyKind};
    let mut out = vec![];
    for b in &body.blocks {
        if let TerminatorKind::Call { func, .. } = &b.terminator.kind {
            if let Ok(t) = func.ty(body.locals()) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() {
                    let n = d.name();
                    let n = n.rsplit("::").take(2).collect::<Vec<_>>();
                    if n.len() == 2 && n[1] == "mk" && matches!(n[0], "same" | "holds" | "never") {
                        out.push((interp::site_of(b.terminator.source_info.span), n[0] == "never"));
                    }
                }
            }
        }
    }
    out
}

fn analysis(_tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    if let Ok(p) = std::env::var("VF_FACTS") {
        std::fs::write(p, facts::dump(_tcx)).unwrap();
        return ControlFlow::Break(());
    }
    if let Ok(p) = std::env::var("VF_AUDIT") {
        std::fs::write(p, audit::dump(_tcx)).unwrap();
        return ControlFlow::Break(());
    }
    if let Ok(p) = std::env::var("VF_TOTAL") {
        let (mut text, jobs) = audit::total(_tcx);
        text.push_str(&decide_all(&jobs, 5.0));
        std::fs::write(p, text).unwrap();
        return ControlFlow::Break(());
    }
    let spans_to = std::env::var("VF_SPANS").ok();
    let filter = std::env::var("VF_FILTER").unwrap_or_default();
    let verbose = std::env::var("VF_VERBOSE").is_ok();
    let secs: f64 = std::env::var("VF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let fuel: u64 = std::env::var("VF_FUEL").ok().and_then(|s| s.parse().ok()).unwrap_or(3_000_000);
    let mut it = interp::Interp::new();
    let krate = rustc_public::local_crate();
    let mut jobs = vec![];
    for fd in krate.fn_defs() {
        let name = fd.name();
        if let Some(i) = name.find("::vf_shim::") {
            if let Ok(inst) = Instance::resolve(fd, &GenericArgs(vec![])) {
                it.shims.insert(name[i + 11..].to_string(), inst);
            }
        }
    }
    for fd in krate.fn_defs() {
        let name = fd.name();
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        if !short.starts_with("law_") || (!filter.is_empty() && !name.contains(&filter)) {
            continue;
        }
        let Ok(inst) = Instance::resolve(fd, &GenericArgs(vec![])) else { continue };
        it.reset(fuel);
        let Some(body) = inst.body() else { continue };
        let sp = body.span;
        let mut job = Job {
            law: name.trim_start_matches("laws::").to_string(),
            loc: format!("{}:{}", sp.get_filename(), sp.get_lines().start_line),
            ar: Arena::new(),
            units: vec![],
            base: vec![],
            obs: vec![],
            calls: BTreeSet::new(),
            reached: BTreeSet::new(),
            error: None,
            want: BTreeSet::new(),
        };
        let names: Vec<Option<String>> = {
            let mut v = vec![None; body.arg_locals().len()];
            for d in &body.var_debug_info {
                if let Some(i) = d.argument_index {
                    let i = i as usize;
                    if i >= 1 && i <= v.len() {
                        v[i - 1] = Some(d.name.to_string());
                    }
                }
            }
            v
        };
        let mut args = vec![];
        for (i, l) in body.arg_locals().iter().enumerate() {
            let mut b = interp::Blob::default();
            let nm = names[i].clone().unwrap_or(format!("a{i}"));
            if let Err(e) = it.symbolize(l.ty, &nm, 0, &mut b) {
                job.error = Some(e);
            }
            args.push((b, l.ty));
        }
        if job.error.is_none() {
            let rt = body.ret_local().ty;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.call_inst(inst, args, rt, false)));
            match r.unwrap_or_else(|_| Err("the analyser failed on this construct".into())) {
                Err(e) => job.error = Some(e),
                Ok(Some(b)) if verbose => {
                    for (o, s, v) in &b.0 {
                        match v {
                            interp::Val::T(i) => eprintln!("   {} @{o}/{s}: {}", job.law, it.ar.show(*i)),
                            v => eprintln!("   {} @{o}/{s}: {v:?}", job.law),
                        }
                    }
                }
                Ok(_) => {}
            }
        }
        job.calls = it.law_calls.clone();
        job.reached = it.reached.clone();
        let f = it.ar.boolean(false);
        job.base = it.facts.iter().map(|(t, b)| Cond::Term(*t, *b)).collect();
        for u in &it.units {
            job.units.push(
                u.iter()
                    .filter_map(|i| match it.ar.n(*i) {
                        Node::Sym(k, _) => Some(*k),
                        _ => None,
                    })
                    .collect(),
            );
        }
        let mk = |gates: &[(Id, bool)], ng: usize| {
            let mut a: Vec<Cond> = it.guards[..ng].iter().map(|g| Cond::Term(*g, true)).collect();
            a.extend(gates.iter().map(|(t, b)| Cond::Term(*t, *b)));
            a
        };
        let sites = law_sites(&body);
        let mut all: BTreeSet<u32> = it.obligations.iter().map(|o| o.group).collect();
        all.extend(sites.iter().map(|s| s.0));
        let ord = |g: u32| all.iter().position(|x| *x == g).unwrap_or(0);
        job.want = sites.iter().filter(|s| !s.1).map(|s| s.0).collect();
        for o in &it.obligations {
            job.obs.push(Ob {
                path: format!("#{}{}", ord(o.group), o.path),
                asm: mk(&o.gates, o.nguards),
                goal: o.goal,
                group: o.group,
            });
        }
        if !it.may_panic {
            for p in &it.panics {
                job.obs.push(Ob {
                    path: format!("panic {} in {}", p.what, p.site),
                    asm: mk(&p.pc, p.nguards),
                    goal: Goal::True(f),
                    group: u32::MAX,
                });
            }
        }
        job.ar = std::mem::take(&mut it.ar);
        jobs.push(job);
    }
    if let Some(p) = spans_to {
        let _ = std::fs::write(p, it.spans.iter().map(|x| format!("{x}\n")).collect::<String>());
    }
    let text = decide_all(&jobs, secs);
    match std::env::var("VF_OUT") {
        Ok(p) => std::fs::write(p, text).unwrap(),
        Err(_) => print!("{text}"),
    }
    ControlFlow::Break(())
}

fn decide_all(jobs: &[Job], secs: f64) -> String {
    let next = AtomicUsize::new(0);
    let out = Mutex::new(String::new());
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            let (next, out) = (&next, &out);
            let _ = std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= jobs.len() {
                    break;
                }
                let line = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide(&jobs[i], secs))).unwrap_or_else(|_| {
                    format!("{{\"law\":{},\"loc\":{},\"error\":\"the analyser failed on this law\",\"obligations\":0,\"proved\":0,\"vacuous\":0,\"groups\":0,\"dead_groups\":0,\"leaves\":0,\"sampled\":[],\"violations\":[],\"calls\":[],\"reached\":[],\"ms\":0}}\n", esc(&jobs[i].law), esc(&jobs[i].loc))
                });
                out.lock().unwrap().push_str(&line);
            });
        }
    });
    out.into_inner().unwrap()
}

fn decide(job: &Job, secs: f64) -> String {
    let t0 = std::time::Instant::now();
    let mut proved = 0u32;
    let mut leaves = 0u32;
    let mut sampled: Vec<String> = vec![];
    let mut bad: Vec<String> = vec![];
    let mut vacuous = 0u32;
    let mut groups: BTreeSet<u32> = BTreeSet::new();
    if job.error.is_none() {
        let mut nf = Nf::new(job.ar.clone(), job.units.clone());
        for ob in &job.obs {
            let mut asm = job.base.clone();
            asm.extend(ob.asm.iter().cloned());
            let rep = nf.prove(ob.goal, &asm, 6000, secs);
            leaves += rep.leaves;
            match rep.stuck {
                None => {
                    proved += 1;
                    if rep.leaves == 0 && !ob.path.ends_with("never") {
                        vacuous += 1;
                    } else {
                        groups.insert(ob.group);
                    }
                }
                Some(st) => {
                    groups.insert(ob.group);
                    let show = |nf: &Nf, g: Goal| match g {
                        Goal::Same(a, b) => format!("{}  vs  {}", nf.ar.show(a), nf.ar.show(b)),
                        Goal::True(a) => nf.ar.show(a),
                    };
                    let terms = show(&nf, ob.goal);
                    if std::env::var("VF_VERBOSE").is_ok() {
                        eprintln!("STUCK {} {}: {}", job.law, ob.path, st.why);
                        for c in &st.asm {
                            match c {
                                Cond::Term(t, b) => eprintln!("   asm {} {}", b, nf.ar.show(*t)),
                                Cond::Sign(p, m) => eprintln!("   sign {} {}", m, nf.dump_poly(p)),
                            }
                        }
                        for b in nf.dump_bounds() {
                            eprintln!("   bound {b}");
                        }
                    }
                    let edge = num::boundary(&mut nf, &st, 4000);
                    let over = nf.over_clear();
                    let v1 = num::sample(&mut nf, ob.goal, &asm, 0x9E3779B97F4A7C15, 400, 40_000);
                    nf.over_set(over);
                    let v = match v1 {
                        num::Verdict::Differs(w) => num::Verdict::Differs(w),
                        v1 => match num::sample(&mut nf, ob.goal, &st.asm, 0xD1B54A32D192ED03, 100, 40_000) {
                            num::Verdict::NoPoint if matches!(v1, num::Verdict::Agrees(n) if n >= 100) && st.why != "" => {
                                if st.asm.len() == asm.len() {
                                    v1
                                } else {
                                    num::Verdict::NoPoint
                                }
                            }
                            v => v,
                        },
                    };
                    let v = match (v, edge) {
                        (num::Verdict::Differs(w), _) => num::Verdict::Differs(w),
                        (_, Some(w)) => num::Verdict::Differs(w),
                        (v, None) => v,
                    };
                    match v {
                        num::Verdict::Agrees(n) => {
                            sampled.push(format!("{}: {} ({n} points agree)", ob.path, st.why))
                        }
                        num::Verdict::Differs(w) => bad.push(format!(
                            "{{\"path\":{},\"why\":{},\"witness\":{},\"terms\":{}}}",
                            esc(&ob.path),
                            esc(&st.why),
                            esc(&w),
                            esc(&terms)
                        )),
                        num::Verdict::NoPoint => bad.push(format!(
                            "{{\"path\":{},\"why\":{},\"witness\":null,\"terms\":{}}}",
                            esc(&ob.path),
                            esc(&st.why),
                            esc(&terms)
                        )),
                    }
                }
            }
        }
    }
    let mut same_groups = job.obs.iter().filter(|o| o.group != u32::MAX).map(|o| o.group).collect::<BTreeSet<_>>();
    if !same_groups.is_empty() {
        same_groups.extend(job.want.iter().copied());
    }
    let dead = same_groups.iter().filter(|g| !groups.contains(g)).count();
    let mut s = String::new();
    let _ = writeln!(
        s,
        "{{\"law\":{},\"loc\":{},\"error\":{},\"obligations\":{},\"proved\":{},\"vacuous\":{},\"groups\":{},\"dead_groups\":{},\"leaves\":{},\"sampled\":{},\"violations\":[{}],\"calls\":{},\"reached\":{},\"ms\":{}}}",
        esc(&job.law),
        esc(&job.loc),
        job.error.as_ref().map(|e| esc(e)).unwrap_or("null".into()),
        job.obs.len(),
        proved,
        vacuous,
        same_groups.len(),
        dead,
        leaves,
        list(&sampled),
        bad.join(","),
        list(&job.calls),
        list(&job.reached),
        t0.elapsed().as_millis()
    );
    s
}
