//! Evaluation of extracted terms at points: used only to classify obligations
//! the normal form does not settle (a point where the two value-flow terms
//! differ refutes them).
use crate::nf::*;
use crate::poly::*;
use crate::term::*;
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

thread_local! {
    /// Did a comparison hinge on rounding noise?
    static FRAGILE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn neval(ar: &Arena, id: Id, pt: &[f64], memo: &mut HashMap<Id, f64>) -> f64 {
    if let Some(v) = memo.get(&id) {
        return *v;
    }
    let b = |x: bool| if x { 1.0 } else { 0.0 };
    let r = match ar.n(id) {
        Node::Sym(k, _) => pt[*k as usize],
        Node::Rat(p, q) => *p as f64 / *q as f64,
        Node::Konst(k) => konst(k),
        Node::KBits(x) => f64::from_bits(*x),
        Node::Inf => f64::INFINITY,
        Node::NaN => f64::NAN,
        Node::Int(v, _) => *v as f64,
        Node::Bool(x) => b(*x),
        Node::Neg(a) => -neval(ar, *a, pt, memo),
        Node::Not(a) => 1.0 - neval(ar, *a, pt, memo),
        Node::Bin(op, a, c) => {
            let x = neval(ar, *a, pt, memo);
            let y = neval(ar, *c, pt, memo);
            let real = ar.sort(*a) == Sort::Real;
            match op {
                BOp::Add => x + y,
                BOp::Sub => x - y,
                BOp::Mul => x * y,
                BOp::Div => {
                    if real {
                        x / y
                    } else {
                        (x / y).trunc()
                    }
                }
                BOp::Rem => x % y,
                BOp::And => ((x as i128) & (y as i128)) as f64,
                BOp::Or => ((x as i128) | (y as i128)) as f64,
                BOp::Xor => ((x as i128) ^ (y as i128)) as f64,
                BOp::Shl => x * 2f64.powf(y),
                BOp::Shr => (x / 2f64.powf(y)).floor(),
            }
        }
        Node::Cmp(op, a, c) => {
            let x = neval(ar, *a, pt, memo);
            let y = neval(ar, *c, pt, memo);
            let (d, m) = ((x - y).abs(), x.abs().max(y.abs()));
            if d != 0.0 && (d <= 1e-11 * m || (x.abs().min(y.abs()) == 0.0 && m < 1e-12)) {
                FRAGILE.with(|f| f.set(true));
            }
            match op {
                COp::Lt => b(x < y),
                COp::Le => b(x <= y),
                COp::Eq => b(x == y),
            }
        }
        Node::Ite(c, x, y) => {
            if neval(ar, *c, pt, memo) != 0.0 {
                neval(ar, *x, pt, memo)
            } else {
                neval(ar, *y, pt, memo)
            }
        }
        Node::Fun(f, args, s) => {
            let xs: Vec<f64> = args.iter().map(|a| neval(ar, *a, pt, memo)).collect();
            let v = nfun(f, &xs);
            if *s == Sort::Bool {
                b(v > 0.0)
            } else {
                v
            }
        }
    };
    memo.insert(id, r);
    r
}

fn konst(k: &str) -> f64 {
    match k {
        "pi" => std::f64::consts::PI,
        "e" => std::f64::consts::E,
        "inf" => f64::INFINITY,
        _ => f64::NAN,
    }
}

fn nfun(f: &str, xs: &[f64]) -> f64 {
    match (f, xs.len()) {
        ("sqrt", 1) => xs[0].sqrt(),
        ("cbrt", 1) => xs[0].cbrt(),
        ("sin", 1) => xs[0].sin(),
        ("cos", 1) => xs[0].cos(),
        ("asin", 1) => xs[0].asin(),
        ("acos", 1) => xs[0].acos(),
        ("atan", 1) => xs[0].atan(),
        ("atan2", 2) => xs[0].atan2(xs[1]),
        ("exp", 1) => xs[0].exp(),
        ("ln", 1) => xs[0].ln(),
        ("lnabs", 1) => xs[0].abs().ln(),
        ("abs", 1) => xs[0].abs(),
        // coarser than it is, so that losing digits shows
        ("f32", 1) => f64::from_bits(xs[0].to_bits() & !((1 << 46) - 1)),
        ("floor", 1) => xs[0].floor(),
        ("ceil", 1) => xs[0].ceil(),
        ("round", 1) => xs[0].round(),
        ("rint", 1) => xs[0].round_ties_even(),
        ("trunc", 1) => xs[0].trunc(),
        ("powf", 2) => xs[0].powf(xs[1]),
        ("powi", 2) => xs[0].powf(xs[1]),
        ("i2r", 1) => xs[0],
        ("r2i", 1) => xs[0].trunc(),
        ("divzero", 1) => f64::NAN,
        _ => {
            // uninterpreted: a fixed pseudo-random smooth-free function of the rounded arguments
            let mut h = 1469598103934665603u64;
            for c in f.bytes() {
                h = (h ^ c as u64).wrapping_mul(1099511628211);
            }
            for x in xs {
                let q = (x * 1e6).round() as i64;
                h = (h ^ q as u64).wrapping_mul(1099511628211);
                h ^= h >> 29;
            }
            (h >> 11) as f64 / (1u64 << 53) as f64 * 4.0 - 2.0
        }
    }
}

fn poly_at(nf: &Nf, p: &Poly, pt: &[f64], memo: &mut HashMap<u32, f64>) -> f64 {
    let mut s = 0.0;
    for (m, c) in &p.t {
        let mut t = c.n as f64 / c.d as f64;
        for (a, e) in m {
            t *= atom_at(nf, *a, pt, memo).powi(*e as i32);
        }
        s += t;
    }
    s
}
pub fn rf_at(nf: &Nf, r: &Rf, pt: &[f64], memo: &mut HashMap<u32, f64>) -> f64 {
    let mut v = poly_at(nf, &r.n, pt, memo);
    for (f, e) in &r.d {
        v /= poly_at(nf, f, pt, memo).powi(*e as i32);
    }
    v
}
fn atom_at(nf: &Nf, a: u32, pt: &[f64], memo: &mut HashMap<u32, f64>) -> f64 {
    if let Some(v) = memo.get(&a) {
        return *v;
    }
    let at = &nf.atoms[a as usize];
    let mut arg = |i: usize| rf_at(nf, &at.args[i], pt, memo);
    let v = match &at.kind {
        AK::Sym(k) => pt[*k as usize],
        AK::Konst(k) => konst(k),
        AK::Bits(b) => f64::from_bits(*b),
        AK::Prime(p) => (*p as f64).sqrt(),
        AK::Sqrt(_) => arg(0).sqrt(),
        AK::Abs(_) => arg(0).abs(),
        AK::Cos(_, q) => (arg(0) / *q as f64).cos(),
        AK::Sin(_, q) => (arg(0) / *q as f64).sin(),
        AK::Exp(_, q) => (arg(0) / *q as f64).exp(),
        AK::Fun(n, _) => {
            let xs: Vec<f64> = (0..at.args.len()).map(|i| arg(i)).collect();
            nfun(n, &xs)
        }
    };
    memo.insert(a, v);
    v
}

pub enum Verdict {
    Differs(String),
    Agrees(u32),
    NoPoint,
}

fn holds(ar: &Arena, t: Id, want: bool, pt: &[f64], memo: &mut HashMap<Id, f64>) -> bool {
    holds_tol(ar, t, want, pt, memo, 1.0, 1e-9)
}
fn holds_tol(ar: &Arena, t: Id, want: bool, pt: &[f64], memo: &mut HashMap<Id, f64>, unit: f64, tol: f64) -> bool {
    let holds = |ar: &Arena, t: Id, want: bool, pt: &[f64], memo: &mut HashMap<Id, f64>| holds_tol(ar, t, want, pt, memo, unit, tol);
    // equalities introduced by substitution hold only up to rounding
    match ar.n(t) {
        Node::Not(x) => return holds(ar, *x, !want, pt, memo),
        Node::Cmp(op, a, b) => {
            let x = neval(ar, *a, pt, memo);
            let y = neval(ar, *b, pt, memo);
            if !x.is_finite() || !y.is_finite() {
                return false;
            }
            let d = (x - y).abs();
            let near = d <= tol * (unit + x.abs() + y.abs());
            // a weak inequality may miss by rounding, not by more
            let noise = d <= tol * x.abs().max(y.abs()) || (x.abs().min(y.abs()) == 0.0 && d <= tol * 1e-3 * unit);
            return match (op, want) {
                (COp::Eq, true) => near,
                (COp::Eq, false) => !near,
                (COp::Lt, true) => x < y && !near,
                (COp::Lt, false) => x >= y || noise,
                (COp::Le, true) => x <= y || noise,
                (COp::Le, false) => x > y && !near,
            };
        }
        Node::Ite(c, x, y) => {
            if holds(ar, *c, true, pt, memo) {
                return holds(ar, *x, want, pt, memo);
            } else if holds(ar, *c, false, pt, memo) {
                return holds(ar, *y, want, pt, memo);
            }
            return false;
        }
        _ => {}
    }
    (neval(ar, t, pt, memo) != 0.0) == want
}

/// Evaluate both sides where the assumptions hold.
pub fn sample(nf: &mut Nf, goal: Goal, asm: &[Cond], seed: u64, want: u32, tries: u32) -> Verdict {
    let mut rng = Rng(seed | 1);
    let n = nf.ar.sym_names.len();
    let mut good = 0;
    let over = nf.over_snapshot();
    for t in 0..tries {
        let mode = t % 5;
        let mut pt = vec![0.0f64; n];
        for (i, x) in pt.iter_mut().enumerate() {
            let isint = !matches!(nf.ar.sym_sorts[i], Sort::Real);
            *x = match mode {
                0 => rng.unit() * 4.0 - 2.0,
                1 => rng.unit() * 3.0,
                2 => (rng.next() % 7) as f64 - 3.0,
                3 => rng.unit() * 200.0 - 100.0,
                _ => {
                    if rng.next() % 3 == 0 {
                        (rng.next() % 3) as f64 - 1.0
                    } else {
                        rng.unit() * 2.0 - 1.0
                    }
                }
            };
            if let Sort::Bool = nf.ar.sym_sorts[i] {
                *x = (rng.next() % 2) as f64;
            } else if isint {
                *x = x.round();
                if let Sort::Int { signed: false, .. } = nf.ar.sym_sorts[i] {
                    *x = x.abs();
                }
            }
        }
        for u in &nf.units {
            let s: f64 = u.iter().map(|k| pt[*k as usize] * pt[*k as usize]).sum::<f64>().sqrt();
            if s < 1e-3 {
                for k in u {
                    pt[*k as usize] = 0.0;
                }
                pt[u[0] as usize] = 1.0;
            } else {
                for k in u {
                    pt[*k as usize] /= s;
                }
            }
        }
        for (k, v) in &over {
            let mut m = HashMap::new();
            pt[*k as usize] = rf_at(nf, v, &pt, &mut m);
        }
        if pt.iter().any(|x| !x.is_finite()) {
            continue;
        }
        let mut memo = HashMap::new();
        let mut ok = true;
        for a in asm {
            let h = match a {
                Cond::Term(t, b) => holds(&nf.ar, *t, *b, &pt, &mut memo),
                Cond::Sign(p, m) => {
                    let mut mm = HashMap::new();
                    let v = poly_at(nf, p, &pt, &mut mm);
                    v.is_finite()
                        && (if v.abs() < 1e-9 { m & ZER != 0 } else if v > 0.0 { m & POS != 0 } else { m & NEG != 0 })
                }
            };
            if !h {
                ok = false;
                break;
            }
        }
        if !ok {
            continue;
        }
        let show = |pt: &[f64]| {
            nf.ar.sym_names.iter().zip(pt).map(|(n, v)| format!("{n}={v:.6}")).collect::<Vec<_>>().join(", ")
        };
        memo.clear();
        FRAGILE.with(|f| f.set(false));
        match goal {
            Goal::True(t) => {
                let v = neval(&nf.ar, t, &pt, &mut memo);
                if v == 0.0 && FRAGILE.with(|f| f.get()) {
                    continue;
                }
                if v == 0.0 && holds(&nf.ar, t, false, &pt, &mut memo) && !holds(&nf.ar, t, true, &pt, &mut memo) {
                    return Verdict::Differs(format!("condition false at {}", show(&pt)));
                }
                good += 1;
            }
            Goal::Same(a, b) => {
                let x = neval(&nf.ar, a, &pt, &mut memo);
                let y = neval(&nf.ar, b, &pt, &mut memo);
                let fragile = FRAGILE.with(|f| f.get());
                if x.is_finite() && y.is_finite() {
                    if (x - y).abs() > 1e-6 * (1.0 + x.abs() + y.abs()) {
                        if fragile {
                            continue;
                        }
                        // ill-conditioned points: require the gap to be far from rounding noise
                        if (x - y).abs() > 1e-4 * (x.abs() + y.abs()) || (x - y).abs() > 1e-2 {
                            return Verdict::Differs(format!("{x:.6} versus {y:.6} at {}", show(&pt)));
                        }
                    }
                    good += 1;
                } else if x.is_finite() != y.is_finite() && x.is_nan() == y.is_nan() && !fragile {
                    return Verdict::Differs(format!("{x} versus {y} at {}", show(&pt)));
                }
            }
        }
        if good >= want {
            break;
        }
    }
    if good == 0 {
        Verdict::NoPoint
    } else {
        Verdict::Agrees(good)
    }
}

/// Look for a point of a branch that lies on a boundary: one expression changes sign there, everything else holds with room to spare.
pub fn boundary(nf: &mut Nf, st: &Stuck, tries: u32) -> Option<String> {
    let vals = st.vals.as_ref()?;
    if st.zero.is_empty() || st.zero.len() > 3 {
        return None;
    }
    let n = nf.ar.sym_names.len();
    let over = nf.over_snapshot();
    if (0..n).any(|i| !matches!(nf.ar.sym_sorts[i], Sort::Real)) {
        return None;
    }
    let units: Vec<u32> = nf.units.iter().flatten().copied().collect();
    let free: Vec<u32> = (0..n as u32).filter(|k| !units.contains(k) && !over.iter().any(|o| o.0 == *k)).collect();
    if free.is_empty() {
        return None;
    }
    let mut rng = Rng(0xA24BAED4963EE407);
    for t in 0..tries {
        let q = &st.zero[t as usize % st.zero.len()];
        let mut pt = vec![0.0f64; n];
        let scale = 10f64.powf(-match t % 4 {
            0 => 0.0,
            1 => rng.unit() * 2.0 - 1.0,
            2 => rng.unit() * 20.0,
            _ => rng.unit() * 9.0,
        });
        for x in pt.iter_mut() {
            *x = (rng.unit() * 2.0 - 1.0) * scale;
        }
        for u in &nf.units {
            let s: f64 = u.iter().map(|k| pt[*k as usize] * pt[*k as usize]).sum::<f64>().sqrt();
            for k in u {
                pt[*k as usize] /= s;
            }
        }
        let k = free[(rng.next() % free.len() as u64) as usize] as usize;
        let at = |nf: &Nf, v: f64, pt: &mut Vec<f64>| {
            pt[k] = v;
            for (k, v) in &over {
                let mut m = HashMap::new();
                pt[*k as usize] = rf_at(nf, v, pt, &mut m);
            }
            let mut m = HashMap::new();
            poly_at(nf, q, pt, &mut m)
        };
        let sg = if rng.next() % 2 == 0 { 1.0 } else { -1.0 };
        let mut grid: Vec<f64> = (0..60).map(|i| sg * scale * 10f64.powf(i as f64 / 10.0 - 3.0)).collect();
        grid.insert(0, 0.0);
        let vs: Vec<f64> = grid.iter().map(|v| at(nf, *v, &mut pt)).collect();
        let top = vs.iter().filter(|v| v.is_finite()).fold(0.0f64, |a, v| a.max(v.abs()));
        let Some(i) = (1..grid.len()).find(|&i| {
            vs[i - 1].is_finite() && vs[i].is_finite() && vs[i - 1] * vs[i] < 0.0 && vs[i - 1].abs().min(vs[i].abs()) > top * 1e-12
        }) else {
            continue;
        };
        let (mut a, mut b) = (grid[i - 1], grid[i]);
        let fa = vs[i - 1];
        for _ in 0..200 {
            let m = 0.5 * (a + b);
            if at(nf, m, &mut pt) * fa > 0.0 {
                a = m;
            } else {
                b = m;
            }
        }
        at(nf, a, &mut pt);
        if pt.iter().any(|x| !x.is_finite()) {
            continue;
        }
        let mut memo = HashMap::new();
        let ok = st.asm.iter().all(|c| match c {
            Cond::Term(t, b) => holds_tol(&nf.ar, *t, *b, &pt, &mut memo, 0.0, 1e-11),
            Cond::Sign(p, m) => {
                let mut mm = HashMap::new();
                let v = poly_at(nf, p, &pt, &mut mm);
                let size: f64 = p.t.iter().map(|(mo, c)| {
                    let mut one = Poly::default();
                    one.add_term(mo.clone(), *c);
                    poly_at(nf, &one, &pt, &mut mm).abs()
                }).sum();
                v.is_finite() && (if v.abs() <= 1e-11 * size { m & ZER != 0 } else if v > 0.0 { m & POS != 0 } else { m & NEG != 0 })
            }
        });
        if !ok {
            continue;
        }
        let show = nf.ar.sym_names.iter().zip(&pt).map(|(n, v)| format!("{n}={v:e}")).collect::<Vec<_>>().join(", ");
        match vals {
            None => return Some(format!("on the boundary {}", show)),
            Some((x, y)) => {
                let mut m = HashMap::new();
                let (x, y) = (rf_at(nf, x, &pt, &mut m), rf_at(nf, y, &pt, &mut m));
                if x.is_finite() && y.is_finite() && (x - y).abs() > 1e-3 * (x.abs() + y.abs()) {
                    return Some(format!("{x:.6e} versus {y:.6e} on the boundary {}", show));
                }
            }
        }
    }
    None
}
