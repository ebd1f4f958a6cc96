//! Normal forms. Terms over the reals are brought to quotients of polynomials
//! in interned atoms, modulo the algebraic relations of the atoms
//! (sin^2 = 1 - cos^2, sqrt(p)^2 = p, |p|^2 = p^2, unit vectors). Two terms are
//! equal when the numerator of their difference reduces to zero. Gates are
//! resolved by the sign facts holding on the branch, splitting where undecided.
use crate::poly::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;
pub const ALL: u8 = 7;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Cond {
    Term(Id, bool),
    Sign(Poly, u8),
}

#[derive(Clone, Debug)]
pub enum Stop {
    Split(Cond),
    Restart,
    Fail(String),
}
type N<T> = Result<T, Stop>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum AK {
    Sym(u32),
    Konst(&'static str),
    Bits(u64),
    Prime(i128),
    Sqrt(PolyKey),
    Abs(PolyKey),
    Cos(RfKey, i128),
    Sin(RfKey, i128),
    Exp(RfKey, i128),
    Fun(&'static str, Vec<RfKey>),
}
type PolyKey = Vec<(Mono, i128, i128)>;
type RfKey = (PolyKey, Vec<(PolyKey, u32)>);

fn pkey(p: &Poly) -> PolyKey {
    p.t.iter().map(|(m, c)| (m.clone(), c.n, c.d)).collect()
}
fn rkey(r: &Rf) -> RfKey {
    (pkey(&r.n), r.d.iter().map(|(p, e)| (pkey(p), *e)).collect())
}

#[derive(Clone)]
pub struct Atom {
    pub kind: AK,
    pub args: Vec<Rf>,
    pub rule: Option<Poly>, // atom^2 -> rule
    pub pos: bool,
    pub nonneg: bool,
    pub lo: f64,
    pub hi: f64,
}

#[derive(Clone, Debug)]
struct Bound {
    q: Poly,
    lo: Option<(Rat, bool)>, // value, strict
    hi: Option<(Rat, bool)>,
    ne: Vec<Rat>,
}

pub struct Nf {
    pub ar: Arena,
    pub atoms: Vec<Atom>,
    keys: HashMap<AK, u32>,
    funs: HashMap<&'static str, Vec<u32>>,
    trig_q: HashMap<RfKey, i128>,
    exp_q: HashMap<RfKey, i128>,
    stale: HashSet<u32>,
    memo: HashMap<Id, Rf>,
    bmemo: HashMap<Id, bool>,
    /// conditions assumed outright on this branch
    decided: HashMap<Id, bool>,
    over: BTreeMap<u32, Rf>, // sym index -> value
    bounds: Vec<Bound>,
    masks: HashMap<PolyKey, u8>,
    ops: HashMap<u32, bool>,
    zeros: Vec<Poly>,
    pub units: Vec<Vec<u32>>, // sym indices
    unit_rules: HashMap<u32, Poly>, // atom -> rule, current branch
    pub split_abs: bool,
    last_vals: Option<(Rf, Rf)>,
    pub steps: u64,
    depth: u32,
    deadline: Option<std::time::Instant>,
}

fn lcm(a: i128, b: i128) -> i128 {
    a / gcd(a, b).max(1) * b
}

fn neg_mask(m: u8) -> u8 {
    (m & ZER) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER || y == ZER {
                    ZER
                } else if x == y {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}

pub const MAXDEN: i128 = 4096;

impl Nf {
    pub fn new(ar: Arena, units: Vec<Vec<u32>>) -> Nf {
        Nf {
            ar,
            atoms: vec![],
            keys: HashMap::new(),
            funs: HashMap::new(),
            trig_q: HashMap::new(),
            exp_q: HashMap::new(),
            stale: HashSet::new(),
            memo: HashMap::new(),
            bmemo: HashMap::new(),
            decided: HashMap::new(),
            over: BTreeMap::new(),
            bounds: vec![],
            masks: HashMap::new(),
            ops: HashMap::new(),
            zeros: vec![],
            units,
            unit_rules: HashMap::new(),
            split_abs: false,
            last_vals: None,
            steps: 0,
            depth: 0,
            deadline: None,
        }
    }
    fn chk(&self) -> N<()> {
        if OVERFLOW.with(|o| o.get()) {
            return Err(Stop::Fail("coefficient overflow".into()));
        }
        if TOOBIG.with(|o| o.get()) {
            return Err(Stop::Fail("expression too large".into()));
        }
        if let Some(d) = self.deadline {
            if std::time::Instant::now() > d {
                return Err(Stop::Fail("time limit".into()));
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- atoms
    fn atom(&mut self, kind: AK, args: Vec<Rf>) -> u32 {
        if let Some(&a) = self.keys.get(&kind) {
            return a;
        }
        let i = self.atoms.len() as u32;
        self.keys.insert(kind.clone(), i);
        let mut at = Atom {
            kind: kind.clone(),
            args,
            rule: None,
            pos: false,
            nonneg: false,
            lo: f64::NEG_INFINITY,
            hi: f64::INFINITY,
        };
        let inner = |k: &PolyKey| Poly { t: k.iter().map(|(m, n, d)| (m.clone(), Rat { n: *n, d: *d })).collect() };
        match &kind {
            AK::Konst(s) => {
                at.pos = true;
                let v = match *s {
                    "pi" => std::f64::consts::PI,
                    "e" => std::f64::consts::E,
                    _ => 1e300,
                };
                at.lo = v * (1.0 - 1e-15);
                at.hi = v * (1.0 + 1e-15);
                if *s == "nan" {
                    at.pos = false;
                    at.lo = f64::NEG_INFINITY;
                    at.hi = f64::INFINITY;
                }
            }
            AK::Bits(b) => {
                at.pos = true;
                let v = f64::from_bits(*b);
                at.lo = v * (1.0 - 1e-15);
                at.hi = v * (1.0 + 1e-15);
            }
            AK::Prime(p) => {
                at.pos = true;
                at.rule = Some(Poly::c(Rat::int(*p)));
                let v = (*p as f64).sqrt();
                at.lo = v * (1.0 - 1e-15);
                at.hi = v * (1.0 + 1e-15);
            }
            AK::Sqrt(k) => {
                at.nonneg = true;
                at.lo = 0.0;
                at.rule = Some(inner(k));
            }
            AK::Abs(k) => {
                at.nonneg = true;
                at.lo = 0.0;
                let p = inner(k);
                at.rule = Some(self.mulp(&p, &p));
            }
            AK::Cos(..) => {
                at.lo = -1.0;
                at.hi = 1.0;
            }
            AK::Sin(b, q) => {
                at.lo = -1.0;
                at.hi = 1.0;
                let c = self.keys[&AK::Cos(b.clone(), *q)];
                let cp = Poly::atom(c);
                at.rule = Some(Poly::one().sub(&cp.mul_raw(&cp)));
            }
            AK::Exp(..) => {
                at.pos = true;
                at.lo = 0.0;
            }
            AK::Fun(n, _) => match *n {
                "acos" => {
                    at.nonneg = true;
                    at.lo = 0.0;
                    at.hi = 3.14159265358980;
                }
                "asin" | "atan" => {
                    at.lo = -1.5707963267950;
                    at.hi = 1.5707963267950;
                }
                "atan2" => {
                    at.lo = -3.14159265358980;
                    at.hi = 3.14159265358980;
                }
                _ => {}
            },
            AK::Sym(k) => {
                for u in &self.units {
                    if u.contains(k) {
                        at.lo = -1.0;
                        at.hi = 1.0;
                    }
                }
            }
        }
        if at.pos {
            at.nonneg = true;
        }
        self.atoms.push(at);
        i
    }
    fn fun_atom(&mut self, name: &'static str, args: Vec<Rf>) -> N<u32> {
        let k = AK::Fun(name, args.iter().map(rkey).collect());
        if let Some(&a) = self.keys.get(&k) {
            return Ok(a);
        }
        let cands = self.funs.get(name).cloned().unwrap_or_default();
        for c in cands {
            let ca = self.atoms[c as usize].args.clone();
            if ca.len() == args.len() {
                let mut ok = true;
                for (x, y) in ca.iter().zip(&args) {
                    if !self.is_zero(&self.subr(x, y)) {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    self.keys.insert(k, c);
                    return Ok(c);
                }
            }
        }
        let a = self.atom(k, args);
        self.funs.entry(name).or_default().push(a);
        Ok(a)
    }
    fn rule(&self, a: u32) -> Option<&Poly> {
        if let Some(r) = self.unit_rules.get(&a) {
            return Some(r);
        }
        self.atoms[a as usize].rule.as_ref()
    }

    // ----------------------------------------------------- reduced arithmetic
    pub fn reduce(&self, p: Poly) -> Poly {
        let bad = |m: &Mono| m.iter().rev().find(|(a, e)| *e >= 2 && self.rule(*a).is_some()).copied();
        if !p.t.keys().any(|m| bad(m).is_some()) {
            return p;
        }
        let mut out = Poly::zero();
        // group by (atom, power) to multiply once per group
        let mut work = p;
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 10_000 {
                TOOBIG.with(|t| t.set(true));
                return out;
            }
            let mut groups: BTreeMap<(u32, u32), Poly> = BTreeMap::new();
            for (m, c) in std::mem::take(&mut work.t) {
                match bad(&m) {
                    None => out.add_term(m, c),
                    Some((a, e)) => {
                        let k = e / 2;
                        let mut r: Mono = m.iter().copied().filter(|x| x.0 != a).collect();
                        if e % 2 == 1 {
                            r.push((a, 1));
                            r.sort();
                        }
                        groups.entry((a, k)).or_default().add_term(r, c);
                    }
                }
            }
            if groups.is_empty() {
                return out;
            }
            for ((a, k), g) in groups {
                let r = self.rule(a).unwrap().clone();
                let mut x = g;
                for _ in 0..k {
                    x = x.mul_raw(&r);
                }
                work = work.add(&x);
                if TOOBIG.with(|t| t.get()) {
                    return out;
                }
            }
        }
    }
    pub fn mulp(&self, a: &Poly, b: &Poly) -> Poly {
        if let Some(c) = a.as_const() {
            return b.scale(c);
        }
        if let Some(c) = b.as_const() {
            return a.scale(c);
        }
        self.reduce(a.mul_raw(b))
    }
    fn powp(&self, a: &Poly, e: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..e {
            r = self.mulp(&r, a);
        }
        r
    }
    fn cancel(&self, mut n: Poly, d: Vec<(Rc<Poly>, u32)>) -> Rf {
        if n.is_zero() {
            return Rf { n, d: vec![] };
        }
        let mut out = vec![];
        let mut d = d;
        // an even power of a root in the denominator is its radicand
        for i in 0..d.len() {
            if d[i].1 >= 2 && d[i].0.t.len() == 1 {
                let r = match d[i].0.t.keys().next().unwrap().as_slice() {
                    [(a, 1)] if matches!(self.atoms[*a as usize].kind, AK::Sqrt(_)) => self.atoms[*a as usize].rule.clone(),
                    _ => None,
                };
                if let Some(r) = r {
                    let k = d[i].1 / 2;
                    d[i].1 %= 2;
                    let (c, m, r) = self.split(&r);
                    let mut add: Vec<(Rc<Poly>, u32)> = m.iter().map(|(x, e)| (Rc::new(Poly::atom(*x)), *e * k)).collect();
                    if r.as_const().is_none() {
                        add.push((Rc::new(r), k));
                    }
                    for _ in 0..k {
                        n = n.scale(c.inv());
                    }
                    d = Self::merge_den(&d, &add, true);
                    return self.cancel(n, d.into_iter().filter(|x| x.1 > 0).collect());
                }
            }
        }
        for (f, mut e) in d {
            while e > 0 {
                if f.t.len() > 1 && n.t.len() < f.t.len() {
                    break;
                }
                match n.div_exact(&f) {
                    Some(q) => {
                        n = q;
                        e -= 1;
                    }
                    None => break,
                }
            }
            if e > 0 {
                out.push((f, e));
            }
        }
        Rf { n, d: out }
    }
    fn merge_den(a: &[(Rc<Poly>, u32)], b: &[(Rc<Poly>, u32)], sum: bool) -> Vec<(Rc<Poly>, u32)> {
        let mut r = a.to_vec();
        for (f, e) in b {
            if let Some(x) = r.iter_mut().find(|x| x.0 == *f) {
                x.1 = if sum { x.1 + e } else { x.1.max(*e) };
            } else {
                r.push((f.clone(), *e));
            }
        }
        r.sort();
        r
    }
    fn lift(&self, x: &Rf, d: &[(Rc<Poly>, u32)]) -> Poly {
        let mut n = x.n.clone();
        for (f, e) in d {
            let have = x.d.iter().find(|y| y.0 == *f).map(|y| y.1).unwrap_or(0);
            for _ in have..*e {
                n = self.mulp(&n, f);
            }
        }
        n
    }
    pub fn addr(&self, a: &Rf, b: &Rf) -> Rf {
        if a.n.is_zero() {
            return b.clone();
        }
        if b.n.is_zero() {
            return a.clone();
        }
        if a.d.is_empty() && b.d.is_empty() {
            return Rf::p(a.n.add(&b.n));
        }
        let d = Self::merge_den(&a.d, &b.d, false);
        let n = self.lift(a, &d).add(&self.lift(b, &d));
        self.cancel(n, d)
    }
    pub fn negr(&self, a: &Rf) -> Rf {
        Rf { n: a.n.neg(), d: a.d.clone() }
    }
    pub fn subr(&self, a: &Rf, b: &Rf) -> Rf {
        self.addr(a, &self.negr(b))
    }
    pub fn mulr(&self, a: &Rf, b: &Rf) -> Rf {
        if a.d.is_empty() && b.d.is_empty() {
            return Rf::p(self.mulp(&a.n, &b.n));
        }
        // cancel across before multiplying
        let x = self.cancel(a.n.clone(), b.d.clone());
        let y = self.cancel(b.n.clone(), a.d.clone());
        let d = Self::merge_den(&x.d, &y.d, true);
        let n = self.mulp(&x.n, &y.n);
        self.cancel(n, d)
    }
    /// primitive factors: (coefficient with sign, monomial, rest with positive lead)
    fn split(&self, p: &Poly) -> (Rat, Mono, Poly) {
        let (mut c, q) = p.content();
        let m = q.mono_content();
        let mut r = if m.is_empty() { q } else { q.div_mono(&m) };
        if let Some((_, lc)) = r.lead() {
            if lc.n < 0 {
                c = c.neg();
                r = r.neg();
            }
        }
        (c, m, r)
    }
    pub fn invr(&self, a: &Rf) -> N<Rf> {
        if a.n.is_zero() {
            return Err(Stop::Fail("division by zero".into()));
        }
        let (c, m, r) = self.split(&a.n);
        let mut n = Poly::c(c.inv());
        for (f, e) in &a.d {
            for _ in 0..*e {
                n = self.mulp(&n, f);
            }
        }
        let mut d: Vec<(Rc<Poly>, u32)> = m.iter().map(|(x, e)| (Rc::new(Poly::atom(*x)), *e)).collect();
        if r.as_const().is_none() {
            d.push((Rc::new(r), 1));
        }
        d.sort();
        Ok(self.cancel(n, d))
    }
    pub fn powr(&self, a: &Rf, e: i128) -> N<Rf> {
        let b = if e < 0 { self.invr(a)? } else { a.clone() };
        let mut r = Rf::c(Rat::ONE);
        for _ in 0..e.unsigned_abs() {
            r = self.mulr(&r, &b);
        }
        Ok(r)
    }
    pub fn is_zero(&self, a: &Rf) -> bool {
        if a.n.is_zero() {
            return true;
        }
        for z in &self.zeros {
            if a.n.div_exact(z).is_some() {
                return true;
            }
        }
        false
    }

    // ------------------------------------------------------------------ signs
    fn atom_mask(&self, a: u32) -> u8 {
        let at = &self.atoms[a as usize];
        let mut m = if at.pos {
            POS
        } else if at.nonneg {
            POS | ZER
        } else {
            ALL
        };
        if m != POS {
            if let Some(x) = self.masks.get(&pkey(&Poly::atom(a))) {
                m &= x;
            }
            m &= self.bound_mask(&Poly::atom(a));
        }
        if m & ZER != 0 {
            match &at.kind {
                AK::Sqrt(_) | AK::Abs(_) if self.depth_ok() => {
                    let r = at.rule.clone().unwrap();
                    if let AK::Sqrt(_) = at.kind {
                        if self.mask_d(&r, 3) & ZER == 0 {
                            m &= !ZER;
                        }
                    } else if let AK::Abs(k) = &at.kind {
                        let p = Poly { t: k.iter().map(|(m, n, d)| (m.clone(), Rat { n: *n, d: *d })).collect() };
                        if self.mask_d(&p, 3) & ZER == 0 {
                            m &= !ZER;
                        }
                    }
                }
                AK::Fun("acos" , _) => {}
                _ => {}
            }
        }
        m
    }
    fn depth_ok(&self) -> bool {
        true
    }
    fn mono_mask(&self, m: &Mono) -> u8 {
        let mut r = POS;
        for (a, e) in m {
            let mut x = self.atom_mask(*a);
            if e % 2 == 0 {
                x = if x & ZER != 0 { POS | ZER } else { POS };
            }
            r = mul_mask(r, x);
        }
        r
    }
    /// sign of q + k from recorded bounds
    fn bound_mask(&self, p: &Poly) -> u8 {
        let (q, k, s) = match Self::canon_q(p) {
            Some(x) => x,
            None => return ALL,
        };
        let mut m = ALL;
        for b in &self.bounds {
            if b.q == q {
                // sign of (q + k): compare q with -k
                let v = k.neg();
                if let Some((lo, st)) = b.lo {
                    if lo > v {
                        m &= POS;
                    } else if lo == v {
                        m &= if st { POS } else { POS | ZER };
                    }
                }
                if let Some((hi, st)) = b.hi {
                    if hi < v {
                        m &= NEG;
                    } else if hi == v {
                        m &= if st { NEG } else { NEG | ZER };
                    }
                }
                if b.ne.contains(&v) {
                    m &= !ZER;
                }
            }
        }
        if s < 0 {
            neg_mask(m)
        } else {
            m
        }
    }
    /// p = s*c*(q + k) with q constant-free, primitive, positive lead, c > 0
    fn canon_q(p: &Poly) -> Option<(Poly, Rat, i32)> {
        let mut q = p.clone();
        let k = q.t.remove(&vec![]).unwrap_or(Rat::ZERO);
        if q.is_zero() {
            return None;
        }
        let (mut c, mut q) = q.content();
        let mut s = 1;
        if q.lead().unwrap().1.n < 0 {
            q = q.neg();
            c = c.neg();
            s = -1;
        }
        Some((q, k.mul(c.inv()), s))
    }
    fn iv(&self, p: &Poly) -> (f64, f64) {
        let mut lo = 0.0;
        let mut hi = 0.0;
        for (m, c) in &p.t {
            let (mut a, mut b) = (1.0f64, 1.0f64);
            for (x, e) in m {
                let at = &self.atoms[*x as usize];
                let (mut l, mut h) = (at.lo, at.hi);
                for bd in &self.bounds {
                    if bd.q.t.len() == 1 && bd.q.t.keys().next().unwrap().as_slice() == [(*x, 1)] {
                        if let Some((v, _)) = bd.lo {
                            l = l.max(v.n as f64 / v.d as f64);
                        }
                        if let Some((v, _)) = bd.hi {
                            h = h.min(v.n as f64 / v.d as f64);
                        }
                    }
                }
                let (pl, ph) = if e % 2 == 0 {
                    let ml = if l <= 0.0 && h >= 0.0 { 0.0 } else { l.abs().min(h.abs()) };
                    (ml.powi(*e as i32), l.abs().max(h.abs()).powi(*e as i32))
                } else {
                    (l.powi(*e as i32), h.powi(*e as i32))
                };
                let mulz = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
                let c4 = [mulz(a, pl), mulz(a, ph), mulz(b, pl), mulz(b, ph)];
                a = c4.iter().cloned().fold(f64::INFINITY, f64::min);
                b = c4.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            }
            let c = c.n as f64 / c.d as f64;
            let (u, v) = if c >= 0.0 { (a * c, b * c) } else { (b * c, a * c) };
            lo += u;
            hi += v;
        }
        (lo, hi)
    }
    pub fn mask(&self, p: &Poly) -> u8 {
        self.mask_d(p, 0)
    }
    fn mask_d(&self, p: &Poly, depth: u32) -> u8 {
        if let Some(c) = p.as_const() {
            return match c.sign() {
                0 => ZER,
                1 => POS,
                _ => NEG,
            };
        }
        let (c, m, r) = self.split(p);
        let mut out = self.mono_mask(&m);
        if c.n < 0 {
            out = neg_mask(out);
        }
        if r.as_const().is_some() {
            return out;
        }
        let rm = self.mask_prim(&r, depth);
        mul_mask(out, rm)
    }
    fn mask_sum(&self, r: &Poly) -> u8 {
        let mut nonneg = true;
        let mut nonpos = true;
        let mut strict = false;
        for (m, c) in &r.t {
            let mut x = self.mono_mask(m);
            if c.n < 0 {
                x = neg_mask(x);
            }
            nonneg &= x & NEG == 0;
            nonpos &= x & POS == 0;
            strict |= x & ZER == 0;
            if !nonneg && !nonpos {
                break;
            }
        }
        if nonneg {
            return if strict { POS } else { POS | ZER };
        }
        if nonpos {
            return if strict { NEG } else { NEG | ZER };
        }
        ALL
    }
    fn mask_prim(&self, r: &Poly, depth: u32) -> u8 {
        let mut out = ALL;
        if let Some(x) = self.masks.get(&pkey(r)) {
            out &= x;
        }
        out &= self.bound_mask(r);
        if out.count_ones() <= 1 {
            return out;
        }
        out &= self.mask_sum(r);
        let (lo, hi) = self.iv(r);
        if lo > 0.0 {
            out &= POS
        } else if lo == 0.0 {
            out &= POS | ZER
        }
        if hi < 0.0 {
            out &= NEG
        } else if hi == 0.0 {
            out &= NEG | ZER
        }
        if out.count_ones() <= 1 || depth >= 3 {
            return out;
        }
        // p = q^2, or p = (quadratic form) complete square in one atom
        if let Some(s) = r.sqrt_exact() {
            out &= if self.mask_d(&s, depth + 1) & ZER == 0 { POS } else { POS | ZER };
        }
        // sum of squares of linear-ish parts: peel (a_i + b)^2 once per atom
        if depth < 2 && out & NEG != 0 && out & POS != 0 && r.t.len() <= 40 {
            if let Some(m) = self.peel_squares(r, 0) {
                out &= m;
            }
        }
        // A*sqrt(E) + B with A and B of opposite signs: compare the squares
        if depth < 2 && r.t.len() <= 40 && out.count_ones() > 1 {
            for q in r.atoms() {
                if let Some((d, flip, both)) = self.square_up(r, q, depth) {
                    let mut m = if d.is_zero() { ZER } else { self.mask_d(&d, depth + 1) };
                    if !both {
                        // the root part dominates whatever the sign of the rest
                        m = match m {
                            POS => POS,
                            ZER => POS | ZER,
                            x if x & NEG == 0 => POS | ZER,
                            _ => ALL,
                        };
                    }
                    out &= if flip { neg_mask(m) } else { m };
                    if out.count_ones() <= 1 {
                        return out;
                    }
                }
            }
        }
        // factor by recorded facts
        let facts: Vec<Poly> = self
            .bounds
            .iter()
            .filter(|b| b.q.t.len() > 1 || b.lo.is_some() || b.hi.is_some())
            .flat_map(|b| {
                let mut v = vec![];
                for l in [b.lo, b.hi].into_iter().flatten() {
                    let mut q = b.q.clone();
                    q.add_term(vec![], l.0.neg());
                    v.push(q);
                }
                v
            })
            .collect();
        if depth < 2 {
            for f in &facts {
                if out.count_ones() <= 1 {
                    break;
                }
                if f.t.len() > 1 && r.t.len() >= f.t.len() {
                    if let Some(q) = r.div_exact(f) {
                        if q.as_const().is_none() {
                            let a = self.mask_d(f, depth + 1);
                            let b = self.mask_d(&q, depth + 1);
                            out &= mul_mask(a, b);
                        }
                    }
                }
            }
            // r = c*f + rest with c of the sign that matches
            for f in &facts {
                if out.count_ones() <= 1 {
                    break;
                }
                let fm = self.mask_known(f);
                if fm == ALL {
                    continue;
                }
                for (m, fc) in f.t.iter().take(6) {
                    if m.is_empty() {
                        continue;
                    }
                    if let Some(rc) = r.t.get(m) {
                        let k = rc.mul(fc.inv());
                        let rest = r.sub(&f.scale(k));
                        let x = if k.n > 0 { fm } else { neg_mask(fm) };
                        let y = if rest.is_zero() { ZER } else { self.mask_rest(&rest, depth) };
                        let s = add_mask(x, y);
                        out &= s;
                    }
                }
            }
        }
        out
    }
    /// r = A*q + B, q a root, A >= 0 >= B (or reversed: flip): sign(r) = sign(A^2 q^2 - B^2)
    fn square_up(&self, r: &Poly, q: u32, depth: u32) -> Option<(Poly, bool, bool)> {
        let at = &self.atoms[q as usize];
        if !matches!(at.kind, AK::Sqrt(_) | AK::Abs(_)) {
            return None;
        }
        let (mut a, mut b) = (Poly::zero(), Poly::zero());
        for (m, k) in &r.t {
            match m.iter().find(|y| y.0 == q).map(|y| y.1) {
                None => b.add_term(m.clone(), *k),
                Some(1) => a.add_term(m.iter().copied().filter(|y| y.0 != q).collect(), *k),
                _ => return None,
            }
        }
        if a.is_zero() || b.is_zero() {
            return None;
        }
        let (ma, mb) = (self.mask_d(&a, depth + 1), self.mask_d(&b, depth + 1));
        let (flip, both) = if ma & NEG == 0 {
            (false, mb & POS == 0)
        } else if ma & POS == 0 {
            (true, mb & NEG == 0)
        } else {
            return None;
        };
        let e = at.rule.clone()?;
        let a2 = self.reduce(a.mul_raw(&a));
        Some((self.reduce(a2.mul_raw(&e)).sub(&self.reduce(b.mul_raw(&b))), flip, both))
    }
    fn mask_rest(&self, p: &Poly, depth: u32) -> u8 {
        self.mask_d(p, depth.max(1) + 1)
    }
    fn mask_known(&self, f: &Poly) -> u8 {
        let mut m = self.bound_mask(f);
        if let Some(x) = self.masks.get(&pkey(f)) {
            m &= x;
        }
        m
    }
    /// a*x^2 + b*x + c = a (x + b/2a)^2 + (c - b^2/4a): nonneg when a > 0 const and the rest is
    fn peel_squares(&self, r: &Poly, lvl: u32) -> Option<u8> {
        if lvl > 4 {
            return None;
        }
        let ms = self.mask_sum(r);
        if ms & NEG == 0 {
            return Some(ms);
        }
        for x in r.atoms() {
            let mut a = Rat::ZERO;
            let mut b = Poly::zero();
            let mut c = Poly::zero();
            let mut ok = true;
            for (m, k) in &r.t {
                match m.iter().find(|y| y.0 == x).map(|y| y.1) {
                    None => c.add_term(m.clone(), *k),
                    Some(1) => b.add_term(m.iter().copied().filter(|y| y.0 != x).collect(), *k),
                    Some(2) if m.len() == 1 => a = *k,
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok || a.n <= 0 || b.is_zero() {
                continue;
            }
            let rest = c.sub(&b.mul_raw(&b).scale(a.mul(Rat::int(4)).inv()));
            if rest.is_zero() {
                return Some(POS | ZER);
            }
            if rest.t.len() > 60 {
                continue;
            }
            if let Some(m) = self.peel_squares(&rest, lvl + 1) {
                if m & NEG == 0 {
                    return Some(m);
                }
            }
            return None;
        }
        None
    }
    fn add_bound(&mut self, p: &Poly, mask: u8) {
        if let Some((q, k, s)) = Self::canon_q(p) {
            let mask = if s < 0 { neg_mask(mask) } else { mask };
            let v = k.neg();
            let i = match self.bounds.iter().position(|b| b.q == q) {
                Some(i) => i,
                None => {
                    self.bounds.push(Bound { q, lo: None, hi: None, ne: vec![] });
                    self.bounds.len() - 1
                }
            };
            let b = &mut self.bounds[i];
            let strict = mask & ZER == 0;
            if mask & NEG == 0 {
                let better = match b.lo {
                    None => true,
                    Some((l, st)) => v > l || (v == l && strict && !st),
                };
                if better {
                    b.lo = Some((v, strict));
                }
            }
            if mask & POS == 0 {
                let better = match b.hi {
                    None => true,
                    Some((h, st)) => v < h || (v == h && strict && !st),
                };
                if better {
                    b.hi = Some((v, strict));
                }
            }
            if strict && mask == (NEG | POS) {
                b.ne.push(v);
            }
        }
    }

    // ------------------------------------------------------------- functions
    fn rat_sqrt(&mut self, c: Rat) -> Rf {
        // sqrt(n/d) = sqrt(n*d)/d
        let n = match c.n.checked_mul(c.d) {
            Some(n) => n,
            None => {
                OVERFLOW.with(|o| o.set(true));
                return Rf::c(Rat::ONE);
            }
        };
        let mut out = Rat::new(1, c.d);
        let mut p = Poly::one();
        let mut m = n;
        let mut f = 2i128;
        while f * f <= m && f < 100_000 {
            let mut e = 0;
            while m % f == 0 {
                m /= f;
                e += 1;
            }
            for _ in 0..e / 2 {
                out = out.mul(Rat::int(f));
            }
            if e % 2 == 1 {
                let a = self.atom(AK::Prime(f), vec![]);
                p = p.mul_raw(&Poly::atom(a));
            }
            f += 1;
        }
        if m > 1 {
            let s = isqrt(m);
            if s * s == m {
                out = out.mul(Rat::int(s));
            } else {
                let a = self.atom(AK::Prime(m), vec![]);
                p = p.mul_raw(&Poly::atom(a));
            }
        }
        Rf::p(p.scale(out))
    }
    fn abs_poly(&mut self, p: &Poly) -> N<Rf> {
        let (c, m, r) = self.split(p);
        let c = if c.n < 0 { c.neg() } else { c };
        let mut out = Rf::c(c);
        for (a, e) in m {
            let base = Poly::atom(a);
            let f = if e % 2 == 0 {
                Poly::one()
            } else {
                let k = self.atom_mask(a);
                if k & NEG == 0 {
                    base.clone()
                } else if k & POS == 0 {
                    base.neg()
                } else {
                    self.abs_atom(&base)?
                }
            };
            let even = self.powp(&base, e - e % 2);
            out = self.mulr(&out, &Rf::p(self.mulp(&f, &even)));
        }
        if r.as_const().is_none() {
            let k = self.mask(&r);
            let f = if k & NEG == 0 {
                r
            } else if k & POS == 0 {
                r.neg()
            } else {
                self.abs_atom(&r)?
            };
            out = self.mulr(&out, &Rf::p(f));
        }
        Ok(out)
    }
    fn abs_atom(&mut self, p: &Poly) -> N<Poly> {
        if self.split_abs {
            return Err(Stop::Split(Cond::Sign(p.clone(), POS | ZER)));
        }
        let a = self.atom(AK::Abs(pkey(p)), vec![Rf::p(p.clone())]);
        Ok(Poly::atom(a))
    }
    pub fn absr(&mut self, x: &Rf) -> N<Rf> {
        let mut out = self.abs_poly(&x.n)?;
        for (f, e) in &x.d {
            let g = if e % 2 == 0 { Rf::p((**f).clone()) } else { self.abs_poly(f)? };
            let g = self.powr(&g, *e as i128)?;
            out = self.mulr(&out, &self.invr(&g)?);
        }
        Ok(out)
    }
    fn sqrt_poly(&mut self, p: &Poly) -> N<Rf> {
        let (c, mut q) = p.content();
        let mut out = self.rat_sqrt(c);
        let m = q.mono_content();
        if !m.is_empty() {
            let mut take: Mono = vec![];
            for (a, e) in m {
                let k = e / 2;
                if k > 0 {
                    let ab = self.abs_poly(&Poly::atom(a))?;
                    let f = self.powr(&ab, k as i128)?;
                    out = self.mulr(&out, &f);
                    take.push((a, 2 * k));
                }
                if e % 2 == 1 && self.atom_mask(a) & NEG == 0 {
                    let s = self.sqrt_atom(&Poly::atom(a))?;
                    out = self.mulr(&out, &s);
                    match take.last_mut() {
                        Some(t) if t.0 == a => t.1 += 1,
                        _ => take.push((a, 1)),
                    }
                }
            }
            q = q.div_mono(&take);
        }
        let s = self.sqrt_rest(q, 0)?;
        Ok(self.mulr(&out, &s))
    }
    fn sqrt_rest(&mut self, mut r: Poly, lvl: u32) -> N<Rf> {
        let mut out = Rf::c(Rat::ONE);
        if let Some(c) = r.as_const() {
            if c.n < 0 {
                return Err(Stop::Fail("square root of a negative constant".into()));
            }
            return Ok(self.rat_sqrt(c));
        }
        if r.t.len() > 1 {
            if let Some(s) = r.sqrt_exact() {
                return self.abs_poly(&s);
            }
            // divide by the squares of known atoms, small ones first
            let mut cands: Vec<(usize, u32, Poly)> = vec![];
            let ra = r.atoms();
            for a in 0..self.atoms.len() as u32 {
                if let Some(ru) = self.rule(a) {
                    if matches!(self.atoms[a as usize].kind, AK::Prime(_) | AK::Abs(_)) {
                        continue;
                    }
                    if ru.t.len() > 1 && ru.t.len() <= r.t.len() && ru.atoms().is_subset(&ra) {
                        cands.push((ru.t.len(), a, ru.clone()));
                    }
                }
            }
            cands.sort_by_key(|x| (x.0, x.1));
            for (_, a, ru) in cands {
                if let AK::Sqrt(_) = self.atoms[a as usize].kind {
                    if ru == r && !self.stale.contains(&a) {
                        return Ok(Rf::p(Poly::atom(a)));
                    }
                    if ru == r {
                        continue;
                    }
                }
                if let Some(q) = r.div_exact(&ru) {
                    let ab = self.abs_poly(&Poly::atom(a))?;
                    out = self.mulr(&out, &ab);
                    r = q;
                    if lvl < 8 {
                        let (c, q) = r.content();
                        let cs = self.rat_sqrt(c);
                        out = self.mulr(&out, &cs);
                        if q.mono_content().is_empty() {
                            let s = self.sqrt_rest(q, lvl + 1)?;
                            return Ok(self.mulr(&out, &s));
                        }
                        let s = self.sqrt_poly(&q)?;
                        return Ok(self.mulr(&out, &s));
                    }
                }
            }
        }
        let s = self.sqrt_atom(&r)?;
        Ok(self.mulr(&out, &s))
    }
    fn sqrt_atom(&mut self, r: &Poly) -> N<Rf> {
        let k = AK::Sqrt(pkey(r));
        let fresh = !self.keys.contains_key(&k);
        let a = self.atom(k, vec![Rf::p(r.clone())]);
        if fresh && r.t.len() > 1 {
            let mut hit = false;
            for b in 0..self.atoms.len() as u32 {
                if b != a && !self.stale.contains(&b) {
                    if let AK::Sqrt(_) = self.atoms[b as usize].kind {
                        let p = self.atoms[b as usize].rule.clone().unwrap();
                        if p.t.len() > r.t.len() && p.div_exact(r).is_some() {
                            self.stale.insert(b);
                            hit = true;
                        }
                    }
                }
            }
            if hit {
                return Err(Stop::Restart);
            }
        }
        Ok(Rf::p(Poly::atom(a)))
    }
    pub fn sqrtr(&mut self, x: &Rf) -> N<Rf> {
        if x.n.is_zero() {
            return Ok(x.clone());
        }
        let mut n = x.n.clone();
        let mut den = Rf::c(Rat::ONE);
        for (f, e) in &x.d {
            let k = if e % 2 == 1 {
                n = self.mulp(&n, f);
                (e + 1) / 2
            } else {
                e / 2
            };
            let g = if k % 2 == 0 { Rf::p((**f).clone()) } else { self.abs_poly(f)? };
            let g = self.powr(&g, k as i128)?;
            den = self.mulr(&den, &g);
        }
        let s = self.sqrt_poly(&n)?;
        Ok(self.mulr(&s, &self.invr(&den)?))
    }
    /// linear decomposition: (base, coefficient)
    fn lin(&self, x: &Rf) -> Vec<(Rf, Rat)> {
        let mut v = vec![];
        for (m, c) in &x.n.t {
            let b = self.cancel(Poly::mono(m.clone(), Rat::ONE), x.d.clone());
            // cancel may leave a constant
            let (k, p) = b.n.content();
            v.push((Rf { n: p, d: b.d }, c.mul(k)));
        }
        v
    }
    fn unit_cs(&mut self, b: &Rf, q: i128) -> N<(Rf, Rf)> {
        let one = Rf::c(Rat::ONE);
        if b.d.is_empty() && b.n.t.len() == 1 {
            let (m, _) = b.n.t.iter().next().unwrap();
            if m.len() == 1 && m[0].1 == 1 && (q & (q - 1)) == 0 && q <= 8 {
                let at = self.atoms[m[0].0 as usize].clone();
                if let AK::Fun(name, _) = at.kind {
                    let cs = match name {
                        "acos" => {
                            let x = at.args[0].clone();
                            let y = self.subr(&one, &self.mulr(&x, &x));
                            Some((x, self.sqrtr(&y)?))
                        }
                        "asin" => {
                            let x = at.args[0].clone();
                            let y = self.subr(&one, &self.mulr(&x, &x));
                            Some((self.sqrtr(&y)?, x))
                        }
                        "atan" => {
                            let x = at.args[0].clone();
                            let y = self.addr(&one, &self.mulr(&x, &x));
                            let r = self.sqrtr(&y)?;
                            let i = self.invr(&r)?;
                            Some((i.clone(), self.mulr(&x, &i)))
                        }
                        "atan2" => {
                            let (y, x) = (at.args[0].clone(), at.args[1].clone());
                            let r2 = self.addr(&self.mulr(&x, &x), &self.mulr(&y, &y));
                            let r = self.sqrtr(&r2)?;
                            let i = self.invr(&r)?;
                            Some((self.mulr(&x, &i), self.mulr(&y, &i)))
                        }
                        _ => None,
                    };
                    if let Some((mut c, mut s)) = cs {
                        let mut k = 1;
                        while k < q {
                            let h = self.mulr(&self.addr(&one, &c), &Rf::c(Rat::new(1, 2)));
                            let nc = self.sqrtr(&h)?;
                            let d = self.invr(&self.mulr(&nc, &Rf::c(Rat::int(2))))?;
                            s = self.mulr(&s, &d);
                            c = nc;
                            k *= 2;
                        }
                        return Ok((c, s));
                    }
                }
            }
        }
        let c = self.atom(AK::Cos(rkey(b), q), vec![b.clone()]);
        let s = self.atom(AK::Sin(rkey(b), q), vec![b.clone()]);
        Ok((Rf::p(Poly::atom(c)), Rf::p(Poly::atom(s))))
    }
    fn pi_cs(&mut self, k: Rat) -> N<Option<(Rf, Rf)>> {
        // cos, sin of k*pi for multiples of 1/12 without 1/12 and 5/12 family, i.e. k*12 in table
        let k24 = k.mul(Rat::int(12));
        if k24.d != 1 {
            return Ok(None);
        }
        let mut i = k24.n.rem_euclid(24);
        let h = Rat::new(1, 2);
        let s2 = self.rat_sqrt(Rat::new(1, 2));
        let s3 = self.rat_sqrt(Rat::new(3, 4));
        let mut sgn_s = 1i128;
        if i > 12 {
            i = 24 - i;
            sgn_s = -1;
        }
        let mut sgn_c = 1i128;
        if i > 6 {
            i = 12 - i;
            sgn_c = -1;
        }
        let (c, s) = match i {
            0 => (Rf::c(Rat::ONE), Rf::c(Rat::ZERO)),
            2 => (s3, Rf::c(h)),
            3 => (s2.clone(), s2),
            4 => (Rf::c(h), s3),
            6 => (Rf::c(Rat::ZERO), Rf::c(Rat::ONE)),
            _ => return Ok(None),
        };
        let c = self.mulr(&c, &Rf::c(Rat::int(sgn_c)));
        let s = self.mulr(&s, &Rf::c(Rat::int(sgn_s)));
        Ok(Some((c, s)))
    }
    pub fn cs(&mut self, x: &Rf) -> N<(Rf, Rf)> {
        let mut c = Rf::c(Rat::ONE);
        let mut s = Rf::c(Rat::ZERO);
        for (b, k) in self.lin(x) {
            let pi = self.atom(AK::Konst("pi"), vec![]);
            let (bc, bs);
            if b.d.is_empty() && b.n == Poly::atom(pi) {
                if let Some((u, v)) = self.pi_cs(k)? {
                    bc = u;
                    bs = v;
                    let nc = self.subr(&self.mulr(&c, &bc), &self.mulr(&s, &bs));
                    let ns = self.addr(&self.mulr(&s, &bc), &self.mulr(&c, &bs));
                    c = nc;
                    s = ns;
                    continue;
                }
            }
            let key = rkey(&b);
            let q0 = self.trig_q.get(&key).copied();
            let q = match q0 {
                None => {
                    self.trig_q.insert(key.clone(), k.d);
                    k.d
                }
                Some(q) if q % k.d == 0 => q,
                Some(q) => {
                    let l = lcm(q, k.d);
                    if l > MAXDEN {
                        return Err(Stop::Fail("angle denominators".into()));
                    }
                    self.trig_q.insert(key.clone(), l);
                    return Err(Stop::Restart);
                }
            };
            let n = k.n * (q / k.d);
            if n.abs() > 64 {
                return Err(Stop::Fail("angle multiple too large".into()));
            }
            let (uc, us) = self.unit_cs(&b, q)?;
            let (mut pc, mut ps) = (Rf::c(Rat::ONE), Rf::c(Rat::ZERO));
            for _ in 0..n.abs() {
                let a = self.subr(&self.mulr(&pc, &uc), &self.mulr(&ps, &us));
                let d = self.addr(&self.mulr(&ps, &uc), &self.mulr(&pc, &us));
                pc = a;
                ps = d;
            }
            if n < 0 {
                ps = self.negr(&ps);
            }
            let nc = self.subr(&self.mulr(&c, &pc), &self.mulr(&s, &ps));
            let ns = self.addr(&self.mulr(&s, &pc), &self.mulr(&c, &ps));
            c = nc;
            s = ns;
            self.chk()?;
        }
        Ok((c, s))
    }
    pub fn expr(&mut self, x: &Rf) -> N<Rf> {
        let mut out = Rf::c(Rat::ONE);
        for (b, k) in self.lin(x) {
            // exp(k ln y) = y^k
            if b.d.is_empty() && b.n.t.len() == 1 && k.d <= 2 {
                let (m, _) = b.n.t.iter().next().unwrap();
                if m.len() == 1 && m[0].1 == 1 {
                    let at = self.atoms[m[0].0 as usize].clone();
                    if let AK::Fun("lnabs", _) = at.kind {
                        let y = self.absr(&at.args[0])?;
                        let y = if k.d == 2 { self.sqrtr(&y)? } else { y };
                        let f = self.powr(&y, k.n)?;
                        out = self.mulr(&out, &f);
                        continue;
                    }
                }
            }
            let key = rkey(&b);
            let q = match self.exp_q.get(&key).copied() {
                None => {
                    self.exp_q.insert(key.clone(), k.d);
                    k.d
                }
                Some(q) if q % k.d == 0 => q,
                Some(q) => {
                    let l = lcm(q, k.d);
                    if l > MAXDEN {
                        return Err(Stop::Fail("exponent denominators".into()));
                    }
                    self.exp_q.insert(key.clone(), l);
                    return Err(Stop::Restart);
                }
            };
            let n = k.n * (q / k.d);
            if n.abs() > 64 {
                return Err(Stop::Fail("exponent too large".into()));
            }
            let a = if q == 1 && b.as_const().is_some() {
                self.atom(AK::Konst("e"), vec![])
            } else {
                self.atom(AK::Exp(key, q), vec![b.clone()])
            };
            let f = self.powr(&Rf::p(Poly::atom(a)), n)?;
            out = self.mulr(&out, &f);
        }
        Ok(out)
    }
    fn ln_poly(&mut self, p: &Poly) -> N<Rf> {
        let (c, m, r) = self.split(p);
        let mut out = Rf::c(Rat::ZERO);
        for (mut v, sg) in [(c.n.abs(), 1i128), (c.d, -1)] {
            let mut f = 2;
            while f * f <= v && f < 100_000 {
                while v % f == 0 {
                    v /= f;
                    let a = self.fun_atom("lnabs", vec![Rf::c(Rat::int(f))])?;
                    out = self.addr(&out, &Rf::p(Poly::atom(a).scale(Rat::int(sg))));
                }
                f += 1;
            }
            if v > 1 {
                let a = self.fun_atom("lnabs", vec![Rf::c(Rat::int(v))])?;
                out = self.addr(&out, &Rf::p(Poly::atom(a).scale(Rat::int(sg))));
            }
        }
        for (a, e) in m {
            let at = self.atoms[a as usize].clone();
            let v = match &at.kind {
                AK::Exp(_, q) => self.mulr(&at.args[0], &Rf::c(Rat::new(1, *q))),
                AK::Konst("e") => Rf::c(Rat::ONE),
                AK::Sqrt(_) => {
                    let l = self.ln_poly(&at.rule.clone().unwrap())?;
                    self.mulr(&l, &Rf::c(Rat::new(1, 2)))
                }
                AK::Abs(_) => {
                    let x = at.args[0].n.clone();
                    self.ln_poly(&x)?
                }
                AK::Prime(p) => {
                    let l = self.ln_poly(&Poly::c(Rat::int(*p)))?;
                    self.mulr(&l, &Rf::c(Rat::new(1, 2)))
                }
                _ => {
                    let l = self.fun_atom("lnabs", vec![Rf::p(Poly::atom(a))])?;
                    Rf::p(Poly::atom(l))
                }
            };
            out = self.addr(&out, &self.mulr(&v, &Rf::c(Rat::int(e as i128))));
        }
        if r.as_const().is_none() {
            let l = self.fun_atom("lnabs", vec![Rf::p(r)])?;
            out = self.addr(&out, &Rf::p(Poly::atom(l)));
        }
        Ok(out)
    }
    fn lnr(&mut self, x: &Rf) -> N<Rf> {
        if x.n.is_zero() {
            return Err(Stop::Fail("logarithm of zero".into()));
        }
        let mut out = self.ln_poly(&x.n)?;
        for (f, e) in &x.d {
            let l = self.ln_poly(f)?;
            out = self.subr(&out, &self.mulr(&l, &Rf::c(Rat::int(*e as i128))));
        }
        Ok(out)
    }
    fn pi(&mut self, k: Rat) -> Rf {
        let a = self.atom(AK::Konst("pi"), vec![]);
        Rf::p(Poly::atom(a).scale(k))
    }
    fn neg_lead(&self, x: &Rf) -> bool {
        x.n.lead().map(|l| l.1.n < 0).unwrap_or(false)
    }
    fn rf_mask(&self, x: &Rf) -> u8 {
        let mut m = self.mask(&x.n);
        for (f, e) in &x.d {
            if e % 2 == 1 {
                let k = self.mask(f) & !ZER;
                m = mul_mask(m, if k == 0 { NEG | POS } else { k });
            }
        }
        m
    }
    fn inverse_trig(&mut self, name: &'static str, x: &Rf) -> N<Rf> {
        if self.neg_lead(x) {
            let y = self.inverse_trig(name, &self.negr(x))?;
            let pi = self.pi(Rat::ONE);
            return Ok(if name == "acos" { self.subr(&pi, &y) } else { self.negr(&y) });
        }
        if let Some(c) = x.as_const() {
            let t = match (name, c.n, c.d) {
                ("asin" | "atan", 0, 1) | ("acos", 1, 1) => Some(Rat::ZERO),
                ("asin", 1, 1) | ("acos", 0, 1) => Some(Rat::new(1, 2)),
                ("asin", 1, 2) => Some(Rat::new(1, 6)),
                ("acos", 1, 2) => Some(Rat::new(1, 3)),
                ("atan", 1, 1) => Some(Rat::new(1, 4)),
                _ => None,
            };
            if let Some(t) = t {
                return Ok(if t.is_zero() { Rf::c(t) } else { self.pi(t) });
            }
        }
        // inverse of the function on its principal range
        if x.d.is_empty() && x.n.t.len() == 1 && x.n.t.values().next() == Some(&Rat::ONE) {
            let m = x.n.t.keys().next().unwrap().clone();
            if m.len() == 1 && m[0].1 == 1 {
                let at = self.atoms[m[0].0 as usize].clone();
                match (&at.kind, name) {
                    (AK::Cos(_, q), "acos") => {
                        let v = self.mulr(&at.args[0], &Rf::c(Rat::new(1, *q)));
                        let pi = self.pi(Rat::ONE);
                        let up = self.subr(&pi, &v);
                        if self.rf_mask(&v) & NEG == 0 && self.rf_mask(&up) & NEG == 0 {
                            return Ok(v);
                        }
                    }
                    (AK::Sin(_, q), "asin") => {
                        let v = self.mulr(&at.args[0], &Rf::c(Rat::new(1, *q)));
                        let h = self.pi(Rat::new(1, 2));
                        let up = self.subr(&h, &v);
                        let dn = self.addr(&h, &v);
                        if self.rf_mask(&up) & NEG == 0 && self.rf_mask(&dn) & NEG == 0 {
                            return Ok(v);
                        }
                    }
                    _ => {}
                }
            }
        }
        let a = self.fun_atom(name, vec![x.clone()])?;
        Ok(Rf::p(Poly::atom(a)))
    }
    fn atan2r(&mut self, y: &Rf, x: &Rf) -> N<Rf> {
        if y.is_zero() {
            let k = self.rf_mask(x);
            if k == POS {
                return Ok(Rf::c(Rat::ZERO));
            }
            if k == NEG {
                return Ok(self.pi(Rat::ONE));
            }
        }
        if x.is_zero() {
            let k = self.rf_mask(y);
            if k == POS {
                return Ok(self.pi(Rat::new(1, 2)));
            }
            if k == NEG {
                return Ok(self.pi(Rat::new(-1, 2)));
            }
        }
        // on the upper (lower) unit half circle the angle is the (negated) arccosine
        if y.as_const().is_none() && x.as_const().is_none() {
            let r2 = self.addr(&self.mulr(x, x), &self.mulr(y, y));
            if r2.as_const() == Some(Rat::ONE) {
                let k = self.rf_mask(y);
                if k & NEG == 0 {
                    return self.inverse_trig("acos", x);
                }
                if k & POS == 0 {
                    let a = self.inverse_trig("acos", x)?;
                    return Ok(self.negr(&a));
                }
            }
        }
        // common positive factors
        let d = Self::merge_den(&y.d, &x.d, false);
        let (mut ny, mut nx) = (self.lift(y, &d), self.lift(x, &d));
        let mut neg = false;
        for (f, e) in &d {
            if e % 2 == 1 {
                match self.mask(f) & !ZER {
                    POS => {}
                    NEG => neg = !neg,
                    _ => {
                        ny = self.mulp(&ny, f);
                        nx = self.mulp(&nx, f);
                    }
                }
            }
        }
        if neg {
            ny = ny.neg();
            nx = nx.neg();
        }
        if !ny.is_zero() && !nx.is_zero() {
            let (cy, my, ry) = self.split(&ny);
            let (cx, mx, rx) = self.split(&nx);
            let mut cyy = cy;
            let mut cxx = cx;
            let g = Rat::new(gcd(cy.n, cx.n).max(1), lcm(cy.d, cx.d));
            cyy = cyy.mul(g.inv());
            cxx = cxx.mul(g.inv());
            let (mut my2, mut mx2): (Mono, Mono) = (my.clone(), mx.clone());
            let mut sg = 1;
            for (a, e) in &my {
                if let Some((_, f)) = mx.iter().find(|z| z.0 == *a) {
                    let mut k = (*e).min(*f);
                    let am = self.atom_mask(*a) & !ZER;
                    if am != POS && am != NEG {
                        k -= k % 2;
                    }
                    if am == NEG && k % 2 == 1 {
                        sg = -sg;
                    }
                    let dec = |m: &mut Mono| {
                        for z in m.iter_mut() {
                            if z.0 == *a {
                                z.1 -= k
                            }
                        }
                        m.retain(|z| z.1 > 0);
                    };
                    dec(&mut my2);
                    dec(&mut mx2);
                }
            }
            let (mut ry, mut rx) = (ry, rx);
            // common polynomial factor of known sign
            let try_div = |nf: &Nf, a: &Poly, b: &Poly| -> Option<(Poly, i32)> {
                if b.t.len() < 2 {
                    return None;
                }
                let q = a.div_exact(b)?;
                match nf.mask(b) & !ZER {
                    POS => Some((q, 1)),
                    NEG => Some((q, -1)),
                    _ => None,
                }
            };
            if let Some((q, s)) = try_div(self, &ry, &rx) {
                ry = q;
                rx = Poly::one();
                sg *= s;
            } else if let Some((q, s)) = try_div(self, &rx, &ry) {
                rx = q;
                ry = Poly::one();
                sg *= s;
            }
            let fin = |c: Rat, m: Mono, r: Poly| self.mulp(&Poly::mono(m, c), &r);
            ny = fin(cyy, my2, ry);
            nx = fin(cxx, mx2, rx);
            if sg < 0 {
                ny = ny.neg();
                nx = nx.neg();
            }
        }
        // atan2(sin b, cos b) on the principal range
        if ny.t.len() == 1 && nx.t.len() == 1 {
            let (my, cy) = ny.t.iter().next().map(|(m, c)| (m.clone(), *c)).unwrap();
            let (mx, cx) = nx.t.iter().next().map(|(m, c)| (m.clone(), *c)).unwrap();
            if my.len() == 1 && mx.len() == 1 && my[0].1 == 1 && mx[0].1 == 1 && cx == Rat::ONE && (cy == Rat::ONE || cy == Rat::int(-1)) {
                let (sa, ca) = (self.atoms[my[0].0 as usize].clone(), self.atoms[mx[0].0 as usize].clone());
                if let (AK::Sin(b1, q1), AK::Cos(b2, q2)) = (&sa.kind, &ca.kind) {
                    if b1 == b2 && q1 == q2 {
                        let v = self.mulr(&sa.args[0], &Rf::c(Rat::new(1, *q1)));
                        let p = self.pi(Rat::ONE);
                        let up = self.subr(&p, &v);
                        let dn = self.addr(&p, &v);
                        if self.rf_mask(&up) == POS && self.rf_mask(&dn) == POS {
                            return Ok(self.mulr(&v, &Rf::c(cy)));
                        }
                    }
                }
            }
        }
        if let (Some(c), Some(d)) = (ny.as_const(), nx.as_const()) {
            let t = match ((c.n, c.d), (d.n, d.d)) {
                ((1, 1), (1, 1)) => Some(Rat::new(1, 4)),
                ((-1, 1), (1, 1)) => Some(Rat::new(-1, 4)),
                ((1, 1), (-1, 1)) => Some(Rat::new(3, 4)),
                ((-1, 1), (-1, 1)) => Some(Rat::new(-3, 4)),
                _ => None,
            };
            if let Some(t) = t {
                return Ok(self.pi(t));
            }
        }
        // odd in y
        let flip = ny.lead().map(|l| l.1.n < 0).unwrap_or(false);
        let yy = if flip { ny.neg() } else { ny };
        let a = self.fun_atom("atan2", vec![Rf::p(yy), Rf::p(nx)])?;
        let r = Rf::p(Poly::atom(a));
        Ok(if flip { self.negr(&r) } else { r })
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&mut self, id: Id) -> N<Rf> {
        if let Some(r) = self.memo.get(&id) {
            return Ok(r.clone());
        }
        self.steps += 1;
        if self.steps % 64 == 0 {
            self.chk()?;
        }
        let r = match self.ar.n(id).clone() {
            Node::Sym(k, s) => match self.over.get(&k) {
                Some(v) => v.clone(),
                None => {
                    let a = self.atom(AK::Sym(k), vec![]);
                    if let Sort::Int { signed: false, .. } = s {
                        self.atoms[a as usize].nonneg = true;
                        self.atoms[a as usize].lo = 0.0;
                    }
                    Rf::p(Poly::atom(a))
                }
            },
            Node::Rat(p, q) => Rf::c(Rat::new(p, q)),
            Node::Int(v, _) => Rf::c(Rat::int(v)),
            Node::Konst(k) => {
                let a = self.atom(AK::Konst(k), vec![]);
                Rf::p(Poly::atom(a))
            }
            Node::KBits(b) => {
                let a = self.atom(AK::Bits(b), vec![]);
                Rf::p(Poly::atom(a))
            }
            Node::Inf => {
                let a = self.atom(AK::Konst("inf"), vec![]);
                Rf::p(Poly::atom(a))
            }
            Node::NaN => {
                let a = self.atom(AK::Konst("nan"), vec![]);
                Rf::p(Poly::atom(a))
            }
            Node::Bool(b) => Rf::c(Rat::int(b as i128)),
            Node::Cmp(..) | Node::Not(_) => Rf::c(Rat::int(self.evalb(id)? as i128)),
            Node::Neg(a) => {
                let x = self.eval(a)?;
                self.negr(&x)
            }
            Node::Bin(op, a, b) => {
                let x = self.eval(a)?;
                let y = self.eval(b)?;
                let real = self.ar.sort(a) == Sort::Real;
                match op {
                    BOp::Add => self.addr(&x, &y),
                    BOp::Sub => self.subr(&x, &y),
                    BOp::Mul => self.mulr(&x, &y),
                    BOp::Div if real => {
                        if self.is_zero(&y) {
                            // an infinite or undefined value: opaque, keyed by its numerator
                            let f = self.fun_atom("divzero", vec![x])?;
                            Rf::p(Poly::atom(f))
                        } else {
                            self.mulr(&x, &self.invr(&y)?)
                        }
                    }
                    BOp::Rem if real && !self.is_zero(&y) => {
                        let q = self.mulr(&x, &self.invr(&y)?);
                        let t = self.rounding("trunc", q)?;
                        self.subr(&x, &self.mulr(&y, &t))
                    }
                    _ => {
                        if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) {
                            if p.d == 1 && q.d == 1 {
                                let s = self.ar.sort(a);
                                let i = self.ar.int(p.n, s);
                                let j = self.ar.int(q.n, s);
                                let r = self.ar.bin(op, i, j);
                                if let Some(v) = self.ar.as_int(r) {
                                    return Ok(Rf::c(Rat::int(v)));
                                }
                            }
                        }
                        let name = intern_str(&format!("op{:?}", op));
                        let f = self.fun_atom(name, vec![x, y])?;
                        Rf::p(Poly::atom(f))
                    }
                }
            }
            Node::Ite(c, a, b) => {
                if self.ar.sort(a) == Sort::Bool {
                    Rf::c(Rat::int(self.evalb(id)? as i128))
                } else if self.evalb(c)? {
                    self.eval(a)?
                } else {
                    self.eval(b)?
                }
            }
            Node::Fun(f, args, s) => {
                if s == Sort::Bool {
                    Rf::c(Rat::int(self.evalb(id)? as i128))
                } else {
                    let mut xs = vec![];
                    for a in args {
                        xs.push(self.eval(a)?);
                    }
                    self.fun(f, xs)?
                }
            }
        };
        self.memo.insert(id, r.clone());
        Ok(r)
    }
    fn rounding(&mut self, f: &'static str, x: Rf) -> N<Rf> {
        if let Some(c) = x.as_const() {
            let fl = c.n.div_euclid(c.d);
            let v = match f {
                "floor" => fl,
                "ceil" => -((-c.n).div_euclid(c.d)),
                "trunc" => c.n / c.d,
                "round" => {
                    let a = (2 * c.n.abs() + c.d) / (2 * c.d);
                    if c.n < 0 {
                        -a
                    } else {
                        a
                    }
                }
                _ => fl,
            };
            if f != "rint" {
                return Ok(Rf::c(Rat::int(v)));
            }
        }
        // floor(-x) = -ceil(x); trunc/round are odd
        let neg = self.neg_lead(&x);
        let y = if neg { self.negr(&x) } else { x };
        let name = match (f, neg) {
            ("floor", true) => "ceil",
            ("ceil", true) => "floor",
            (f, _) => f,
        };
        let a = self.fun_atom(name, vec![y])?;
        let r = Rf::p(Poly::atom(a));
        Ok(if neg { self.negr(&r) } else { r })
    }
    fn fun(&mut self, f: &'static str, xs: Vec<Rf>) -> N<Rf> {
        Ok(match (f, xs.len()) {
            ("sqrt", 1) => self.sqrtr(&xs[0])?,
            ("abs", 1) => self.absr(&xs[0])?,
            ("sin", 1) => self.cs(&xs[0])?.1,
            ("cos", 1) => self.cs(&xs[0])?.0,
            ("exp", 1) => self.expr(&xs[0])?,
            ("ln", 1) => {
                if xs[0].is_zero() {
                    let a = self.fun_atom("ln", xs)?;
                    Rf::p(Poly::atom(a))
                } else {
                    self.lnr(&xs[0])?
                }
            }
            ("asin" | "acos" | "atan", 1) => self.inverse_trig(f, &xs[0])?,
            ("atan2", 2) => self.atan2r(&xs[0], &xs[1])?,
            ("floor" | "ceil" | "round" | "trunc", 1) => self.rounding(f, xs.into_iter().next().unwrap())?,
            ("powf", 2) => {
                if let Some(c) = xs[1].as_const() {
                    if c.d == 1 && c.n.abs() < 64 {
                        return self.powr(&xs[0], c.n);
                    }
                    if c == Rat::new(1, 2) {
                        return self.sqrtr(&xs[0]);
                    }
                }
                let l = self.lnr(&xs[0])?;
                let p = self.mulr(&l, &xs[1]);
                self.expr(&p)?
            }
            ("powi", 2) => {
                if let Some(c) = xs[1].as_const() {
                    if c.d == 1 && c.n.abs() < 64 {
                        return self.powr(&xs[0], c.n);
                    }
                }
                let a = self.fun_atom("powi", xs)?;
                Rf::p(Poly::atom(a))
            }
            ("cbrt", 1) => {
                if self.neg_lead(&xs[0]) {
                    let a = self.fun_atom("cbrt", vec![self.negr(&xs[0])])?;
                    Rf::p(Poly::atom(a).neg())
                } else {
                    let a = self.fun_atom("cbrt", xs)?;
                    Rf::p(Poly::atom(a))
                }
            }
            ("i2r", 1) => xs.into_iter().next().unwrap(),
            _ => {
                let a = self.fun_atom(f, xs)?;
                Rf::p(Poly::atom(a))
            }
        })
    }
    /// canonical sign polynomial of a comparison and the mask that makes it true
    fn cmp_poly(&mut self, op: COp, a: Id, b: Id) -> N<(Poly, u8)> {
        let x = self.eval(a)?;
        let y = self.eval(b)?;
        let d = self.subr(&x, &y);
        let mut p = d.n.clone();
        let mut flip = false;
        if !p.is_zero() {
            for (f, e) in &d.d {
                if e % 2 == 1 {
                    match self.mask(f) & !ZER {
                        POS => {}
                        NEG => flip = !flip,
                        _ => {
                            if op != COp::Eq {
                                p = self.mulp(&p, f)
                            }
                        }
                    }
                }
            }
        }
        let m = match op {
            COp::Lt => NEG,
            COp::Le => NEG | ZER,
            COp::Eq => ZER,
        };
        if p.is_zero() || self.is_zero(&Rf::p(p.clone())) {
            return Ok((Poly::zero(), m));
        }
        let (_, p) = p.content();
        Ok((p, if flip { neg_mask(m) } else { m }))
    }
    pub fn evalb(&mut self, id: Id) -> N<bool> {
        if let Some(b) = self.bmemo.get(&id) {
            return Ok(*b);
        }
        let r = match self.ar.n(id).clone() {
            Node::Bool(b) => b,
            Node::Not(a) => !self.evalb(a)?,
            Node::Ite(c, a, b) => {
                if self.evalb(c)? {
                    self.evalb(a)?
                } else {
                    self.evalb(b)?
                }
            }
            Node::Cmp(op, a, b) => {
                // comparisons with infinity
                let inf = |ar: &Arena, x: Id| match ar.n(x) {
                    Node::Inf => 1,
                    Node::Neg(y) if matches!(ar.n(*y), Node::Inf) => -1,
                    _ => 0,
                };
                let (ia, ib) = (inf(&self.ar, a), inf(&self.ar, b));
                if ia != 0 || ib != 0 {
                    match op {
                        COp::Lt => ia < ib,
                        COp::Le => ia <= ib,
                        COp::Eq => ia == ib,
                    }
                } else {
                    let (p, m) = self.cmp_poly(op, a, b)?;
                    let k = self.mask(&p);
                    if k & m == 0 {
                        false
                    } else if k & !m == 0 {
                        true
                    } else {
                        match self.decided.get(&id) {
                            Some(b) => *b,
                            None => return Err(Stop::Split(Cond::Term(id, true))),
                        }
                    }
                }
            }
            Node::Sym(..) => {
                let a = self.opkey(id)?;
                match self.ops.get(&a) {
                    Some(b) => *b,
                    None => return Err(Stop::Split(Cond::Term(id, true))),
                }
            }
            Node::Fun(..) => {
                let a = self.opkey(id)?;
                match self.ops.get(&a) {
                    Some(b) => *b,
                    None => return Err(Stop::Split(Cond::Term(id, true))),
                }
            }
            n => return Err(Stop::Fail(format!("boolean expected: {n:?}"))),
        };
        self.bmemo.insert(id, r);
        Ok(r)
    }
    fn opkey(&mut self, id: Id) -> N<u32> {
        match self.ar.n(id).clone() {
            Node::Sym(k, _) => Ok(self.atom(AK::Sym(k), vec![])),
            Node::Fun(f, args, _) => {
                let mut xs = vec![];
                for a in args {
                    xs.push(self.eval(a)?);
                }
                // approximate comparisons are symmetric in the compared values
                if matches!(f, "abs_diff_eq" | "relative_eq" | "ulps_eq") && rkey(&xs[1]) < rkey(&xs[0]) {
                    xs.swap(0, 1);
                }
                self.fun_atom(f, xs)
            }
            _ => Err(Stop::Fail("opkey".into())),
        }
    }

    // ------------------------------------------------------------------ facts
    fn set_units(&mut self) -> N<bool> {
        self.unit_rules.clear();
        for u in self.units.clone() {
            let mut rest = Rf::c(Rat::ONE);
            let mut last: Option<u32> = None;
            for k in u.iter() {
                if let Some(v) = self.over.get(k).cloned() {
                    rest = self.subr(&rest, &self.mulr(&v, &v));
                } else {
                    let a = self.atom(AK::Sym(*k), vec![]);
                    if let Some(l) = last {
                        // smaller ids stay, the largest atom is the dependent one
                        let (keep, dep) = if a > l { (l, a) } else { (a, l) };
                        let p = Poly::atom(keep);
                        rest = self.subr(&rest, &Rf::p(p.mul_raw(&p)));
                        last = Some(dep);
                    } else {
                        last = Some(a);
                    }
                }
            }
            match last {
                None => {
                    if !rest.is_zero() {
                        if let Some(c) = rest.as_const() {
                            if !c.is_zero() {
                                return Ok(false);
                            }
                        }
                    }
                }
                Some(a) => {
                    if rest.d.is_empty() {
                        // the rule must only mention smaller atoms
                        if rest.n.atoms().iter().all(|x| *x < a) {
                            self.unit_rules.insert(a, rest.n);
                        }
                    }
                }
            }
        }
        Ok(true)
    }
    /// returns false when contradictory; may add an override (then Restart)
    fn assert_zero(&mut self, p: &Poly, lvl: u32) -> N<bool> {
        if p.is_zero() {
            return Ok(true);
        }
        let k = self.mask(p);
        if k & ZER == 0 {
            return Ok(false);
        }
        let (_, m, r) = self.split(p);
        if !m.is_empty() {
            let open: Vec<u32> = m.iter().map(|x| x.0).filter(|a| self.atom_mask(*a) & ZER != 0).collect();
            let rconst = r.as_const().is_some();
            let rz = !rconst && self.mask(&r) & ZER != 0;
            if open.len() == 1 && !rz {
                return self.atom_zero(open[0], lvl);
            }
            if open.is_empty() {
                return self.assert_zero(&r, lvl + 1);
            }
            self.zeros.push(p.clone());
            return Ok(true);
        }
        let r = r;
        // sum of nonnegative terms
        if r.t.len() > 1 && (k & NEG == 0 || k & POS == 0) {
            let mut all = true;
            let mut sgn = 0;
            for (m, c) in &r.t {
                let mut x = self.mono_mask(m);
                if c.n < 0 {
                    x = neg_mask(x);
                }
                if x & NEG == 0 && sgn >= 0 {
                    sgn = 1
                } else if x & POS == 0 && sgn <= 0 {
                    sgn = -1
                } else {
                    all = false;
                    break;
                }
            }
            if all {
                for m in r.t.keys().cloned().collect::<Vec<_>>() {
                    if !self.assert_zero(&Poly::mono(m, Rat::ONE), lvl + 1)? {
                        return Ok(false);
                    }
                }
                return Ok(true);
            }
        }
        // linear in a free symbol
        let mut best: Option<(u32, bool)> = None;
        for a in r.atoms() {
            if let AK::Sym(_) = self.atoms[a as usize].kind {
                let mut co = Poly::zero();
                let mut ok = true;
                for (m, c) in &r.t {
                    match m.iter().find(|x| x.0 == a) {
                        Some((_, 1)) => co.add_term(m.iter().copied().filter(|x| x.0 != a).collect(), *c),
                        Some(_) => ok = false,
                        None => {}
                    }
                }
                // the symbol must not hide inside another atom
                for b in r.atoms() {
                    if b != a && self.occurs(b, a) {
                        ok = false;
                    }
                }
                if !ok || co.is_zero() {
                    continue;
                }
                let cst = co.as_const().is_some();
                if cst || self.mask(&co) & ZER == 0 {
                    if best.is_none() || (cst && !best.unwrap().1) {
                        best = Some((a, cst));
                    }
                }
            }
        }
        if let Some((a, _)) = best {
            let mut co = Poly::zero();
            let mut re = Poly::zero();
            for (m, c) in &r.t {
                if m.iter().any(|x| x.0 == a) {
                    co.add_term(m.iter().copied().filter(|x| x.0 != a).collect(), *c)
                } else {
                    re.add_term(m.clone(), *c)
                }
            }
            let v = self.mulr(&Rf::p(re.neg()), &self.invr(&Rf::p(co))?);
            let AK::Sym(s) = self.atoms[a as usize].kind else { unreachable!() };
            self.over.insert(s, v);
            return Err(Stop::Restart);
        }
        if r.t.len() == 1 {
            return Ok(true);
        }
        self.add_bound(&r, ZER);
        self.zeros.push(r);
        Ok(true)
    }
    fn occurs(&self, b: u32, a: u32) -> bool {
        if a == b {
            return true;
        }
        let at = &self.atoms[b as usize];
        for x in &at.args {
            for c in x.n.atoms().into_iter().chain(x.d.iter().flat_map(|f| f.0.atoms())) {
                if self.occurs(c, a) {
                    return true;
                }
            }
        }
        false
    }
    fn atom_zero(&mut self, a: u32, lvl: u32) -> N<bool> {
        if lvl > 8 {
            return Ok(true);
        }
        let at = self.atoms[a as usize].clone();
        match at.kind {
            AK::Sym(s) => {
                self.over.insert(s, Rf::c(Rat::ZERO));
                Err(Stop::Restart)
            }
            AK::Sqrt(_) | AK::Abs(_) => {
                let p = at.args[0].n.clone();
                self.assert_zero(&p, lvl + 1)
            }
            AK::Fun("lnabs", _) => {
                let one = Rf::c(Rat::ONE);
                let d = self.subr(&at.args[0], &one);
                if d.d.is_empty() && self.rf_mask(&at.args[0]) == POS {
                    return self.assert_zero(&d.n, lvl + 1);
                }
                self.add_bound(&Poly::atom(a), ZER);
                self.zeros.push(Poly::atom(a));
                Ok(true)
            }
            _ => {
                self.add_bound(&Poly::atom(a), ZER);
                self.zeros.push(Poly::atom(a));
                Ok(true)
            }
        }
    }
    fn assert_sign(&mut self, p: &Poly, m: u8) -> N<bool> {
        let k = self.mask(p);
        if k & m == 0 {
            return Ok(false);
        }
        if k & !m == 0 && m != ZER {
            return Ok(true);
        }
        let m = m & k;
        if m == ZER {
            return self.assert_zero(p, 0);
        }
        let (c, mo, r) = self.split(p);
        let m2 = if c.n < 0 { neg_mask(m) } else { m };
        // strip factors of known strict sign
        let mut mm = m2;
        let mut rest: Mono = vec![];
        for (a, e) in &mo {
            let am = self.atom_mask(*a);
            if am == POS {
                continue;
            }
            if am == NEG {
                if e % 2 == 1 {
                    mm = neg_mask(mm);
                }
                continue;
            }
            rest.push((*a, *e));
        }
        let q = if rest.is_empty() { r.clone() } else { r.mul_raw(&Poly::mono(rest.clone(), Rat::ONE)) };
        if mm & ZER == 0 {
            // every remaining factor is nonzero
            for (a, _) in &rest {
                self.add_bound(&Poly::atom(*a), NEG | POS);
                // |x| or sqrt nonzero: argument nonzero
                let at = self.atoms[*a as usize].clone();
                if let AK::Sqrt(_) | AK::Abs(_) = at.kind {
                    let p = at.args[0].n.clone();
                    let s = if let AK::Sqrt(_) = at.kind { POS } else { NEG | POS };
                    if self.mask(&p) & !s != 0 && p.as_const().is_none() {
                        self.record(&p, s);
                    }
                }
            }
            if !rest.is_empty() && r.as_const().is_none() {
                self.add_bound(&r, NEG | POS);
            }
        }
        self.record(&q, mm);
        // a single remaining odd factor
        if rest.len() == 1 && rest[0].1 % 2 == 1 && r.as_const().is_some() {
            self.add_bound(&Poly::atom(rest[0].0), mm);
        }
        Ok(true)
    }
    fn record(&mut self, q: &Poly, m: u8) {
        if q.as_const().is_some() {
            return;
        }
        let (c, q) = q.content();
        let _ = c;
        let e = self.masks.entry(pkey(&q)).or_insert(ALL);
        *e &= m;
        let n = q.neg();
        let e = self.masks.entry(pkey(&n)).or_insert(ALL);
        *e &= neg_mask(m);
        self.add_bound(&q, m);
        if q.t.len() <= 10 {
            self.between(&q);
        }
        if q.t.len() <= 40 {
            for a in q.atoms() {
                if let Some((d, flip, true)) = self.square_up(&q, a, 0) {
                    let dm = if flip { neg_mask(m) } else { m };
                    if d.as_const().is_none() {
                        let (_, d) = d.content();
                        let e = self.masks.entry(pkey(&d)).or_insert(ALL);
                        *e &= dm;
                        let e = self.masks.entry(pkey(&d.neg())).or_insert(ALL);
                        *e &= neg_mask(dm);
                        self.add_bound(&d, dm);
                    }
                }
            }
        }
    }
    /// A polynomial between two bounds: the product of its distances to them is not negative either.
    fn between(&mut self, q: &Poly) {
        let q = match Self::canon_q(q) {
            Some((q, _, _)) => q,
            None => return,
        };
        let b = match self.bounds.iter().find(|b| b.q == q) {
            Some(b) => b,
            None => return,
        };
        if let (Some((lo, sl)), Some((hi, sh))) = (b.lo, b.hi) {
            let u = q.add(&Poly::c(lo.neg()));
            let v = q.neg().add(&Poly::c(hi));
            let d = self.mulp(&u, &v);
            let m = if sl && sh { POS } else { POS | ZER };
            if d.as_const().is_none() {
                let (_, d) = d.content();
                let e = self.masks.entry(pkey(&d)).or_insert(ALL);
                *e &= m;
                let e = self.masks.entry(pkey(&d.neg())).or_insert(ALL);
                *e &= neg_mask(m);
                self.add_bound(&d, m);
            }
        }
    }
    /// rebuild all facts for the assumption list; false when contradictory
    fn build(&mut self, asm: &[Cond]) -> N<bool> {
        self.over.clear();
        self.decided = asm.iter().filter_map(|c| if let Cond::Term(t, b) = c { Some((*t, *b)) } else { None }).collect();
        let mut rounds = 0;
        'again: loop {
            rounds += 1;
            if rounds > 60 {
                return Err(Stop::Fail("facts do not stabilise".into()));
            }
            self.memo.clear();
            self.bmemo.clear();
            self.bounds.clear();
            self.masks.clear();
            self.ops.clear();
            self.zeros.clear();
            if !self.set_units()? {
                return Ok(false);
            }
            for pass in 0..2 {
                for a in asm {
                    let r = match a {
                        Cond::Term(t, b) => self.assume(*t, *b),
                        Cond::Sign(p, m) => {
                            let p = self.under(p)?;
                            let p = self.reduce(p);
                            self.assert_sign(&p, *m)
                        }
                    };
                    match r {
                        Ok(true) => {}
                        Ok(false) => return Ok(false),
                        Err(Stop::Restart) => {
                            self.compose_over()?;
                            continue 'again;
                        }
                        Err(Stop::Split(c)) if pass == 0 => {
                            let _ = c;
                        }
                        Err(e) => return Err(e),
                    }
                }
                self.memo.clear();
                self.bmemo.clear();
            }
            // what later facts say about the products taken to be zero
            for z in std::mem::take(&mut self.zeros) {
                match self.assert_zero(&z, 0) {
                    Ok(true) => {}
                    Ok(false) => return Ok(false),
                    Err(Stop::Restart) => {
                        self.compose_over()?;
                        continue 'again;
                    }
                    Err(e) => return Err(e),
                }
            }
            if self.pinned_apart()? {
                return Ok(false);
            }
            // consistency of the recorded bounds
            for b in &self.bounds {
                if let (Some((l, s1)), Some((h, s2))) = (b.lo, b.hi) {
                    if l > h || (l == h && (s1 || s2)) || (l == h && b.ne.contains(&l)) {
                        return Ok(false);
                    }
                }
            }
            return Ok(true);
        }
    }
    /// Do the bounds give an atom a value that another bound excludes?
    fn pinned_apart(&self) -> N<bool> {
        for b in &self.bounds {
            let (Some((lo, false)), Some((hi, false))) = (b.lo, b.hi) else { continue };
            let one = b.q.t.len() == 1 && b.q.t.iter().all(|(m, c)| m.len() == 1 && m[0].1 == 1 && c.n == 1 && c.d == 1);
            if lo != hi || !one {
                continue;
            }
            let a = b.q.t.keys().next().unwrap()[0].0;
            for o in &self.bounds {
                if o.q == b.q || !o.q.atoms().contains(&a) {
                    continue;
                }
                let v = self.subst(&o.q, a, &Rf::c(lo))?;
                if !v.d.is_empty() {
                    continue;
                }
                if let Some((l, strict)) = o.lo {
                    let mut p = v.n.clone();
                    p.add_term(vec![], l.neg());
                    if self.mask(&p) & (if strict { POS } else { POS | ZER }) == 0 {
                        return Ok(true);
                    }
                }
                if let Some((h, strict)) = o.hi {
                    let mut p = v.n.clone();
                    p.add_term(vec![], h.neg());
                    if self.mask(&p) & (if strict { NEG } else { NEG | ZER }) == 0 {
                        return Ok(true);
                    }
                }
            }
        }
        Ok(false)
    }
    /// The expression with the symbols whose values are known replaced, up to factors that are positive.
    fn under(&self, p: &Poly) -> N<Poly> {
        let mut r = Rf::p(p.clone());
        for a in p.atoms() {
            if let AK::Sym(s) = self.atoms[a as usize].kind {
                if let Some(v) = self.over.get(&s) {
                    let (n, d) = (self.subst(&r.n, a, v)?, std::mem::take(&mut r.d));
                    r = n;
                    for (f, e) in d {
                        for _ in 0..e {
                            r = self.mulr(&r, &self.invr(&Rf::p((*f).clone()))?);
                        }
                    }
                }
            }
        }
        let mut q = r.n.clone();
        for (f, e) in &r.d {
            if e % 2 == 1 && self.mask(f) & !ZER != POS {
                q = self.mulp(&q, f);
            }
        }
        Ok(q)
    }
    /// keep override values free of overridden symbols
    fn compose_over(&mut self) -> N<()> {
        for _ in 0..8 {
            let mut changed = false;
            let keys: Vec<u32> = self.over.keys().copied().collect();
            for k in keys {
                let v = self.over[&k].clone();
                let mut hit = None;
                for a in v.n.atoms().into_iter().chain(v.d.iter().flat_map(|f| f.0.atoms())) {
                    if let AK::Sym(s) = self.atoms[a as usize].kind {
                        if s != k && self.over.contains_key(&s) {
                            hit = Some((a, s));
                            break;
                        }
                    }
                }
                if let Some((a, s)) = hit {
                    let w = self.over[&s].clone();
                    let n = self.subst(&v.n, a, &w)?;
                    let mut r = n;
                    for (f, e) in &v.d {
                        let g = self.subst(f, a, &w)?;
                        if g.is_zero() {
                            return Err(Stop::Fail("override denominator vanishes".into()));
                        }
                        let g = self.powr(&g, *e as i128)?;
                        r = self.mulr(&r, &self.invr(&g)?);
                    }
                    self.over.insert(k, r);
                    changed = true;
                }
            }
            if !changed {
                return Ok(());
            }
        }
        Ok(())
    }
    fn subst(&self, p: &Poly, a: u32, v: &Rf) -> N<Rf> {
        let mut out = Rf::c(Rat::ZERO);
        for (m, c) in &p.t {
            let e = m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
            let r: Mono = m.iter().copied().filter(|x| x.0 != a).collect();
            let t = self.mulr(&Rf::p(Poly::mono(r, *c)), &self.powr(v, e as i128)?);
            out = self.addr(&out, &t);
        }
        Ok(out)
    }
    fn assume(&mut self, t: Id, want: bool) -> N<bool> {
        match self.ar.n(t).clone() {
            Node::Not(x) => return self.assume(x, !want),
            Node::Bool(b) => return Ok(b == want),
            Node::Ite(c, x, y) => {
                if want && self.ar.as_bool(y) == Some(false) {
                    return Ok(self.assume(c, true)? && self.assume(x, true)?);
                }
                if want && self.ar.as_bool(x) == Some(false) {
                    return Ok(self.assume(c, false)? && self.assume(y, true)?);
                }
                if !want && self.ar.as_bool(x) == Some(true) {
                    return Ok(self.assume(c, false)? && self.assume(y, false)?);
                }
                if !want && self.ar.as_bool(y) == Some(true) {
                    return Ok(self.assume(c, true)? && self.assume(x, false)?);
                }
                let b = self.evalb(t)?;
                return Ok(b == want);
            }
            Node::Cmp(op, a, b) => {
                let inf = |ar: &Arena, x: Id| {
                    matches!(ar.n(x), Node::Inf) || matches!(ar.n(x), Node::Neg(y) if matches!(ar.n(*y), Node::Inf))
                };
                if inf(&self.ar, a) || inf(&self.ar, b) {
                    return Ok(self.evalb(t)? == want);
                }
                let (p, m) = self.cmp_poly(op, a, b)?;
                let m = if want { m } else { ALL & !m };
                return self.assert_sign(&p, m);
            }
            _ => {}
        }
        let k = self.opkey(t)?;
        match self.ops.get(&k) {
            Some(b) => Ok(*b == want),
            None => {
                self.ops.insert(k, want);
                Ok(true)
            }
        }
    }
    pub fn over_clear(&mut self) -> BTreeMap<u32, Rf> {
        std::mem::take(&mut self.over)
    }
    pub fn over_set(&mut self, o: BTreeMap<u32, Rf>) {
        self.over = o;
    }
    pub fn over_snapshot(&self) -> Vec<(u32, Rf)> {
        self.over.iter().map(|(k, v)| (*k, v.clone())).collect()
    }
    pub fn dump_bounds(&self) -> Vec<String> {
        self.bounds.iter().map(|b| format!("{:?} <= {} <= {:?} ne {:?}", b.lo, self.dump_poly(&b.q), b.hi, b.ne)).collect()
    }
    pub fn dump_rf(&self, r: &Rf) -> String {
        let mut s = self.dump_poly(&r.n);
        for (f, e) in &r.d {
            s.push_str(&format!(" / ({})^{}", self.dump_poly(f), e));
        }
        s
    }
    pub fn dump_poly(&self, p: &Poly) -> String {
        if p.t.is_empty() {
            return "0".into();
        }
        let mut v = vec![];
        for (m, c) in p.t.iter().take(12) {
            let mut t = if c.d == 1 { format!("{}", c.n) } else { format!("{}/{}", c.n, c.d) };
            for (a, e) in m {
                t.push_str(&format!("*{}", self.dump_atom(*a)));
                if *e > 1 {
                    t.push_str(&format!("^{e}"));
                }
            }
            v.push(t);
        }
        let mut s = v.join(" + ");
        if p.t.len() > 12 {
            s.push_str(&format!(" + …({} terms)", p.t.len()));
        }
        s
    }
    fn dump_atom(&self, a: u32) -> String {
        let at = &self.atoms[a as usize];
        let args = || at.args.iter().map(|x| self.dump_rf(x)).collect::<Vec<_>>().join(", ");
        match &at.kind {
            AK::Sym(k) => self.ar.sym_names[*k as usize].clone(),
            AK::Konst(s) => s.to_string(),
            AK::Bits(b) => format!("{:e}", f64::from_bits(*b)),
            AK::Prime(p) => format!("sqrt({p})"),
            AK::Sqrt(_) => format!("sqrt({})", args()),
            AK::Abs(_) => format!("|{}|", args()),
            AK::Cos(_, q) => format!("cos(({})/{q})", args()),
            AK::Sin(_, q) => format!("sin(({})/{q})", args()),
            AK::Exp(_, q) => format!("exp(({})/{q})", args()),
            AK::Fun(n, _) => format!("{n}({})", args()),
        }
    }
}

fn add_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER {
                    y
                } else if y == ZER || x == y {
                    x
                } else {
                    ALL
                };
            }
        }
    }
    r
}

/// What a goal asks: equality of two terms, or truth of a boolean term.
#[derive(Clone, Copy, Debug)]
pub enum Goal {
    Same(Id, Id),
    True(Id),
}

#[derive(Clone, Debug)]
pub struct Stuck {
    pub why: String,
    pub asm: Vec<Cond>,
    /// both sides as this branch leaves them (a truth value has no normal form), and the expressions it makes zero
    pub vals: Option<Option<(Rf, Rf)>>,
    pub zero: Vec<Poly>,
}

pub struct Report {
    pub leaves: u32,
    pub pruned: u32,
    pub stuck: Option<Stuck>,
}

impl Nf {
    /// Decide a goal under assumptions, over every branch of its gates.
    pub fn prove(&mut self, goal: Goal, facts: &[Cond], max_leaves: u32, secs: f64) -> Report {
        let mut rep = Report { leaves: 0, pruned: 0, stuck: None };
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(secs);
        self.deadline = Some(deadline);
        let mut work: Vec<(Vec<Cond>, bool)> = vec![(facts.to_vec(), false)];
        while let Some((asm, abs)) = work.pop() {
            if rep.leaves + rep.pruned > max_leaves {
                rep.stuck = Some(Stuck { why: "too many branches".into(), asm, vals: None, zero: vec![] });
                return rep;
            }
            OVERFLOW.with(|o| o.set(false));
            TOOBIG.with(|o| o.set(false));
            self.split_abs = abs;
            let mut tries = 0;
            let res = loop {
                tries += 1;
                if tries > 40 {
                    break Err(Stop::Fail("no fixpoint".into()));
                }
                let r = self.leaf(goal, &asm);
                let r = match (self.chk(), r) {
                    (Err(e), Ok(_)) => Err(e),
                    (_, r) => r,
                };
                match r {
                    Err(Stop::Restart) => continue,
                    r => break r,
                }
            };
            match res {
                Ok(None) => rep.pruned += 1,
                Ok(Some((true, _))) => rep.leaves += 1,
                Ok(Some((false, why))) => {
                    if !abs {
                        work.push((asm, true));
                    } else {
                        let zero = self.zero_polys();
                        let vals = Some(self.last_vals.take());
                        rep.stuck = Some(Stuck { why, asm, vals, zero });
                        return rep;
                    }
                }
                Err(Stop::Split(c)) => {
                    let (pos, neg) = match c {
                        Cond::Term(t, b) => (Cond::Term(t, b), Cond::Term(t, !b)),
                        Cond::Sign(p, m) => (Cond::Sign(p.clone(), m), Cond::Sign(p, ALL & !m)),
                    };
                    if asm.contains(&pos) || asm.contains(&neg) {
                        rep.stuck = Some(Stuck { why: "a decided condition stays open".into(), asm, vals: None, zero: vec![] });
                        return rep;
                    }
                    for c in [neg, pos] {
                        let mut a = asm.clone();
                        a.push(c);
                        work.push((a, abs));
                    }
                }
                Err(Stop::Fail(w)) => {
                    rep.stuck = Some(Stuck { why: w, asm, vals: None, zero: vec![] });
                    return rep;
                }
                Err(Stop::Restart) => unreachable!(),
            }
        }
        rep
    }
    fn leaf(&mut self, goal: Goal, asm: &[Cond]) -> N<Option<(bool, String)>> {
        let r = self.leaf_raw(goal, asm)?;
        if let Some((false, _)) = r {
            let before = OVERFLOW.with(|o| o.get());
            OVERFLOW.with(|o| o.set(false));
            let no = self.linear_infeasible();
            OVERFLOW.with(|o| o.set(before));
            if no {
                return Ok(None);
            }
            if self.split_abs {
                if let Some(c) = self.factor_case(asm) {
                    return Err(Stop::Split(c));
                }
            }
        }
        Ok(r)
    }
    /// A product assumed zero has a zero factor, and an equation linear in a symbol gives its value unless the
    /// coefficient is zero: the case to distinguish next.
    fn factor_case(&mut self, asm: &[Cond]) -> Option<Cond> {
        if asm.iter().filter(|c| matches!(c, Cond::Sign(_, m) if *m == ZER || *m == NEG | POS)).count() > 8 {
            return None;
        }
        for z in self.zeros.clone() {
            let (_, m, r) = self.split(&z);
            let mut cand: Vec<Poly> = vec![];
            if !m.is_empty() {
                cand.extend(m.iter().map(|x| Poly::atom(x.0)));
                cand.push(r);
            } else {
                for a in r.atoms() {
                    if !matches!(self.atoms[a as usize].kind, AK::Sym(_)) || r.atoms().iter().any(|b| *b != a && self.occurs(*b, a)) {
                        continue;
                    }
                    if r.t.keys().any(|m| m.iter().any(|x| x.0 == a && x.1 > 1)) {
                        continue;
                    }
                    let mut co = Poly::zero();
                    for (m, c) in &r.t {
                        if m.iter().any(|x| x.0 == a) {
                            co.add_term(m.iter().copied().filter(|x| x.0 != a).collect(), *c);
                        }
                    }
                    cand.push(co);
                }
                cand.sort_by_key(|c| c.t.len());
            }
            for c in cand {
                if c.as_const().is_some() || self.mask(&c) & ZER == 0 || self.mask(&c) == ZER {
                    continue;
                }
                if asm.iter().any(|d| matches!(d, Cond::Sign(q, _) if *q == c)) {
                    continue;
                }
                return Some(Cond::Sign(c, ZER));
            }
        }
        None
    }
    /// Fourier-Motzkin over the recorded bounds, every monomial an unknown.
    fn linear_infeasible(&self) -> bool {
        let mut rows: Vec<(Poly, bool)> = vec![];
        let mut monos: BTreeSet<Mono> = BTreeSet::new();
        for b in &self.bounds {
            for (l, s) in [(b.lo, 1), (b.hi, -1)] {
                if let Some((v, strict)) = l {
                    let mut q = b.q.clone();
                    q.add_term(vec![], v.neg());
                    if s < 0 {
                        q = q.neg();
                    }
                    monos.extend(q.t.keys().filter(|m| !m.is_empty()).cloned());
                    rows.push((q, strict));
                }
            }
        }
        // monomials with the same coefficients throughout only matter through their sum
        let mut cols: BTreeMap<Vec<Option<(i128, i128)>>, Vec<Mono>> = BTreeMap::new();
        for m in &monos {
            cols.entry(rows.iter().map(|r| r.0.t.get(m).map(|c| (c.n, c.d))).collect()).or_default().push(m.clone());
        }
        if rows.len() > 120 || cols.len() > 24 {
            return false;
        }
        for g in cols.values() {
            for m in &g[1..] {
                monos.remove(m);
                for r in rows.iter_mut() {
                    r.0.t.remove(m);
                }
            }
        }
        for g in cols.values() {
            let m = &g[0];
            let k = g[1..].iter().fold(self.mono_mask(m), |k, m| add_mask(k, self.mono_mask(m)));
            if k & NEG == 0 {
                rows.push((Poly::mono(m.clone(), Rat::ONE), k & ZER == 0));
            } else if k & POS == 0 {
                rows.push((Poly::mono(m.clone(), Rat::ONE.neg()), k & ZER == 0));
            }
        }
        let mut left: Vec<Mono> = monos.into_iter().collect();
        loop {
            let mut keep: BTreeMap<PolyKey, (Poly, bool)> = BTreeMap::new();
            for (q, s) in rows {
                if let Some(c) = q.as_const() {
                    if c.n < 0 || (c.n == 0 && s) {
                        return !OVERFLOW.with(|o| o.get());
                    }
                    continue;
                }
                let (_, q) = q.content();
                let e = keep.entry(pkey(&q)).or_insert((q, s));
                e.1 |= s;
            }
            rows = keep.into_values().collect();
            if left.is_empty() || rows.is_empty() || rows.len() > 600 || OVERFLOW.with(|o| o.get()) {
                return false;
            }
            let cost = |m: &Mono| {
                let p = rows.iter().filter(|r| r.0.t.get(m).map_or(false, |c| c.n > 0)).count();
                let n = rows.iter().filter(|r| r.0.t.get(m).map_or(false, |c| c.n < 0)).count();
                (p * n) as i64 - (p + n) as i64
            };
            let i = (0..left.len()).min_by_key(|i| cost(&left[*i])).unwrap();
            let m = left.swap_remove(i);
            let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
            for r in rows {
                match r.0.t.get(&m).map(|c| c.n.signum()) {
                    Some(1) => pos.push(r),
                    Some(-1) => neg.push(r),
                    _ => rest.push(r),
                }
            }
            for (p, s1) in &pos {
                for (n, s2) in &neg {
                    let (a, b) = (p.t[&m], n.t[&m].neg());
                    rest.push((p.scale(a.inv()).add(&n.scale(b.inv())), *s1 || *s2));
                }
            }
            rows = rest;
        }
    }
    fn zero_polys(&self) -> Vec<Poly> {
        let mut v: Vec<(PolyKey, Poly)> = vec![];
        for (k, m) in &self.masks {
            if *m == ZER {
                let mut p = Poly::default();
                for (mo, n, d) in k {
                    p.add_term(mo.clone(), Rat { n: *n, d: *d });
                }
                if !v.iter().any(|(_, q)| q.add(&p).is_zero()) {
                    v.push((k.clone(), p));
                }
            }
        }
        for b in &self.bounds {
            if let (Some((lo, false)), Some((hi, false))) = (b.lo, b.hi) {
                if lo == hi {
                    let mut p = b.q.clone();
                    p.add_term(vec![], lo.neg());
                    if p.as_const().is_none() && !v.iter().any(|(_, q)| q.add(&p).is_zero() || q.sub(&p).is_zero()) {
                        v.push((pkey(&p), p));
                    }
                }
            }
        }
        v.sort_by(|a, b| a.0.len().cmp(&b.0.len()).then(a.0.cmp(&b.0)));
        v.into_iter().map(|x| x.1).collect()
    }
    fn leaf_raw(&mut self, goal: Goal, asm: &[Cond]) -> N<Option<(bool, String)>> {
        self.last_vals = None;
        if !self.build(asm)? {
            return Ok(None);
        }
        match goal {
            Goal::True(t) => Ok(Some((self.evalb(t)?, "the condition is false on this branch".into()))),
            Goal::Same(a, b) => {
                if a == b {
                    return Ok(Some((true, String::new())));
                }
                if self.ar.sort(a) == Sort::Bool {
                    let x = self.evalb(a)?;
                    let y = self.evalb(b)?;
                    return Ok(Some((x == y, format!("{x} on one side, {y} on the other"))));
                }
                let x = self.eval(a)?;
                let y = self.eval(b)?;
                let d = self.subr(&x, &y);
                if self.is_zero(&d) {
                    return Ok(Some((true, String::new())));
                }
                if self.mask(&d.n) == ZER {
                    return Ok(Some((true, String::new())));
                }
                self.last_vals = Some((x.clone(), y.clone()));
                Ok(Some((false, format!("{}  versus  {}", self.dump_rf(&x), self.dump_rf(&y)))))
            }
        }
    }
}
