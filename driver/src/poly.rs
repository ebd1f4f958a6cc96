//! Exact multivariate polynomials and rational functions over interned atoms.
use crate::term::gcd;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

thread_local! {
    pub static OVERFLOW: Cell<bool> = const { Cell::new(false) };
    pub static TOOBIG: Cell<bool> = const { Cell::new(false) };
}
const MAX_TERMS: usize = 60_000;

fn ovf() -> i128 {
    OVERFLOW.with(|o| o.set(true));
    1
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        let g = gcd(n, d).max(1);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        Rat { n, d }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn add(self, o: Rat) -> Rat {
        let g = gcd(self.d, o.d).max(1);
        let a = self.n.checked_mul(o.d / g).unwrap_or_else(ovf);
        let b = o.n.checked_mul(self.d / g).unwrap_or_else(ovf);
        let n = a.checked_add(b).unwrap_or_else(ovf);
        let d = self.d.checked_mul(o.d / g).unwrap_or_else(ovf);
        Rat::new(n, d)
    }
    pub fn mul(self, o: Rat) -> Rat {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        let n = (self.n / g1).checked_mul(o.n / g2).unwrap_or_else(ovf);
        let d = (self.d / g2).checked_mul(o.d / g1).unwrap_or_else(ovf);
        Rat::new(n, d)
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn sign(self) -> i32 {
        self.n.signum() as i32
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        match self.n.checked_mul(o.d).zip(o.n.checked_mul(self.d)) {
            Some((a, b)) => a.cmp(&b),
            None => (self.n, self.d).cmp(&(o.n, o.d)),
        }
    }
}

pub type Mono = Vec<(u32, u32)>;

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        match a[i].0.cmp(&b[j].0) {
            Ordering::Less => {
                r.push(a[i]);
                i += 1;
            }
            Ordering::Greater => {
                r.push(b[j]);
                j += 1;
            }
            Ordering::Equal => {
                r.push((a[i].0, a[i].1 + b[j].1));
                i += 1;
                j += 1;
            }
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

/// a / b when divisible
pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(x, e) in a {
        if j < b.len() && b[j].0 < x {
            return None;
        }
        if j < b.len() && b[j].0 == x {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((x, e - b[j].1));
            }
            j += 1;
        } else {
            r.push((x, e));
        }
    }
    if j < b.len() {
        return None;
    }
    Some(r)
}

/// Lexicographic order on monomials (an admissible order: larger atom first).
pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    let (mut i, mut j) = (a.len(), b.len());
    loop {
        match (i, j) {
            (0, 0) => return Ordering::Equal,
            (0, _) => return Ordering::Less,
            (_, 0) => return Ordering::Greater,
            _ => {}
        }
        let (x, y) = (a[i - 1], b[j - 1]);
        match x.0.cmp(&y.0) {
            Ordering::Equal => match x.1.cmp(&y.1) {
                Ordering::Equal => {
                    i -= 1;
                    j -= 1;
                }
                o => return o,
            },
            o => return o,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct Poly {
    pub t: BTreeMap<Mono, Rat>,
}

impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn c(r: Rat) -> Poly {
        let mut p = Poly::default();
        if !r.is_zero() {
            p.t.insert(vec![], r);
        }
        p
    }
    pub fn one() -> Poly {
        Poly::c(Rat::ONE)
    }
    pub fn atom(a: u32) -> Poly {
        let mut p = Poly::default();
        p.t.insert(vec![(a, 1)], Rat::ONE);
        p
    }
    pub fn mono(m: Mono, c: Rat) -> Poly {
        let mut p = Poly::default();
        if !c.is_zero() {
            p.t.insert(m, c);
        }
        p
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        if self.t.is_empty() {
            return Some(Rat::ZERO);
        }
        if self.t.len() == 1 {
            let (m, c) = self.t.iter().next().unwrap();
            if m.is_empty() {
                return Some(*c);
            }
        }
        None
    }
    pub fn add_term(&mut self, m: Mono, c: Rat) {
        if c.is_zero() {
            return;
        }
        use std::collections::btree_map::Entry;
        match self.t.entry(m) {
            Entry::Vacant(v) => {
                v.insert(c);
            }
            Entry::Occupied(mut o) => {
                let s = o.get().add(c);
                if s.is_zero() {
                    o.remove();
                } else {
                    *o.get_mut() = s;
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut a, b) = if self.t.len() >= o.t.len() { (self.clone(), o) } else { (o.clone(), self) };
        for (m, c) in &b.t {
            a.add_term(m.clone(), *c);
        }
        a
    }
    pub fn scale(&self, r: Rat) -> Poly {
        if r.is_zero() {
            return Poly::zero();
        }
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.mul(r))).collect() }
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect() }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    /// product without reduction by the atoms' relations
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        if self.t.len().saturating_mul(o.t.len()) > 4_000_000 {
            TOOBIG.with(|t| t.set(true));
            return Poly::zero();
        }
        let mut acc: std::collections::HashMap<Mono, Rat> = std::collections::HashMap::new();
        for (m1, c1) in &self.t {
            for (m2, c2) in &o.t {
                let m = mono_mul(m1, m2);
                let c = c1.mul(*c2);
                let e = acc.entry(m).or_insert(Rat::ZERO);
                *e = e.add(c);
            }
        }
        if acc.len() > MAX_TERMS {
            TOOBIG.with(|t| t.set(true));
            return Poly::zero();
        }
        Poly { t: acc.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
    }
    /// (positive content, primitive part)
    pub fn content(&self) -> (Rat, Poly) {
        if self.is_zero() {
            return (Rat::ONE, self.clone());
        }
        let mut gn = 0i128;
        let mut ld = 1i128;
        for c in self.t.values() {
            gn = gcd(gn, c.n);
            let g = gcd(ld, c.d).max(1);
            ld = (ld / g).checked_mul(c.d).unwrap_or_else(ovf);
        }
        let c = Rat::new(gn.max(1), ld);
        (c, self.scale(c.inv()))
    }
    pub fn lead(&self) -> Option<(&Mono, &Rat)> {
        self.t.iter().max_by(|a, b| mono_cmp(a.0, b.0))
    }
    /// greatest monomial dividing every term
    pub fn mono_content(&self) -> Mono {
        let mut it = self.t.keys();
        let mut m = match it.next() {
            Some(m) => m.clone(),
            None => return vec![],
        };
        for k in it {
            let mut r = vec![];
            for &(x, e) in &m {
                if let Some(&(_, f)) = k.iter().find(|y| y.0 == x) {
                    r.push((x, e.min(f)));
                }
            }
            m = r;
            if m.is_empty() {
                break;
            }
        }
        m
    }
    pub fn div_mono(&self, d: &Mono) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (mono_div(m, d).unwrap(), *c)).collect() }
    }
    /// exact division in the free polynomial ring
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        let (lm, lc) = d.lead()?;
        let (lm, lc) = (lm.clone(), *lc);
        let mut r = self.clone();
        let mut q = Poly::zero();
        let mut steps = 0;
        while !r.is_zero() {
            steps += 1;
            if steps > 5000 {
                return None;
            }
            let (m, c) = {
                let (m, c) = r.lead().unwrap();
                (m.clone(), *c)
            };
            let qm = mono_div(&m, &lm)?;
            let qc = c.mul(lc.inv());
            for (dm, dc) in &d.t {
                r.add_term(mono_mul(dm, &qm), dc.mul(qc).neg());
            }
            q.add_term(qm, qc);
        }
        Some(q)
    }
    /// square root in the free polynomial ring, when it is a perfect square
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (lm, lc) = self.lead()?;
        let half = |m: &Mono| -> Option<Mono> {
            let mut r = vec![];
            for &(x, e) in m {
                if e % 2 != 0 {
                    return None;
                }
                r.push((x, e / 2));
            }
            Some(r)
        };
        let rs = |c: Rat| -> Option<Rat> {
            if c.n < 0 {
                return None;
            }
            let (a, b) = (crate::term::isqrt(c.n), crate::term::isqrt(c.d));
            if a * a == c.n && b * b == c.d {
                Some(Rat::new(a, b))
            } else {
                None
            }
        };
        let m0 = half(lm)?;
        let c0 = rs(*lc)?;
        let mut q = Poly::mono(m0.clone(), c0);
        let mut r = self.sub(&q.mul_raw(&q));
        let mut steps = 0;
        while !r.is_zero() {
            steps += 1;
            if steps > 64 {
                return None;
            }
            let (m, c) = {
                let (m, c) = r.lead()?;
                (m.clone(), *c)
            };
            let qm = mono_div(&m, &m0)?;
            let qc = c.mul(c0.mul(Rat::int(2)).inv());
            let t = Poly::mono(qm, qc);
            // r -= 2 q t + t^2
            let d = q.mul_raw(&t).scale(Rat::int(2)).add(&t.mul_raw(&t));
            r = r.sub(&d);
            q = q.add(&t);
        }
        Some(q)
    }
    pub fn atoms(&self) -> std::collections::BTreeSet<u32> {
        self.t.keys().flat_map(|m| m.iter().map(|x| x.0)).collect()
    }
}

/// n / prod d_i^e_i ; factors are primitive with positive leading coefficient
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Rf {
    pub n: Poly,
    pub d: Vec<(Rc<Poly>, u32)>,
}

impl Rf {
    pub fn c(r: Rat) -> Rf {
        Rf { n: Poly::c(r), d: vec![] }
    }
    pub fn p(n: Poly) -> Rf {
        Rf { n, d: vec![] }
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn as_const(&self) -> Option<Rat> {
        if self.d.is_empty() || self.n.is_zero() {
            self.n.as_const()
        } else {
            None
        }
    }
}
