//! Value-number terms. Every MIR value reached by the value-flow analysis is
//! numbered by a hash-consed term over the law's inputs. Floating point values
//! are modelled as reals, machine integers as integers; `Ite` is the gating
//! function placed at control-flow joins.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Real,
    Int { bits: u16, signed: bool },
    Bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum COp {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Sym(u32, Sort),
    Rat(i128, i128),
    /// Named positive real constant ("pi", "e").
    Konst(&'static str),
    /// Opaque positive real constant, identified by its f64 bits.
    KBits(u64),
    Inf,
    NaN,
    Int(i128, Sort),
    Bool(bool),
    Bin(BOp, Id, Id),
    Neg(Id),
    Fun(&'static str, Vec<Id>, Sort),
    Cmp(COp, Id, Id),
    Not(Id),
    Ite(Id, Id, Id),
}

pub fn intern_str(s: &str) -> &'static str {
    use std::sync::Mutex;
    static TAB: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = TAB.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

#[derive(Clone, Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub map: HashMap<Node, Id>,
    pub sym_names: Vec<String>,
    pub sym_sorts: Vec<Sort>,
    /// keep the scalar primitives apart from formulas equal to them over the reals
    pub exact: bool,
    /// not-a-number operands make the result not a number
    pub spreads: bool,
    /// the inputs are ordinary numbers
    pub ordinary: bool,
}

const SMALL: i128 = 1 << 40;

impl Arena {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        i
    }
    pub fn n(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    pub fn sym(&mut self, name: String, sort: Sort) -> Id {
        let k = self.sym_names.len() as u32;
        self.sym_names.push(name);
        self.sym_sorts.push(sort);
        self.mk(Node::Sym(k, sort))
    }
    pub fn sort(&self, i: Id) -> Sort {
        match self.n(i) {
            Node::Sym(_, s) | Node::Int(_, s) | Node::Fun(_, _, s) => *s,
            Node::Rat(..) | Node::Konst(_) | Node::KBits(_) | Node::Inf | Node::NaN => Sort::Real,
            Node::Bool(_) | Node::Cmp(..) | Node::Not(_) => Sort::Bool,
            Node::Bin(_, a, _) | Node::Neg(a) => self.sort(*a),
            Node::Ite(_, a, _) => self.sort(*a),
        }
    }
    pub fn boolean(&mut self, b: bool) -> Id {
        self.mk(Node::Bool(b))
    }
    pub fn as_bool(&self, i: Id) -> Option<bool> {
        match self.n(i) {
            Node::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_int(&self, i: Id) -> Option<i128> {
        match self.n(i) {
            Node::Int(v, _) => Some(*v),
            Node::Bool(b) => Some(*b as i128),
            _ => None,
        }
    }
    pub fn as_rat(&self, i: Id) -> Option<(i128, i128)> {
        match self.n(i) {
            Node::Rat(a, b) => Some((*a, *b)),
            _ => None,
        }
    }
    pub fn wrap(v: i128, s: Sort) -> i128 {
        match s {
            Sort::Int { bits, signed } => {
                if bits >= 128 {
                    return v;
                }
                let m: i128 = 1 << bits;
                let mut r = v & (m - 1);
                if signed && r >= (m >> 1) {
                    r -= m;
                }
                r
            }
            _ => v,
        }
    }
    pub fn int(&mut self, v: i128, s: Sort) -> Id {
        let v = Self::wrap(v, s);
        self.mk(Node::Int(v, s))
    }
    pub fn usize_(&mut self, v: i128) -> Id {
        self.int(v, Sort::Int { bits: 64, signed: false })
    }
    pub fn rat(&mut self, a: i128, b: i128) -> Id {
        assert!(b != 0);
        let g = gcd(a, b).max(1);
        let (mut a, mut b) = (a / g, b / g);
        if b < 0 {
            a = -a;
            b = -b;
        }
        self.mk(Node::Rat(a, b))
    }
    pub fn real_i(&mut self, a: i128) -> Id {
        self.rat(a, 1)
    }

    /// A floating point literal: named constants are recognised, short decimal
    /// literals become exact rationals, everything else is an opaque constant.
    pub fn float(&mut self, x: f64, is32: bool) -> Id {
        if x.is_nan() {
            return self.mk(Node::NaN);
        }
        if x < 0.0 {
            let p = self.float(-x, is32);
            return self.neg(p);
        }
        if x.is_infinite() {
            return self.mk(Node::Inf);
        }
        if x == 0.0 {
            let z = self.rat(0, 1);
            return if self.exact && x.is_sign_negative() { self.neg(z) } else { z };
        }
        use std::f64::consts as c;
        let eq = |k: f64| -> bool {
            if is32 {
                (k as f32) as f64 == x
            } else {
                k == x
            }
        };
        // multiples p/q * pi, and p/q / pi
        let pi_tab: &[(f64, i128, i128)] = &[
            (c::PI, 1, 1),
            (c::TAU, 2, 1),
            (c::FRAC_PI_2, 1, 2),
            (c::FRAC_PI_3, 1, 3),
            (c::FRAC_PI_4, 1, 4),
            (c::FRAC_PI_6, 1, 6),
            (c::FRAC_PI_8, 1, 8),
            (c::PI / 180.0, 1, 180),
            (3.0 * c::FRAC_PI_2, 3, 2),
            (3.0 * c::FRAC_PI_4, 3, 4),
            (2.0 * c::PI / 3.0, 2, 3),
            (c::PI / 5.0, 1, 5),
            (c::PI / 12.0, 1, 12),
        ];
        for &(k, p, q) in pi_tab {
            if eq(k) || (is32 && (k as f32 as f64 - x).abs() <= 1.2e-7 * x.abs() && k == c::PI / 180.0) {
                let pi = self.mk(Node::Konst("pi"));
                let r = self.rat(p, q);
                return self.mul(r, pi);
            }
        }
        let inv_tab: &[(f64, i128)] = &[(c::FRAC_1_PI, 1), (c::FRAC_2_PI, 2), (180.0 / c::PI, 180)];
        for &(k, p) in inv_tab {
            if eq(k) || (is32 && (k as f32 as f64 - x).abs() <= 1.2e-7 * x.abs() && p == 180) {
                let pi = self.mk(Node::Konst("pi"));
                let r = self.real_i(p);
                return self.div(r, pi);
            }
        }
        if eq(c::E) {
            return self.mk(Node::Konst("e"));
        }
        if eq(c::SQRT_2) {
            let t = self.real_i(2);
            return self.fun1("sqrt", t);
        }
        if eq(c::FRAC_1_SQRT_2) {
            let t = self.real_i(2);
            let s = self.fun1("sqrt", t);
            let o = self.real_i(1);
            return self.div(o, s);
        }
        if eq(c::FRAC_2_SQRT_PI) {
            let pi = self.mk(Node::Konst("pi"));
            let s = self.fun1("sqrt", pi);
            let o = self.real_i(2);
            return self.div(o, s);
        }
        if eq(c::LN_2) {
            let t = self.real_i(2);
            return self.fun1("ln", t);
        }
        if eq(c::LN_10) {
            let t = self.real_i(10);
            return self.fun1("ln", t);
        }
        if eq(c::LOG2_E) {
            let t = self.real_i(2);
            let l = self.fun1("ln", t);
            let o = self.real_i(1);
            return self.div(o, l);
        }
        if eq(c::LOG10_E) {
            let t = self.real_i(10);
            let l = self.fun1("ln", t);
            let o = self.real_i(1);
            return self.div(o, l);
        }
        let s = if is32 { format!("{:e}", x as f32) } else { format!("{:e}", x) };
        if let Some((p, q)) = parse_dec(&s) {
            return self.rat(p, q);
        }
        self.mk(Node::KBits(x.to_bits()))
    }

    pub fn fun1(&mut self, f: &'static str, a: Id) -> Id {
        self.fun(f, vec![a], Sort::Real)
    }
    pub fn fun(&mut self, f: &'static str, args: Vec<Id>, s: Sort) -> Id {
        if self.spreads && s == Sort::Real {
            if let Some(x) = args.iter().find(|x| matches!(self.n(**x), Node::NaN)) {
                return *x;
            }
        }
        // constant folding of the integral cases that occur in reference code
        if args.len() == 1 {
            if let Some((p, q)) = self.as_rat(args[0]) {
                match f {
                    "sqrt" if p >= 0 => {
                        let (a, b) = (isqrt(p), isqrt(q));
                        if a * a == p && b * b == q {
                            return self.rat(a, b);
                        }
                    }
                    "sin" | "tan" | "asin" | "atan" | "cbrt" | "sinh" | "tanh" | "asinh" | "atanh" | "expm1" | "ln1p"
                        if p == 0 =>
                    {
                        return self.rat(0, 1)
                    }
                    "cos" | "exp" | "cosh" | "exp2" if p == 0 => return self.rat(1, 1),
                    "ln" | "log2" | "log10" | "acosh" if (p, q) == (1, 1) => return self.rat(0, 1),
                    "floor" => return self.rat(p.div_euclid(q), 1),
                    "ceil" => return self.rat(-((-p).div_euclid(q)), 1),
                    "trunc" => return self.rat(p / q, 1),
                    "abs" => return self.rat(p.abs(), q),
                    "i2r" => unreachable!(),
                    _ => {}
                }
            }
        }
        self.mk(Node::Fun(f, args, s))
    }
    pub fn neg(&mut self, a: Id) -> Id {
        match self.n(a).clone() {
            Node::Rat(0, _) if self.exact => self.fun("minus_zero", vec![a], Sort::Real),
            Node::Fun("minus_zero", v, _) => v[0],
            Node::Rat(p, q) => self.rat(-p, q),
            Node::Int(v, s) => self.int(v.wrapping_neg(), s),
            Node::Neg(x) => x,
            Node::NaN => a,
            _ => self.mk(Node::Neg(a)),
        }
    }
    pub fn bin(&mut self, op: BOp, a: Id, b: Id) -> Id {
        match op {
            BOp::Add => self.add(a, b),
            BOp::Sub => self.sub(a, b),
            BOp::Mul => self.mul(a, b),
            BOp::Div => self.div(a, b),
            _ => self.bin_raw(op, a, b),
        }
    }
    fn int_fold(&mut self, op: BOp, a: Id, b: Id) -> Option<Id> {
        let (x, y) = (self.as_int(a)?, self.as_int(b)?);
        let s = self.sort(a);
        if let Sort::Bool = s {
            let (x, y) = (x != 0, y != 0);
            let r = match op {
                BOp::And => x & y,
                BOp::Or => x | y,
                BOp::Xor => x ^ y,
                _ => return None,
            };
            return Some(self.boolean(r));
        }
        let bits = match s {
            Sort::Int { bits, .. } => bits as i128,
            _ => return None,
        };
        let v = match op {
            BOp::Add => x.wrapping_add(y),
            BOp::Sub => x.wrapping_sub(y),
            BOp::Mul => x.wrapping_mul(y),
            BOp::Div => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            BOp::Rem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            BOp::And => x & y,
            BOp::Or => x | y,
            BOp::Xor => x ^ y,
            BOp::Shl => x << (y.rem_euclid(bits)),
            BOp::Shr => x >> (y.rem_euclid(bits)),
        };
        Some(self.int(v, s))
    }
    /// Does a conditional with a branch that is not a number occur in the term?
    pub fn gated(&self, a: Id) -> bool {
        let (mut todo, mut seen) = (vec![a], std::collections::HashSet::new());
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            match self.n(x) {
                Node::NaN => return true,
                Node::Neg(y) => todo.push(*y),
                Node::Bin(_, y, z) | Node::Ite(_, y, z) => todo.extend([*y, *z]),
                Node::Fun(_, v, _) => todo.extend(v.iter().copied()),
                _ => {}
            }
        }
        false
    }
    fn spread(&self, a: Id, b: Id) -> Option<Id> {
        if !self.spreads {
            return None;
        }
        [a, b].into_iter().find(|x| matches!(self.n(*x), Node::NaN))
    }
    fn bin_raw(&mut self, op: BOp, a: Id, b: Id) -> Id {
        if let Some(x) = self.spread(a, b) {
            return x;
        }
        if let Some(r) = self.int_fold(op, a, b) {
            return r;
        }
        if self.sort(a) == Sort::Bool {
            let t = self.boolean(true);
            let f = self.boolean(false);
            match op {
                BOp::And => return self.ite(a, b, f),
                BOp::Or => return self.ite(a, t, b),
                BOp::Xor => {
                    let nb = self.not(b);
                    return self.ite(a, nb, b);
                }
                _ => {}
            }
        }
        // push through gated constants
        if let Some(r) = self.dist2(a, b, |ar, x, y| ar.bin(op, x, y)) {
            return r;
        }
        self.mk(Node::Bin(op, a, b))
    }
    fn is_const(&self, a: Id) -> bool {
        matches!(self.n(a), Node::Int(..) | Node::Bool(_) | Node::Rat(..))
    }
    /// Is `a` an Ite tree whose leaves are all constants?
    fn const_tree(&self, a: Id, depth: u32) -> bool {
        if depth > 6 {
            return false;
        }
        match self.n(a) {
            Node::Ite(_, x, y) => {
                let (x, y) = (*x, *y);
                self.const_tree(x, depth + 1) && self.const_tree(y, depth + 1)
            }
            _ => self.is_const(a),
        }
    }
    fn dist2(&mut self, a: Id, b: Id, f: impl Fn(&mut Arena, Id, Id) -> Id + Copy) -> Option<Id> {
        let int_like = !matches!(self.sort(a), Sort::Real);
        if !int_like {
            return None;
        }
        if let Node::Ite(c, x, y) = *self.n(a) {
            if self.const_tree(a, 0) && self.is_const(b) {
                let l = f(self, x, b);
                let r = f(self, y, b);
                return Some(self.ite(c, l, r));
            }
        }
        if let Node::Ite(c, x, y) = *self.n(b) {
            if self.const_tree(b, 0) && self.is_const(a) {
                let l = f(self, a, x);
                let r = f(self, a, y);
                return Some(self.ite(c, l, r));
            }
        }
        None
    }
    fn rat_small(p: i128, q: i128) -> bool {
        p.abs() < SMALL && q.abs() < SMALL
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if let Some(x) = self.spread(a, b) {
            return x;
        }
        if let (Some((p, q)), Some((r, s))) = (self.as_rat(a), self.as_rat(b)) {
            if Self::rat_small(p, q) && Self::rat_small(r, s) {
                return self.rat(p * s + r * q, q * s);
            }
        }
        if self.as_rat(a) == Some((0, 1)) {
            return b;
        }
        if self.as_rat(b) == Some((0, 1)) {
            return a;
        }
        if let (Node::Int(0, _), _) = (self.n(a), 0) {
            return b;
        }
        if let (Node::Int(0, _), _) = (self.n(b), 0) {
            return a;
        }
        self.bin_raw(BOp::Add, a, b)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if let Some(x) = self.spread(a, b) {
            return x;
        }
        if let (Some((p, q)), Some((r, s))) = (self.as_rat(a), self.as_rat(b)) {
            if Self::rat_small(p, q) && Self::rat_small(r, s) {
                return self.rat(p * s - r * q, q * s);
            }
        }
        if self.as_rat(b) == Some((0, 1)) {
            return a;
        }
        if self.as_rat(a) == Some((0, 1)) {
            return self.neg(b);
        }
        if let Node::Int(0, _) = self.n(b) {
            return a;
        }
        self.bin_raw(BOp::Sub, a, b)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let Some(x) = self.spread(a, b) {
            return x;
        }
        if let (Some((p, q)), Some((r, s))) = (self.as_rat(a), self.as_rat(b)) {
            if Self::rat_small(p, q) && Self::rat_small(r, s) {
                return self.rat(p * r, q * s);
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if self.as_rat(x) == Some((1, 1)) {
                return y;
            }
            if self.as_rat(x) == Some((0, 1)) && !matches!(self.n(y), Node::Inf | Node::NaN) {
                return x;
            }
            if let Node::Int(1, _) = self.n(x) {
                return y;
            }
            if let Node::Int(0, _) = self.n(x) {
                return x;
            }
        }
        self.bin_raw(BOp::Mul, a, b)
    }
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if let Some(x) = self.spread(a, b) {
            return x;
        }
        if let (Some((p, q)), Some((r, s))) = (self.as_rat(a), self.as_rat(b)) {
            if r != 0 && Self::rat_small(p, q) && Self::rat_small(r, s) {
                return self.rat(p * s, q * r);
            }
        }
        if self.as_rat(b) == Some((1, 1)) {
            return a;
        }
        if let Node::Int(1, _) = self.n(b) {
            return a;
        }
        self.bin_raw(BOp::Div, a, b)
    }
    pub fn not(&mut self, a: Id) -> Id {
        match self.n(a).clone() {
            Node::Bool(b) => self.boolean(!b),
            Node::Not(x) => x,
            Node::Int(v, s) => self.int(!v, s),
            Node::Ite(c, x, y) => {
                let nx = self.not(x);
                let ny = self.not(y);
                self.ite(c, nx, ny)
            }
            _ => self.mk(Node::Not(a)),
        }
    }
    pub fn cmp(&mut self, op: COp, a: Id, b: Id) -> Id {
        if a == b && *self.n(a) != Node::NaN {
            return self.boolean(op != COp::Lt);
        }
        if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
            let r = match op {
                COp::Lt => x < y,
                COp::Le => x <= y,
                COp::Eq => x == y,
            };
            return self.boolean(r);
        }
        if let (Some((p, q)), Some((r, s))) = (self.as_rat(a), self.as_rat(b)) {
            if Self::rat_small(p, q) && Self::rat_small(r, s) {
                let (x, y) = (p * s, r * q);
                let v = match op {
                    COp::Lt => x < y,
                    COp::Le => x <= y,
                    COp::Eq => x == y,
                };
                return self.boolean(v);
            }
        }
        if self.sort(a) == Sort::Bool && op == COp::Eq {
            if let Some(v) = self.as_bool(b) {
                return if v { a } else { self.not(a) };
            }
            if let Some(v) = self.as_bool(a) {
                return if v { b } else { self.not(b) };
            }
            let nb = self.not(b);
            return self.ite(a, b, nb);
        }
        if self.sort(a) == Sort::Bool {
            // false < true
            let na = self.not(a);
            let f = self.boolean(false);
            let t = self.boolean(true);
            return if op == COp::Lt { self.ite(na, b, f) } else { self.ite(na, t, b) };
        }
        if matches!(self.n(a), Node::NaN) || matches!(self.n(b), Node::NaN) {
            return self.boolean(false);
        }
        if let Some(r) = self.dist2(a, b, |ar, x, y| ar.cmp(op, x, y)) {
            return r;
        }
        self.mk(Node::Cmp(op, a, b))
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match self.n(c).clone() {
            Node::Bool(true) => return a,
            Node::Bool(false) => return b,
            Node::Not(x) => return self.ite(x, b, a),
            _ => {}
        }
        if self.sort(a) == Sort::Bool {
            if let (Some(true), Some(false)) = (self.as_bool(a), self.as_bool(b)) {
                return c;
            }
            if let (Some(false), Some(true)) = (self.as_bool(a), self.as_bool(b)) {
                return self.not(c);
            }
        }
        // collapse repeated gates
        let mut a = a;
        let mut b = b;
        if let Node::Ite(c2, x, _) = *self.n(a) {
            if c2 == c {
                a = x;
            }
        }
        if let Node::Ite(c2, _, y) = *self.n(b) {
            if c2 == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        // a term that is zero anyway left out when a factor of it is zero
        if !self.exact && !self.spreads && self.sort(b) != Sort::Bool {
            if let Node::Cmp(COp::Eq, x, y) = *self.n(c) {
                let x = if matches!(self.n(y), Node::Rat(0, _) | Node::Int(0, _)) {
                    Some(x)
                } else if matches!(self.n(x), Node::Rat(0, _) | Node::Int(0, _)) {
                    Some(y)
                } else {
                    None
                };
                if let Some(x) = x {
                    let left_out = match *self.n(b) {
                        Node::Bin(BOp::Add, p, t) if p == a => Some(t),
                        Node::Bin(BOp::Add, t, p) if p == a => Some(t),
                        Node::Bin(BOp::Sub, p, t) if p == a => Some(t),
                        _ if matches!(self.n(a), Node::Rat(0, _) | Node::Int(0, _)) => Some(b),
                        _ => None,
                    };
                    if left_out.is_some_and(|t| self.has_factor(t, x)) {
                        return b;
                    }
                }
            }
        }
        self.mk(Node::Ite(c, a, b))
    }
    fn has_factor(&self, t: Id, x: Id) -> bool {
        t == x
            || match *self.n(t) {
                Node::Neg(u) => self.has_factor(u, x),
                Node::Bin(BOp::Mul, u, v) => self.has_factor(u, x) || self.has_factor(v, x),
                _ => false,
            }
    }

    pub fn show(&self, i: Id) -> String {
        let mut s = String::new();
        self.show_to(i, &mut s, 0);
        s
    }
    fn show_to(&self, i: Id, out: &mut String, d: u32) {
        if d > 12 || out.len() > 600 {
            out.push('…');
            return;
        }
        match self.n(i) {
            Node::Sym(k, _) => out.push_str(&self.sym_names[*k as usize]),
            Node::Rat(p, q) => {
                if *q == 1 {
                    out.push_str(&p.to_string())
                } else {
                    out.push_str(&format!("{}/{}", p, q))
                }
            }
            Node::Konst(s) => out.push_str(s),
            Node::KBits(b) => out.push_str(&format!("{:e}", f64::from_bits(*b))),
            Node::Inf => out.push_str("inf"),
            Node::NaN => out.push_str("nan"),
            Node::Int(v, _) => out.push_str(&v.to_string()),
            Node::Bool(b) => out.push_str(&b.to_string()),
            Node::Bin(op, a, b) => {
                out.push('(');
                self.show_to(*a, out, d + 1);
                out.push_str(match op {
                    BOp::Add => " + ",
                    BOp::Sub => " - ",
                    BOp::Mul => "*",
                    BOp::Div => "/",
                    BOp::Rem => " % ",
                    BOp::And => " & ",
                    BOp::Or => " | ",
                    BOp::Xor => " ^ ",
                    BOp::Shl => " << ",
                    BOp::Shr => " >> ",
                });
                self.show_to(*b, out, d + 1);
                out.push(')');
            }
            Node::Neg(a) => {
                out.push('-');
                self.show_to(*a, out, d + 1);
            }
            Node::Fun(f, args, _) => {
                out.push_str(f);
                out.push('(');
                for (k, a) in args.iter().enumerate() {
                    if k > 0 {
                        out.push_str(", ");
                    }
                    self.show_to(*a, out, d + 1);
                }
                out.push(')');
            }
            Node::Cmp(op, a, b) => {
                out.push('(');
                self.show_to(*a, out, d + 1);
                out.push_str(match op {
                    COp::Lt => " < ",
                    COp::Le => " <= ",
                    COp::Eq => " == ",
                });
                self.show_to(*b, out, d + 1);
                out.push(')');
            }
            Node::Not(a) => {
                out.push('!');
                self.show_to(*a, out, d + 1);
            }
            Node::Ite(c, a, b) => {
                out.push_str("if ");
                self.show_to(*c, out, d + 1);
                out.push_str(" {");
                self.show_to(*a, out, d + 1);
                out.push_str("} else {");
                self.show_to(*b, out, d + 1);
                out.push('}');
            }
        }
    }
}

pub fn isqrt(n: i128) -> i128 {
    if n < 0 {
        return -1;
    }
    let mut x = (n as f64).sqrt() as i128;
    while x * x > n {
        x -= 1;
    }
    while (x + 1) * (x + 1) <= n {
        x += 1;
    }
    x
}

/// "1.25e-3" -> 1/800, when numerator and denominator stay small.
fn parse_dec(s: &str) -> Option<(i128, i128)> {
    let (m, e) = s.split_once('e')?;
    let mut e: i32 = e.parse().ok()?;
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    if ip.len() + fp.len() > 10 {
        return None;
    }
    let digits: i128 = format!("{}{}", ip, fp).parse().ok()?;
    e -= fp.len() as i32;
    if e.abs() > 12 {
        return None;
    }
    let (mut p, mut q) = (digits, 1i128);
    for _ in 0..e.abs() {
        if e > 0 {
            p *= 10
        } else {
            q *= 10
        }
    }
    let g = gcd(p, q).max(1);
    p /= g;
    q /= g;
    if p.abs() < SMALL && q < SMALL {
        Some((p, q))
    } else {
        None
    }
}
