// Norms and distances of vectors over signed integers.
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [S; $N];
    fn v(a: A) -> Vector<S, $N> { vec_of(a) }
    fn abs(x: S) -> S { if x < 0 { -x } else { x } }
    pub fn law_l1(a: A, b: A) {
        same(v(a).l1_norm(), fold(a, 0, |t, x| t + abs(x))); same(v(a).apply_norm(&L1Norm::new()), v(a).l1_norm());
        same(v(a).apply_metric_distance(&v(b), &L1Norm::new()), fold(z2(b, a, 0, |x, y| x - y), 0, |t, x| t + abs(x)));
    }
    pub fn law_linf(a: A) {
        let m = v(a).linf_norm();
        same(v(a).apply_norm(&LinfNorm::new()), m);
        holds(fold(a, true, |p, x| p & (abs(x) <= m)));
        holds(fold(a, false, |p, x| p | (abs(x) == m)));
    }
} } }
dim!(n1, 1);
dim!(n2, 2);
dim!(n3, 3);
dim!(n4, 4);
dim!(n5, 5);
