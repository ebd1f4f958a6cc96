// Norms and distances of points.
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [S; $N];
    fn p(a: A) -> Point<S, $N> { pt_of(a) }
    fn sq(a: A) -> S { let mut t = 0.0; let mut i = 0; while i < $N { t += a[i] * a[i]; i += 1; } t }
    pub fn law_norm(a: A) { let n = S::sqrt(sq(a)); same(p(a).norm(), n); same(p(a).magnitude(), n); same(p(a).l2_norm(), n); same(Normed::norm(&p(a)), n); same(Normed::norm_squared(&p(a)), sq(a)); }
    pub fn law_distance(a: A, b: A) {
        let d = z2(a, b, 0.0, |x, y| x - y);
        same(p(a).metric_distance(&p(b)), S::sqrt(sq(d))); same(p(a).distance(&p(b)), S::sqrt(sq(d))); same(p(a).distance_squared(&p(b)), sq(d));
        same(p(a).metric_distance(&p(b)), p(b).metric_distance(&p(a)));
    }
} } }
dim!(n1, 1); dim!(n2, 2); dim!(n3, 3); dim!(n4, 4); dim!(n5, 5);
