// Norms, distances, interpolation, projection, reflection of vectors over floats.
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [S; $N];
    type V = Vector<S, $N>;
    fn v(a: A) -> V { vec_of(a) }
    fn sq(a: A) -> S { fold(a, 0.0, |t, x| t + x * x) }
    fn dot(a: A, b: A) -> S { fold(z2(a, b, 0.0, |x, y| x * y), 0.0, |t, x| t + x) }
    pub fn law_norms(a: A) {
        let n = S::sqrt(sq(a));
        same(v(a).norm_squared(), sq(a)); same(v(a).magnitude_squared(), sq(a)); same(Normed::norm_squared(&v(a)), sq(a));
        same(v(a).norm(), n); same(v(a).magnitude(), n); same(v(a).l2_norm(), n); same(Normed::norm(&v(a)), n);
        same(v(a).apply_norm(&L2Norm::new()), n);
        let l1 = fold(a, 0.0, |t, x| t + S::abs(x));
        same(v(a).l1_norm(), l1); same(v(a).apply_norm(&L1Norm::new()), l1);
    }
    pub fn law_linf(a: A) {
        let m = v(a).linf_norm();
        same(v(a).apply_norm(&LinfNorm::new()), m);
        holds(fold(a, true, |p, x| p & (S::abs(x) <= m)));
        holds(fold(a, false, |p, x| p | (S::abs(x) == m)));
    }
    pub fn law_lp(a: A, p: u32) {
        let p1 = (1 as S);
        same(v(a).apply_norm(&LpNorm::new(p)), v(a).lp_norm(p));
        same(v(a).lp_norm(1), fold(a, 0.0, |t, x| t + S::abs(x)));
        same(v(a).lp_norm(3), S::powf(fold(a, 0.0, |t, x| t + S::abs(x) * S::abs(x) * S::abs(x)), 1.0 / 3.0));
        same(v(a).lp_norm(4), S::powf(fold(a, 0.0, |t, x| t + x * x * x * x), 1.0 / 4.0));
        same(v(a).lp_norm(p), S::powf(fold(a, 0.0, |t, x| t + S::powi(S::abs(x), p as i32)), 1.0 / (p as S)));
    }
    pub fn law_distance(a: A, b: A) {
        let d = z2(b, a, 0.0, |x, y| x - y);
        let n = S::sqrt(sq(d));
        same(v(a).metric_distance_squared(&v(b)), sq(d));
        same(v(a).metric_distance(&v(b)), n);
        same(v(a).distance_squared(&v(b)), sq(d)); same(v(a).distance(&v(b)), n);
        same(v(a).apply_metric_distance(&v(b), &L2Norm::new()), n);
        same(v(a).apply_metric_distance(&v(b), &L1Norm::new()), fold(d, 0.0, |t, x| t + S::abs(x)));
        same(v(a).apply_metric_distance(&v(b), &LpNorm::new(3)), v(d).lp_norm(3));
        same(L2Norm::new().metric_distance(&v(a), &v(b)), n);
    }
    pub fn law_distance_linf(a: A, b: A) {
        let m = v(a).apply_metric_distance(&v(b), &LinfNorm::new());
        let d = z2(b, a, 0.0, |x, y| S::abs(x - y));
        holds(fold(d, true, |p, x| p & (x <= m)));
        holds(fold(d, false, |p, x| p | (x == m)));
    }
    pub fn law_finite(a: A) { same(v(a).is_finite(), fold(a, true, |p, x| p & x.is_finite())); }
    pub fn law_lerp(a: A, b: A, t: S) {
        same(raw(v(a).lerp(&v(b), t)), z2(a, b, 0.0, |x, y| x + (y - x) * t));
        same(raw(v(a).lerp(&v(b), 0.0)), a); same(raw(v(a).lerp(&v(b), 1.0)), b);
    }
    pub fn law_project(a: A, b: A) {
        assume(sq(b) != 0.0);
        let k = dot(a, b) / sq(b);
        let p = v(a).project(&v(b));
        same(raw(p), z1(b, 0.0, |x| x * k));
        same((v(a) - p).dot(&v(b)), 0.0);
        same(raw(p.project(&v(b))), raw(p));
    }
    pub fn law_reflect(a: A, b: A) {
        assume(sq(b) != 0.0);
        let k = 2.0 * dot(a, b) / sq(b);
        let r = v(a).reflect(&v(b));
        same(raw(r), z2(a, b, 0.0, |x, y| x - k * y));
        same(raw(r.reflect(&v(b))), a);
        same(r.norm_squared(), sq(a));
    }
    pub fn law_min_max(a: A, b: A) {
        same(raw(v(a).component_min(&v(b))), z2(a, b, 0.0, |x, y| if x < y { x } else { y }));
        same(raw(v(a).component_max(&v(b))), z2(a, b, 0.0, |x, y| if x < y { y } else { x }));
    }
} } }
dim!(n1, 1);
dim!(n2, 2);
dim!(n3, 3);
dim!(n4, 4);
dim!(n5, 5);
pub fn law_lagrange(a: [S; 3], b: [S; 3]) {
    let (v, w) = (vec_of(a), vec_of(b));
    let c = v.cross(&w);
    same(c.dot(&v), 0.0); same(c.dot(&w), 0.0);
    same(c.norm_squared() + v.dot(&w) * v.dot(&w), v.norm_squared() * w.norm_squared());
    same(raw(w.cross(&v)), raw(-c));
    same(v.triple(&v, &w), 0.0);
}
