// Signed and floating-point matrix operations: negation, norms, distances, interpolation, classification.
macro_rules! dim { ($m:ident, $R:literal, $C:literal) => { pub mod $m { use super::*;
    type A = [[S; $R]; $C];
    type T = Matrix<S, $R, $C>;
    fn t(a: A) -> T { mat_of(a) }
    fn each(a: A, b: A, f: impl Fn(S, S) -> S) -> A { let mut r = a; let mut i = 0; while i < $C { let mut j = 0; while j < $R { r[i][j] = f(a[i][j], b[i][j]); j += 1; } i += 1; } r }
    fn sq(a: A) -> S { let mut t = 0.0; let mut i = 0; while i < $C { let mut j = 0; while j < $R { t += a[i][j] * a[i][j]; j += 1; } i += 1; } t }
    fn col(a: A, c: usize) -> S { let mut t = 0.0; let mut j = 0; while j < $R { t += S::abs(a[c][j]); j += 1; } t }
    fn row(a: A, r: usize) -> S { let mut t = 0.0; let mut j = 0; while j < $C { t += S::abs(a[j][r]); j += 1; } t }
    pub fn law_neg(a: A) {
        let e = each(a, a, |x, _| -x);
        same(rawm(-t(a)), e); same(rawm(-&t(a)), e);
        let mut m = t(a); m.neg_mut(); same(rawm(m), e);
    }
    pub fn law_frobenius(a: A, b: A) {
        same(t(a).norm_squared(), sq(a)); same(t(a).magnitude_squared(), sq(a));
        same(t(a).norm(), S::sqrt(sq(a))); same(t(a).magnitude(), S::sqrt(sq(a)));
        same(t(a).apply_norm(&FrobeniusNorm::new()), S::sqrt(sq(a)));
        let d = sq(each(a, b, |x, y| x - y));
        same(t(a).metric_distance_squared(&t(b)), d); same(t(a).metric_distance(&t(b)), S::sqrt(d));
        same(t(a).apply_metric_distance(&t(b), &FrobeniusNorm::new()), S::sqrt(d));
    }
    pub fn law_l1(a: A, b: A) {
        let n = t(a).l1_norm();
        same(t(a).apply_norm(&L1MatrixNorm::new()), n);
        let mut i = 0; let mut hit = false;
        while i < $C { holds(col(a, i) <= n); hit |= col(a, i) == n; i += 1; }
        holds(hit);
        same(t(a).apply_metric_distance(&t(b), &L1MatrixNorm::new()), mat_of(each(b, a, |x, y| x - y)).l1_norm());
    }
    pub fn law_linf(a: A, b: A) {
        let n = t(a).linf_norm();
        same(t(a).apply_norm(&LinfMatrixNorm::new()), n);
        let mut i = 0; let mut hit = false;
        while i < $R { holds(row(a, i) <= n); hit |= row(a, i) == n; i += 1; }
        holds(hit);
        same(t(a).apply_metric_distance(&t(b), &LinfMatrixNorm::new()), mat_of(each(b, a, |x, y| x - y)).linf_norm());
    }
    pub fn law_lerp(a: A, b: A, s: S) {
        same(rawm(t(a).lerp(&t(b), s)), each(a, b, |x, y| x + (y - x) * s));
        same(rawm(t(a).lerp(&t(b), 0.0)), a); same(rawm(t(a).lerp(&t(b), 1.0)), b);
    }
    pub fn law_finite(a: A) {
        let mut p = true; let mut i = 0; while i < $C { let mut j = 0; while j < $R { p &= a[i][j].is_finite(); j += 1; } i += 1; }
        same(t(a).is_finite(), p);
    }
} } }
dim!(r1c1, 1, 1); dim!(r2c2, 2, 2); dim!(r2c3, 2, 3); dim!(r3c2, 3, 2); dim!(r3c1, 3, 1); dim!(r1c4, 1, 4); dim!(r5c1, 5, 1); dim!(r1c5, 1, 5);
macro_rules! square { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    fn near(x: S, y: S) -> bool { approx_cmp::ulps_eq!(x, y, abs_diff_all <= S::EPSILON, ulps_all <= 4) }
    pub fn law_classify(a: [[S; $N]; $N]) {
        let (mut d, mut s) = (true, true);
        let mut i = 0;
        while i < $N { let mut j = 0; while j < $N { if i != j { d &= near(a[i][j], 0.0); s &= near(a[i][j], a[j][i]); } j += 1; } i += 1; }
        same(mat_of(a).is_diagonal(), d);
        same(mat_of(a).is_symmetric(), s);
    }
} } }
square!(s1, 1);
square!(s2, 2);
square!(s3, 3);
