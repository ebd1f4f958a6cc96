// Inverses of square matrices.
macro_rules! sq { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [[S; $N]; $N];
    type T = Matrix<S, $N, $N>;
    fn t(a: A) -> T { mat_of(a) }
    fn id() -> A { let mut r = [[0.0; $N]; $N]; let mut i = 0; while i < $N { r[i][i] = 1.0; i += 1; } r }
    pub fn law_exists(a: A) { same(t(a).try_inverse().is_some(), t(a).determinant() != 0.0); }
    pub fn law_left(a: A) { match t(a).try_inverse() { Some(i) => same(rawm(i * t(a)), id()), None => {} } }
    pub fn law_right(a: A) { match t(a).try_inverse() { Some(i) => same(rawm(t(a) * i), id()), None => {} } }
    pub fn law_inverse(a: A) { may_panic(); match t(a).try_inverse() { Some(i) => same(rawm(t(a).inverse()), rawm(i)), None => { t(a).inverse(); never() } } }
    pub fn law_defined(a: A) { assume(t(a).determinant() != 0.0); same(rawm(t(a).inverse() * t(a)), id()); }
    pub fn law_invertible(a: A) {
        let near = |x: S| approx_cmp::ulps_eq!(x, 0.0, abs_diff_all <= S::EPSILON, ulps_all <= 4);
        same(t(a).is_invertible(), !near(t(a).determinant()));
    }
    pub fn law_singular_identity() { same(t([[0.0; $N]; $N]).try_inverse().is_none(), true); same(rawm(t(id()).inverse()), id()); }
} } }
sq!(s1, 1); sq!(s2, 2); sq!(s3, 3); sq!(s4, 4);
