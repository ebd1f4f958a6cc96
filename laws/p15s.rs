// Determinants, for every signed scalar type.
fn minor<const N: usize, const M: usize>(a: [[S; N]; N], j: usize, z: S) -> [[S; M]; M] {
    let mut r = [[z; M]; M];
    let mut c = 1;
    while c < N { let mut k = 0; let mut d = 0; while k < N { if k != j { r[c - 1][d] = a[c][k]; d += 1; } k += 1; } c += 1; }
    r
}
fn det1(a: [[S; 1]; 1]) -> S { a[0][0] }
fn det2(a: [[S; 2]; 2]) -> S { a[0][0] * det1(minor(a, 0, a[0][0])) - a[0][1] * det1(minor(a, 1, a[0][0])) }
fn det3(a: [[S; 3]; 3]) -> S { a[0][0] * det2(minor(a, 0, a[0][0])) - a[0][1] * det2(minor(a, 1, a[0][0])) + a[0][2] * det2(minor(a, 2, a[0][0])) }
fn det4(a: [[S; 4]; 4]) -> S { a[0][0] * det3(minor(a, 0, a[0][0])) - a[0][1] * det3(minor(a, 1, a[0][0])) + a[0][2] * det3(minor(a, 2, a[0][0])) - a[0][3] * det3(minor(a, 3, a[0][0])) }
macro_rules! sq { ($m:ident, $N:literal, $det:ident) => { pub mod $m { use super::*;
    type A = [[S; $N]; $N];
    fn t(a: A) -> Matrix<S, $N, $N> { mat_of(a) }
    pub fn law_cofactors(a: A) { same(t(a).determinant(), $det(a)); }
    pub fn law_transpose(a: A) { same(t(a).transpose().determinant(), t(a).determinant()); }
    pub fn law_identity() { same(Matrix::<S, $N, $N>::identity().determinant(), 1 as S); same(Matrix::<S, $N, $N>::zero().determinant(), 0 as S); }
    pub fn law_alternates(a: A) {
        let mut i = 0;
        while i < $N { let mut j = 0; while j < $N {
            let d = t(a).determinant();
            let e = if i == j { d } else { -d };
            let mut m = t(a); m.swap_columns(i, j); same(m.determinant(), e);
            let mut m = t(a); m.swap_rows(i, j); same(m.determinant(), e);
        j += 1; } i += 1; }
    }
    pub fn law_scale(a: A, s: S) { let mut e = t(a).determinant(); let mut i = 0; while i < $N { e = e * s; i += 1; } same((t(a) * s).determinant(), e); }
} } }
sq!(s1, 1, det1); sq!(s2, 2, det2); sq!(s3, 3, det3); sq!(s4, 4, det4);
pub fn law_product1(a: [[S; 1]; 1], b: [[S; 1]; 1]) { same((mat_of(a) * mat_of(b)).determinant(), mat_of(a).determinant() * mat_of(b).determinant()); }
pub fn law_product2(a: [[S; 2]; 2], b: [[S; 2]; 2]) { same((mat_of(a) * mat_of(b)).determinant(), mat_of(a).determinant() * mat_of(b).determinant()); }
pub fn law_product3(a: [[S; 3]; 3], b: [[S; 3]; 3]) { same((mat_of(a) * mat_of(b)).determinant(), mat_of(a).determinant() * mat_of(b).determinant()); }
