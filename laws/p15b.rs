// The largest product and inverse identities.
pub fn law_product4(a: [[S; 4]; 4], b: [[S; 4]; 4]) { same((mat_of(a) * mat_of(b)).determinant(), mat_of(a).determinant() * mat_of(b).determinant()); }
macro_rules! sq { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [[S; $N]; $N];
    pub fn law_inverse_det(a: A) { assume(mat_of(a).determinant() != 0.0); same(mat_of(a).inverse().determinant() * mat_of(a).determinant(), 1.0); }
    pub fn law_involution(a: A) { assume(mat_of(a).determinant() != 0.0); let i = mat_of(a).inverse(); assume(i.determinant() != 0.0); same(rawm(i.inverse()), a); }
} } }
sq!(s1, 1); sq!(s2, 2); sq!(s3, 3); sq!(s4, 4);
