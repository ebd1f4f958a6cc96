// The larger shapes of the norms and classifications (thorough).
macro_rules! dim { ($m:ident, $R:literal, $C:literal) => { pub mod $m { use super::*;
    type A = [[S; $R]; $C];
    pub fn law_neg_frobenius(a: A) {
        let mut e = a; let mut q = 0.0;
        let mut i = 0; while i < $C { let mut j = 0; while j < $R { e[i][j] = -a[i][j]; q += a[i][j] * a[i][j]; j += 1; } i += 1; }
        same(rawm(-mat_of(a)), e); same(rawm(-&mat_of(a)), e); let mut m = mat_of(a); m.neg_mut(); same(rawm(m), e);
        same(mat_of(a).norm_squared(), q); same(mat_of(a).norm(), S::sqrt(q));
    }
} } }
dim!(r3c3, 3, 3); dim!(r4c4, 4, 4); dim!(r3c4, 3, 4); dim!(r4c3, 4, 3); dim!(r2c4, 2, 4); dim!(r4c2, 4, 2); dim!(r5c5, 5, 5);
