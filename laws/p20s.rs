// Signed points.
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    pub fn law_neg(a: [S; $N]) { let e = z1(a, a[0], |x| -x); same(rawp(-pt_of(a)), e); same(rawp(-&pt_of(a)), e); }
} } }
dim!(n1, 1); dim!(n2, 2); dim!(n3, 3); dim!(n4, 4); dim!(n5, 5);
