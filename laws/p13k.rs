// Scaling from the left, written out per scalar type.
pub fn law_left(a: [[S; 2]; 3], s: S) {
    let x: Matrix<S, 2, 3> = mat_of(a);
    let mut e = a; let mut i = 0; while i < 3 { let mut j = 0; while j < 2 { e[i][j] = a[i][j] * s; j += 1; } i += 1; }
    same(rawm(x * s), e); same(rawm(&x * s), e);
    same(rawm(s * x), e); same(rawm(s * &x), e); same(rawm(&s * x), e); same(rawm(&s * &x), e);
}
