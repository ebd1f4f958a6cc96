// Signed complex algebra.
type A = [S; 2];
fn z(a: A) -> Complex<S> { cx_of(a) }
pub fn law_neg(a: A) { same(rawc(-z(a)), [-a[0], -a[1]]); same(rawc(-&z(a)), [-a[0], -a[1]]); }
pub fn law_conjugate(a: A, b: A) {
    same(rawc(z(a).conjugate()), [a[0], -a[1]]);
    same(rawc((z(a) * z(b)).conjugate()), rawc(z(a).conjugate() * z(b).conjugate()));
    same(rawc(z(a) * z(a).conjugate()), [z(a).norm_squared(), 0 as S]);
}
pub fn law_norm_multiplicative(a: A, b: A) { same((z(a) * z(b)).norm_squared(), z(a).norm_squared() * z(b).norm_squared()); }
pub fn law_commutative_ring(a: A, b: A, c: A) {
    same(rawc(z(a) * z(b)), rawc(z(b) * z(a))); same(rawc((z(a) * z(b)) * z(c)), rawc(z(a) * (z(b) * z(c))));
    same(rawc(z(a) * (z(b) + z(c))), rawc(z(a) * z(b) + z(a) * z(c)));
}
pub fn law_i_squared() { same(rawc(Complex::<S>::unit_im() * Complex::<S>::unit_im()), [-(1 as S), 0 as S]); }
pub fn law_l1(a: A) { same(z(a).l1_norm(), SimdScalarSigned::abs(a[0]) + SimdScalarSigned::abs(a[1])); }
/// s - (x + iy) is (s - x) - iy
pub fn law_scalar_sub(a: A, s: S) { same(rawc(s - z(a))[0], s - a[0]); same(rawc(s - &z(a))[0], s - a[0]); same(rawc(&s - z(a))[0], s - a[0]); same(rawc(&s - &z(a))[0], s - a[0]); }
pub fn law_scalar_sub_im(a: A, s: S) { same(rawc(s - z(a))[1], -a[1]); same(rawc(s - &z(a))[1], -a[1]); same(rawc(&s - z(a))[1], -a[1]); same(rawc(&s - &z(a))[1], -a[1]); }
/// Until the recorded defect is repaired the imaginary part is that of the complex operand.
pub fn law_scalar_sub_im_listed(a: A, s: S) {
    let is = |x: S| x == -a[1] || x == a[1];
    holds(is(rawc(s - z(a))[1])); holds(is(rawc(s - &z(a))[1])); holds(is(rawc(&s - z(a))[1])); holds(is(rawc(&s - &z(a))[1]));
}
