// Signed quaternion algebra.
type A = [S; 4];
fn q(a: A) -> Quaternion<S> { quat_of(a) }
pub fn law_neg(a: A) { let e = z1(a, a[0], |x| -x); same(rawq(-q(a)), e); same(rawq(-&q(a)), e); }
pub fn law_conjugate(a: A, b: A) {
    let e = [a[0], -a[1], -a[2], -a[3]];
    same(rawq(q(a).conjugate()), e);
    let mut c = q(a); c.conjugate_mut(); same(rawq(c), e);
    same(rawq((q(a) * q(b)).conjugate()), rawq(q(b).conjugate() * q(a).conjugate()));
    same(rawq(q(a) * q(a).conjugate()), [q(a).norm_squared(), 0 as S, 0 as S, 0 as S]);
}
pub fn law_norm_multiplicative(a: A, b: A) { same((q(a) * q(b)).norm_squared(), q(a).norm_squared() * q(b).norm_squared()); }
pub fn law_associative(a: A, b: A, c: A) { same(rawq((q(a) * q(b)) * q(c)), rawq(q(a) * (q(b) * q(c)))); }
pub fn law_distributive(a: A, b: A, c: A) { same(rawq(q(a) * (q(b) + q(c))), rawq(q(a) * q(b) + q(a) * q(c))); same(rawq((q(b) + q(c)) * q(a)), rawq(q(b) * q(a) + q(c) * q(a))); }
pub fn law_squared(a: A) { same(rawq(q(a).squared()), rawq(q(a) * q(a))); }
pub fn law_ijk() {
    let (x, y, z) = (Quaternion::<S>::unit_x(), Quaternion::<S>::unit_y(), Quaternion::<S>::unit_z());
    let m = -Quaternion::<S>::identity();
    same(rawq(x * x), rawq(m)); same(rawq(y * y), rawq(m)); same(rawq(z * z), rawq(m));
    same(rawq(x * y), rawq(z)); same(rawq(y * z), rawq(x)); same(rawq(z * x), rawq(y)); same(rawq(x * y * z), rawq(m));
}
