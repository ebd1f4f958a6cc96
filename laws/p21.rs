// Quaternion algebra, for every scalar type.
type A = [S; 4];
fn q(a: A) -> Quaternion<S> { quat_of(a) }
fn each(a: A, b: A, f: impl Fn(S, S) -> S) -> A { z2(a, b, a[0], f) }
pub fn law_add(a: A, b: A) {
    let e = each(a, b, |x, y| x + y);
    same(rawq(q(a) + q(b)), e); same(rawq(q(a) + &q(b)), e); same(rawq(&q(a) + q(b)), e); same(rawq(&q(a) + &q(b)), e);
    let mut c = q(a); c += q(b); same(rawq(c), e);
    let mut c = q(a); c += &q(b); same(rawq(c), e);
}
pub fn law_sub(a: A, b: A) {
    let e = each(a, b, |x, y| x - y);
    same(rawq(q(a) - q(b)), e); same(rawq(q(a) - &q(b)), e); same(rawq(&q(a) - q(b)), e); same(rawq(&q(a) - &q(b)), e);
    let mut c = q(a); c -= q(b); same(rawq(c), e);
    let mut c = q(a); c -= &q(b); same(rawq(c), e);
}
pub fn law_scale(a: A, s: S) {
    let e = z1(a, s, |x| x * s);
    same(rawq(q(a) * s), e); same(rawq(&q(a) * s), e); same(rawq(q(a) * &s), e); same(rawq(&q(a) * &s), e);
    same(rawq(s * q(a)), e); same(rawq(s * &q(a)), e); same(rawq(&s * q(a)), e); same(rawq(&s * &q(a)), e);
    let mut c = q(a); c *= s; same(rawq(c), e);
}
pub fn law_div_rem(a: A, s: NonZero<S>) {
    let s = s.0;
    may_panic();
    let e = z1(a, s, |x| x / s);
    same(rawq(q(a) / s), e); same(rawq(&q(a) / s), e); same(rawq(q(a) / &s), e); same(rawq(&q(a) / &s), e);
    let mut c = q(a); c /= s; same(rawq(c), e);
    let e = z1(a, s, |x| x % s);
    same(rawq(q(a) % s), e); same(rawq(&q(a) % s), e); same(rawq(q(a) % &s), e); same(rawq(&q(a) % &s), e);
    let mut c = q(a); c %= s; same(rawq(c), e);
}
/// The Hamilton product (subtractions last, so that it is defined for unsigned scalars too).
fn ham(a: A, b: A) -> A {
    [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
     a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
     a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
     a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1]]
}
pub fn law_product(a: A, b: A) {
    let e = ham(a, b);
    same(rawq(q(a) * q(b)), e); same(rawq(q(a) * &q(b)), e); same(rawq(&q(a) * q(b)), e); same(rawq(&q(a) * &q(b)), e);
}
pub fn law_units(a: A) {
    let (z, o) = (0u8 as S, 1u8 as S);
    same(rawq(Quaternion::<S>::unit_s()), [o, z, z, z]); same(rawq(Quaternion::<S>::unit_x()), [z, o, z, z]);
    same(rawq(Quaternion::<S>::unit_y()), [z, z, o, z]); same(rawq(Quaternion::<S>::unit_z()), [z, z, z, o]);
    same(rawq(Quaternion::<S>::identity()), [o, z, z, z]); same(rawq(Quaternion::<S>::one()), [o, z, z, z]);
    same(rawq(Quaternion::<S>::zero()), [z; 4]);
    same(rawq(q(a) * Quaternion::identity()), a); same(rawq(Quaternion::identity() * q(a)), a);
}
pub fn law_classify(a: A) {
    let z = 0u8 as S;
    same(q(a).is_zero(), a[0] == z && a[1] == z && a[2] == z && a[3] == z);
    same(q(a).is_pure(), a[0] == z);
    same(q(a).is_real(), a[1] == z && a[2] == z && a[3] == z);
    same(q(a).is_identity(), a[0] == 1u8 as S && a[1] == z && a[2] == z && a[3] == z);
    holds(Quaternion::<S>::zero().is_zero()); holds(Quaternion::<S>::identity().is_identity());
    same(rawq(Quaternion::from_real(a[0])), [a[0], z, z, z]);
    same(rawq(Quaternion::from_pure(vec_of([a[1], a[2], a[3]]))), [z, a[1], a[2], a[3]]);
}
pub fn law_map(a: A, k: S) {
    same(rawq(q(a).map(|x| x * x + k)), a.map(|x| x * x + k)); same(rawq(q(a).map(|x| x == k)), a.map(|x| x == k));
    same(rawq(Quaternion::<S>::default()), [0u8 as S; 4]);
}
pub fn law_dot(a: A, b: A) {
    same(q(a).dot(&q(b)), a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]);
    let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
    same(q(a).norm_squared(), n); same(q(a).modulus_squared(), n); same(q(a).magnitude_squared(), n);
    let d = each(a, b, |x, y| x - y);
    same(q(a).metric_distance_squared(&q(b)), d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + d[3] * d[3]);
}
pub fn law_eq(a: A, b: A) { let e = a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]; same(q(a) == q(b), e); same(q(a) != q(b), !e); }
