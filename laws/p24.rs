// Complex algebra, for every scalar type.
type A = [S; 2];
fn z(a: A) -> Complex<S> { cx_of(a) }
fn each(a: A, b: A, f: impl Fn(S, S) -> S) -> A { z2(a, b, a[0], f) }
pub fn law_add(a: A, b: A) {
    let e = each(a, b, |x, y| x + y);
    same(rawc(z(a) + z(b)), e); same(rawc(z(a) + &z(b)), e); same(rawc(&z(a) + z(b)), e); same(rawc(&z(a) + &z(b)), e);
    let mut c = z(a); c += z(b); same(rawc(c), e);
    let mut c = z(a); c += &z(b); same(rawc(c), e);
}
pub fn law_sub(a: A, b: A) {
    let e = each(a, b, |x, y| x - y);
    same(rawc(z(a) - z(b)), e); same(rawc(z(a) - &z(b)), e); same(rawc(&z(a) - z(b)), e); same(rawc(&z(a) - &z(b)), e);
    let mut c = z(a); c -= z(b); same(rawc(c), e);
    let mut c = z(a); c -= &z(b); same(rawc(c), e);
}
pub fn law_real_add(a: A, s: S) {
    let e = [a[0] + s, a[1]];
    same(rawc(z(a) + s), e); same(rawc(&z(a) + s), e); same(rawc(z(a) + &s), e); same(rawc(&z(a) + &s), e);
    same(rawc(s + z(a)), e); same(rawc(s + &z(a)), e); same(rawc(&s + z(a)), e); same(rawc(&s + &z(a)), e);
    let mut c = z(a); c += s; same(rawc(c), e);
    let mut c = z(a); c += &s; same(rawc(c), e);
}
pub fn law_real_sub(a: A, s: S) {
    let e = [a[0] - s, a[1]];
    same(rawc(z(a) - s), e); same(rawc(&z(a) - s), e); same(rawc(z(a) - &s), e); same(rawc(&z(a) - &s), e);
    let mut c = z(a); c -= s; same(rawc(c), e);
    let mut c = z(a); c -= &s; same(rawc(c), e);
}
pub fn law_real_mul(a: A, s: S) {
    let e = [a[0] * s, a[1] * s];
    same(rawc(z(a) * s), e); same(rawc(&z(a) * s), e); same(rawc(z(a) * &s), e); same(rawc(&z(a) * &s), e);
    same(rawc(s * z(a)), e); same(rawc(s * &z(a)), e); same(rawc(&s * z(a)), e); same(rawc(&s * &z(a)), e);
    same(rawc(z(a).scale(s)), e);
    let mut c = z(a); c *= s; same(rawc(c), e);
    let mut c = z(a); c *= &s; same(rawc(c), e);
}
pub fn law_real_div(a: A, s: NonZero<S>) {
    let s = s.0;
    may_panic();
    let e = [a[0] / s, a[1] / s];
    same(rawc(z(a) / s), e); same(rawc(&z(a) / s), e); same(rawc(z(a) / &s), e); same(rawc(&z(a) / &s), e); same(rawc(z(a).unscale(s)), e);
    let mut c = z(a); c /= s; same(rawc(c), e);
    let mut c = z(a); c /= &s; same(rawc(c), e);
    let e = [a[0] % s, a[1] % s];
    same(rawc(z(a) % s), e); same(rawc(&z(a) % s), e); same(rawc(z(a) % &s), e); same(rawc(&z(a) % &s), e);
    let mut c = z(a); c %= s; same(rawc(c), e);
    let mut c = z(a); c %= &s; same(rawc(c), e);
}
fn prod(a: A, b: A) -> A { [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]] }
pub fn law_product(a: A, b: A) {
    let e = prod(a, b);
    same(rawc(z(a) * z(b)), e); same(rawc(z(a) * &z(b)), e); same(rawc(&z(a) * z(b)), e); same(rawc(&z(a) * &z(b)), e);
    let mut c = z(a); c *= z(b); same(rawc(c), e);
    let mut c = z(a); c *= &z(b); same(rawc(c), e);
}
pub fn law_powers(a: A) { same(rawc(z(a).squared()), prod(a, a)); same(rawc(z(a).cubed()), prod(prod(a, a), a)); }
pub fn law_units(a: A) {
    let (n, o) = (0u8 as S, 1u8 as S);
    same(rawc(Complex::<S>::unit_re()), [o, n]); same(rawc(Complex::<S>::unit_im()), [n, o]);
    same(rawc(Complex::<S>::identity()), [o, n]); same(rawc(Complex::<S>::one()), [o, n]); same(rawc(Complex::<S>::zero()), [n, n]); same(rawc(Complex::<S>::default()), [n, n]);
    same(rawc(Complex::from_real(a[0])), [a[0], n]); same(rawc(Complex::from_imaginary(a[1])), [n, a[1]]);
    same(rawc(Complex::from(a[0])), [a[0], n]); same(rawc(Complex::from(&a[0])), [a[0], n]);
    same(rawc(Complex::identity() * z(a)), a);
}
pub fn law_map(a: A, k: S) {
    same(rawc(z(a).map(|x| x * x + k)), [a[0] * a[0] + k, a[1] * a[1] + k]); same(rawc(z(a).map(|x| x == k)), [a[0] == k, a[1] == k]);
}
pub fn law_classify(a: A) {
    let (n, o) = (0u8 as S, 1u8 as S);
    same(z(a).is_zero(), a[0] == n && a[1] == n);
    same(z(a).is_one(), a[0] == o && a[1] == n); same(z(a).is_identity(), a[0] == o && a[1] == n);
    same(z(a).is_real(), a[1] == n); same(z(a).is_imaginary(), a[0] == n);
}
pub fn law_norm_squared(a: A) {
    let n = a[0] * a[0] + a[1] * a[1];
    same(z(a).norm_squared(), n); same(z(a).modulus_squared(), n); same(z(a).magnitude_squared(), n);
}
pub fn law_eq(a: A, b: A) { let e = a[0] == b[0] && a[1] == b[1]; same(z(a) == z(b), e); same(z(a) != z(b), !e); }
