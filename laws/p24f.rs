// Norms, inverses and quotients of complex numbers; integer powers.
type A = [S; 2];
fn z(a: A) -> Complex<S> { cx_of(a) }
fn n2(a: A) -> S { a[0] * a[0] + a[1] * a[1] }
const ID: A = [1.0, 0.0];
pub fn law_norm(a: A) {
    let n = S::sqrt(n2(a));
    same(z(a).norm(), n); same(z(a).modulus(), n); same(z(a).magnitude(), n); same(z(a).l2_norm(), n);
    same(Normed::norm(&z(a)), n); same(Normed::norm_squared(&z(a)), n2(a));
    same(z(a).l1_norm(), S::abs(a[0]) + S::abs(a[1]));
}
pub fn law_div(a: A, b: A) {
    assume(n2(b) > 0.0);
    same(rawc((z(a) / z(b)) * z(b)), a); same(rawc((z(a) / &z(b)) * z(b)), a); same(rawc((&z(a) / z(b)) * z(b)), a); same(rawc((&z(a) / &z(b)) * z(b)), a);
    let mut c = z(a); c /= z(b); same(rawc(c * z(b)), a);
    let mut c = z(a); c /= &z(b); same(rawc(c * z(b)), a);
}
pub fn law_scalar_div(s: S, b: A) {
    assume(n2(b) > 0.0);
    let e = [s, 0.0];
    same(rawc((s / z(b)) * z(b)), e); same(rawc((s / &z(b)) * z(b)), e); same(rawc((&s / z(b)) * z(b)), e); same(rawc((&s / &z(b)) * z(b)), e);
}
pub fn law_inverse(a: A) {
    assume(n2(a) > 0.0);
    match z(a).try_inverse() { Some(i) => { same(rawc(z(a) * i), ID); same(rawc(z(a).inverse()), rawc(i)) } None => never() }
}
pub fn law_invertible_means_inverse(a: A) { if z(a).is_invertible() { holds(z(a).try_inverse().is_some()); } }
pub fn law_big_is_invertible(a: A) { assume(n2(a) > 256.0 * S::EPSILON * S::EPSILON); holds(z(a).is_invertible()); }
pub fn law_zero_not_invertible() { same(z([0.0; 2]).try_inverse().is_none(), true); same(z([0.0; 2]).is_invertible(), false); }
fn prod(a: A, b: A) -> A { [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]] }
fn pow(a: A, n: u32) -> A { let mut r = ID; let mut k = 0; while k < n { r = prod(r, a); k += 1; } r }
pub fn law_powu(a: A) { let mut k = 0; while k <= 20 { same(rawc(z(a).powu(k)), pow(a, k)); k += 1; } }
pub fn law_powi(a: A) {
    assume(a[0].is_finite()); assume(a[1].is_finite());
    let mut k = 0; while k <= 20 { same(rawc(z(a).powi(k)), pow(a, k as u32)); k += 1; }
}
fn real_pow(x: S, n: u32) -> S { let mut r = 1.0; let mut b = 31; loop { r = r * r; if (n >> b) & 1 == 1 { r = r * x; } if b == 0 { return r; } b -= 1; } }
const FAR: [u32; 12] = [31, 32, 33, 64, 127, 255, 256, 257, 65535, 65537, 16777217, 1073741825];
pub fn law_pow_far(x: S) {
    assume(x.is_finite());
    let mut k = 0;
    while k < 12 { let n = FAR[k]; let r = real_pow(x, n); same(rawc(z([x, 0.0]).powu(n)), [r, 0.0]); same(rawc(z([x, 0.0]).powi(n as i32)), [r, 0.0]); k += 1; }
}
pub fn law_pow_far_imaginary() {
    let i = z([0.0, 1.0]); let mut k = 0;
    while k < 12 {
        let n = FAR[k]; let r = [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]];
        same(rawc(i.powu(n)), r[(n % 4) as usize]); same(rawc(i.powi(n as i32)), r[(n % 4) as usize]); same(rawc(i.powi(-(n as i32))), r[((4 - n % 4) % 4) as usize]);
        k += 1;
    }
    same(rawc(i.powi(i32::MIN)), [1.0, 0.0]); same(rawc(i.powi(i32::MAX)), [0.0, -1.0]); same(rawc(i.powu(u32::MAX)), [0.0, -1.0]);
}
pub fn law_powi_negative(a: A) {
    assume(a[0].is_finite()); assume(a[1].is_finite()); assume(n2(a) > 0.0);
    let mut k = 1; while k <= 10 { same(rawc(z(a).powi(-k) * z(pow(a, k as u32))), ID); k += 1; }
}
pub fn law_finite(a: A) {
    same(z(a).is_finite(), a[0].is_finite() && a[1].is_finite()); same(z(a).is_nan(), a[0].is_nan() || a[1].is_nan());
    same(z(a).is_infinite(), !(a[0].is_nan() || a[1].is_nan()) && (a[0].is_infinite() || a[1].is_infinite()));
}
