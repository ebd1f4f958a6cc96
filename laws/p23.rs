// Quaternion exponentials, logarithms, roots, circular and hyperbolic functions, polar form.
type V = [S; 3];
type A = [S; 4];
fn q(a: A) -> Quaternion<S> { quat_of(a) }
fn v2(a: A) -> S { a[1] * a[1] + a[2] * a[2] + a[3] * a[3] }
fn n2(a: A) -> S { a[0] * a[0] + v2(a) }
fn by(s: S, k: S, a: A) -> A { [s, a[1] * k, a[2] * k, a[3] * k] }
const ONE: A = [1.0, 0.0, 0.0, 0.0];
fn one() -> Quaternion<S> { quat_of(ONE) }
fn i(a: A) -> Quaternion<S> { let n = S::sqrt(v2(a)); quat_of([0.0, a[1] / n, a[2] / n, a[3] / n]) }
fn big(a: A) { assume(v2(a) > 256.0 * S::EPSILON * S::EPSILON); }
pub fn law_exp(a: A) {
    big(a);
    let n = S::sqrt(v2(a)); let e = S::exp(a[0]);
    same(rawq(q(a).exp()), by(e * S::cos(n), e * S::sin(n) / n, a));
}
pub fn law_exp_real(s: S) { same(rawq(q([s, 0.0, 0.0, 0.0]).exp()), [S::exp(s), 0.0, 0.0, 0.0]); }
pub fn law_exp_axis(k: UVec3<S>, t: Pos<S>) {
    assume(t.0 * t.0 > 256.0 * S::EPSILON * S::EPSILON);
    same(rawq(q([0.0, k.0 * t.0, k.1 * t.0, k.2 * t.0]).exp()), [S::cos(t.0), k.0 * S::sin(t.0), k.1 * S::sin(t.0), k.2 * S::sin(t.0)]);
}
pub fn law_ln(a: A) {
    big(a);
    let n = S::sqrt(n2(a));
    same(rawq(q(a).ln()), by(S::ln(n), S::acos(a[0] / n) / S::sqrt(v2(a)), a));
}
pub fn law_ln_real(s: Pos<S>) { same(rawq(q([s.0, 0.0, 0.0, 0.0]).ln()), [S::ln(s.0), 0.0, 0.0, 0.0]); }
pub fn law_ln_negative_real(s: Pos<S>) { same(q([-s.0, 0.0, 0.0, 0.0]).ln().scalar(), S::ln(s.0)); }
pub fn law_exp_ln(a: A) {
    big(a);
    let l = q(a).ln(); assume(v2(rawq(l)) > 256.0 * S::EPSILON * S::EPSILON);
    same(rawq(l.exp()), a);
}
pub fn law_powf(a: A, x: S) { same(rawq(q(a).powf(x)), rawq((q(a).ln() * x).exp())); }
pub fn law_powf_real(s: Pos<S>) { same(rawq(q([s.0, 0.0, 0.0, 0.0]).powf(2.0)), [s.0 * s.0, 0.0, 0.0, 0.0]); }
pub fn law_sqrt(a: A) {
    big(a); assume(n2(a) > 256.0 * S::EPSILON * S::EPSILON);
    let r = q(a).sqrt();
    same(rawq(r * r), a);
    holds(r.scalar() >= 0.0);
}
pub fn law_sqrt_form(a: A) {
    big(a); assume(n2(a) > 256.0 * S::EPSILON * S::EPSILON);
    let n = S::sqrt(n2(a)); let w = S::sqrt((n + a[0]) / 2.0);
    same(rawq(q(a).sqrt()), by(w, 1.0 / (2.0 * w), a));
}
pub fn law_sqrt_real(s: Pos<S>) {
    assume(s.0 * s.0 > 256.0 * S::EPSILON * S::EPSILON);
    same(rawq(q([s.0, 0.0, 0.0, 0.0]).sqrt()), [S::sqrt(s.0), 0.0, 0.0, 0.0]);
    let r = q([-s.0, 0.0, 0.0, 0.0]).sqrt();
    same(rawq(r * r), [-s.0, 0.0, 0.0, 0.0]);
    same(rawq(r), [0.0, S::sqrt(s.0), 0.0, 0.0]);
}
pub fn law_sqrt_zero() { same(rawq(q([0.0; 4]).sqrt()), [0.0; 4]); }
pub fn law_circular(a: A) {
    assume(v2(a) > 0.0);
    let n = S::sqrt(v2(a));
    same(rawq(q(a).cos()), by(S::cos(a[0]) * S::cosh(n), -S::sin(a[0]) * S::sinh(n) / n, a));
    same(rawq(q(a).sin()), by(S::sin(a[0]) * S::cosh(n), S::cos(a[0]) * S::sinh(n) / n, a));
    let d = S::cos(a[0]) * S::cos(a[0]) + S::sinh(n) * S::sinh(n); assume(d > 0.0);
    same(rawq(q(a).tan()), by(S::sin(a[0]) * S::cos(a[0]) / d, S::cosh(n) * S::sinh(n) / (d * n), a));
}
pub fn law_hyperbolic(a: A) {
    assume(v2(a) > 0.0);
    let n = S::sqrt(v2(a));
    same(rawq(q(a).cosh()), by(S::cosh(a[0]) * S::cos(n), S::sinh(a[0]) * S::sin(n) / n, a));
    same(rawq(q(a).sinh()), by(S::sinh(a[0]) * S::cos(n), S::cosh(a[0]) * S::sin(n) / n, a));
    let d = S::cos(n) * S::cos(n) + S::sinh(a[0]) * S::sinh(a[0]); assume(d > 0.0);
    same(rawq(q(a).tanh()), by(S::sinh(a[0]) * S::cosh(a[0]) / d, S::cos(n) * S::sin(n) / (d * n), a));
}
pub fn law_real(s: S) {
    let r = |x: S| [x, 0.0, 0.0, 0.0];
    same(rawq(q(r(s)).cos()), r(S::cos(s))); same(rawq(q(r(s)).sin()), r(S::sin(s))); same(rawq(q(r(s)).tan()), r(S::tan(s)));
    same(rawq(q(r(s)).cosh()), r(S::cosh(s))); same(rawq(q(r(s)).sinh()), r(S::sinh(s))); same(rawq(q(r(s)).tanh()), r(S::tanh(s)));
}
/// where the real inverse function is defined, the quaternion one is it
pub fn law_arc_real(s: S) {
    let r = |x: S| [x, 0.0, 0.0, 0.0];
    same(rawq(q(r(s)).atan()), r(S::atan(s)));
    same(rawq(q(r(s)).asinh()), r(S::ln(s + S::sqrt(s * s + 1.0))));
    assume(s <= 1.0); assume(-1.0 <= s);
    same(rawq(q(r(s)).asin()), r(S::asin(s))); same(rawq(q(r(s)).acos()), r(S::acos(s)));
    assume(s < 1.0); assume(-1.0 < s);
    same(rawq(q(r(s)).atanh()), r((S::ln(1.0 + s) - S::ln(1.0 - s)) / 2.0));
}
pub fn law_arc_real_large(t: Pos<S>) {
    let t = t.0; assume(t * t > 256.0 * S::EPSILON * S::EPSILON);
    same(rawq(q([1.0 + t, 0.0, 0.0, 0.0]).acosh()), [S::ln(1.0 + t + S::sqrt(t + 2.0) * S::sqrt(t)), 0.0, 0.0, 0.0]);
}
pub fn law_arc_circular(a: A) {
    assume(v2(a) > 0.0);
    same(rawq(q(a).acos()), rawq(-(i(a) * (q(a) + (q(a) * q(a) - one()).sqrt()).ln())));
    same(rawq(q(a).asin()), rawq(-(i(a) * (i(a) * q(a) + (one() - q(a) * q(a)).sqrt()).ln())));
}
pub fn law_arc_tangent(a: A) {
    assume(v2(a) > 0.0);
    let d = i(a) - q(a);
    assume(n2(rawq(d)) > 256.0 * S::EPSILON * S::EPSILON);
    same(rawq(q(a).atan()), rawq(i(a) * ((i(a) + q(a)) * d.inverse()).ln() / 2.0));
}
pub fn law_arc_hyperbolic(a: A) {
    same(rawq(q(a).acosh()), rawq((q(a) + (q(a) + one()).sqrt() * (q(a) - one()).sqrt()).ln()));
    same(rawq(q(a).asinh()), rawq((q(a) + (q(a) * q(a) + one()).sqrt()).ln()));
    same(rawq(q(a).atanh()), rawq(((one() + q(a)).ln() - (one() - q(a)).ln()) / 2.0));
}
pub fn law_from_polar(n: S, t: S, k: UVec3<S>) {
    let u: Unit<Vector3<S>> = arr(k); let (s, c) = (S::sin(t / 2.0), S::cos(t / 2.0));
    same(rawq(Quaternion::from_polar_decomposition(n, Radians(t), &u)), [n * c, n * s * k.0, n * s * k.1, n * s * k.2]);
}
/// the second part is half the angle of rotation: |q| (cos h + axis sin h) is q
pub fn law_polar(a: A) {
    assume(v2(a) > 0.0); assume(n2(a) > 0.0);
    let (n, h, k) = q(a).polar_decomposition();
    same(n, S::sqrt(n2(a)));
    match k { Some(k) => { let k: V = arr(k); let (s, c) = (S::sin(h.0), S::cos(h.0)); same([n * c, n * s * k[0], n * s * k[1], n * s * k[2]], a); same(k[0] * k[0] + k[1] * k[1] + k[2] * k[2], 1.0) } None => never() }
}
pub fn law_polar_real(s: NonZero<S>) {
    let (n, h, k) = q([s.0, 0.0, 0.0, 0.0]).polar_decomposition();
    same(n * S::cos(h.0), s.0); same(k.is_none(), true);
}
pub fn law_polar_zero() { let (n, h, k) = q([0.0; 4]).polar_decomposition(); same((n, h.0, k.is_none()), (0.0, 0.0, true)); }
pub fn law_arg(a: A) {
    assume(a[0] * a[0] > 256.0 * S::EPSILON * S::EPSILON);
    same(q(a).arg(), S::atan2(S::sqrt(v2(a)), a[0]));
}
pub fn law_arg_pure(v: V) { same(q([0.0, v[0], v[1], v[2]]).arg(), K::PI / 2.0); }
