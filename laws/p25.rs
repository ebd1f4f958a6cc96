// Complex exponentials, logarithms, roots, circular and hyperbolic functions, polar form.
type A = [S; 2];
fn z(a: A) -> Complex<S> { cx_of(a) }
fn n2(a: A) -> S { a[0] * a[0] + a[1] * a[1] }
fn fin(a: A) { assume(a[0].is_finite()); assume(a[1].is_finite()); }
fn i() -> Complex<S> { z([0.0, 1.0]) }
fn one() -> Complex<S> { z([1.0, 0.0]) }
pub fn law_polar(a: A) {
    assume(n2(a) > 0.0);
    same(z(a).arg(), S::atan2(a[1], a[0]));
    let (n, t) = z(a).polar_decomposition();
    same(n, S::sqrt(n2(a))); same(t.0, S::atan2(a[1], a[0]));
    same(rawc(Complex::from_polar_decomposition(n, t)), a);
}
pub fn law_from_polar(n: S, t: S) {
    same(rawc(Complex::from_polar_decomposition(n, Radians(t))), [n * S::cos(t), n * S::sin(t)]);
    same(rawc(Complex::from_polar_decomposition(n, Degrees(t))), rawc(Complex::from_polar_decomposition(n, Radians::from(Degrees(t)))));
    same(rawc(Complex::from_angle(Radians(t))), [S::cos(t), S::sin(t)]); same(rawc(Complex::from_angle(Degrees(t))), rawc(Complex::from_angle(Radians::from(Degrees(t)))));
    same(rawc(Complex::cis(t)), [S::cos(t), S::sin(t)]);
}
pub fn law_exp(a: A, b: A) {
    let e = S::exp(a[0]);
    same(rawc(z(a).exp()), [e * S::cos(a[1]), e * S::sin(a[1])]);
    same(rawc((z(a) + z(b)).exp()), rawc(z(a).exp() * z(b).exp()));
}
pub fn law_exp2(a: A) { let l = S::ln(2.0); same(rawc(z(a).exp2()), [S::exp(a[0] * l) * S::cos(a[1] * l), S::exp(a[0] * l) * S::sin(a[1] * l)]); }
pub fn law_ln(a: A) {
    assume(n2(a) > 0.0);
    same(rawc(z(a).ln()), [S::ln(S::sqrt(n2(a))), S::atan2(a[1], a[0])]);
    same(rawc(z(a).ln().exp()), a);
}
pub fn law_log(a: A, b: Pos<S>) {
    assume(n2(a) > 0.0); assume(b.0 != 1.0);
    let (x, y) = (S::ln(S::sqrt(n2(a))), S::atan2(a[1], a[0]));
    same(rawc(z(a).log(b.0)), [x / S::ln(b.0), y / S::ln(b.0)]);
    same(rawc(z(a).log2()), [x / S::ln(2.0), y / S::ln(2.0)]);
    same(rawc(z(a).log10()), [x / S::ln(10.0), y / S::ln(10.0)]);
}
pub fn law_sqrt_zero() { same(rawc(z([0.0, 0.0]).sqrt()), [0.0, 0.0]); same(rawc(z([0.0, 0.0]).cbrt()), [0.0, 0.0]); }
pub fn law_sqrt(a: A) { assume(n2(a) > 0.0); let r = z(a).sqrt(); same(rawc(r * r), a); }
pub fn law_sqrt_form(a: A) {
    assume(n2(a) > 0.0);
    let (n, t) = (S::sqrt(S::sqrt(n2(a))), S::atan2(a[1], a[0]) / 2.0);
    same(rawc(z(a).sqrt()), [n * S::cos(t), n * S::sin(t)]);
}
pub fn law_cbrt(a: A) {
    assume(n2(a) > 0.0);
    let (n, t) = (S::cbrt(S::sqrt(n2(a))), S::atan2(a[1], a[0]) / 3.0);
    same(rawc(z(a).cbrt()), [n * S::cos(t), n * S::sin(t)]);
}
pub fn law_powf(a: A, x: S) { assume(n2(a) > 0.0); same(rawc(z(a).powf(x)), rawc((z(a).ln() * x).exp())); }
pub fn law_powc(a: A, b: A) {
    assume(n2(a) > 0.0);
    same(rawc(z(a).powc(z(b))), rawc((z(a).ln() * z(b)).exp()));
}
pub fn law_powc_zero(a: A) { same(rawc(z(a).powc(z([0.0, 0.0]))), [1.0, 0.0]); }
pub fn law_hyperbolic(a: A) {
    fin(a);
    same(rawc(z(a).cosh()), [S::cosh(a[0]) * S::cos(a[1]), S::sinh(a[0]) * S::sin(a[1])]);
    same(rawc(z(a).sinh()), [S::sinh(a[0]) * S::cos(a[1]), S::cosh(a[0]) * S::sin(a[1])]);
    let d = S::cos(a[1]) * S::cos(a[1]) + S::sinh(a[0]) * S::sinh(a[0]); assume(d > 0.0);
    same(rawc(z(a).tanh()), [S::sinh(a[0]) * S::cosh(a[0]) / d, S::cos(a[1]) * S::sin(a[1]) / d]);
}
pub fn law_circular(a: A) {
    fin(a);
    same(rawc(z(a).cos()), [S::cos(a[0]) * S::cosh(a[1]), -S::sin(a[0]) * S::sinh(a[1])]);
    same(rawc(z(a).sin()), [S::sin(a[0]) * S::cosh(a[1]), S::cos(a[0]) * S::sinh(a[1])]);
    let d = S::cos(a[0]) * S::cos(a[0]) + S::sinh(a[1]) * S::sinh(a[1]); assume(d > 0.0);
    same(rawc(z(a).tan()), [S::sin(a[0]) * S::cos(a[0]) / d, S::cosh(a[1]) * S::sinh(a[1]) / d]);
}
pub fn law_asinh(a: A) { fin(a); same(rawc(z(a).asinh()), rawc((z(a) + (one() + z(a) * z(a)).sqrt()).ln())); }
pub fn law_acosh(a: A) {
    fin(a);
    same(rawc(z(a).acosh()), rawc((((z(a) + one()) / 2.0).sqrt() + ((z(a) - one()) / 2.0).sqrt()).ln() * 2.0));
}
pub fn law_atanh(a: A) {
    fin(a); assume(a[1] != 0.0 || (a[0] != 1.0 && a[0] != -1.0));
    same(rawc(z(a).atanh()), rawc(((one() + z(a)).ln() - (one() - z(a)).ln()) / 2.0));
}
pub fn law_atanh_real(x: S) {
    assume(x.is_finite()); assume(x > -1.0); assume(x < 1.0);
    same(rawc(z([x, 0.0]).atanh()), [S::atanh(x), 0.0]);
}
pub fn law_asin(a: A) { fin(a); same(rawc(z(a).asin()), rawc(-(i() * (i() * z(a) + (one() - z(a) * z(a)).sqrt()).ln()))); }
pub fn law_acos(a: A) {
    fin(a); assume(n2(a) > 0.0);
    same(rawc(z(a).acos()), rawc(-(i() * (z(a) + i() * (one() - z(a) * z(a)).sqrt()).ln())));
}
pub fn law_acos_zero() { same(rawc(z([0.0, 0.0]).acos()), [K::PI / 2.0, 0.0]); }
pub fn law_atan(a: A) {
    fin(a); assume(a[0] != 0.0 || (a[1] != 1.0 && a[1] != -1.0));
    same(rawc(z(a).atan()), rawc(((one() + i() * z(a)).ln() - (one() - i() * z(a)).ln()) / (i() * 2.0)));
}
pub fn law_atanh_poles() {
    same(rawc(z([1.0, 0.0]).atanh()), [S::INFINITY, 0.0]); same(rawc(z([-1.0, 0.0]).atanh()), [-S::INFINITY, 0.0]);
}
// limits at infinite arguments
fn sg(x: S, y: S) -> S { if y < 0.0 { -x } else { x } }
pub fn law_infinite_re(x: S) {
    let inf = S::INFINITY; let pi = K::PI; assume(x.is_finite()); assume(x != 0.0);
    same(rawc(z([inf, x]).acos()), [0.0, sg(-inf, x)]); same(rawc(z([-inf, x]).acos()), [pi, sg(-inf, x)]);
    same(rawc(z([inf, x]).asin()), [pi / 2.0, sg(inf, x)]); same(rawc(z([-inf, x]).asin()), [-pi / 2.0, sg(inf, x)]);
    same(rawc(z([inf, x]).acosh()), [inf, 0.0]); same(rawc(z([-inf, x]).acosh()), [inf, sg(pi, x)]);
    same(rawc(z([inf, x]).asinh()), [inf, 0.0]); same(rawc(z([-inf, x]).asinh()), [-inf, 0.0]);
    same(rawc(z([inf, x]).atanh()), [0.0, sg(pi / 2.0, x)]); same(rawc(z([-inf, x]).atanh()), [0.0, sg(pi / 2.0, x)]);
    same(rawc(z([inf, x]).atan()), [pi / 2.0, 0.0]); same(rawc(z([-inf, x]).atan()), [-pi / 2.0, 0.0]);
    same(rawc(z([inf, x]).tanh()), [1.0, 0.0]); same(rawc(z([-inf, x]).tanh()), [-1.0, 0.0]);
}
pub fn law_infinite_im(x: S) {
    let inf = S::INFINITY; let pi = K::PI; assume(x.is_finite()); assume(x != 0.0);
    same(rawc(z([x, inf]).acos()), [pi / 2.0, -inf]); same(rawc(z([x, -inf]).acos()), [pi / 2.0, inf]);
    same(rawc(z([x, inf]).asin()), [0.0, inf]); same(rawc(z([x, -inf]).asin()), [0.0, -inf]);
    same(rawc(z([x, inf]).acosh()), [inf, pi / 2.0]); same(rawc(z([x, -inf]).acosh()), [inf, -pi / 2.0]);
    same(rawc(z([x, inf]).asinh()), [sg(inf, x), pi / 2.0]); same(rawc(z([x, -inf]).asinh()), [sg(inf, x), -pi / 2.0]);
    same(rawc(z([x, inf]).atanh()), [0.0, pi / 2.0]); same(rawc(z([x, -inf]).atanh()), [0.0, -pi / 2.0]);
    same(rawc(z([x, inf]).atan()), [sg(pi / 2.0, x), 0.0]); same(rawc(z([x, -inf]).atan()), [sg(pi / 2.0, x), 0.0]);
    same(rawc(z([x, inf]).tan()), [0.0, 1.0]); same(rawc(z([x, -inf]).tan()), [0.0, -1.0]);
}
pub fn law_infinite_both() {
    let inf = S::INFINITY; let q = K::PI / 4.0;
    same(rawc(z([inf, inf]).acos()), [q, -inf]); same(rawc(z([inf, -inf]).acos()), [q, inf]);
    same(rawc(z([-inf, inf]).acos()), [3.0 * q, -inf]); same(rawc(z([-inf, -inf]).acos()), [3.0 * q, inf]);
    same(rawc(z([inf, inf]).acosh()), [inf, q]); same(rawc(z([inf, -inf]).acosh()), [inf, -q]);
    same(rawc(z([-inf, inf]).acosh()), [inf, 3.0 * q]); same(rawc(z([-inf, -inf]).acosh()), [inf, -3.0 * q]);
    same(rawc(z([inf, inf]).asinh()), [inf, q]); same(rawc(z([inf, -inf]).asinh()), [inf, -q]);
    same(rawc(z([-inf, inf]).asinh()), [-inf, q]); same(rawc(z([-inf, -inf]).asinh()), [-inf, -q]);
}
// hyperbolic sine and cosine grow without bound along the direction of e^(ix)
pub fn law_infinite_growth(x: S) {
    let inf = S::INFINITY; assume(x.is_finite()); assume(x != 0.0); let (c, s) = (inf.cosh() * x.cos(), inf.sinh() * x.sin()); let (d, t) = (inf.sinh() * x.cos(), inf.cosh() * x.sin());
    same(rawc(z([inf, x]).cosh()), [c, s]); same(rawc(z([inf, x]).sinh()), [d, t]);
    same(rawc(z([-inf, x]).cosh()), [c, -s]); same(rawc(z([-inf, x]).sinh()), [-d, t]);
    let (e, u) = (inf.cosh() * x.cos(), inf.sinh() * x.sin()); let (g, v) = (inf.cosh() * x.sin(), inf.sinh() * x.cos());
    same(rawc(z([x, inf]).cos()), [e, -u]); same(rawc(z([x, -inf]).cos()), [e, u]);
    same(rawc(z([x, inf]).sin()), [g, v]); same(rawc(z([x, -inf]).sin()), [g, -v]);
}
