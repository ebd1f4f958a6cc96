// Scalar layer: every trait method agrees with the primitive operation it names.
use SimdScalarFloat as F;
use SimdScalarSigned as G;
use SimdScalarOrd as O;
macro_rules! un { ($($n:ident: $m:ident),*) => { $( pub fn $n(x: S) { same(F::$m(x), S::$m(x)); } )* } }
un!(law_floor: floor, law_ceil: ceil, law_round: round, law_trunc: trunc, law_fract: fract, law_recip: recip,
    law_sin: sin, law_cos: cos, law_tan: tan, law_asin: asin, law_acos: acos, law_atan: atan, law_sinh: sinh,
    law_cosh: cosh, law_tanh: tanh, law_asinh: asinh, law_acosh: acosh, law_atanh: atanh, law_log2: log2,
    law_log10: log10, law_ln: ln, law_ln_1p: ln_1p, law_sqrt: sqrt, law_cbrt: cbrt, law_exp: exp, law_exp2: exp2,
    law_exp_m1: exp_m1, law_is_finite: is_finite, law_is_infinite: is_infinite, law_is_nan: is_nan,
    law_is_normal: is_normal, law_is_subnormal: is_subnormal);
pub fn law_sin_cos(x: S) { same(F::sin_cos(x), (S::sin(x), S::cos(x))); }
pub fn law_sinh_cosh(x: S) { same(F::sinh_cosh(x), (S::sinh(x), S::cosh(x))); }
pub fn law_mul_add(x: S, a: S, b: S) { same(F::mul_add(x, a, b), x * a + b); }
pub fn law_hypot(x: S, y: S) { same(F::hypot(x, y), S::sqrt(x * x + y * y)); }
pub fn law_atan2(x: S, y: S) { same(F::atan2(x, y), S::atan2(x, y)); }
pub fn law_log(x: S, b: S) { same(F::log(x, b), S::ln(x) / S::ln(b)); }
pub fn law_powf(x: Pos<S>, p: S) { same(F::powf(x.0, p), S::powf(x.0, p)); }
pub fn law_powi(x: S, n: i32) { same(F::powi(x, n), S::powi(x, n)); }
pub fn law_powi_small(x: NonZero<S>) { let x = x.0; same(F::powi(x, 0), 1.0); same(F::powi(x, 3), x * x * x); same(F::powi(x, -2), 1.0 / (x * x)); }
pub fn law_sign(x: S, y: S) {
    same(G::is_sign_positive(x), S::is_sign_positive(x));
    same(G::is_sign_negative(x), S::is_sign_negative(x));
    same(G::copysign(x, y), S::copysign(x, y));
    same(G::signum(x), S::signum(x));
    same(G::abs(x), S::abs(x));
}
pub fn law_order(x: S, y: S, lo: S, hi: S) {
    assume(x.is_nan() == false); assume(y.is_nan() == false);
    same(O::max(x, y), if x < y { y } else { x });
    same(O::min(x, y), if x < y { x } else { y });
    if lo <= hi {
        let c = O::clamp(x, lo, hi);
        holds(lo <= c && c <= hi);
        if lo <= x && x <= hi { same(c, x); }
        if x < lo { same(c, lo); }
        if x > hi { same(c, hi); }
    }
}
pub fn law_constants() {
    let pi = <S as F>::pi();
    same(pi, K::PI); same(<S as F>::two_pi(), 2.0 * pi); same(<S as F>::frac_pi_2(), pi / 2.0);
    same(<S as F>::frac_pi_3(), pi / 3.0); same(<S as F>::frac_pi_4(), pi / 4.0); same(<S as F>::frac_pi_6(), pi / 6.0);
    same(<S as F>::frac_pi_8(), pi / 8.0); same(<S as F>::frac_1_pi(), 1.0 / pi); same(<S as F>::frac_2_pi(), 2.0 / pi);
    same(<S as F>::frac_2_sqrt_pi(), 2.0 / S::sqrt(pi)); same(<S as F>::e(), K::E);
    same(<S as F>::log2_e(), 1.0 / S::ln(2.0)); same(<S as F>::log10_e(), 1.0 / S::ln(10.0));
    same(<S as F>::ln_2(), S::ln(2.0)); same(<S as F>::ln_10(), S::ln(10.0));
    same(<S as F>::sqrt_2(), S::sqrt(2.0)); same(<S as F>::frac_1_sqrt_2(), 1.0 / S::sqrt(2.0));
    same(<S as F>::min_positive_value(), S::MIN_POSITIVE); same(<S as F>::machine_epsilon(), S::EPSILON);
    same(<S as SimdScalarCmp>::default_epsilon(), S::EPSILON);
    same(<S as F>::neg_zero(), 0.0);
    same(<S as SimdScalarBounded>::min_value(), S::MIN); same(<S as SimdScalarBounded>::max_value(), S::MAX);
    holds(S::is_nan(<S as F>::nan())); holds(S::is_infinite(<S as F>::infinity())); holds(<S as F>::infinity() > 0.0);
    holds(S::is_infinite(<S as F>::neg_infinity())); holds(<S as F>::neg_infinity() < 0.0);
}
pub fn law_cast(x: S) {
    same(try_cast::<S, S>(x), Some(x));
    same(cast::<S, S>(x), x);
}
