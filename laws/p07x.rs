// Each trait method is the primitive of its name itself: not a formula that agrees with it over the reals
// but rounds, overflows or treats signed zeros differently; and not-a-number operands.
use SimdScalarFloat as F;
use SimdScalarSigned as G;
use SimdScalarOrd as O;
macro_rules! un { ($($n:ident: $t:ident $m:ident),*) => { $( pub fn $n(x: S) { exactly(); same($t::$m(x), S::$m(x)); } )* } }
un!(law_floor: F floor, law_ceil: F ceil, law_round: F round, law_trunc: F trunc, law_fract: F fract, law_recip: F recip,
    law_sin: F sin, law_cos: F cos, law_tan: F tan, law_asin: F asin, law_acos: F acos, law_atan: F atan, law_sinh: F sinh,
    law_cosh: F cosh, law_tanh: F tanh, law_asinh: F asinh, law_acosh: F acosh, law_atanh: F atanh, law_log2: F log2,
    law_log10: F log10, law_ln: F ln, law_ln_1p: F ln_1p, law_sqrt: F sqrt, law_cbrt: F cbrt, law_exp: F exp, law_exp2: F exp2,
    law_exp_m1: F exp_m1, law_abs: G abs, law_signum: G signum, law_is_sign_positive: G is_sign_positive,
    law_is_sign_negative: G is_sign_negative);
pub fn law_sin_cos(x: S) { exactly(); same(F::sin_cos(x), (S::sin(x), S::cos(x))); }
pub fn law_sinh_cosh(x: S) { exactly(); same(F::sinh_cosh(x), (S::sinh(x), S::cosh(x))); }
pub fn law_mul_add(x: S, a: S, b: S) { exactly(); same(F::mul_add(x, a, b), S::mul_add(x, a, b)); }
pub fn law_hypot(x: S, y: S) { exactly(); same(F::hypot(x, y), S::hypot(x, y)); }
pub fn law_atan2(x: S, y: S) { exactly(); same(F::atan2(x, y), S::atan2(x, y)); }
pub fn law_log(x: S, b: S) { exactly(); same(F::log(x, b), S::log(x, b)); }
pub fn law_powf(x: S, p: S) { exactly(); same(F::powf(x, p), S::powf(x, p)); }
pub fn law_powi(x: S, n: i32) { exactly(); same(F::powi(x, n), S::powi(x, n)); }
pub fn law_powi_small(x: S) { exactly(); same(F::powi(x, 2), S::powi(x, 2)); same(F::powi(x, -1), S::powi(x, -1)); same(F::powf(x, 0.5), S::powf(x, 0.5)); }
pub fn law_copysign(x: S, y: S) { exactly(); same(G::copysign(x, y), S::copysign(x, y)); }
pub fn law_neg_zero() { exactly(); same(<S as F>::neg_zero(), -0.0); holds(S::is_nan(<S as F>::nan())); same(<S as F>::infinity(), S::INFINITY); same(<S as F>::neg_infinity(), S::NEG_INFINITY); }
pub fn law_order_nan(x: S, lo: S, hi: S) {
    let n = S::NAN; assume(!x.is_nan());
    same(O::max(n, x), x); same(O::max(x, n), x); same(O::min(n, x), x); same(O::min(x, n), x);
    holds(S::is_nan(O::max(n, n))); holds(S::is_nan(O::min(n, n)));
    assume(lo <= hi); holds(S::is_nan(O::clamp(n, lo, hi)));
}
pub fn law_class_nan() {
    let n = S::NAN; let i = S::INFINITY;
    holds(F::is_nan(n)); holds(!F::is_finite(n)); holds(!F::is_infinite(n));
    holds(F::is_infinite(i)); holds(F::is_infinite(-i)); holds(!F::is_nan(i)); holds(!F::is_nan(-i)); holds(!F::is_finite(i)); holds(!F::is_finite(-i));
}
