// Typed angles: conversion, arithmetic in every operand form, trigonometry, congruence.
pub fn law_convert(x: S) {
    same(Radians::from(Degrees(x)).0, x * K::PI / 180.0);
    same(Degrees::from(Radians(x)).0, x * 180.0 / K::PI);
    same(Degrees::from(Radians::from(Degrees(x))).0, x);
    same(Radians::from(Degrees::from(Radians(x))).0, x);
    let r: Radians<S> = Degrees(x).into();
    same(r.0, x * K::PI / 180.0);
}
pub fn law_turns() {
    same(<Radians<S> as Angle>::full_turn().0, 2.0 * K::PI);
    same(<Degrees<S> as Angle>::full_turn().0, 360.0);
}
pub fn law_trig_radians(x: S) {
    same(Radians(x).sin(), S::sin(x));
    same(Radians(x).cos(), S::cos(x));
    same(Radians(x).tan(), S::tan(x));
    same(<Radians<S> as Angle>::asin(x).0, S::asin(x));
    same(<Radians<S> as Angle>::acos(x).0, S::acos(x));
    same(<Radians<S> as Angle>::atan(x).0, S::atan(x));
}
pub fn law_trig_degrees(x: S) {
    let r = x * K::PI / 180.0;
    same(Degrees(x).sin(), S::sin(r));
    same(Degrees(x).cos(), S::cos(r));
    same(Degrees(x).tan(), S::tan(r));
    same(<Degrees<S> as Angle>::asin(x).0, S::asin(x) * 180.0 / K::PI);
    same(<Degrees<S> as Angle>::acos(x).0, S::acos(x) * 180.0 / K::PI);
    same(<Degrees<S> as Angle>::atan(x).0, S::atan(x) * 180.0 / K::PI);
}
pub fn law_atan2(y: S, x: S) {
    same(<Radians<S> as Angle>::atan2(y, x).0, S::atan2(y, x));
    same(<Degrees<S> as Angle>::atan2(y, x).0, S::atan2(y, x) * 180.0 / K::PI);
}
pub fn law_units_agree(x: S) {
    let d = Degrees(x);
    let r: Radians<S> = d.into();
    same(d.sin(), r.sin()); same(d.cos(), r.cos()); same(d.tan(), r.tan());
    same(d.sin_cos(), r.sin_cos());
    same(d.csc(), r.csc()); same(d.sec(), r.sec()); same(d.cot(), r.cot());
    same(Radians::from(d.opposite()).0, r.opposite().0);
}
macro_rules! unit { ($m:ident, $A:ident) => { pub mod $m { use super::*;
    pub fn law_zero(x: S) {
        same(<$A<S> as Angle>::zero().0, 0.0); same($A::<S>::zero().0, 0.0); same($A::<S>::default().0, 0.0);
        same(Angle::is_zero($A(x)), x == 0.0); same($A::<S>::is_zero(&$A(x)), x == 0.0);
        same($A(x).is_finite(), x.is_finite());
    }
    pub fn law_fractions() {
        let t = <$A<S> as Angle>::full_turn().0;
        same(<$A<S> as Angle>::full_turn_div_2().0, t / 2.0); same(<$A<S> as Angle>::full_turn_div_4().0, t / 4.0);
        same(<$A<S> as Angle>::full_turn_div_6().0, t / 6.0); same(<$A<S> as Angle>::full_turn_div_8().0, t / 8.0);
    }
    pub fn law_reciprocals(x: S) {
        let a = $A(x);
        let (s, c) = a.sin_cos();
        same(s, a.sin()); same(c, a.cos());
        same(s * s + c * c, 1.0);
        assume(s != 0.0); assume(c != 0.0);
        same(a.tan(), s / c); same(a.csc(), 1.0 / s); same(a.sec(), 1.0 / c); same(a.cot(), c / s);
    }
    pub fn law_normalize(x: S) {
        let t = <$A<S> as Angle>::full_turn().0;
        let m = x % t;
        let n = if m < 0.0 { m + t } else { m };
        same($A(x).normalize().0, n);
        let h = t / 2.0;
        assume(n != h);
        same($A(x).normalize_signed().0, if n > h { n - t } else { n });
    }
    pub fn law_normalize_half(x: S) {
        let t = <$A<S> as Angle>::full_turn().0;
        let m = x % t;
        let n = if m < 0.0 { m + t } else { m };
        assume(n == t / 2.0);
        let s = $A(x).normalize_signed().0;
        holds(s == t / 2.0 || s == -t / 2.0);
    }
    pub fn law_opposite(x: S) {
        let t = <$A<S> as Angle>::full_turn().0;
        let m = (x + t / 2.0) % t;
        same($A(x).opposite().0, if m < 0.0 { m + t } else { m });
    }
    pub fn law_bisect(x: S, y: S) {
        let t = <$A<S> as Angle>::full_turn().0;
        let m = ((y - x) / 2.0 + x) % t;
        same($A(x).bisect($A(y)).0, if m < 0.0 { m + t } else { m });
    }
    pub fn law_add_sub(x: S, y: S) {
        same(($A(x) + $A(y)).0, x + y); same(($A(x) + &$A(y)).0, x + y); same((&$A(x) + $A(y)).0, x + y); same((&$A(x) + &$A(y)).0, x + y);
        same(($A(x) - $A(y)).0, x - y); same(($A(x) - &$A(y)).0, x - y); same((&$A(x) - $A(y)).0, x - y); same((&$A(x) - &$A(y)).0, x - y);
        same((-$A(x)).0, -x); same((-&$A(x)).0, -x);
        let mut a = $A(x); a += $A(y); same(a.0, x + y);
        let mut a = $A(x); a -= $A(y); same(a.0, x - y);
    }
    pub fn law_scale(x: S, y: NonZero<S>) {
        let y = y.0;
        same(($A(x) * y).0, x * y); same((&$A(x) * y).0, x * y);
        same(($A(x) / y).0, x / y); same((&$A(x) / y).0, x / y);
        same($A(x) / $A(y), x / y); same($A(x) / &$A(y), x / y); same(&$A(x) / $A(y), x / y); same(&$A(x) / &$A(y), x / y);
        let mut a = $A(x); a *= y; same(a.0, x * y);
        let mut a = $A(x); a /= y; same(a.0, x / y);
    }
    pub fn law_rem(x: S, y: NonZero<S>) {
        let y = y.0;
        same(($A(x) % $A(y)).0, x % y); same(($A(x) % &$A(y)).0, x % y); same((&$A(x) % $A(y)).0, x % y); same((&$A(x) % &$A(y)).0, x % y);
        let mut a = $A(x); a %= $A(y); same(a.0, x % y);
    }
    pub fn law_order(x: S, y: S) {
        same($A(x) == $A(y), x == y); same($A(x) < $A(y), x < y); same($A(x) > $A(y), x > y); same($A(x) <= $A(y), x <= y);
    }
} } }
unit!(rad, Radians);
unit!(deg, Degrees);
