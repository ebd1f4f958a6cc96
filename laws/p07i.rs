use SimdScalarSigned as G;
use SimdScalarOrd as O;
pub fn law_sign(x: S, y: S) {
    assume(x != S::MIN);
    same(G::is_sign_positive(x), x > 0);
    same(G::is_sign_negative(x), x < 0);
    same(G::abs(x), if x < 0 { -x } else { x });
    same(G::signum(x), if x < 0 { -1 } else if x > 0 { 1 } else { 0 });
    let a = if x < 0 { -x } else { x };
    same(G::copysign(x, y), if y < 0 { -a } else { a });
}
pub fn law_order(x: S, y: S, lo: S, hi: S) {
    same(O::max(x, y), if x < y { y } else { x });
    same(O::min(x, y), if x < y { x } else { y });
    if lo <= hi {
        let c = O::clamp(x, lo, hi);
        holds(lo <= c && c <= hi);
        if lo <= x && x <= hi { same(c, x); }
        if x < lo { same(c, lo); }
        if x > hi { same(c, hi); }
    }
}
pub fn law_bounds() {
    same(<S as SimdScalarBounded>::min_value(), S::MIN); same(<S as SimdScalarBounded>::max_value(), S::MAX);
}
