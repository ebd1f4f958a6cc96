// General projective transforms of dimension two and three.
macro_rules! dim { ($t:ident, $n:literal, $h:literal, $T:ident, $M:ident) => { pub mod $t { use super::*;
    type V = [S; $n]; type H = [S; $h]; type M = [H; $h];
    fn hom(x: V, w: S) -> H { let mut r = [w; $h]; let mut i = 0; while i < $n { r[i] = x[i]; i += 1; } r }
    fn mv(m: M, x: H) -> H { let mut r = [0.0; $h]; let mut i = 0; while i < $h { let mut j = 0; while j < $h { r[j] = r[j] + m[i][j] * x[i]; j += 1; } i += 1; } r }
    fn mm(a: M, b: M) -> M { let mut r = [[0.0; $h]; $h]; let mut i = 0; while i < $h { r[i] = mv(a, b[i]); i += 1; } r }
    fn low(x: H) -> V { let mut r = [0.0; $n]; let mut i = 0; while i < $n { r[i] = x[i]; i += 1; } r }
    fn tf(m: M) -> $T<S> { $T::from_matrix_unchecked(mat_of(m)) }
    fn rt(t: $T<S>) -> M { rawm(t.to_matrix()) }
    pub fn law_matrix(m: M) {
        let t = tf(m); same(rt(t), m); same(rawm(*t.matrix()), m); same(rawm(*AsRef::<$M<S>>::as_ref(&t)), m); same(rawm($M::from(t)), m); same(rawm($M::from(&t)), m);
        let mut u = t; same(rawm(*u.matrix_mut()), m);
        let mut e = [[0.0; $h]; $h]; let mut i = 0; while i < $h { e[i][i] = 1.0; i += 1; } same(rt($T::identity()), e);
    }
    pub fn law_vector(m: M, x: V) { let e = low(mv(m, hom(x, 0.0))); same(raw(tf(m).apply_vector(&vec_of(x))), e); forms!(raw, tf(m), vec_of(x), e); }
    pub fn law_point(m: M, x: V) {
        let y = mv(m, hom(x, 1.0)); assume(y[$n] != 0.0);
        let e = z1(low(y), 0.0, |v| v / y[$n]); same(rawp(tf(m).apply_point(&pt_of(x))), e); forms!(rawp, tf(m), pt_of(x), e);
    }
    pub fn law_point_at_infinity(m: M, x: V) { may_panic(); let y = mv(m, hom(x, 1.0)); assume(y[$n] == 0.0); tf(m).apply_point(&pt_of(x)); never(); }
    pub fn law_compose(a: M, b: M) { forms!(rt, tf(a), tf(b), mm(a, b)); }
    pub fn law_inverse(m: M) {
        match tf(m).try_inverse() { Some(t) => { same(rawm(mat_of(m).try_inverse().unwrap()), rt(t)); } None => holds(mat_of(m).try_inverse().is_none()) }
    }
    pub fn law_inverse_apply(m: M, x: V) {
        match tf(m).try_inverse() {
            Some(t) => {
                same(rt(tf(m).inverse()), rt(t));
                match tf(m).inverse_apply_vector(&vec_of(x)) { Some(v) => same(raw(v), raw(t.apply_vector(&vec_of(x)))), None => never() }
            }
            None => { holds(tf(m).inverse_apply_vector(&vec_of(x)).is_none()); holds(tf(m).inverse_apply_point(&pt_of(x)).is_none()); }
        }
    }
    pub fn law_inverse_point(m: M, x: V) {
        match tf(m).try_inverse() {
            Some(t) => {
                assume(mv(rt(t), hom(x, 1.0))[$n] != 0.0);
                match tf(m).inverse_apply_point(&pt_of(x)) { Some(v) => same(rawp(v), rawp(t.apply_point(&pt_of(x)))), None => never() }
            }
            None => {}
        }
    }
    pub fn law_no_inverse(m: M) { may_panic(); assume(tf(m).try_inverse().is_none()); tf(m).inverse(); never(); }
    pub fn law_eq(a: M, b: M) { same(tf(a) == tf(b), mat_of(a) == mat_of(b)); }
} } }
dim!(d2, 2, 3, Transform2, Matrix3x3);
dim!(d3, 3, 4, Transform3, Matrix4x4);
