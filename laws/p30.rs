// Reflections of dimension two and three.
fn dot<const N: usize>(a: [S; N], b: [S; N]) -> S { fold(z2(a, b, 0.0, |x, y| x * y), 0.0, |s, x| s + x) }
fn sub<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x - y) }
macro_rules! dim { ($t:ident, $n:literal, $h:literal, $r:ident, $u:ident, $m:ident) => { pub mod $t { use super::*;
    type V = [S; $n];
    fn un(a: $u<S>) -> Unit<Vector<S, $n>> { arr(a) }
    fn hom(x: V, w: S) -> [S; $h] { let mut r = [w; $h]; let mut i = 0; while i < $n { r[i] = x[i]; i += 1; } r }
    fn mk(n: $u<S>, b: V) -> $r<S> { $r::from_normal_bias(&un(n), &pt_of(b)) }
    pub fn law_acts(u: $u<S>, b: V, x: V) {
        let r = mk(u, b); let n = raw(u.v());
        same((raw(r.normal()), rawp(r.bias())), (n, b));
        let h = 2.0 * dot(x, n); let v = z2(x, n, 0.0, |x, n| x - n * h);
        let h = 2.0 * dot(sub(x, b), n); let p = z2(x, n, 0.0, |x, n| x - n * h);
        same(raw(r.apply_vector(&vec_of(x))), v); same(rawp(r.apply_point(&pt_of(x))), p);
        same(raw(r.inverse_apply_vector(&vec_of(x))), v); same(rawp(r.inverse_apply_point(&pt_of(x))), p);
        same(raw(r.inverse().apply_vector(&vec_of(x))), v); same(rawp(r.inverse().apply_point(&pt_of(x))), p);
        forms!(raw, r, vec_of(x), v); forms!(rawp, r, pt_of(x), p);
    }
    pub fn law_involution(n: $u<S>, b: V, x: V) {
        let r = mk(n, b);
        same(rawp(r * (r * pt_of(x))), x); same(raw(r * (r * vec_of(x))), x);
        let y = raw(r * vec_of(x)); same(dot(y, y), dot(x, x)); let y = rawp(r * pt_of(x)); same(dot(sub(y, b), sub(y, b)), dot(sub(x, b), sub(x, b)));
        same(raw(r * n.v()), raw(-n.v())); same(rawp(r * pt_of(b)), b);
    }
    pub fn law_matrix(n: $u<S>, b: V, x: V) {
        let r = mk(n, b); let m = r.to_affine_matrix();
        same(raw(m * vec_of(hom(x, 1.0))), hom(rawp(r * pt_of(x)), 1.0)); same(raw(m * vec_of(hom(x, 0.0))), hom(raw(r * vec_of(x)), 0.0));
        same(rawm($m::from(r)), rawm(m)); same(rawm($m::from(&r)), rawm(m)); same(rawm(r.to_transform().to_matrix()), rawm(m));
    }
    pub fn law_eq(n: $u<S>, b: V, m: $u<S>, c: V) { same(mk(n, b) == mk(m, c), n.v() == m.v() && vec_of(b) == vec_of(c)); }
} } }
dim!(d2, 2, 3, Reflection2, UVec2, Matrix3x3);
dim!(d3, 3, 4, Reflection3, UVec3, Matrix4x4);
