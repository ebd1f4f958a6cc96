// Shears of dimension two and three.
fn dot<const N: usize>(a: [S; N], b: [S; N]) -> S { fold(z2(a, b, 0.0, |x, y| x * y), 0.0, |s, x| s + x) }
fn sub<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x - y) }
fn rs<const N: usize>(s: Shear<S, N>) -> (S, [S; N], [S; N], [S; N]) { (s.shear_factor(), rawp(s.origin()), raw(s.direction()), raw(s.normal())) }
fn unit<const N: usize>(i: usize) -> [S; N] { let mut r = [0.0; N]; r[i] = 1.0; r }
/// x moved along d by k times its height over the plane through o with normal n
fn moved<const N: usize>(k: S, o: [S; N], d: [S; N], n: [S; N], x: [S; N]) -> [S; N] { let h = k * dot(sub(x, o), n); z2(x, d, 0.0, |x, d| x + d * h) }
fn shear<const N: usize>(s: Shear<S, N>, k: S, o: [S; N], d: [S; N], n: [S; N], x: [S; N]) {
    same(rs(s), (k, o, d, n));
    let (y, z) = (moved(k, o, d, n, x), moved(-k, o, d, n, x));
    same(rawp(s.apply_point(&pt_of(x))), y); same(rawp(s.inverse_apply_point(&pt_of(x))), z);
    // a vector is taken as the position vector of a point (the repository's tests say so)
    same(raw(s.apply_vector(&vec_of(x))), y); same(raw(s.inverse_apply_vector(&vec_of(x))), z);
    same(rawp(s.inverse().apply_point(&pt_of(x))), z); same(raw(s.inverse().apply_vector(&vec_of(x))), z);
    forms!(rawp, s, pt_of(x), y); forms!(raw, s, vec_of(x), y);
    let i = Shear::<S, N>::identity(); same(rawp(i * pt_of(x)), x); same(raw(i * vec_of(x)), x); same(i.shear_factor(), 0.0); same(rawp(i.origin()), [0.0; N]);
    same(dot(raw(i.direction()), raw(i.normal())), 0.0); same(dot(raw(i.direction()), raw(i.direction())), 1.0); same(dot(raw(i.normal()), raw(i.normal())), 1.0);
}
macro_rules! dim { ($t:ident, $n:literal, $h:literal, $s:ident, $u:ident, $m:ident) => { pub mod $t { use super::*;
    type V = [S; $n];
    fn un(a: $u<S>) -> Unit<Vector<S, $n>> { arr(a) }
    fn hom(x: V, w: S) -> [S; $h] { let mut r = [w; $h]; let mut i = 0; while i < $n { r[i] = x[i]; i += 1; } r }
    pub fn law_acts(k: S, o: V, d: $u<S>, n: $u<S>, x: V) { shear($s::from_affine_shear(k, &pt_of(o), &un(d), &un(n)), k, o, raw(d.v()), raw(n.v()), x); }
    pub fn law_acts_origin(k: S, d: $u<S>, n: $u<S>, x: V) { shear($s::from_shear(k, &un(d), &un(n)), k, [0.0; $n], raw(d.v()), raw(n.v()), x); }
    /// the inverse undoes the shear exactly as far as direction and normal are perpendicular
    pub fn law_undo(k: S, o: V, d: $u<S>, n: $u<S>, x: V) {
        let s = $s::from_affine_shear(k, &pt_of(o), &un(d), &un(n));
        let r = k * k * dot(raw(d.v()), raw(n.v())) * dot(sub(x, o), raw(n.v())); let e = z2(x, raw(d.v()), 0.0, |x, d| x - d * r);
        same(rawp(s.inverse() * (s * pt_of(x))), e); same(rawp(s * s.inverse_apply_point(&pt_of(x))), e); same(raw(s.inverse_apply_vector(&(s * vec_of(x)))), e);
    }
    /// the homogeneous matrix acts on points as the shear does, and keeps the last coordinate
    pub fn law_matrix(k: S, o: V, d: $u<S>, n: $u<S>, x: V, w: S) {
        let s = $s::from_affine_shear(k, &pt_of(o), &un(d), &un(n));
        let m = s.to_affine_matrix(); let y = hom(rawp(s * pt_of(x)), 1.0);
        same(raw(m * vec_of(hom(x, 1.0))), y); same(raw(m * vec_of(hom(x, w)))[$n], w);
        same(rawm($m::from(s)), rawm(m)); same(rawm($m::from(&s)), rawm(m)); same(rawm(s.to_transform().to_matrix()), rawm(m));
    }
    pub fn law_compose(k: S, o: V, d: $u<S>, n: $u<S>, j: S, p: V, e: $u<S>, m: $u<S>) {
        let s = $s::from_affine_shear(k, &pt_of(o), &un(d), &un(n)); let t = $s::from_affine_shear(j, &pt_of(p), &un(e), &un(m));
        let f = |t: Transform<S, $n, $h>| rawm(t.to_matrix());
        forms!(f, s, t, rawm(s.to_affine_matrix() * t.to_affine_matrix()));
    }
    pub fn law_eq(k: S, o: V, d: $u<S>, n: $u<S>, j: S, p: V, e: $u<S>, m: $u<S>) {
        let s = $s::from_affine_shear(k, &pt_of(o), &un(d), &un(n)); let t = $s::from_affine_shear(j, &pt_of(p), &un(e), &un(m));
        same(s == t, k == j && vec_of(o) == vec_of(p) && d.v() == e.v() && n.v() == m.v());
    }
} } }
dim!(d2, 2, 3, Shear2, UVec2, Matrix3x3);
dim!(d3, 3, 4, Shear3, UVec3, Matrix4x4);
pub fn law_planes2(k: S) { let o = [0.0; 2]; same(rs(Shear2::from_shear_xy(k)), (k, o, unit(0), unit(1))); same(rs(Shear2::from_shear_yx(k)), (k, o, unit(1), unit(0))); }
pub fn law_planes3(k: S) {
    let o = [0.0; 3];
    same(rs(Shear3::from_shear_xy(k)), (k, o, unit(0), unit(1))); same(rs(Shear3::from_shear_xz(k)), (k, o, unit(0), unit(2)));
    same(rs(Shear3::from_shear_yx(k)), (k, o, unit(1), unit(0))); same(rs(Shear3::from_shear_yz(k)), (k, o, unit(1), unit(2)));
    same(rs(Shear3::from_shear_zx(k)), (k, o, unit(2), unit(0))); same(rs(Shear3::from_shear_zy(k)), (k, o, unit(2), unit(1)));
}
