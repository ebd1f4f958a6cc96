// Scale, translation and axis shear matrices, for every scalar type.
macro_rules! sq { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type V = [S; $N];
    pub fn law_scale(v: V, s: S) { same(raw(Matrix::<S, $N, $N>::from_scale(s) * vec_of(v)), z1(v, s, |x| s * x)); }
    pub fn law_nonuniform(v: V, s: V) { same(raw(Matrix::<S, $N, $N>::from_nonuniform_scale(&vec_of(s)) * vec_of(v)), z2(s, v, s[0], |a, b| a * b)); }
} } }
sq!(s1, 1); sq!(s2, 2); sq!(s3, 3); sq!(s4, 4);
fn h<const N: usize, const M: usize>(v: [S; M], w: S) -> [S; N] { let mut r = [w; N]; let mut i = 0; while i < M { r[i] = v[i]; i += 1; } r }
macro_rules! aff { ($m:ident, $M:literal, $N:literal) => { pub mod $m { use super::*;
    type V = [S; $M];
    pub fn law_translate(v: V, t: V) {
        let m = Matrix::<S, $N, $N>::from_affine_translation(&vec_of(t));
        same(raw(m * vec_of(h::<$N, $M>(v, 1 as S))), h::<$N, $M>(z2(v, t, v[0], |a, b| a + b), 1 as S));
        same(raw(m * vec_of(h::<$N, $M>(v, 0 as S))), h::<$N, $M>(v, 0 as S));
    }
    pub fn law_scale(v: V, s: S, w: S) {
        same(raw(Matrix::<S, $N, $N>::from_affine_scale(s) * vec_of(h::<$N, $M>(v, w))), h::<$N, $M>(z1(v, s, |x| s * x), w));
    }
    pub fn law_nonuniform(v: V, s: V, w: S) {
        same(raw(Matrix::<S, $N, $N>::from_affine_nonuniform_scale(&vec_of(s)) * vec_of(h::<$N, $M>(v, w))), h::<$N, $M>(z2(s, v, s[0], |a, b| a * b), w));
    }
} } }
aff!(a1, 1, 2); aff!(a2, 2, 3); aff!(a3, 3, 4);
pub fn law_shear2(v: [S; 2], k: S, w: S) {
    let [x, y] = v;
    same(raw(Matrix2x2::from_shear_xy(k) * vec_of(v)), [x + k * y, y]);
    same(raw(Matrix2x2::from_shear_yx(k) * vec_of(v)), [x, y + k * x]);
    same(raw(Matrix3x3::from_affine_shear_xy(k) * vec_of([x, y, w])), [x + k * y, y, w]);
    same(raw(Matrix3x3::from_affine_shear_yx(k) * vec_of([x, y, w])), [x, y + k * x, w]);
}
macro_rules! shear { ($($l:ident: $f:ident $g:ident $t:literal $u:literal;)*) => { $(pub fn $l(v: [S; 3], k: S, w: S) {
    let mut e = v; e[$t] = v[$t] + k * v[$u];
    same(raw(Matrix3x3::$f(k) * vec_of(v)), e);
    same(raw(Matrix4x4::$g(k) * vec_of([v[0], v[1], v[2], w])), [e[0], e[1], e[2], w]);
})* } }
shear! {
    law_shear_xy: from_shear_xy from_affine_shear_xy 0 1; law_shear_xz: from_shear_xz from_affine_shear_xz 0 2;
    law_shear_yx: from_shear_yx from_affine_shear_yx 1 0; law_shear_yz: from_shear_yz from_affine_shear_yz 1 2;
    law_shear_zx: from_shear_zx from_affine_shear_zx 2 0; law_shear_zy: from_shear_zy from_affine_shear_zy 2 1;
}
