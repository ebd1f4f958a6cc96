// Shears along a direction and reflections through a line or plane.
fn u3(a: UVec3<S>) -> Unit<Vector3<S>> { arr(a) }
fn u2(a: UVec2<S>) -> Unit<Vector2<S>> { arr(a) }
macro_rules! dim { ($m:ident, $N:literal, $H:literal, $U:ident, $u:ident, $M:ident, $A:ident, $P:ident) => { pub mod $m { use super::*;
    type V = [S; $N];
    fn h(v: V, w: S) -> [S; $H] { let mut r = [w; $H]; let mut i = 0; while i < $N { r[i] = v[i]; i += 1; } r }
    fn dot(a: V, b: V) -> S { let mut t = 0.0; let mut i = 0; while i < $N { t += a[i] * b[i]; i += 1; } t }
    fn off(v: V, d: V, k: S) -> V { z2(v, d, 0.0, |a, b| a + b * k) }
    fn sub(a: V, b: V) -> V { z2(a, b, 0.0, |a, b| a - b) }
    pub fn law_shear(k: S, d: $U<S>, n: $U<S>, v: V) {
        let e = off(v, raw(d.v()), k * dot(v, raw(n.v())));
        same(raw($M::from_shear(k, &$u(d), &$u(n)) * vec_of(v)), e);
    }
    pub fn law_affine_shear(k: S, o: V, d: $U<S>, n: $U<S>, v: V) {
        let m = $A::from_affine_shear(k, &pt_of(o), &$u(d), &$u(n));
        same(raw(m * vec_of(h(v, 1.0))), h(off(v, raw(d.v()), k * dot(sub(v, o), raw(n.v()))), 1.0));
        same(raw(m * vec_of(h(v, 0.0))), h(off(v, raw(d.v()), k * dot(v, raw(n.v()))), 0.0));
        same(raw(m * vec_of(h(o, 1.0))), h(o, 1.0));
    }
    pub fn law_reflection(n: $U<S>, v: V) {
        let m = $M::from_reflection(&$u(n));
        same(raw(m * vec_of(v)), off(v, raw(n.v()), -2.0 * dot(v, raw(n.v()))));
        same(raw(m * n.v()), raw(-n.v()));
        same(raw(m * (m * vec_of(v))), v);
        same(m.determinant(), -1.0);
    }
    pub fn law_affine_reflection(n: $U<S>, b: V, v: V) {
        let m = $A::from_affine_reflection(&$u(n), &pt_of(b));
        same(raw(m * vec_of(h(v, 1.0))), h(off(v, raw(n.v()), -2.0 * dot(sub(v, b), raw(n.v()))), 1.0));
        same(raw(m * vec_of(h(v, 0.0))), h(off(v, raw(n.v()), -2.0 * dot(v, raw(n.v()))), 0.0));
        same(raw(m * vec_of(h(b, 1.0))), h(b, 1.0));
    }
} } }
dim!(d2, 2, 3, UVec2, u2, Matrix2x2, Matrix3x3, Point2);
dim!(d3, 3, 4, UVec3, u3, Matrix3x3, Matrix4x4, Point3);
