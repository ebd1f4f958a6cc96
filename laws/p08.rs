// Vector arithmetic: every operator in every operand form acts component-wise, for every scalar type.
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type V = Vector<S, $N>;
    type A = [S; $N];
    fn v(a: A) -> V { vec_of(a) }
    pub fn law_add(a: A, b: A) {
        let e = z2(a, b, a[0], |x, y| x + y);
        same(raw(v(a) + v(b)), e); same(raw(v(a) + &v(b)), e); same(raw(&v(a) + v(b)), e); same(raw(&v(a) + &v(b)), e);
        let mut c = v(a); c += v(b); same(raw(c), e);
        let mut c = v(a); c += &v(b); same(raw(c), e);
    }
    pub fn law_sub(a: A, b: A) {
        let e = z2(a, b, a[0], |x, y| x - y);
        same(raw(v(a) - v(b)), e); same(raw(v(a) - &v(b)), e); same(raw(&v(a) - v(b)), e); same(raw(&v(a) - &v(b)), e);
        let mut c = v(a); c -= v(b); same(raw(c), e);
        let mut c = v(a); c -= &v(b); same(raw(c), e);
    }
    pub fn law_scale(a: A, s: S) {
        let e = z1(a, s, |x| x * s);
        same(raw(v(a) * s), e); same(raw(&v(a) * s), e);
        same(raw(s * v(a)), e); same(raw(s * &v(a)), e); same(raw(&s * v(a)), e); same(raw(&s * &v(a)), e);
        let mut c = v(a); c *= s; same(raw(c), e);
    }
    pub fn law_div_rem(a: A, s: NonZero<S>) {
        let s = s.0;
        may_panic();
        let e = z1(a, s, |x| x / s);
        same(raw(v(a) / s), e); same(raw(&v(a) / s), e);
        let mut c = v(a); c /= s; same(raw(c), e);
        let e = z1(a, s, |x| x % s);
        same(raw(v(a) % s), e); same(raw(&v(a) % s), e);
        let mut c = v(a); c %= s; same(raw(c), e);
    }
    pub fn law_component_mul(a: A, b: A) {
        let e = z2(a, b, a[0], |x, y| x * y);
        same(raw(v(a).component_mul(&v(b))), e);
        let mut c = v(a); c.component_mul_assign(&v(b)); same(raw(c), e);
    }
    pub fn law_dot(a: A, b: A) {
        let e = z2(a, b, a[0], |x, y| x * y);
        let mut d = e[0];
        let mut i = 1;
        while i < $N { d = d + e[i]; i += 1; }
        same(v(a).dot(&v(b)), d);
        same(v(b).dot(&v(a)), d);
        same(v(a).norm_squared(), v(a).dot(&v(a)));
        same(v(a).magnitude_squared(), v(a).dot(&v(a)));
    }
    pub fn law_distance_squared(a: A, b: A) {
        let mut d = (b[0] - a[0]) * (b[0] - a[0]);
        let mut i = 1;
        while i < $N { d = d + (b[i] - a[i]) * (b[i] - a[i]); i += 1; }
        same(v(a).metric_distance_squared(&v(b)), d);
    }
    pub fn law_zero_fill(a: A, x: S) {
        let zero = 0u8 as S;
        same(raw(V::zero()), [zero; $N]); same(raw(V::default()), [zero; $N]);
        same(raw(V::from_fill(x)), [x; $N]);
        same(v(a).is_zero(), fold(a, true, |p, x| p & (x == zero)));
        holds(V::zero().is_zero());
        same(raw(v(a) + V::zero()), a);
    }
    pub fn law_eq(a: A, b: A) {
        same(v(a) == v(b), fold(z2(a, b, true, |x, y| x == y), true, |p, q| p & q));
    }
    pub fn law_map(a: A, k: S) {
        same(raw(v(a).map(|x| x * x + k)), z1(a, k, |x| x * x + k));
        same(raw(v(a).map(|x| x == k)), z1(a, true, |x| x == k));
    }
} } }
dim!(n1, 1);
dim!(n2, 2);
dim!(n3, 3);
dim!(n4, 4);
dim!(n5, 5);
pub fn law_units() {
    let (o, i) = (0u8 as S, 1u8 as S);
    same(raw(Vector1::<S>::unit_x()), [i]);
    same(raw(Vector2::<S>::unit_x()), [i, o]); same(raw(Vector2::<S>::unit_y()), [o, i]);
    same(raw(Vector3::<S>::unit_x()), [i, o, o]); same(raw(Vector3::<S>::unit_y()), [o, i, o]); same(raw(Vector3::<S>::unit_z()), [o, o, i]);
    same(raw(Vector4::<S>::unit_x()), [i, o, o, o]); same(raw(Vector4::<S>::unit_y()), [o, i, o, o]);
    same(raw(Vector4::<S>::unit_z()), [o, o, i, o]); same(raw(Vector4::<S>::unit_w()), [o, o, o, i]);
}
pub fn law_cross(a: [S; 3], b: [S; 3], c: [S; 3]) {
    let e = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    same(raw(vec_of(a).cross(&vec_of(b))), e);
    same(vec_of(a).triple(&vec_of(b), &vec_of(c)), a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0]));
}
