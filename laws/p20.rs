// Point arithmetic: an affine space over the vectors, for every scalar type.
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [S; $N];
    fn p(a: A) -> Point<S, $N> { pt_of(a) }
    fn v(a: A) -> Vector<S, $N> { vec_of(a) }
    pub fn law_add(a: A, b: A) {
        let e = z2(a, b, a[0], |x, y| x + y);
        same(rawp(p(a) + v(b)), e); same(rawp(p(a) + &v(b)), e); same(rawp(&p(a) + v(b)), e); same(rawp(&p(a) + &v(b)), e);
        let mut c = p(a); c += v(b); same(rawp(c), e);
        let mut c = p(a); c += &v(b); same(rawp(c), e);
    }
    pub fn law_sub(a: A, b: A) {
        let e = z2(a, b, a[0], |x, y| x - y);
        same(rawp(p(a) - v(b)), e); same(rawp(p(a) - &v(b)), e); same(rawp(&p(a) - v(b)), e); same(rawp(&p(a) - &v(b)), e);
        let mut c = p(a); c -= v(b); same(rawp(c), e);
        let mut c = p(a); c -= &v(b); same(rawp(c), e);
        same(raw(p(a) - p(b)), e); same(raw(p(a) - &p(b)), e); same(raw(&p(a) - p(b)), e); same(raw(&p(a) - &p(b)), e);
    }
    pub fn law_affine(a: A, b: A) { same(rawp(p(a) + (p(b) - p(a))), b); }
    pub fn law_scale(a: A, s: S) {
        let e = z1(a, s, |x| x * s);
        same(rawp(p(a) * s), e); same(rawp(&p(a) * s), e); same(rawp(s * p(a)), e); same(rawp(&s * p(a)), e);
        let mut c = p(a); c *= s; same(rawp(c), e);
    }
    pub fn law_div_rem(a: A, s: NonZero<S>) {
        let s = s.0;
        may_panic();
        let e = z1(a, s, |x| x / s);
        same(rawp(p(a) / s), e); same(rawp(&p(a) / s), e);
        let mut c = p(a); c /= s; same(rawp(c), e);
        let e = z1(a, s, |x| x % s);
        same(rawp(p(a) % s), e); same(rawp(&p(a) % s), e);
        let mut c = p(a); c %= s; same(rawp(c), e);
    }
    pub fn law_dot(a: A, b: A) {
        let mut d = a[0] * b[0]; let mut i = 1; while i < $N { d = d + a[i] * b[i]; i += 1; }
        let mut n = a[0] * a[0]; let mut i = 1; while i < $N { n = n + a[i] * a[i]; i += 1; }
        same(p(a).dot(&p(b)), d);
        same(p(a).norm_squared(), n); same(p(a).magnitude_squared(), n);
    }
    pub fn law_distance_squared(a: A, b: A) {
        let mut d = (a[0] - b[0]) * (a[0] - b[0]); let mut i = 1; while i < $N { d = d + (a[i] - b[i]) * (a[i] - b[i]); i += 1; }
        same(p(a).metric_distance_squared(&p(b)), d);
    }
    pub fn law_origin(a: A, x: S) {
        let zero = 0u8 as S;
        same(rawp(Point::<S, $N>::origin()), [zero; $N]); same(rawp(Point::<S, $N>::default()), [zero; $N]);
        same(rawp(Point::<S, $N>::from_fill(x)), [x; $N]);
        same(rawp(Point::from_vector(&v(a))), a); same(raw(p(a).to_vector()), a);
        same(rawp(Point::<S, $N>::origin() + v(a)), a);
        same(rawp(p(a).map(|x| x + x)), z1(a, x, |x| x + x));
    }
    pub fn law_eq(a: A, b: A) {
        let mut e = true; let mut i = 0; while i < $N { e &= a[i] == b[i]; i += 1; }
        same(p(a) == p(b), e); same(p(a) != p(b), !e);
    }
} } }
dim!(n1, 1); dim!(n2, 2); dim!(n3, 3); dim!(n4, 4); dim!(n5, 5);
