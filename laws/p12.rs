// Normalization and unit values, for everything that has a norm.
macro_rules! normed { ($m:ident, $T:ty, $mk:ident, $raw:ident, $A:ty, $flat:ident) => { pub mod $m { use super::*;
    type T = $T;
    type A = $A;
    fn t(a: A) -> T { $mk(a) }
    fn sq(a: A) -> S { fold($flat(a), 0.0, |t, x| t + x * x) }
    fn norm(a: A) -> S { S::sqrt(sq(a)) }
    fn times(a: A, k: S) -> A { $flat(a).map(|x| x * k).back() }
    pub fn law_scale(a: A, k: S) {
        same($raw(Normed::scale(&t(a), k)), times(a, k));
        let mut v = t(a); Normed::scale_mut(&mut v, k); same($raw(v), times(a, k));
    }
    pub fn law_unscale(a: A, k: NonZero<S>) {
        let k = k.0;
        same($raw(Normed::unscale(&t(a), k)), times(a, 1.0 / k));
        let mut v = t(a); Normed::unscale_mut(&mut v, k); same($raw(v), times(a, 1.0 / k));
        same($raw(Normed::unscale(&Normed::scale(&t(a), k), k)), a);
    }
    pub fn law_norm(a: A, b: A) {
        same(Normed::norm_squared(&t(a)), sq(a)); same(Normed::norm(&t(a)), norm(a));
        let d = z2($flat(a), $flat(b), 0.0, |x, y| x - y);
        let d2 = fold(d, 0.0, |t, x| t + x * x);
        same(Normed::distance_squared(&t(a), &t(b)), d2); same(Normed::distance(&t(a), &t(b)), S::sqrt(d2));
    }
    pub fn law_normalize(a: A) {
        assume(sq(a) > 0.0);
        let n = norm(a);
        let u = t(a).normalize();
        same($raw(u), times(a, 1.0 / n)); same(Normed::norm_squared(&u), 1.0); same(Normed::norm(&u), 1.0);
        same($raw(Normed::scale(&u, n)), a);
        let mut v = t(a); same(v.normalize_mut(), n); same($raw(v), times(a, 1.0 / n));
    }
    pub fn law_try_normalize(a: A, h: S) {
        assume(h >= 0.0);
        let n = norm(a);
        match t(a).try_normalize(h) {
            Some(u) => { holds(n > h); same($raw(u), times(a, 1.0 / n)); same(Normed::norm_squared(&u), 1.0); }
            None => holds(n <= h),
        }
        let mut v = t(a);
        match v.try_normalize_mut(h) {
            Some(m) => { holds(n > h); same(m, n); same($raw(v), times(a, 1.0 / n)); }
            None => { holds(n <= h); same($raw(v), a); }
        }
    }
    pub fn law_unit(a: A) {
        assume(sq(a) > 0.0);
        let n = norm(a);
        let u = Unit::from_value(t(a));
        same($raw(u.into_inner()), times(a, 1.0 / n));
        same($raw(*u), times(a, 1.0 / n)); same($raw(*u.as_ref()), times(a, 1.0 / n));
        same(Normed::norm_squared(&u.into_inner()), 1.0);
        let (u, m) = Unit::from_value_with_norm(t(a)); same($raw(u.into_inner()), times(a, 1.0 / n)); same(m, n);
    }
    pub fn law_try_unit(a: A, h: S) {
        assume(h >= 0.0);
        let n = norm(a);
        match Unit::try_from_value(t(a), h) {
            Some(u) => { holds(n > h); same($raw(u.into_inner()), times(a, 1.0 / n)); same(Normed::norm_squared(&*u), 1.0); }
            None => holds(n <= h),
        }
        match Unit::try_from_value_with_norm(t(a), h) {
            Some((u, m)) => { holds(n > h); same($raw(u.into_inner()), times(a, 1.0 / n)); same(m, n); }
            None => holds(n <= h),
        }
    }
    pub fn law_unchecked(a: A) {
        let u: Unit<T> = Unit::from_value_unchecked(t(a));
        same($raw(u.into_inner()), a); same($raw(*u), a); same($raw(*u.as_ref()), a);
        let w: Unit<T> = arr(t(a));
        same($raw((-w).into_inner()), times(a, -1.0)); same($raw((-&w).into_inner()), times(a, -1.0));
    }
    pub fn law_eq(a: A, b: A) {
        let (u, w): (Unit<T>, Unit<T>) = (Unit::from_value_unchecked(t(a)), Unit::from_value_unchecked(t(b)));
        same(u == w, t(a) == t(b));
    }
} } }
fn id<const N: usize>(a: [S; N]) -> [S; N] { a }
fn fl<const R: usize, const C: usize, const N: usize>(a: [[S; R]; C]) -> [S; N] { arr(a) }
fn f1(a: [[S; 3]; 1]) -> [S; 3] { fl(a) }
fn f22(a: [[S; 2]; 2]) -> [S; 4] { fl(a) }
fn f33(a: [[S; 3]; 3]) -> [S; 9] { fl(a) }
fn f44(a: [[S; 4]; 4]) -> [S; 16] { fl(a) }
fn f52(a: [[S; 5]; 2]) -> [S; 10] { fl(a) }
fn f23(a: [[S; 2]; 3]) -> [S; 6] { fl(a) }
trait Back<B> { fn back(self) -> B; }
impl<A, B> Back<B> for A { fn back(self) -> B { arr(self) } }
normed!(v1, Vector1<S>, vec_of, raw, [S; 1], id);
normed!(v2, Vector2<S>, vec_of, raw, [S; 2], id);
normed!(v3, Vector3<S>, vec_of, raw, [S; 3], id);
normed!(v4, Vector4<S>, vec_of, raw, [S; 4], id);
normed!(v5, Vector<S, 5>, vec_of, raw, [S; 5], id);
normed!(p5, Point<S, 5>, pt_of, rawp, [S; 5], id);
normed!(m52, Matrix<S, 5, 2>, mat_of, rawm, [[S; 5]; 2], f52);
normed!(p1, Point1<S>, pt_of, rawp, [S; 1], id);
normed!(p2, Point2<S>, pt_of, rawp, [S; 2], id);
normed!(p3, Point3<S>, pt_of, rawp, [S; 3], id);
normed!(q, Quaternion<S>, quat_of, rawq, [S; 4], id);
normed!(c, Complex<S>, cx_of, rawc, [S; 2], id);
normed!(m22, Matrix2x2<S>, mat_of, rawm, [[S; 2]; 2], f22);
normed!(m33, Matrix3x3<S>, mat_of, rawm, [[S; 3]; 3], f33);
normed!(m23, Matrix2x3<S>, mat_of, rawm, [[S; 2]; 3], f23);
normed!(m44, Matrix4x4<S>, mat_of, rawm, [[S; 4]; 4], f44);
