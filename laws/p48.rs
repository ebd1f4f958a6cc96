// A component that is not a number shows in every result that depends on it, and in no other.
fn bad<const N: usize>(a: [S; N], i: usize) -> [S; N] { let mut c = a; c[i] = S::NAN; c }
fn nans<const N: usize>(a: [S; N]) -> [bool; N] { z1(a, false, |x| x.is_nan()) }
fn at<const N: usize>(i: usize) -> [bool; N] { let mut r = [false; N]; r[i] = true; r }
fn some<const N: usize>(a: [S; N]) -> bool { let mut r = false; let mut i = 0; while i < N { r |= a[i].is_nan(); i += 1; } r }
macro_rules! each { ($n:expr, $i:ident, $b:block) => {{ let mut $i = 0; while $i < $n { $b; $i += 1; } }} }
macro_rules! lin { ($N:expr, $mk:expr, $raw:expr, $a:ident, $b:ident, $s:ident) => {
    spreading();
    each!($N, i, {
        let (x, y, z) = ($mk($a), $mk($b), $mk(bad($a, i)));
        let e = at::<{ $N }>(i);
        same(nans($raw(z + y)), e); same(nans($raw(z + &y)), e); same(nans($raw(&z + y)), e); same(nans($raw(&z + &y)), e);
        same(nans($raw(y + z)), e); same(nans($raw(y + &z)), e); same(nans($raw(&y + z)), e); same(nans($raw(&y + &z)), e);
        same(nans($raw(z - y)), e); same(nans($raw(z - &y)), e); same(nans($raw(&z - y)), e); same(nans($raw(&z - &y)), e);
        same(nans($raw(y - z)), e); same(nans($raw(y - &z)), e); same(nans($raw(&y - z)), e); same(nans($raw(&y - &z)), e);
        same(nans($raw(z * $s.0)), e); same(nans($raw(&z * $s.0)), e); same(nans($raw($s.0 * z)), e); same(nans($raw($s.0 * &z)), e);
        same(nans($raw(z / $s.0)), e); same(nans($raw(&z / $s.0)), e);
        same(nans($raw(-z)), e); same(nans($raw(-&z)), e);
        let mut m = z; m += y; same(nans($raw(m)), e); let mut m = y; m += z; same(nans($raw(m)), e); let mut m = y; m += &z; same(nans($raw(m)), e);
        let mut m = z; m -= y; same(nans($raw(m)), e); let mut m = y; m -= z; same(nans($raw(m)), e); let mut m = y; m -= &z; same(nans($raw(m)), e);
        let mut m = z; m *= $s.0; same(nans($raw(m)), e); let mut m = z; m /= $s.0; same(nans($raw(m)), e);
        same(nans($raw(x * S::NAN)), [true; { $N }]); same(nans($raw(S::NAN * x)), [true; { $N }]); same(nans($raw(x / S::NAN)), [true; { $N }]);
        let mut m = x; m *= S::NAN; same(nans($raw(m)), [true; { $N }]); let mut m = x; m /= S::NAN; same(nans($raw(m)), [true; { $N }]);
    });
} }
macro_rules! dim { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [S; $N];
    pub fn law_vector_linear(a: A, b: A, s: NonZero<S>) { lin!($N, vec_of, raw, a, b, s); }
    pub fn law_vector_rest(a: A, b: A, s: NonZero<S>) {
        spreading();
        each!($N, i, {
            let (x, y, z) = (vec_of(a), vec_of(b), vec_of(bad(a, i)));
            let e = at::<$N>(i);
            same(nans(raw(z % s.0)), e);
            same(nans(raw(z.component_mul(&y))), e); same(nans(raw(y.component_mul(&z))), e);
            same(nans(raw(z.lerp(&y, s.0))), e); same(nans(raw(y.lerp(&z, s.0))), e); same(nans(raw(x.lerp(&y, S::NAN))), [true; $N]);
            holds(z.dot(&y).is_nan()); holds(y.dot(&z).is_nan()); holds(z.norm_squared().is_nan()); holds(z.norm().is_nan()); holds(z.magnitude().is_nan());
            holds(z.l1_norm().is_nan()); holds(z.metric_distance(&y).is_nan()); holds(y.metric_distance(&z).is_nan()); holds(z.metric_distance_squared(&y).is_nan()); holds(y.metric_distance_squared(&z).is_nan());
            same(nans(raw(z.normalize())), [true; $N]); same(nans(raw(z.scale(s.0))), e); same(nans(raw(x.scale(S::NAN))), [true; $N]); same(z.is_finite(), false); same(x.is_finite(), true);
            same(nans(raw(z.project(&y))), [true; $N]); same(nans(raw(y.project(&z))), [true; $N]);


           
        });
    }
    pub fn law_point_rest(a: A, b: A, s: NonZero<S>) {
        spreading();
        each!($N, i, {
            let (x, y, z) = (pt_of(a), pt_of(b), pt_of(bad(a, i)));
            let (v, w) = (vec_of(b), vec_of(bad(a, i)));
            let e = at::<$N>(i);
            same(nans(rawp(z + v)), e); same(nans(rawp(z + &v)), e); same(nans(rawp(&z + v)), e); same(nans(rawp(&z + &v)), e);
            same(nans(rawp(y + w)), e); same(nans(rawp(y + &w)), e); same(nans(rawp(&y + w)), e); same(nans(rawp(&y + &w)), e);
            same(nans(rawp(z - v)), e); same(nans(rawp(y - w)), e); same(nans(raw(z - y)), e); same(nans(raw(y - z)), e); same(nans(raw(&z - &y)), e); same(nans(raw(&y - &z)), e);
            same(nans(rawp(z * s.0)), e); same(nans(rawp(s.0 * z)), e); same(nans(rawp(z / s.0)), e); same(nans(rawp(z % s.0)), e); same(nans(rawp(-z)), e);
            same(nans(rawp(x * S::NAN)), [true; $N]); same(nans(rawp(x / S::NAN)), [true; $N]);
            let mut m = z; m += v; same(nans(rawp(m)), e); let mut m = y; m += w; same(nans(rawp(m)), e); let mut m = z; m -= v; same(nans(rawp(m)), e); let mut m = y; m -= w; same(nans(rawp(m)), e);
            let mut m = z; m *= s.0; same(nans(rawp(m)), e); let mut m = z; m /= s.0; same(nans(rawp(m)), e);
            holds(z.dot(&y).is_nan()); holds(y.dot(&z).is_nan()); holds(z.norm_squared().is_nan()); holds(z.norm().is_nan());
            holds(z.metric_distance(&y).is_nan()); holds(y.metric_distance(&z).is_nan());
            same(nans(rawp(z.normalize())), [true; $N]);
        });
    }
} } }
dim!(n1, 1); dim!(n2, 2); dim!(n3, 3); dim!(n4, 4);
pub fn law_quaternion_linear(a: [S; 4], b: [S; 4], s: NonZero<S>) { lin!(4, quat_of, rawq, a, b, s); }
pub fn law_quaternion_rest(a: [S; 4], b: [S; 4], s: NonZero<S>) {
    spreading();
    each!(4, i, {
        let (y, z) = (quat_of(b), quat_of(bad(a, i)));
        let e = at::<4>(i);
        same(nans(rawq(z * y)), [true; 4]); same(nans(rawq(y * z)), [true; 4]); same(nans(rawq(&z * &y)), [true; 4]); same(nans(rawq(&y * &z)), [true; 4]); same(nans(rawq(&z * y)), [true; 4]); same(nans(rawq(z * &y)), [true; 4]);
        same(nans(rawq(z.conjugate())), e); same(nans(rawq(z.lerp(&y, s.0))), e); same(nans(rawq(y.lerp(&z, s.0))), e);
        holds(z.norm().is_nan()); holds(z.norm_squared().is_nan()); holds(z.dot(&y).is_nan()); holds(y.dot(&z).is_nan());
        same(z.is_finite(), false); same(nans(rawq(z.normalize())), [true; 4]); same(nans(rawq(z.squared())), [true; 4]);
        holds(some::<9>(arr(z.to_matrix())));
       
    });
}
pub fn law_complex_linear(a: [S; 2], b: [S; 2], s: NonZero<S>) {
    spreading();
    each!(2, i, {
        let (x, y, z) = (cx_of(a), cx_of(b), cx_of(bad(a, i)));
        let e = at::<2>(i);
        same(nans(rawc(z + y)), e); same(nans(rawc(y + z)), e); same(nans(rawc(&z + &y)), e); same(nans(rawc(&y + &z)), e);
        same(nans(rawc(z - y)), e); same(nans(rawc(y - z)), e); same(nans(rawc(&z - &y)), e); same(nans(rawc(&y - &z)), e);
        same(nans(rawc(z * s.0)), e); same(nans(rawc(s.0 * z)), e); same(nans(rawc(z / s.0)), e); same(nans(rawc(-z)), e); same(nans(rawc(-&z)), e);
        let mut m = z; m += y; same(nans(rawc(m)), e); let mut m = y; m -= z; same(nans(rawc(m)), e); let mut m = z; m *= s.0; same(nans(rawc(m)), e); let mut m = z; m /= s.0; same(nans(rawc(m)), e);
        same(nans(rawc(x * S::NAN)), [true; 2]); same(nans(rawc(x / S::NAN)), [true; 2]);
        same(nans(rawc(z * y)), [true; 2]); same(nans(rawc(y * z)), [true; 2]); same(nans(rawc(&z * &y)), [true; 2]); same(nans(rawc(&y * &z)), [true; 2]);
        let mut m = z; m *= y; same(nans(rawc(m)), [true; 2]); let mut m = y; m *= z; same(nans(rawc(m)), [true; 2]);
        same(nans(rawc(z.conjugate())), e); same(nans(rawc(z.squared())), [true; 2]);
        holds(z.norm().is_nan()); holds(z.norm_squared().is_nan()); holds(z.arg().is_nan()); same(z.is_finite(), false); same(z.is_nan(), true); same(x.is_nan(), false);
        same(z.is_finite(), false); same(z.is_nan(), true);
    });
}
pub fn law_complex_functions(a: [S; 2]) {
    spreading();
    each!(2, i, {
        let z = cx_of(bad(a, i));
        holds(some(rawc(z.exp()))); holds(some(rawc(z.ln()))); holds(some(rawc(z.sin()))); holds(some(rawc(z.cos()))); holds(some(rawc(z.tan())));
        holds(some(rawc(z.sinh()))); holds(some(rawc(z.cosh()))); holds(some(rawc(z.tanh())));
    });
}
pub fn law_cross(a: [S; 3], b: [S; 3]) {
    spreading();
    each!(3, i, {
        let (y, z) = (vec_of(b), vec_of(bad(a, i)));
        let mut e = [true; 3]; e[i] = false;
        same(nans(raw(z.cross(&y))), e); same(nans(raw(y.cross(&z))), e);
    });
}
macro_rules! mat { ($m:ident, $R:literal, $C:literal) => { pub mod $m { use super::*;
    type A = [S; $R * $C];
    fn t(a: A) -> Matrix<S, $R, $C> { arr(a) }
    fn r(a: Matrix<S, $R, $C>) -> A { arr(a) }
    pub fn law_linear(a: A, b: A, s: NonZero<S>) { lin!({ $R * $C }, t, r, a, b, s); }
    pub fn law_rest(a: A, b: A, v: [S; $C]) {
        spreading();
        each!({ $R * $C }, i, {
            let (y, z) = (t(b), t(bad(a, i)));
            let (c, q) = (i / $R, i % $R);
            same(nans(raw(z * vec_of(v))), at::<$R>(q)); same(nans(raw(&z * &vec_of(v))), at::<$R>(q));
            same(z.is_finite(), false); same(nans(r(z.component_mul(&y))), at::<{ $R * $C }>(i));
            same(nans(arr::<A, _>(z.transpose())), at::<{ $R * $C }>(q * $C + c));
            holds(z.norm().is_nan()); holds(z.norm_squared().is_nan()); holds(z.dot(&y).is_nan()); holds(y.dot(&z).is_nan());
           
        });
        each!($C, i, { same(nans(raw(t(a) * vec_of(bad(v, i)))), [true; $R]); });
    }
    pub fn law_product(a: A, b: [S; $C * 2]) {
        spreading();
        let w: Matrix<S, $C, 2> = arr(b);
        each!({ $R * $C }, i, {
            let z = t(bad(a, i));
            let mut e = [false; $R * 2]; e[i % $R] = true; e[$R + i % $R] = true;
            same(nans(arr::<[S; $R * 2], _>(z * w)), e); same(nans(arr::<[S; $R * 2], _>(&z * &w)), e);
        });
        each!({ $C * 2 }, i, {
            let w: Matrix<S, $C, 2> = arr(bad(b, i));
            let mut e = [false; $R * 2]; each!($R, k, { e[(i / $C) * $R + k] = true });
            same(nans(arr::<[S; $R * 2], _>(t(a) * w)), e); same(nans(arr::<[S; $R * 2], _>(&t(a) * &w)), e);
        });
    }
} } }
mat!(m11, 1, 1); mat!(m22, 2, 2); mat!(m33, 3, 3); mat!(m44, 4, 4); mat!(m23, 2, 3); mat!(m42, 4, 2);
macro_rules! square { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    pub fn law_square(a: [S; $N * $N]) {
        spreading();
        each!({ $N * $N }, i, {
            let z: Matrix<S, $N, $N> = arr(bad(a, i));
            holds(z.determinant().is_nan());
            same(z.trace().is_nan(), i % ($N + 1) == 0);
            if let Some(w) = z.try_inverse() { holds(some::<{ $N * $N }>(arr(w))); }
        });
    }
} } }
square!(s1, 1); square!(s2, 2); square!(s3, 3); square!(s4, 4);
