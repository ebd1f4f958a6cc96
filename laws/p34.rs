// Approximate comparison is component-wise comparison.
use approx_cmp::*;
type U = <S as UlpsEq>::UlpsTolerance;
fn conj<const N: usize>(f: impl Fn(usize) -> bool) -> bool { let mut r = true; let mut i = 0; while i < N { r = r & f(i); i += 1; } r }
fn col<T: Copy, const N: usize>(d: T, f: impl Fn(usize) -> T) -> [T; N] { let mut r = [d; N]; let mut i = 0; while i < N { r[i] = f(i); i += 1; } r }
// x, y: the values; a, b: their components; t, r, u: per-component tolerances; s, q, w: one tolerance for all; mk, mku: tolerance values from components
macro_rules! cmp { ($n:expr, $x:expr, $y:expr, $a:expr, $b:expr, $g:expr, $mk:expr, $mku:expr) => {{
    const N: usize = $n;
    let (x, y, a, b): (_, _, [S; N], [S; N]) = ($x, $y, $a, $b);
    let (t, r, u, s, q, w): ([S; N], [S; N], [U; N], S, S, U) = $g;
    let e = conj::<N>(|i| AbsDiffEq::abs_diff_eq(&a[i], &b[i], &t[i]));
    same(AbsDiffEq::abs_diff_eq(&x, &y, &$mk(t)), e); same(AbsDiffEq::abs_diff_ne(&x, &y, &$mk(t)), !e);
    let e = conj::<N>(|i| AbsDiffEq::abs_diff_eq(&a[i], &b[i], &s));
    same(AbsDiffAllEq::abs_diff_all_eq(&x, &y, &s), e); same(AbsDiffAllEq::abs_diff_all_ne(&x, &y, &s), !e);
    let e = conj::<N>(|i| RelativeEq::relative_eq(&a[i], &b[i], &t[i], &r[i]));
    same(RelativeEq::relative_eq(&x, &y, &$mk(t), &$mk(r)), e); same(RelativeEq::relative_ne(&x, &y, &$mk(t), &$mk(r)), !e);
    let e = conj::<N>(|i| RelativeEq::relative_eq(&a[i], &b[i], &s, &q));
    same(RelativeAllEq::relative_all_eq(&x, &y, &s, &q), e); same(RelativeAllEq::relative_all_ne(&x, &y, &s, &q), !e);
    let e = conj::<N>(|i| UlpsEq::ulps_eq(&a[i], &b[i], &t[i], &u[i]));
    same(UlpsEq::ulps_eq(&x, &y, &$mk(t), &$mku(u)), e); same(UlpsEq::ulps_ne(&x, &y, &$mk(t), &$mku(u)), !e);
    let e = conj::<N>(|i| UlpsEq::ulps_eq(&a[i], &b[i], &s, &w));
    same(UlpsAllEq::ulps_all_eq(&x, &y, &s, &w), e); same(UlpsAllEq::ulps_all_ne(&x, &y, &s, &w), !e);
    // what a failed assertion reports
    let d: [S; N] = col(0.0, |i| AssertAbsDiffEq::debug_abs_diff(&a[i], &b[i]));
    let ad: [S; N] = col(0.0, |i| AssertAbsDiffEq::debug_abs_diff_tolerance(&a[i], &b[i], &t[i]));
    let aa: [S; N] = col(0.0, |i| AssertAbsDiffEq::debug_abs_diff_tolerance(&a[i], &b[i], &s));
    let rd: [S; N] = col(0.0, |i| AssertRelativeEq::debug_relative_tolerance(&a[i], &b[i], &r[i]));
    let ra: [S; N] = col(0.0, |i| AssertRelativeEq::debug_relative_tolerance(&a[i], &b[i], &q));
    let ud: [Option<U>; N] = col(None, |i| AssertUlpsEq::debug_ulps_diff(&a[i], &b[i]));
    let ut: [U; N] = col(0, |i| AssertUlpsEq::debug_ulps_tolerance(&a[i], &b[i], &u[i]));
    let ua: [U; N] = col(0, |i| AssertUlpsEq::debug_ulps_tolerance(&a[i], &b[i], &w));
    same(arr::<[S; N], _>(AssertAbsDiffEq::debug_abs_diff(&x, &y)), d);
    same(arr::<[S; N], _>(AssertAbsDiffEq::debug_abs_diff_tolerance(&x, &y, &$mk(t))), ad);
    same(arr::<[S; N], _>(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&x, &y, &s)), aa);
    same(arr::<[S; N], _>(AssertRelativeEq::debug_abs_diff(&x, &y)), d);
    same(arr::<[S; N], _>(AssertRelativeEq::debug_abs_diff_tolerance(&x, &y, &$mk(t))), ad);
    same(arr::<[S; N], _>(AssertRelativeEq::debug_relative_tolerance(&x, &y, &$mk(r))), rd);
    same(arr::<[S; N], _>(AssertRelativeAllEq::debug_abs_diff_all_tolerance(&x, &y, &s)), aa);
    same(arr::<[S; N], _>(AssertRelativeAllEq::debug_relative_all_tolerance(&x, &y, &q)), ra);
    same(arr::<[S; N], _>(AssertUlpsEq::debug_abs_diff(&x, &y)), d);
    same(arr::<[Option<U>; N], _>(AssertUlpsEq::debug_ulps_diff(&x, &y)), ud);
    same(arr::<[S; N], _>(AssertUlpsEq::debug_abs_diff_tolerance(&x, &y, &$mk(t))), ad);
    same(arr::<[U; N], _>(AssertUlpsEq::debug_ulps_tolerance(&x, &y, &$mku(u))), ut);
    same(arr::<[S; N], _>(AssertUlpsAllEq::debug_abs_diff_all_tolerance(&x, &y, &s)), aa);
    same(arr::<[U; N], _>(AssertUlpsAllEq::debug_ulps_all_tolerance(&x, &y, &w)), ua);
}} }
pub struct G<const N: usize> { t: [S; N], r: [S; N], u: [U; N], s: S, q: S, w: U }
macro_rules! g { ($g:expr) => { ($g.t, $g.r, $g.u, $g.s, $g.q, $g.w) } }
// types whose components are an array of scalars
macro_rules! flat { ($($law:ident: $n:expr, $T:ty, $L:ty, $LU:ty;)*) => { $( pub fn $law(a: [S; $n], b: [S; $n], g: G<{ $n }>) {
    cmp!($n, arr::<$T, _>(a), arr::<$T, _>(b), a, b, g!(g), arr::<$L, [S; $n]>, arr::<$LU, [U; $n]>);
} )* } }
flat! {
    law_radians: 1, Radians<S>, S, U;
    law_degrees: 1, Degrees<S>, S, U;
    law_vector1: 1, Vector1<S>, Vector1<S>, Vector1<U>;
    law_vector2: 2, Vector2<S>, Vector2<S>, Vector2<U>;
    law_vector3: 3, Vector3<S>, Vector3<S>, Vector3<U>;
    law_vector4: 4, Vector4<S>, Vector4<S>, Vector4<U>;
    law_vector7: 7, Vector<S, 7>, Vector<S, 7>, Vector<U, 7>;
    law_point1: 1, Point1<S>, Vector1<S>, Vector1<U>;
    law_point2: 2, Point2<S>, Vector2<S>, Vector2<U>;
    law_point3: 3, Point3<S>, Vector3<S>, Vector3<U>;
    law_point5: 5, Point<S, 5>, Vector<S, 5>, Vector<U, 5>;
    law_matrix5: 25, Matrix<S, 5, 5>, Matrix<S, 5, 5>, Matrix<U, 5, 5>;
    law_matrix1: 1, Matrix1x1<S>, Matrix1x1<S>, Matrix1x1<U>;
    law_matrix2: 4, Matrix2x2<S>, Matrix2x2<S>, Matrix2x2<U>;
    law_matrix2x3: 6, Matrix2x3<S>, Matrix2x3<S>, Matrix2x3<U>;
    law_matrix3x2: 6, Matrix3x2<S>, Matrix3x2<S>, Matrix3x2<U>;
    law_matrix3: 9, Matrix3x3<S>, Matrix3x3<S>, Matrix3x3<U>;
    law_matrix4: 16, Matrix4x4<S>, Matrix4x4<S>, Matrix4x4<U>;
    law_quaternion: 4, Quaternion<S>, Vector4<S>, Vector4<U>;
    law_complex: 2, Complex<S>, Complex<S>, Complex<U>;
    law_euler: 3, Euler<Radians<S>>, Euler<S>, Euler<U>;
    law_euler_degrees: 3, Euler<Degrees<S>>, Euler<S>, Euler<U>;
    law_unit_vector2: 2, Unit<Vector2<S>>, Vector2<S>, Vector2<U>;
    law_unit_vector3: 3, Unit<Vector3<S>>, Vector3<S>, Vector3<U>;
    law_unit_quaternion: 4, Unit<Quaternion<S>>, Vector4<S>, Vector4<U>;
    law_unit_complex: 2, Unit<Complex<S>>, Complex<S>, Complex<U>;
    law_translation2: 2, Translation2<S>, TranslationTol<S, 2>, TranslationTol<U, 2>;
    law_translation3: 3, Translation3<S>, TranslationTol<S, 3>, TranslationTol<U, 3>;
    law_scale2: 2, Scale2<S>, ScaleTol<S, 2>, ScaleTol<U, 2>;
    law_scale3: 3, Scale3<S>, ScaleTol<S, 3>, ScaleTol<U, 3>;
    law_rotation2: 4, Rotation2<S>, RotationTol<S, 2>, RotationTol<U, 2>;
    law_rotation3: 9, Rotation3<S>, RotationTol<S, 3>, RotationTol<U, 3>;
    law_transform2: 9, Transform2<S>, TransformTol<S, 2, 3>, TransformTol<U, 2, 3>;
    law_transform3: 16, Transform3<S>, TransformTol<S, 3, 4>, TransformTol<U, 3, 4>;
}
pub fn law_perspective(f: [S; 6], h: [S; 6], g: G<16>) {
    let (x, y): (Perspective3<S>, _) = (Perspective3::new(f[0], f[1], f[2], f[3], f[4], f[5]), Perspective3::new(h[0], h[1], h[2], h[3], h[4], h[5]));
    cmp!(16, x, y, arr(*x.matrix()), arr(*y.matrix()), g!(g), arr::<Perspective3Tol<S>, [S; 16]>, arr::<Perspective3Tol<U>, [U; 16]>);
}
pub fn law_orthographic(f: [S; 6], h: [S; 6], g: G<16>) {
    let (x, y): (Orthographic3<S>, _) = (Orthographic3::new(f[0], f[1], f[2], f[3], f[4], f[5]), Orthographic3::new(h[0], h[1], h[2], h[3], h[4], h[5]));
    cmp!(16, x, y, arr(*x.matrix()), arr(*y.matrix()), g!(g), arr::<Orthographic3Tol<S>, [S; 16]>, arr::<Orthographic3Tol<U>, [U; 16]>);
}
// types of several parts: components read through their accessors, tolerances made by `from_parts`
fn part<T: Copy, const N: usize, const M: usize>(a: [T; N], o: usize) -> [T; M] { let mut r = [a[0]; M]; let mut i = 0; while i < M { r[i] = a[o + i]; i += 1; } r }
fn join<const N: usize>(p: &[&[S]]) -> [S; N] { let mut r = [0.0; N]; let mut n = 0; let mut i = 0; while i < p.len() { let mut j = 0; while j < p[i].len() { r[n] = p[i][j]; n += 1; j += 1; } i += 1; } r }
fn isotol<T: Copy, const N: usize, const M: usize, const Q: usize>(t: [T; Q]) -> IsometryTol<T, N> { IsometryTol::from_parts(vec_of(part(t, M)), arr::<Matrix<T, N, N>, [T; M]>(part(t, 0))) }
fn simtol<T: Copy, const N: usize, const M: usize, const Q: usize>(t: [T; Q]) -> SimilarityTol<T, N> { SimilarityTol::from_parts(vec_of(part(t, M)), arr::<Matrix<T, N, N>, [T; M]>(part(t, 0)), t[Q - 1]) }
fn sheartol<T: Copy, const N: usize, const Q: usize>(t: [T; Q]) -> ShearTol<T, N> { ShearTol::from_parts(t[0], vec_of(part(t, 1)), vec_of(part(t, 1 + N)), vec_of(part(t, 1 + N + N))) }
fn refltol<T: Copy, const N: usize, const Q: usize>(t: [T; Q]) -> ReflectionTol<T, N> { ReflectionTol::from_parts(vec_of(part(t, 0)), vec_of(part(t, N))) }
fn isoc<const N: usize, const M: usize, const Q: usize>(x: &Isometry<S, N>) -> [S; Q] { join(&[&arr::<[S; M], _>(*x.rotation().matrix()), &raw(*x.translation().vector())]) }
fn simc<const N: usize, const M: usize, const Q: usize>(x: &Similarity<S, N>) -> [S; Q] { join(&[&arr::<[S; M], _>(*x.rotation().matrix()), &raw(*x.translation().vector()), &[x.scale()]]) }
fn shearc<const N: usize, const Q: usize>(x: &Shear<S, N>) -> [S; Q] { join(&[&[x.shear_factor()], &rawp(x.origin()), &raw(x.direction()), &raw(x.normal())]) }
fn reflc<const N: usize, const Q: usize>(x: &Reflection<S, N>) -> [S; Q] { join(&[&raw(x.normal()), &rawp(x.bias())]) }
macro_rules! parts { ($($law:ident: $n:expr, $T:ty, $c:expr, $L:expr, $LU:expr;)*) => { $( pub fn $law(a: [S; $n], b: [S; $n], g: G<{ $n }>) {
    let (x, y) = (arr::<$T, _>(a), arr::<$T, _>(b));
    cmp!($n, x, y, $c(&x), $c(&y), g!(g), $L, $LU);
} )* } }
parts! {
    law_shear2: 7, Shear2<S>, shearc::<2, 7>, sheartol::<S, 2, 7>, sheartol::<U, 2, 7>;
    law_shear3: 10, Shear3<S>, shearc::<3, 10>, sheartol::<S, 3, 10>, sheartol::<U, 3, 10>;
    law_reflection2: 4, Reflection2<S>, reflc::<2, 4>, refltol::<S, 2, 4>, refltol::<U, 2, 4>;
    law_reflection3: 6, Reflection3<S>, reflc::<3, 6>, refltol::<S, 3, 6>, refltol::<U, 3, 6>;
    law_isometry2: 6, Isometry2<S>, isoc::<2, 4, 6>, isotol::<S, 2, 4, 6>, isotol::<U, 2, 4, 6>;
    law_isometry3: 12, Isometry3<S>, isoc::<3, 9, 12>, isotol::<S, 3, 9, 12>, isotol::<U, 3, 9, 12>;
    law_similarity2: 7, Similarity2<S>, simc::<2, 4, 7>, simtol::<S, 2, 4, 7>, simtol::<U, 2, 4, 7>;
    law_similarity3: 13, Similarity3<S>, simc::<3, 9, 13>, simtol::<S, 3, 9, 13>, simtol::<U, 3, 9, 13>;
}
pub fn law_tolerances(a: [S; 9], b: [S; 16], c: [S; 3]) {
    same(arr::<[S; 9], _>(RotationTol::<S, 3>::from(&arr::<Matrix3x3<S>, _>(a))), a); same(arr::<[S; 9], _>(RotationTol::<S, 3>::from(arr::<Matrix3x3<S>, _>(a))), a);
    same(arr::<[S; 3], _>(TranslationTol::<S, 3>::from(&vec_of(c))), c); same(arr::<[S; 3], _>(TranslationTol::<S, 3>::from(vec_of(c))), c);
    same(arr::<[S; 3], _>(ScaleTol::<S, 3>::from(&vec_of(c))), c); same(arr::<[S; 3], _>(ScaleTol::<S, 3>::from(vec_of(c))), c);
    same(arr::<[S; 16], _>(TransformTol::<S, 3, 4>::from(&arr::<Matrix4x4<S>, _>(b))), b); same(arr::<[S; 16], _>(TransformTol::<S, 3, 4>::from(arr::<Matrix4x4<S>, _>(b))), b);
    same(arr::<[S; 16], _>(Perspective3Tol::<S>::from(&arr::<Matrix4x4<S>, _>(b))), b); same(arr::<[S; 16], _>(Perspective3Tol::<S>::from(arr::<Matrix4x4<S>, _>(b))), b);
    same(arr::<[S; 16], _>(Orthographic3Tol::<S>::from(&arr::<Matrix4x4<S>, _>(b))), b); same(arr::<[S; 16], _>(Orthographic3Tol::<S>::from(arr::<Matrix4x4<S>, _>(b))), b);
}
