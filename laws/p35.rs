// Conversions between scalar types convert every component or nothing.
fn opt<T, const N: usize>(a: [Option<T>; N], d: T) -> Option<[T; N]> where T: Copy { let mut r = [d; N]; let mut i = 0; while i < N { match a[i] { Some(x) => r[i] = x, None => return None } i += 1; } Some(r) }
fn c1<T: num_traits::NumCast>(x: S) -> Option<T> { num_traits::cast::<S, T>(x) }
fn cn<T: num_traits::NumCast + Copy, const N: usize>(a: [S; N], d: T) -> Option<[T; N]> { opt(z1(a, None, |x| c1::<T>(x)), d) }
macro_rules! to { ($($m:ident: $T:ident;)*) => { $( pub mod $m { use super::*;
    type T = $T;
    pub fn law_scalar(a: S) { same(cglinalg_numeric::try_cast::<S, T>(a), c1::<T>(a)); }
    pub fn law_scalar_cast(a: S) { may_panic(); let b: T = cglinalg_numeric::cast(a); same(Some(b), c1::<T>(a)); }
    pub fn law_vector1(a: [S; 1]) { same(vec_of(a).try_cast::<T>().map(raw), cn(a, T::default())); }
    pub fn law_vector2(a: [S; 2]) { same(vec_of(a).try_cast::<T>().map(raw), cn(a, T::default())); }
    pub fn law_vector3(a: [S; 3]) { same(vec_of(a).try_cast::<T>().map(raw), cn(a, T::default())); }
    pub fn law_vector4(a: [S; 4]) { same(vec_of(a).try_cast::<T>().map(raw), cn(a, T::default())); }
    pub fn law_vector5(a: [S; 5]) { same(vec_of(a).try_cast::<T>().map(raw), cn(a, T::default())); }
    pub fn law_point5(a: [S; 5]) { same(pt_of(a).try_cast::<T>().map(rawp), cn(a, T::default())); }
    pub fn law_point1(a: [S; 1]) { same(pt_of(a).try_cast::<T>().map(rawp), cn(a, T::default())); }
    pub fn law_matrix5x2(a: [S; 10]) { same(arr::<Matrix<S, 5, 2>, _>(a).try_cast::<T>().map(arr::<[T; 10], _>), cn(a, T::default())); }
    pub fn law_point2(a: [S; 2]) { same(pt_of(a).try_cast::<T>().map(rawp), cn(a, T::default())); }
    pub fn law_point3(a: [S; 3]) { same(pt_of(a).try_cast::<T>().map(rawp), cn(a, T::default())); }
    pub fn law_quaternion(a: [S; 4]) { same(quat_of(a).try_cast::<T>().map(rawq), cn(a, T::default())); }
    pub fn law_complex(a: [S; 2]) { same(cx_of(a).try_cast::<T>().map(rawc), cn(a, T::default())); }
    pub fn law_matrix2(a: [S; 4]) { same(arr::<Matrix2x2<S>, _>(a).try_cast::<T>().map(arr::<[T; 4], _>), cn(a, T::default())); }
    pub fn law_matrix2x3(a: [S; 6]) { same(arr::<Matrix2x3<S>, _>(a).try_cast::<T>().map(arr::<[T; 6], _>), cn(a, T::default())); }
    pub fn law_matrix3x2(a: [S; 6]) { same(arr::<Matrix3x2<S>, _>(a).try_cast::<T>().map(arr::<[T; 6], _>), cn(a, T::default())); }
    pub fn law_matrix3(a: [S; 9]) { same(arr::<Matrix3x3<S>, _>(a).try_cast::<T>().map(arr::<[T; 9], _>), cn(a, T::default())); }
    pub fn law_matrix4(a: [S; 16]) { same(arr::<Matrix4x4<S>, _>(a).try_cast::<T>().map(arr::<[T; 16], _>), cn(a, T::default())); }
} )* } }
to! { to_u8: u8; to_i16: i16; to_i32: i32; to_u64: u64; to_f32: f32; to_f64: f64; }
