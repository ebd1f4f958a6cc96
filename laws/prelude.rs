// Vocabulary of the law files. The analyser intercepts these functions.
pub use cglinalg_core::*;
pub use cglinalg_numeric::*;
pub use cglinalg_trigonometry::*;
pub mod mk {
    pub fn same<T>(_a: T, _b: T) {}
    pub fn holds(_c: bool) {}
    pub fn assume(_c: bool) {}
    pub fn never() {}
    pub fn may_panic() {}
    /// From here on a scalar primitive equals itself alone, not formulas equal to it over the reals.
    pub fn exactly() {}
    /// From here on arithmetic on a number that is none yields none.
    pub fn spreading() {}
    /// Is this pointer-sized word an address (as opposed to a number in disguise)?
    pub fn is_address<T>(_p: T) -> bool { loop {} }
    /// An unknown byte that depends on the number alone.
    pub fn text_of<S>(_a: S) -> u8 { loop {} }
    pub fn uf1<S>(_a: S) -> S { loop {} }
    pub fn uf2<S>(_a: S, _b: S) -> S { loop {} }
    pub fn uf3<S>(_a: S, _b: S, _c: S) -> S { loop {} }
}
pub use mk::*;
#[derive(Clone, Copy)]
pub struct Pos<S>(pub S);
#[derive(Clone, Copy)]
pub struct NonZero<S>(pub S);
#[derive(Clone, Copy)]
pub struct UVec2<S>(pub S, pub S);
#[derive(Clone, Copy)]
pub struct UVec3<S>(pub S, pub S, pub S);
#[derive(Clone, Copy)]
pub struct UVec4<S>(pub S, pub S, pub S, pub S);
impl<S: SimdScalar> UVec2<S> { pub fn v(self) -> Vector2<S> { Vector2::new(self.0, self.1) } }
impl<S: SimdScalar> UVec3<S> { pub fn v(self) -> Vector3<S> { Vector3::new(self.0, self.1, self.2) } }
impl<S: SimdScalar> UVec4<S> { pub fn v(self) -> Vector4<S> { Vector4::new(self.0, self.1, self.2, self.3) } }
/// The bytes of a value read as plain numbers, without going through the library.
pub fn arr<A, T>(t: T) -> A { unsafe { std::ptr::read(&t as *const T as *const A) } }
pub fn z2<S: Copy, T: Copy, const N: usize>(a: [S; N], b: [S; N], d: T, f: impl Fn(S, S) -> T) -> [T; N] {
    let mut r = [d; N];
    let mut i = 0;
    while i < N { r[i] = f(a[i], b[i]); i += 1; }
    r
}
pub fn z1<S: Copy, T: Copy, const N: usize>(a: [S; N], d: T, f: impl Fn(S) -> T) -> [T; N] {
    let mut r = [d; N];
    let mut i = 0;
    while i < N { r[i] = f(a[i]); i += 1; }
    r
}
pub fn fold<S: Copy, T, const N: usize>(a: [S; N], mut z: T, f: impl Fn(T, S) -> T) -> T {
    let mut i = 0;
    while i < N { z = f(z, a[i]); i += 1; }
    z
}
pub fn vec_of<S, const N: usize>(a: [S; N]) -> Vector<S, N> { arr(a) }
pub fn raw<S, const N: usize>(v: Vector<S, N>) -> [S; N] { arr(v) }
pub fn sl<S: Copy, const N: usize>(s: &[S], d: S) -> [S; N] {
    let mut r = [d; N];
    let mut i = 0;
    while i < N { r[i] = s[i]; i += 1; }
    r
}
pub fn pt_of<S, const N: usize>(a: [S; N]) -> Point<S, N> { arr(a) }
pub fn rawp<S, const N: usize>(p: Point<S, N>) -> [S; N] { arr(p) }
pub fn mat_of<S, const R: usize, const C: usize>(a: [[S; R]; C]) -> Matrix<S, R, C> { arr(a) }
pub fn rawm<S, const R: usize, const C: usize>(m: Matrix<S, R, C>) -> [[S; R]; C] { arr(m) }
pub fn quat_of<S>(a: [S; 4]) -> Quaternion<S> { arr(a) }
pub fn rawq<S>(q: Quaternion<S>) -> [S; 4] { arr(q) }
pub fn cx_of<S>(a: [S; 2]) -> Complex<S> { arr(a) }
pub fn rawc<S>(c: Complex<S>) -> [S; 2] { arr(c) }
