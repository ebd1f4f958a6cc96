// Vocabulary for the laws that need only the scalar and angle layers.
pub use cglinalg_numeric::*;
pub use cglinalg_trigonometry::*;
pub mod mk {
    pub fn same<T>(_a: T, _b: T) {}
    pub fn holds(_c: bool) {}
    pub fn assume(_c: bool) {}
    pub fn never() {}
    pub fn may_panic() {}
    /// From here on a scalar primitive equals itself alone, not formulas equal to it over the reals.
    pub fn exactly() {}
}
pub use mk::*;
#[derive(Clone, Copy)]
pub struct Pos<S>(pub S);
#[derive(Clone, Copy)]
pub struct NonZero<S>(pub S);
pub fn arr<A, T>(t: T) -> A { unsafe { std::ptr::read(&t as *const T as *const A) } }
