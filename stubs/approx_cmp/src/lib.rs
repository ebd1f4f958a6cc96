//! Stand-in for the `approx_cmp` git dependency of cglinalg, which cannot be
//! fetched in the sandbox. It supplies the trait surface the cglinalg crates
//! name, so that the whole workspace type-checks. The analyses never look
//! inside the scalar comparisons defined here: they are cut points.
#![no_std]
#![allow(unexpected_cfgs)]

pub trait AbsDiffEq<Rhs: ?Sized = Self> {
    type Tolerance;
    fn abs_diff_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool;
    #[inline]
    fn abs_diff_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool {
        !self.abs_diff_eq(other, max_abs_diff)
    }
}

pub trait AbsDiffAllEq<Rhs: ?Sized = Self>: AbsDiffEq<Rhs> {
    type AllTolerance;
    fn abs_diff_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool;
    #[inline]
    fn abs_diff_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool {
        !self.abs_diff_all_eq(other, max_abs_diff)
    }
}

pub trait AssertAbsDiffEq<Rhs: ?Sized = Self>: AbsDiffEq<Rhs> {
    type DebugAbsDiff;
    type DebugTolerance;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertAbsDiffAllEq<Rhs: ?Sized = Self>: AbsDiffAllEq<Rhs> {
    type AllDebugTolerance;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait RelativeEq<Rhs: ?Sized = Self> {
    type Tolerance;
    fn relative_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool;
    #[inline]
    fn relative_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        !self.relative_eq(other, max_abs_diff, max_relative)
    }
}

pub trait RelativeAllEq<Rhs: ?Sized = Self>: RelativeEq<Rhs> {
    type AllTolerance;
    fn relative_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool;
    #[inline]
    fn relative_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        !self.relative_all_eq(other, max_abs_diff, max_relative)
    }
}

pub trait AssertRelativeEq<Rhs: ?Sized = Self>: RelativeEq<Rhs> {
    type DebugAbsDiff;
    type DebugTolerance;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_relative_tolerance(&self, other: &Rhs, max_relative: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertRelativeAllEq<Rhs: ?Sized = Self>: RelativeAllEq<Rhs> {
    type AllDebugTolerance;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_relative_all_tolerance(&self, other: &Rhs, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait UlpsEq<Rhs: ?Sized = Self> {
    type Tolerance;
    type UlpsTolerance;
    fn ulps_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool;
    #[inline]
    fn ulps_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        !self.ulps_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait UlpsAllEq<Rhs: ?Sized = Self>: UlpsEq<Rhs> {
    type AllTolerance;
    type AllUlpsTolerance;
    fn ulps_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool;
    #[inline]
    fn ulps_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        !self.ulps_all_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait AssertUlpsEq<Rhs: ?Sized = Self>: UlpsEq<Rhs> {
    type DebugAbsDiff;
    type DebugUlpsDiff;
    type DebugTolerance;
    type DebugUlpsTolerance;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_ulps_diff(&self, other: &Rhs) -> Self::DebugUlpsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_ulps_tolerance(&self, other: &Rhs, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance;
}

pub trait AssertUlpsAllEq<Rhs: ?Sized = Self>: UlpsAllEq<Rhs> {
    type AllDebugTolerance;
    type AllDebugUlpsTolerance;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_ulps_all_tolerance(&self, other: &Rhs, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance;
}

macro_rules! impl_float {
    ($T:ident, $U:ident, $I:ident) => {
        impl AbsDiffEq for $T {
            type Tolerance = $T;
            fn abs_diff_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self == other || (self - other).abs() <= *max_abs_diff
            }
        }
        impl AbsDiffAllEq for $T {
            type AllTolerance = $T;
            fn abs_diff_all_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                AbsDiffEq::abs_diff_eq(self, other, max_abs_diff)
            }
        }
        impl AssertAbsDiffEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            fn debug_abs_diff(&self, other: &$T) -> $T { (self - other).abs() }
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
        }
        impl AssertAbsDiffAllEq for $T {
            type AllDebugTolerance = $T;
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
        }
        impl RelativeEq for $T {
            type Tolerance = $T;
            fn relative_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                if self == other { return true; }
                if self.is_infinite() || other.is_infinite() { return false; }
                let d = (self - other).abs();
                d <= *max_abs_diff || d <= self.abs().max(other.abs()) * max_relative
            }
        }
        impl RelativeAllEq for $T {
            type AllTolerance = $T;
            fn relative_all_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                RelativeEq::relative_eq(self, other, max_abs_diff, max_relative)
            }
        }
        impl AssertRelativeEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            fn debug_abs_diff(&self, other: &$T) -> $T { (self - other).abs() }
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            fn debug_relative_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                self.abs().max(other.abs()) * max_relative
            }
        }
        impl AssertRelativeAllEq for $T {
            type AllDebugTolerance = $T;
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            fn debug_relative_all_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                self.abs().max(other.abs()) * max_relative
            }
        }
        impl UlpsEq for $T {
            type Tolerance = $T;
            type UlpsTolerance = $U;
            fn ulps_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                if self == other || (self - other).abs() <= *max_abs_diff { return true; }
                match AssertUlpsEq::debug_ulps_diff(self, other) {
                    Some(d) => d <= *max_ulps,
                    None => false,
                }
            }
        }
        impl UlpsAllEq for $T {
            type AllTolerance = $T;
            type AllUlpsTolerance = $U;
            fn ulps_all_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                UlpsEq::ulps_eq(self, other, max_abs_diff, max_ulps)
            }
        }
        impl AssertUlpsEq for $T {
            type DebugAbsDiff = $T;
            type DebugUlpsDiff = Option<$U>;
            type DebugTolerance = $T;
            type DebugUlpsTolerance = $U;
            fn debug_abs_diff(&self, other: &$T) -> $T { (self - other).abs() }
            // under analysis: one opaque number per pair of scalars
            #[cfg(vf)]
            fn debug_ulps_diff(&self, other: &$T) -> Option<$U> {
                Some(AssertUlpsEq::debug_ulps_tolerance(self, other, &$U::MAX))
            }
            #[cfg(not(vf))]
            fn debug_ulps_diff(&self, other: &$T) -> Option<$U> {
                if self == other { return Some(0); }
                if self.is_nan() || other.is_nan() { return None; }
                if self.is_sign_positive() != other.is_sign_positive() { return None; }
                let a = self.to_bits();
                let b = other.to_bits();
                Some(if a > b { a - b } else { b - a })
            }
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            fn debug_ulps_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U { *max_ulps }
        }
        impl AssertUlpsAllEq for $T {
            type AllDebugTolerance = $T;
            type AllDebugUlpsTolerance = $U;
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            fn debug_ulps_all_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U { *max_ulps }
        }
    };
}
impl_float!(f32, u32, i32);
impl_float!(f64, u64, i64);

// `[T; N]`: component-wise.
impl<T: AbsDiffEq, const N: usize> AbsDiffEq for [T; N]
where
    T::Tolerance: Sized,
{
    type Tolerance = [T::Tolerance; N];
    fn abs_diff_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].abs_diff_eq(&other[i], &max_abs_diff[i]) { return false; }
            i += 1;
        }
        true
    }
}
impl<T: AbsDiffAllEq, const N: usize> AbsDiffAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllTolerance = T::AllTolerance;
    fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].abs_diff_all_eq(&other[i], max_abs_diff) { return false; }
            i += 1;
        }
        true
    }
}
impl<T: AssertAbsDiffEq, const N: usize> AssertAbsDiffEq for [T; N]
where
    T::Tolerance: Sized,
{
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
}
impl<T: AssertAbsDiffAllEq, const N: usize> AssertAbsDiffAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
}
impl<T: RelativeEq, const N: usize> RelativeEq for [T; N]
where
    T::Tolerance: Sized,
{
    type Tolerance = [T::Tolerance; N];
    fn relative_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].relative_eq(&other[i], &max_abs_diff[i], &max_relative[i]) { return false; }
            i += 1;
        }
        true
    }
}
impl<T: RelativeAllEq, const N: usize> RelativeAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllTolerance = T::AllTolerance;
    fn relative_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].relative_all_eq(&other[i], max_abs_diff, max_relative) { return false; }
            i += 1;
        }
        true
    }
}
impl<T: AssertRelativeEq, const N: usize> AssertRelativeEq for [T; N]
where
    T::Tolerance: Sized,
{
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
    fn debug_relative_tolerance(&self, other: &Self, max_relative: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_tolerance(&other[i], &max_relative[i]))
    }
}
impl<T: AssertRelativeAllEq, const N: usize> AssertRelativeAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
    fn debug_relative_all_tolerance(&self, other: &Self, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_all_tolerance(&other[i], max_relative))
    }
}
impl<T: UlpsEq, const N: usize> UlpsEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type Tolerance = [T::Tolerance; N];
    type UlpsTolerance = [T::UlpsTolerance; N];
    fn ulps_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].ulps_eq(&other[i], &max_abs_diff[i], &max_ulps[i]) { return false; }
            i += 1;
        }
        true
    }
}
impl<T: UlpsAllEq, const N: usize> UlpsAllEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type AllTolerance = T::AllTolerance;
    type AllUlpsTolerance = T::AllUlpsTolerance;
    fn ulps_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].ulps_all_eq(&other[i], max_abs_diff, max_ulps) { return false; }
            i += 1;
        }
        true
    }
}
impl<T: AssertUlpsEq, const N: usize> AssertUlpsEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugUlpsDiff = [T::DebugUlpsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    type DebugUlpsTolerance = [T::DebugUlpsTolerance; N];
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    fn debug_ulps_diff(&self, other: &Self) -> Self::DebugUlpsDiff {
        core::array::from_fn(|i| self[i].debug_ulps_diff(&other[i]))
    }
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
    fn debug_ulps_tolerance(&self, other: &Self, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_tolerance(&other[i], &max_ulps[i]))
    }
}
impl<T: AssertUlpsAllEq, const N: usize> AssertUlpsAllEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    type AllDebugUlpsTolerance = [T::AllDebugUlpsTolerance; N];
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
    fn debug_ulps_all_tolerance(&self, other: &Self, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_all_tolerance(&other[i], max_ulps))
    }
}

// References compare their referents.
impl<'a, T: ?Sized + AbsDiffEq> AbsDiffEq for &'a T {
    type Tolerance = T::Tolerance;
    fn abs_diff_eq(&self, other: &Self, t: &Self::Tolerance) -> bool { (**self).abs_diff_eq(*other, t) }
}
impl<'a, T: ?Sized + AbsDiffAllEq> AbsDiffAllEq for &'a T {
    type AllTolerance = T::AllTolerance;
    fn abs_diff_all_eq(&self, other: &Self, t: &Self::AllTolerance) -> bool { (**self).abs_diff_all_eq(*other, t) }
}
impl<'a, T: ?Sized + RelativeEq> RelativeEq for &'a T {
    type Tolerance = T::Tolerance;
    fn relative_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::Tolerance) -> bool { (**self).relative_eq(*other, t, r) }
}
impl<'a, T: ?Sized + RelativeAllEq> RelativeAllEq for &'a T {
    type AllTolerance = T::AllTolerance;
    fn relative_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllTolerance) -> bool { (**self).relative_all_eq(*other, t, r) }
}
impl<'a, T: ?Sized + UlpsEq> UlpsEq for &'a T {
    type Tolerance = T::Tolerance;
    type UlpsTolerance = T::UlpsTolerance;
    fn ulps_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::UlpsTolerance) -> bool { (**self).ulps_eq(*other, t, r) }
}
impl<'a, T: ?Sized + UlpsAllEq> UlpsAllEq for &'a T {
    type AllTolerance = T::AllTolerance;
    type AllUlpsTolerance = T::AllUlpsTolerance;
    fn ulps_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllUlpsTolerance) -> bool { (**self).ulps_all_eq(*other, t, r) }
}

#[macro_export]
macro_rules! abs_diff_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr $(,)?) => { $crate::AbsDiffEq::abs_diff_eq(&$l, &$r, &$t) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr $(,)?) => { $crate::AbsDiffAllEq::abs_diff_all_eq(&$l, &$r, &$t) };
}
#[macro_export]
macro_rules! abs_diff_ne { ($($t:tt)*) => { !$crate::abs_diff_eq!($($t)*) }; }
#[macro_export]
macro_rules! relative_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, relative <= $u:expr $(,)?) => { $crate::RelativeEq::relative_eq(&$l, &$r, &$t, &$u) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, relative_all <= $u:expr $(,)?) => { $crate::RelativeAllEq::relative_all_eq(&$l, &$r, &$t, &$u) };
}
#[macro_export]
macro_rules! relative_ne { ($($t:tt)*) => { !$crate::relative_eq!($($t)*) }; }
#[macro_export]
macro_rules! ulps_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, ulps <= $u:expr $(,)?) => { $crate::UlpsEq::ulps_eq(&$l, &$r, &$t, &$u) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, ulps_all <= $u:expr $(,)?) => { $crate::UlpsAllEq::ulps_all_eq(&$l, &$r, &$t, &$u) };
}
#[macro_export]
macro_rules! ulps_ne { ($($t:tt)*) => { !$crate::ulps_eq!($($t)*) }; }
#[macro_export]
macro_rules! assert_abs_diff_eq { ($l:expr, $r:expr, $($t:tt)*) => { assert!($crate::abs_diff_eq!($l, $r, $($t)*), "abs_diff_eq {:?} {:?}", &$l, &$r) }; }
#[macro_export]
macro_rules! assert_abs_diff_ne { ($l:expr, $r:expr, $($t:tt)*) => { assert!($crate::abs_diff_ne!($l, $r, $($t)*), "abs_diff_ne {:?} {:?}", &$l, &$r) }; }
#[macro_export]
macro_rules! assert_relative_eq { ($l:expr, $r:expr, $($t:tt)*) => { assert!($crate::relative_eq!($l, $r, $($t)*), "relative_eq {:?} {:?}", &$l, &$r) }; }
#[macro_export]
macro_rules! assert_relative_ne { ($l:expr, $r:expr, $($t:tt)*) => { assert!($crate::relative_ne!($l, $r, $($t)*), "relative_ne {:?} {:?}", &$l, &$r) }; }
#[macro_export]
macro_rules! assert_ulps_eq { ($l:expr, $r:expr, $($t:tt)*) => { assert!($crate::ulps_eq!($l, $r, $($t)*), "ulps_eq {:?} {:?}", &$l, &$r) }; }
#[macro_export]
macro_rules! assert_ulps_ne { ($l:expr, $r:expr, $($t:tt)*) => { assert!($crate::ulps_ne!($l, $r, $($t)*), "ulps_ne {:?} {:?}", &$l, &$r) }; }
