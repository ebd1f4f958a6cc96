// A coordinate that is not a number shows in the image of the point or vector under every transformation.
fn bad<const N: usize>(a: [S; N], i: usize) -> [S; N] { let mut c = a; c[i] = S::NAN; c }
fn nans<const N: usize>(a: [S; N]) -> [bool; N] { z1(a, false, |x| x.is_nan()) }
fn at<const N: usize>(i: usize) -> [bool; N] { let mut r = [false; N]; r[i] = true; r }
fn some<const N: usize>(a: [S; N]) -> bool { let mut r = false; let mut i = 0; while i < N { r |= a[i].is_nan(); i += 1; } r }
macro_rules! each { ($n:expr, $i:ident, $b:block) => {{ let mut $i = 0; while $i < $n { $b; $i += 1; } }} }
macro_rules! image { ($N:literal, $f:expr, $a:ident) => {{ let f = $f;
    each!($N, i, {
        let (v, p) = (vec_of(bad($a, i)), pt_of(bad($a, i)));
        holds(some(rawp(f.apply_point(&p)))); holds(some(rawp(f.inverse_apply_point(&p)))); holds(some(rawp(f * p))); holds(some(rawp(&f * &p))); holds(some(rawp(f * &p))); holds(some(rawp(&f * p)));
        holds(some(raw(f.apply_vector(&v)))); holds(some(raw(f.inverse_apply_vector(&v))));
    });
}} }
macro_rules! dim { ($m:ident, $N:literal, $f:expr) => { pub mod $m { use super::*;
    type A = [S; $N];
    fn rot(t: S) -> Rotation<S, $N> { let f: fn(S) -> Rotation<S, $N> = $f; f(t) }
    pub fn law_translation(a: A, d: A) {
        spreading();
        let f = Translation::from_vector(&vec_of(d));
        each!($N, i, {
            let p = pt_of(bad(a, i)); let e = at::<$N>(i);
            same(nans(rawp(f.apply_point(&p))), e); same(nans(rawp(f.inverse_apply_point(&p))), e); same(nans(rawp(f * p)), e); same(nans(rawp(&f * &p)), e); same(nans(rawp(f.inverse().apply_point(&p))), e);
            let g = Translation::from_vector(&vec_of(bad(d, i))); let p = pt_of(a);
            same(nans(rawp(g.apply_point(&p))), e); same(nans(rawp(g.inverse_apply_point(&p))), e); same(nans(rawp(g * p)), e); same(nans(rawp(&g * &p)), e); same(nans(rawp(g.inverse().apply_point(&p))), e);
        });
    }
    pub fn law_scale(a: A, d: [NonZero<S>; $N]) {
        spreading();
        let d = z1(d, d[0].0, |x| x.0);
        let f = Scale::from_nonuniform_scale(&vec_of(d));
        each!($N, i, {
            let (v, p) = (vec_of(bad(a, i)), pt_of(bad(a, i))); let e = at::<$N>(i);
            same(nans(rawp(f.apply_point(&p))), e); same(nans(rawp(f.inverse_apply_point(&p))), e); same(nans(rawp(f * p)), e); same(nans(rawp(&f * &p)), e); same(nans(raw(f.apply_vector(&v))), e); same(nans(raw(f.inverse_apply_vector(&v))), e);
            let g = Scale::from_nonuniform_scale(&vec_of(bad(d, i))); let (v, p) = (vec_of(a), pt_of(a));
            same(nans(rawp(g.apply_point(&p))), e); same(nans(rawp(g.inverse_apply_point(&p))), e); same(nans(rawp(g * p)), e); same(nans(raw(g.apply_vector(&v))), e); same(nans(raw(g.inverse_apply_vector(&v))), e);
        });
    }
    pub fn law_rotation(t: S, a: A) { spreading(); image!($N, rot(t), a); holds(some(raw(rot(S::NAN).apply_vector(&vec_of(a))))); }
    pub fn law_isometry(t: S, d: A, a: A) {
        spreading();
        let r = rot(t);
        image!($N, Isometry::from_parts(&Translation::from_vector(&vec_of(d)), &r), a);
        each!($N, i, { let g = Isometry::from_parts(&Translation::from_vector(&vec_of(bad(d, i))), &r); holds(some(rawp(g.apply_point(&pt_of(a))))); holds(some(rawp(g.inverse_apply_point(&pt_of(a))))); });
    }
    pub fn law_similarity(s: NonZero<S>, t: S, d: A, a: A) {
        spreading();
        let r = rot(t);
        image!($N, Similarity::from_parts(&Translation::from_vector(&vec_of(d)), &r, s.0), a);
        each!($N, i, { let g = Similarity::from_parts(&Translation::from_vector(&vec_of(bad(d, i))), &r, s.0); holds(some(rawp(g.apply_point(&pt_of(a))))); holds(some(rawp(g.inverse_apply_point(&pt_of(a))))); });
        let g = Similarity::from_parts(&Translation::from_vector(&vec_of(d)), &r, S::NAN); same(nans(rawp(g.apply_point(&pt_of(a)))), [true; $N]); same(nans(raw(g.apply_vector(&vec_of(a)))), [true; $N]);
    }
} } }
dim!(n2, 2, |t| Rotation2::from_angle(Radians(t)));
dim!(n3, 3, |t| Rotation3::from_angle_z(Radians(t)));
