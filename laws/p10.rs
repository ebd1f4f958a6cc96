// Storage views: every way of looking at or building a vector, point, quaternion, complex number sees the same components in order.
macro_rules! common { ($T:ty, $mk:ident, $raw:ident, $N:literal) => {
    type T = $T;
    type A = [S; $N];
    fn t(a: A) -> T { $mk(a) }
    pub fn law_size(a: A) {
        same(t(a).len(), $N); same(t(a).is_empty(), false);
        same(std::mem::size_of::<T>(), std::mem::size_of::<A>()); same(std::mem::align_of::<T>(), std::mem::align_of::<S>());
    }
    pub fn law_slice(a: A) {
        let v = t(a);
        same(v.as_slice().len(), $N); same(sl(v.as_slice(), a[0]), a);
        same(unsafe { std::ptr::read(v.as_ptr() as *const A) }, a);
        let r: &A = v.as_ref(); same(*r, a);
    }
    pub fn law_mut(a: A, b: A) {
        let mut v = t(a); { let r: &mut A = v.as_mut(); same(*r, a); *r = b; } same($raw(v), b);
        let mut v = t(a); unsafe { std::ptr::write(v.as_mut_ptr() as *mut A, b); } same($raw(v), b);
    }
    pub fn law_index(a: A, x: S) {
        let mut i = 0;
        while i < $N {
            same(t(a)[i], a[i]);
            let mut v = t(a); same(v[i], a[i]); v[i] = x; let mut e = a; e[i] = x; same($raw(v), e);
            i += 1;
        }
    }
    pub fn law_index_at(a: A, i: usize, x: S) {
        assume(i < $N);
        same(t(a)[i], a[i]);
        let mut v = t(a); v[i] = x; let mut e = a; e[i] = x; same($raw(v), e);
    }
    pub fn law_ranges(a: A, b: A) {
        let v = t(a);
        same(v[..].len(), $N); same(sl(&v[..], a[0]), a);
        let mut w = t(a); w[..].copy_from_slice(&b); same($raw(w), b);
        let mut i = 0;
        while i <= $N {
            same(v[i..].len(), $N - i); same(v[..i].len(), i);
            let mut j = i;
            while j < $N { same(v[i..][j - i], a[j]); let mut w = t(a); w[i..][j - i] = b[j]; let mut e = a; e[j] = b[j]; same($raw(w), e); j += 1; }
            let mut j = 0;
            while j < i { same(v[..i][j], a[j]); let mut w = t(a); w[..i][j] = b[j]; let mut e = a; e[j] = b[j]; same($raw(w), e); j += 1; }
            let mut k = i;
            while k <= $N {
                same(v[i..k].len(), k - i);
                let mut j = i;
                while j < k { same(v[i..k][j - i], a[j]); let mut w = t(a); w[i..k][j - i] = b[j]; let mut e = a; e[j] = b[j]; same($raw(w), e); j += 1; }
                k += 1;
            }
            i += 1;
        }
    }
    pub fn law_out_of_range(a: A, i: usize) { assume(i >= $N); may_panic(); let _x = t(a)[i]; never(); }
    pub fn law_from(a: A, x: S) {
        same($raw(T::from(a)), a); same($raw(T::from(&a)), a); same($raw(*<&T>::from(&a)), a);
        same($raw(T::from_fill(x)), [x; $N]);
    }
} }
macro_rules! dim { ($m:ident, $N:literal) => {
    pub mod $m {
        pub mod vector { use super::super::*; common!(Vector<S, $N>, vec_of, raw, $N);
            pub fn law_shape(a: A) { same(t(a).shape(), ($N, 1)); }
            pub fn law_nested(a: A, b: A) {
                let v = t(a); let r: &[[S; $N]; 1] = v.as_ref(); same(*r, [a]);
                let mut v = t(a); { let r: &mut [[S; $N]; 1] = v.as_mut(); r[0] = b; } same(raw(v), b);
            }
        }
        pub mod point { use super::super::*; common!(Point<S, $N>, pt_of, rawp, $N);
            pub fn law_shape(a: A) { same(t(a).shape(), ($N, 1)); }
            pub fn law_vector(a: A) {
                same(raw(t(a).to_vector()), a); same(rawp(Point::from_vector(&vec_of(a))), a);
                same(rawp(Point::<S, $N>::origin()), [0u8 as S; $N]); same(rawp(Point::<S, $N>::default()), [0u8 as S; $N]);
            }
        }
    }
} }
dim!(n1, 1);
dim!(n2, 2);
dim!(n3, 3);
dim!(n4, 4);
dim!(n5, 5);
pub mod quaternion { use super::*; common!(Quaternion<S>, quat_of, rawq, 4);
    pub fn law_shape(a: A) { same(t(a).shape(), (4, 1)); }
    pub fn law_parts(a: A, b: A) {
        let [s, x, y, z] = a;
        let q = t(a);
        same(rawq(Quaternion::new(s, x, y, z)), a); same(rawq(Quaternion::from_parts(s, Vector3::new(x, y, z))), a);
        same(rawq(Quaternion::from_vector(Vector4::new(s, x, y, z))), a);
        same(q.scalar(), s); same(raw(q.vector()), [x, y, z]); same(q.s, s); same(raw(q.v), [x, y, z]);
        same(q[0], s);
        let mut q = t(a); q.s = b[0]; same(rawq(q), [b[0], x, y, z]);
        let mut q = t(a); q.v = Vector3::new(b[1], b[2], b[3]); same(rawq(q), [s, b[1], b[2], b[3]]);
        let mut q = t(a); q.v.y = b[2]; same(rawq(q), [s, x, b[2], z]);
        same(rawq(Quaternion::from((s, x, y, z))), a); same(rawq(Quaternion::from(&(s, x, y, z))), a); same(rawq(*<&Quaternion<S>>::from(&(s, x, y, z))), a);
        let r: &(S, S, S, S) = q.as_ref(); same(*r, (s, x, b[2], z));
        { let r: &mut (S, S, S, S) = q.as_mut(); r.0 = b[0]; r.3 = b[3]; } same(rawq(q), [b[0], x, b[2], b[3]]);
    }
}
pub mod complex { use super::*; 
    type T = Complex<S>;
    type A = [S; 2];
    fn t(a: A) -> T { cx_of(a) }
    pub fn law_size(a: A) {
        same(t(a).len(), 2); same(t(a).is_empty(), false); same(t(a).shape(), (2, 1));
        same(std::mem::size_of::<T>(), std::mem::size_of::<A>());
    }
    pub fn law_views(a: A, b: A) {
        let v = t(a);
        same(v.as_slice().len(), 2); same(sl(v.as_slice(), a[0]), a);
        same(unsafe { std::ptr::read(v.as_ptr() as *const A) }, a);
        let r: &A = v.as_ref(); same(*r, a);
        let r: &(S, S) = v.as_ref(); same(*r, (a[0], a[1]));
        let mut v = t(a); { let r: &mut A = v.as_mut(); same(*r, a); *r = b; } same(rawc(v), b);
        let mut v = t(a); { let r: &mut (S, S) = v.as_mut(); r.1 = b[1]; } same(rawc(v), [a[0], b[1]]);
        let mut v = t(a); unsafe { std::ptr::write(v.as_mut_ptr() as *mut A, b); } same(rawc(v), b);
        same(v.re, b[0]); same(v.im, b[1]); same(v.real(), b[0]); same(v.imaginary(), b[1]);
    }
    pub fn law_index(a: A, i: usize, x: S) {
        assume(i < 2);
        same(t(a)[i], a[i]);
        let mut v = t(a); v[i] = x; let mut e = a; e[i] = x; same(rawc(v), e);
    }
    pub fn law_ranges(a: A, x: S) {
        let v = t(a);
        same(sl(&v[..], x), a); same(v[0..1].len(), 1); same(v[0..1][0], a[0]); same(v[1..2].len(), 1); same(v[1..2][0], a[1]);
        same(v[..1].len(), 1); same(v[..1][0], a[0]); same(v[1..].len(), 1); same(v[1..][0], a[1]); same(v[..].len(), 2); same(v[0..].len(), 2);
        let mut w = t(a); w[..][1] = x; same(rawc(w), [a[0], x]);
        let mut w = t(a); w[0..1][0] = x; same(rawc(w), [x, a[1]]);
        let mut w = t(a); w[..1][0] = x; same(rawc(w), [x, a[1]]);
        let mut w = t(a); w[1..][0] = x; same(rawc(w), [a[0], x]);
    }
    pub fn law_out_of_range(a: A, i: usize) { assume(i >= 2); may_panic(); let _x = t(a)[i]; never(); }
    pub fn law_from(a: A) {
        let o = 0u8 as S;
        same(rawc(Complex::new(a[0], a[1])), a);
        same(rawc(Complex::from(a)), a); same(rawc(Complex::from(&a)), a); same(rawc(*<&Complex<S>>::from(&a)), a);
        let p = (a[0], a[1]);
        same(rawc(Complex::from(p)), a); same(rawc(Complex::from(&p)), a); same(rawc(*<&Complex<S>>::from(&p)), a);
        same(rawc(Complex::from(a[0])), [a[0], o]); same(rawc(Complex::from(&a[0])), [a[0], o]);
    }
}
pub fn law_vector_tuples(a: [S; 4], b: [S; 4]) {
    let [x, y, z, w] = a;
    same(raw(Vector1::new(x)), [x]); same(raw(Vector2::new(x, y)), [x, y]); same(raw(Vector3::new(x, y, z)), [x, y, z]); same(raw(Vector4::new(x, y, z, w)), a);
    same(raw(Vector1::from(x)), [x]); same(raw(Vector1::from((x,))), [x]); same(raw(Vector1::from(&(x,))), [x]); same(raw(*<&Vector1<S>>::from(&(x,))), [x]);
    same(raw(Vector2::from((x, y))), [x, y]); same(raw(Vector2::from(&(x, y))), [x, y]); same(raw(*<&Vector2<S>>::from(&(x, y))), [x, y]);
    same(raw(Vector3::from((x, y, z))), [x, y, z]); same(raw(Vector3::from(&(x, y, z))), [x, y, z]); same(raw(*<&Vector3<S>>::from(&(x, y, z))), [x, y, z]);
    same(raw(Vector4::from((x, y, z, w))), a); same(raw(Vector4::from(&(x, y, z, w))), a); same(raw(*<&Vector4<S>>::from(&(x, y, z, w))), a);
    same(raw(Vector3::from(Vector4::new(x, y, z, w))), [x, y, z]); same(raw(Vector3::from(&Vector4::new(x, y, z, w))), [x, y, z]);
    same(Vector1::new(x).to_scalar(), x);
    same(*AsRef::<S>::as_ref(&Vector1::new(x)), x); same(*AsRef::<(S,)>::as_ref(&Vector1::new(x)), (x,));
    same(*AsRef::<(S, S)>::as_ref(&Vector2::new(x, y)), (x, y)); same(*AsRef::<(S, S, S)>::as_ref(&Vector3::new(x, y, z)), (x, y, z));
    same(*AsRef::<(S, S, S, S)>::as_ref(&Vector4::new(x, y, z, w)), (x, y, z, w));
    let mut v = Vector1::new(x); *AsMut::<S>::as_mut(&mut v) = b[0]; same(raw(v), [b[0]]);
    let mut v = Vector1::new(x); AsMut::<(S,)>::as_mut(&mut v).0 = b[0]; same(raw(v), [b[0]]);
    let mut v = Vector2::new(x, y); AsMut::<(S, S)>::as_mut(&mut v).1 = b[1]; same(raw(v), [x, b[1]]);
    let mut v = Vector3::new(x, y, z); AsMut::<(S, S, S)>::as_mut(&mut v).2 = b[2]; same(raw(v), [x, y, b[2]]);
    let mut v = Vector4::new(x, y, z, w); AsMut::<(S, S, S, S)>::as_mut(&mut v).3 = b[3]; same(raw(v), [x, y, z, b[3]]);
}
pub fn law_vector_names(a: [S; 4], b: [S; 4]) {
    let [x, y, z, w] = a;
    let v = Vector1::new(x); same(v.x, x);
    let v = Vector2::new(x, y); same((v.x, v.y), (x, y));
    let v = Vector3::new(x, y, z); same((v.x, v.y, v.z), (x, y, z));
    let v = Vector4::new(x, y, z, w); same((v.x, v.y, v.z, v.w), (x, y, z, w));
    let mut v = Vector1::new(x); v.x = b[0]; same(raw(v), [b[0]]);
    let mut v = Vector2::new(x, y); v.x = b[0]; same(raw(v), [b[0], y]); v.y = b[1]; same(raw(v), [b[0], b[1]]);
    let mut v = Vector3::new(x, y, z); v.x = b[0]; same(raw(v), [b[0], y, z]); v.y = b[1]; same(raw(v), [b[0], b[1], z]); v.z = b[2]; same(raw(v), [b[0], b[1], b[2]]);
    let mut v = Vector4::new(x, y, z, w); v.x = b[0]; same(raw(v), [b[0], y, z, w]); v.y = b[1]; same(raw(v), [b[0], b[1], z, w]); v.z = b[2]; same(raw(v), [b[0], b[1], b[2], w]); v.w = b[3]; same(raw(v), b);
}
pub fn law_point_tuples(a: [S; 3], b: [S; 3]) {
    let [x, y, z] = a;
    same(rawp(Point1::new(x)), [x]); same(rawp(Point2::new(x, y)), [x, y]); same(rawp(Point3::new(x, y, z)), [x, y, z]);
    same(rawp(Point1::from(x)), [x]); same(rawp(Point1::from((x,))), [x]); same(rawp(Point1::from(&(x,))), [x]); same(rawp(*<&Point1<S>>::from(&(x,))), [x]);
    same(rawp(Point2::from((x, y))), [x, y]); same(rawp(Point2::from(&(x, y))), [x, y]); same(rawp(*<&Point2<S>>::from(&(x, y))), [x, y]);
    same(rawp(Point3::from((x, y, z))), a); same(rawp(Point3::from(&(x, y, z))), a); same(rawp(*<&Point3<S>>::from(&(x, y, z))), a);
    same(*AsRef::<S>::as_ref(&Point1::new(x)), x); same(*AsRef::<(S,)>::as_ref(&Point1::new(x)), (x,));
    same(*AsRef::<(S, S)>::as_ref(&Point2::new(x, y)), (x, y)); same(*AsRef::<(S, S, S)>::as_ref(&Point3::new(x, y, z)), (x, y, z));
    let mut v = Point1::new(x); *AsMut::<S>::as_mut(&mut v) = b[0]; same(rawp(v), [b[0]]);
    let mut v = Point1::new(x); AsMut::<(S,)>::as_mut(&mut v).0 = b[0]; same(rawp(v), [b[0]]);
    let mut v = Point2::new(x, y); AsMut::<(S, S)>::as_mut(&mut v).1 = b[1]; same(rawp(v), [x, b[1]]);
    let mut v = Point3::new(x, y, z); AsMut::<(S, S, S)>::as_mut(&mut v).2 = b[2]; same(rawp(v), [x, y, b[2]]);
    let v = Point1::new(x); same(v.x, x);
    let v = Point2::new(x, y); same((v.x, v.y), (x, y));
    let v = Point3::new(x, y, z); same((v.x, v.y, v.z), (x, y, z));
    let mut v = Point3::new(x, y, z); v.x = b[0]; same(rawp(v), [b[0], y, z]); v.y = b[1]; same(rawp(v), [b[0], b[1], z]); v.z = b[2]; same(rawp(v), b);
    let mut v = Point2::new(x, y); v.x = b[0]; same(rawp(v), [b[0], y]); v.y = b[1]; same(rawp(v), [b[0], b[1]]);
    let mut v = Point1::new(x); v.x = b[0]; same(rawp(v), [b[0]]);
}
