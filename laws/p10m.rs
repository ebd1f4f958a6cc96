// Matrix storage: column-major in every view and constructor.
macro_rules! dim { ($m:ident, $R:literal, $C:literal, $RC:literal) => { pub mod $m { use super::*;
    type T = Matrix<S, $R, $C>;
    type A = [[S; $R]; $C];
    fn t(a: A) -> T { mat_of(a) }
    fn flat(a: A) -> [S; $RC] { let mut r = [a[0][0]; $RC]; let mut i = 0; while i < $RC { r[i] = a[i / $R][i % $R]; i += 1; } r }
    fn rows(a: A) -> [[S; $C]; $R] { let mut r = [[a[0][0]; $C]; $R]; let mut i = 0; while i < $R { let mut j = 0; while j < $C { r[i][j] = a[j][i]; j += 1; } i += 1; } r }
    pub fn law_size(a: A) {
        same(t(a).len(), $RC); same(t(a).is_empty(), false); same(t(a).shape(), ($R, $C)); same(t(a).is_square(), $R == $C);
        same(std::mem::size_of::<T>(), std::mem::size_of::<A>()); same(std::mem::align_of::<T>(), std::mem::align_of::<S>());
    }
    pub fn law_views(a: A) {
        let m = t(a);
        same(m.as_slice().len(), $RC); same(sl(m.as_slice(), a[0][0]), flat(a));
        same(unsafe { std::ptr::read(m.as_ptr() as *const A) }, a);
        same(*AsRef::<[[S; $R]; $C]>::as_ref(&m), a);
        same(AsRef::<[Vector<S, $R>; $C]>::as_ref(&m).map(|c| raw(c)), a);
        same(*AsRef::<[S; $RC]>::as_ref(&m), flat(a));
    }
    pub fn law_mut(a: A, b: A) {
        let mut m = t(a); { let r: &mut [[S; $R]; $C] = m.as_mut(); *r = b; } same(rawm(m), b);
        let mut m = t(a); { let r: &mut [Vector<S, $R>; $C] = m.as_mut(); *r = arr(b); } same(rawm(m), b);
        let mut m = t(a); { let r: &mut [S; $RC] = m.as_mut(); *r = flat(b); } same(rawm(m), b);
        let mut m = t(a); unsafe { std::ptr::write(m.as_mut_ptr() as *mut A, b); } same(rawm(m), b);
    }
    pub fn law_index(a: A, x: S) {
        let m = t(a);
        let mut c = 0;
        while c < $C {
            same(raw(m[c]), a[c]);
            let mut w = m; w[c] = vec_of([x; $R]); let mut e = a; e[c] = [x; $R]; same(rawm(w), e);
            same(raw(m.column(c)), a[c]);
            let mut r = 0;
            while r < $R {
                same(m[(c, r)], a[c][r]); same(m[c][r], a[c][r]);
                let mut e = a; e[c][r] = x;
                let mut w = m; w[(c, r)] = x; same(rawm(w), e);
                let mut w = m; w[c][r] = x; same(rawm(w), e);
                r += 1;
            }
            c += 1;
        }
        let mut r = 0;
        while r < $R { same(raw(m.row(r)), rows(a)[r]); r += 1; }
    }
    pub fn law_index_at(a: A, c: usize, r: usize) {
        assume(c < $C); assume(r < $R);
        same(t(a)[(c, r)], a[c][r]); same(t(a)[c][r], a[c][r]);
        same(raw(t(a).column(c)), a[c]); same(t(a).row(r)[c], a[c][r]);
    }
    pub fn law_out_of_range(a: A, c: usize, r: usize) { assume(c >= $C); may_panic(); let _x = t(a)[c]; never(); }
    pub fn law_out_of_range_pair(a: A, c: usize, r: usize) { assume(c >= $C || r >= $R); may_panic(); let _x = t(a)[(c, r)]; never(); }
    pub fn law_out_of_range_row(a: A, r: usize) { assume(r >= $R); may_panic(); let _x = t(a).row(r); never(); }
    pub fn law_out_of_range_column(a: A, c: usize) { assume(c >= $C); may_panic(); let _x = t(a).column(c); never(); }
    pub fn law_from(a: A, x: S) {
        same(rawm(T::from(a)), a); same(rawm(*<&T>::from(&a)), a);
        let v: [Vector<S, $R>; $C] = arr(a);
        same(rawm(*<&T>::from(&v)), a); same(rawm(T::from_columns(&v)), a);
        same(rawm(T::from(flat(a))), a); same(rawm(*<&T>::from(&flat(a))), a);
        same(rawm(T::from_rows(&arr(rows(a)))), a);
        same(rawm(T::from_fill(x)), [[x; $R]; $C]);
        same(rawm(T::zero()), [[0u8 as S; $R]; $C]); same(rawm(T::default()), [[0u8 as S; $R]; $C]);
    }
    pub fn law_map(a: A, k: S) {
        same(rawm(t(a).map(|x| x * x + k)), a.map(|c| c.map(|x| x * x + k)));
        same(rawm(t(a).map(|x| x == k)), a.map(|c| c.map(|x| x == k)));
    }
    pub fn law_eq(a: A, b: A) {
        same(t(a) == t(b), fold(z2(flat(a), flat(b), true, |x, y| x == y), true, |p, q| p & q));
        same(t(a).is_zero(), fold(flat(a), true, |p, x| p & (x == 0u8 as S)));
    }
} } }
// generated from here on by gen.py
dim!(r1c1, 1, 1, 1);
dim!(r1c2, 1, 2, 2);
dim!(r1c3, 1, 3, 3);
dim!(r1c4, 1, 4, 4);
dim!(r2c1, 2, 1, 2);
dim!(r2c2, 2, 2, 4);
dim!(r2c3, 2, 3, 6);
dim!(r2c4, 2, 4, 8);
dim!(r3c1, 3, 1, 3);
dim!(r3c2, 3, 2, 6);
dim!(r3c3, 3, 3, 9);
dim!(r3c4, 3, 4, 12);
dim!(r4c1, 4, 1, 4);
dim!(r4c2, 4, 2, 8);
dim!(r4c3, 4, 3, 12);
dim!(r4c4, 4, 4, 16);
pub fn law_names_1x1(a: [[S; 1]; 1], x: S) {
    let m: Matrix1x1<S> = mat_of(a);
    same(rawm(Matrix1x1::new(a[0][0])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
}
pub fn law_names_1x2(a: [[S; 1]; 2], x: S) {
    let m: Matrix1x2<S> = mat_of(a);
    same(rawm(Matrix1x2::new(a[0][0], a[1][0])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
}
pub fn law_names_1x3(a: [[S; 1]; 3], x: S) {
    let m: Matrix1x3<S> = mat_of(a);
    same(rawm(Matrix1x3::new(a[0][0], a[1][0], a[2][0])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
}
pub fn law_names_1x4(a: [[S; 1]; 4], x: S) {
    let m: Matrix1x4<S> = mat_of(a);
    same(rawm(Matrix1x4::new(a[0][0], a[1][0], a[2][0], a[3][0])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c3r0, a[3][0]); let mut w = m; w.c3r0 = x; let mut e = a; e[3][0] = x; same(rawm(w), e);
}
pub fn law_names_2x2(a: [[S; 2]; 2], x: S) {
    let m: Matrix2x2<S> = mat_of(a);
    same(rawm(Matrix2x2::new(a[0][0], a[0][1], a[1][0], a[1][1])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
}
pub fn law_names_2x3(a: [[S; 2]; 3], x: S) {
    let m: Matrix2x3<S> = mat_of(a);
    same(rawm(Matrix2x3::new(a[0][0], a[0][1], a[1][0], a[1][1], a[2][0], a[2][1])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c2r1, a[2][1]); let mut w = m; w.c2r1 = x; let mut e = a; e[2][1] = x; same(rawm(w), e);
}
pub fn law_names_2x4(a: [[S; 2]; 4], x: S) {
    let m: Matrix2x4<S> = mat_of(a);
    same(rawm(Matrix2x4::new(a[0][0], a[0][1], a[1][0], a[1][1], a[2][0], a[2][1], a[3][0], a[3][1])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c2r1, a[2][1]); let mut w = m; w.c2r1 = x; let mut e = a; e[2][1] = x; same(rawm(w), e);
    same(m.c3r0, a[3][0]); let mut w = m; w.c3r0 = x; let mut e = a; e[3][0] = x; same(rawm(w), e);
    same(m.c3r1, a[3][1]); let mut w = m; w.c3r1 = x; let mut e = a; e[3][1] = x; same(rawm(w), e);
}
pub fn law_names_3x2(a: [[S; 3]; 2], x: S) {
    let m: Matrix3x2<S> = mat_of(a);
    same(rawm(Matrix3x2::new(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c0r2, a[0][2]); let mut w = m; w.c0r2 = x; let mut e = a; e[0][2] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c1r2, a[1][2]); let mut w = m; w.c1r2 = x; let mut e = a; e[1][2] = x; same(rawm(w), e);
}
pub fn law_names_3x3(a: [[S; 3]; 3], x: S) {
    let m: Matrix3x3<S> = mat_of(a);
    same(rawm(Matrix3x3::new(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c0r2, a[0][2]); let mut w = m; w.c0r2 = x; let mut e = a; e[0][2] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c1r2, a[1][2]); let mut w = m; w.c1r2 = x; let mut e = a; e[1][2] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c2r1, a[2][1]); let mut w = m; w.c2r1 = x; let mut e = a; e[2][1] = x; same(rawm(w), e);
    same(m.c2r2, a[2][2]); let mut w = m; w.c2r2 = x; let mut e = a; e[2][2] = x; same(rawm(w), e);
}
pub fn law_names_3x4(a: [[S; 3]; 4], x: S) {
    let m: Matrix3x4<S> = mat_of(a);
    same(rawm(Matrix3x4::new(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2], a[3][0], a[3][1], a[3][2])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c0r2, a[0][2]); let mut w = m; w.c0r2 = x; let mut e = a; e[0][2] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c1r2, a[1][2]); let mut w = m; w.c1r2 = x; let mut e = a; e[1][2] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c2r1, a[2][1]); let mut w = m; w.c2r1 = x; let mut e = a; e[2][1] = x; same(rawm(w), e);
    same(m.c2r2, a[2][2]); let mut w = m; w.c2r2 = x; let mut e = a; e[2][2] = x; same(rawm(w), e);
    same(m.c3r0, a[3][0]); let mut w = m; w.c3r0 = x; let mut e = a; e[3][0] = x; same(rawm(w), e);
    same(m.c3r1, a[3][1]); let mut w = m; w.c3r1 = x; let mut e = a; e[3][1] = x; same(rawm(w), e);
    same(m.c3r2, a[3][2]); let mut w = m; w.c3r2 = x; let mut e = a; e[3][2] = x; same(rawm(w), e);
}
pub fn law_names_4x2(a: [[S; 4]; 2], x: S) {
    let m: Matrix4x2<S> = mat_of(a);
    same(rawm(Matrix4x2::new(a[0][0], a[0][1], a[0][2], a[0][3], a[1][0], a[1][1], a[1][2], a[1][3])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c0r2, a[0][2]); let mut w = m; w.c0r2 = x; let mut e = a; e[0][2] = x; same(rawm(w), e);
    same(m.c0r3, a[0][3]); let mut w = m; w.c0r3 = x; let mut e = a; e[0][3] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c1r2, a[1][2]); let mut w = m; w.c1r2 = x; let mut e = a; e[1][2] = x; same(rawm(w), e);
    same(m.c1r3, a[1][3]); let mut w = m; w.c1r3 = x; let mut e = a; e[1][3] = x; same(rawm(w), e);
}
pub fn law_names_4x3(a: [[S; 4]; 3], x: S) {
    let m: Matrix4x3<S> = mat_of(a);
    same(rawm(Matrix4x3::new(a[0][0], a[0][1], a[0][2], a[0][3], a[1][0], a[1][1], a[1][2], a[1][3], a[2][0], a[2][1], a[2][2], a[2][3])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c0r2, a[0][2]); let mut w = m; w.c0r2 = x; let mut e = a; e[0][2] = x; same(rawm(w), e);
    same(m.c0r3, a[0][3]); let mut w = m; w.c0r3 = x; let mut e = a; e[0][3] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c1r2, a[1][2]); let mut w = m; w.c1r2 = x; let mut e = a; e[1][2] = x; same(rawm(w), e);
    same(m.c1r3, a[1][3]); let mut w = m; w.c1r3 = x; let mut e = a; e[1][3] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c2r1, a[2][1]); let mut w = m; w.c2r1 = x; let mut e = a; e[2][1] = x; same(rawm(w), e);
    same(m.c2r2, a[2][2]); let mut w = m; w.c2r2 = x; let mut e = a; e[2][2] = x; same(rawm(w), e);
    same(m.c2r3, a[2][3]); let mut w = m; w.c2r3 = x; let mut e = a; e[2][3] = x; same(rawm(w), e);
}
pub fn law_names_4x4(a: [[S; 4]; 4], x: S) {
    let m: Matrix4x4<S> = mat_of(a);
    same(rawm(Matrix4x4::new(a[0][0], a[0][1], a[0][2], a[0][3], a[1][0], a[1][1], a[1][2], a[1][3], a[2][0], a[2][1], a[2][2], a[2][3], a[3][0], a[3][1], a[3][2], a[3][3])), a);
    same(m.c0r0, a[0][0]); let mut w = m; w.c0r0 = x; let mut e = a; e[0][0] = x; same(rawm(w), e);
    same(m.c0r1, a[0][1]); let mut w = m; w.c0r1 = x; let mut e = a; e[0][1] = x; same(rawm(w), e);
    same(m.c0r2, a[0][2]); let mut w = m; w.c0r2 = x; let mut e = a; e[0][2] = x; same(rawm(w), e);
    same(m.c0r3, a[0][3]); let mut w = m; w.c0r3 = x; let mut e = a; e[0][3] = x; same(rawm(w), e);
    same(m.c1r0, a[1][0]); let mut w = m; w.c1r0 = x; let mut e = a; e[1][0] = x; same(rawm(w), e);
    same(m.c1r1, a[1][1]); let mut w = m; w.c1r1 = x; let mut e = a; e[1][1] = x; same(rawm(w), e);
    same(m.c1r2, a[1][2]); let mut w = m; w.c1r2 = x; let mut e = a; e[1][2] = x; same(rawm(w), e);
    same(m.c1r3, a[1][3]); let mut w = m; w.c1r3 = x; let mut e = a; e[1][3] = x; same(rawm(w), e);
    same(m.c2r0, a[2][0]); let mut w = m; w.c2r0 = x; let mut e = a; e[2][0] = x; same(rawm(w), e);
    same(m.c2r1, a[2][1]); let mut w = m; w.c2r1 = x; let mut e = a; e[2][1] = x; same(rawm(w), e);
    same(m.c2r2, a[2][2]); let mut w = m; w.c2r2 = x; let mut e = a; e[2][2] = x; same(rawm(w), e);
    same(m.c2r3, a[2][3]); let mut w = m; w.c2r3 = x; let mut e = a; e[2][3] = x; same(rawm(w), e);
    same(m.c3r0, a[3][0]); let mut w = m; w.c3r0 = x; let mut e = a; e[3][0] = x; same(rawm(w), e);
    same(m.c3r1, a[3][1]); let mut w = m; w.c3r1 = x; let mut e = a; e[3][1] = x; same(rawm(w), e);
    same(m.c3r2, a[3][2]); let mut w = m; w.c3r2 = x; let mut e = a; e[3][2] = x; same(rawm(w), e);
    same(m.c3r3, a[3][3]); let mut w = m; w.c3r3 = x; let mut e = a; e[3][3] = x; same(rawm(w), e);
}
pub fn law_scalar(x: S) { same(Matrix1x1::new(x).to_scalar(), x); }
