// In-place exchange of rows, columns and entries.
macro_rules! dim { ($m:ident, $R:literal, $C:literal) => { pub mod $m { use super::*;
    type A = [[S; $R]; $C];
    type T = Matrix<S, $R, $C>;
    fn t(a: A) -> T { mat_of(a) }
    pub fn law_rows(a: A) {
        let mut i = 0;
        while i < $R { let mut j = 0; while j < $R {
            let mut e = a; let mut c = 0; while c < $C { e[c][i] = a[c][j]; e[c][j] = a[c][i]; c += 1; }
            let mut m = t(a); m.swap_rows(i, j); same(rawm(m), e);
            j += 1; } i += 1; }
    }
    pub fn law_columns(a: A) {
        let mut i = 0;
        while i < $C { let mut j = 0; while j < $C {
            let mut e = a; e[i] = a[j]; e[j] = a[i];
            let mut m = t(a); m.swap_columns(i, j); same(rawm(m), e);
            j += 1; } i += 1; }
    }
    pub fn law_entries(a: A) {
        let mut c = 0;
        while c < $C { let mut r = 0; while r < $R { let mut d = 0; while d < $C { let mut s = 0; while s < $R {
            let mut e = a; e[c][r] = a[d][s]; e[d][s] = a[c][r];
            let mut m = t(a); m.swap((c, r), (d, s)); same(rawm(m), e);
            s += 1; } d += 1; } r += 1; } c += 1; }
    }
    pub fn law_bad_row(a: A) { may_panic(); let mut m = t(a); same(rawm(m), a); m.swap_rows($R, 0); never(); }
    pub fn law_bad_row2(a: A) { may_panic(); let mut m = t(a); same(rawm(m), a); m.swap_rows(0, $R + 1); never(); }
    pub fn law_bad_column(a: A) { may_panic(); let mut m = t(a); same(rawm(m), a); m.swap_columns($C, 0); never(); }
    pub fn law_bad_column2(a: A) { may_panic(); let mut m = t(a); same(rawm(m), a); m.swap_columns(0, $C + 1); never(); }
} } }
dim!(r1c1, 1, 1); dim!(r2c2, 2, 2); dim!(r2c3, 2, 3); dim!(r3c2, 3, 2); dim!(r3c3, 3, 3); dim!(r4c4, 4, 4); dim!(r1c4, 1, 4); dim!(r4c1, 4, 1); dim!(r5c5, 5, 5); dim!(r5c2, 5, 2);
