// Matrix arithmetic over every shape, in every operator form.
fn tr<const R: usize, const C: usize>(a: [[S; R]; C]) -> [[S; C]; R] { let mut r = [[a[0][0]; C]; R]; let mut i = 0; while i < R { let mut j = 0; while j < C { r[i][j] = a[j][i]; j += 1; } i += 1; } r }
fn mulv<const R: usize, const C: usize>(a: [[S; R]; C], v: [S; C]) -> [S; R] {
    let mut r = [a[0][0]; R];
    let mut i = 0;
    while i < R { let mut t = a[0][i] * v[0]; let mut j = 1; while j < C { t = t + a[j][i] * v[j]; j += 1; } r[i] = t; i += 1; }
    r
}
fn mulm<const R: usize, const C: usize, const D: usize>(a: [[S; R]; C], b: [[S; C]; D]) -> [[S; R]; D] { b.map(|c| mulv(a, c)) }
fn map2<const R: usize, const C: usize>(a: [[S; R]; C], b: [[S; R]; C], f: impl Fn(S, S) -> S) -> [[S; R]; C] {
    let mut r = a; let mut i = 0; while i < C { let mut j = 0; while j < R { r[i][j] = f(a[i][j], b[i][j]); j += 1; } i += 1; } r
}
fn map1<const R: usize, const C: usize>(a: [[S; R]; C], f: impl Fn(S) -> S) -> [[S; R]; C] { map2(a, a, |x, _| f(x)) }
fn sum<const R: usize, const C: usize>(a: [[S; R]; C]) -> S { let mut t = 0u8 as S; let mut i = 0; while i < C { let mut j = 0; while j < R { t = t + a[i][j]; j += 1; } i += 1; } t }
macro_rules! dim { ($m:ident, $R:literal, $C:literal) => { dim!($m, $R, $C, (d1, 1), (d2, 2), (d3, 3), (d4, 4)); }; ($m:ident, $R:literal, $C:literal, $(($d:ident, $D:literal)),*) => { pub mod $m { use super::*;
    type A = [[S; $R]; $C];
    type T = Matrix<S, $R, $C>;
    fn t(a: A) -> T { mat_of(a) }
    pub fn law_add(a: A, b: A) {
        let e = map2(a, b, |x, y| x + y);
        same(rawm(t(a) + t(b)), e); same(rawm(t(a) + &t(b)), e); same(rawm(&t(a) + t(b)), e); same(rawm(&t(a) + &t(b)), e);
        let mut c = t(a); c += t(b); same(rawm(c), e);
        let mut c = t(a); c += &t(b); same(rawm(c), e);
    }
    pub fn law_sub(a: A, b: A) {
        let e = map2(a, b, |x, y| x - y);
        same(rawm(t(a) - t(b)), e); same(rawm(t(a) - &t(b)), e); same(rawm(&t(a) - t(b)), e); same(rawm(&t(a) - &t(b)), e);
        let mut c = t(a); c -= t(b); same(rawm(c), e);
        let mut c = t(a); c -= &t(b); same(rawm(c), e);
    }
    pub fn law_scale(a: A, s: S) {
        let e = map1(a, |x| x * s);
        same(rawm(t(a) * s), e); same(rawm(&t(a) * s), e);
        same(rawm(s * t(a)), e); same(rawm(s * &t(a)), e); same(rawm(&s * t(a)), e); same(rawm(&s * &t(a)), e);
        let mut c = t(a); c *= s; same(rawm(c), e);
    }
    pub fn law_div_rem(a: A, s: NonZero<S>) {
        let s = s.0;
        may_panic();
        let e = map1(a, |x| x / s);
        same(rawm(t(a) / s), e); same(rawm(&t(a) / s), e);
        let mut c = t(a); c /= s; same(rawm(c), e);
        let e = map1(a, |x| x % s);
        same(rawm(t(a) % s), e); same(rawm(&t(a) % s), e);
        let mut c = t(a); c %= s; same(rawm(c), e);
    }
    pub fn law_componentwise(a: A, b: A) {
        let e = map2(a, b, |x, y| x * y);
        same(rawm(t(a).component_mul(&t(b))), e);
        let mut c = t(a); c.component_mul_assign(&t(b)); same(rawm(c), e);
        same(t(a).dot(&t(b)), sum(e));
        same(t(a).tr_dot(&mat_of(tr(b))), sum(e));
    }
    pub fn law_transpose(a: A) {
        same(rawm(t(a).transpose()), tr(a)); same(rawm(t(a).transpose().transpose()), a);
    }
    pub fn law_apply(a: A, v: [S; $C]) {
        let e = mulv(a, v);
        same(raw(t(a) * vec_of(v)), e); same(raw(t(a) * &vec_of(v)), e); same(raw(&t(a) * vec_of(v)), e); same(raw(&t(a) * &vec_of(v)), e);
    }
    $( pub mod $d { use super::*;
        pub fn law_product(a: A, b: [[S; $C]; $D]) {
            let e = mulm(a, b);
            let (x, y): (T, Matrix<S, $C, $D>) = (t(a), mat_of(b));
            same(rawm(x * y), e); same(rawm(x * &y), e); same(rawm(&x * y), e); same(rawm(&x * &y), e);
            same(rawm((x * y).transpose()), rawm(y.transpose() * x.transpose()));
        }
        pub fn law_tr_product(a: A, b: [[S; $R]; $D]) {
            let y: Matrix<S, $R, $D> = mat_of(b);
            let r: Matrix<S, $C, $D> = t(a).tr_mul(&y);
            same(rawm(r), mulm(tr(a), b));
        }
    } )*
} } }
dim!(r1c1, 1, 1); dim!(r1c2, 1, 2); dim!(r1c3, 1, 3); dim!(r1c4, 1, 4);
dim!(r2c1, 2, 1); dim!(r2c2, 2, 2); dim!(r2c3, 2, 3); dim!(r2c4, 2, 4);
dim!(r3c1, 3, 1); dim!(r3c2, 3, 2); dim!(r3c3, 3, 3); dim!(r3c4, 3, 4);
dim!(r4c1, 4, 1); dim!(r4c2, 4, 2); dim!(r4c3, 4, 3); dim!(r4c4, 4, 4);
dim!(r5c5, 5, 5,); dim!(r2c5, 2, 5,); dim!(r5c3, 5, 3,);
macro_rules! square { ($m:ident, $N:literal) => { pub mod $m { use super::*;
    type A = [[S; $N]; $N];
    type T = Matrix<S, $N, $N>;
    fn t(a: A) -> T { mat_of(a) }
    const O: S = 0u8 as S;
    const I: S = 1u8 as S;
    fn diag(d: [S; $N]) -> A { let mut r = [[O; $N]; $N]; let mut i = 0; while i < $N { r[i][i] = d[i]; i += 1; } r }
    pub fn law_identity(a: A, b: [[S; $N]; 3]) {
        same(rawm(T::identity()), diag([I; $N]));
        same(rawm(T::identity() * t(a)), a); same(rawm(t(a) * T::identity()), a);
        let m: Matrix<S, $N, 3> = mat_of(b); same(rawm(T::identity() * m), b);
        holds(T::identity().is_identity());
        let e = diag([I; $N]);
        let mut p = true; let mut i = 0; while i < $N { let mut j = 0; while j < $N { p &= a[i][j] == e[i][j]; j += 1; } i += 1; }
        same(t(a).is_identity(), p);
    }
    pub fn law_diagonal(a: A, d: [S; $N], x: S) {
        same(rawm(T::from_diagonal_value(x)), diag([x; $N])); same(rawm(T::from_diagonal(&vec_of(d))), diag(d));
        let mut tr_ = O; let mut i = 0; while i < $N { tr_ = tr_ + a[i][i]; i += 1; }
        same(t(a).trace(), tr_);
        let g = t(a).diagonal();
        let mut i = 0; while i < $N { same(g[i], a[i][i]); i += 1; }
    }
    pub fn law_transpose_mut(a: A) { let mut m = t(a); m.transpose_mut(); same(rawm(m), tr(a)); }
    pub fn law_ring(a: A, b: A, c: A) {
        same(rawm((t(a) * t(b)) * t(c)), rawm(t(a) * (t(b) * t(c))));
        same(rawm(t(a) * (t(b) + t(c))), rawm(t(a) * t(b) + t(a) * t(c)));
        same((t(a) * t(b)).trace(), (t(b) * t(a)).trace());
    }
} } }
square!(s1, 1);
square!(s2, 2);
square!(s3, 3);
square!(s4, 4);
macro_rules! embed { ($m:ident, $M:literal, $N:literal) => {
    pub fn $m(a: [[S; $M]; $M]) {
        let mut e = [[0u8 as S; $N]; $N];
        let mut i = 0; while i < $N { e[i][i] = 1u8 as S; i += 1; }
        let mut i = 0; while i < $M { let mut j = 0; while j < $M { e[i][j] = a[i][j]; j += 1; } i += 1; }
        let m: Matrix<S, $M, $M> = mat_of(a);
        same(rawm(Matrix::<S, $N, $N>::from(m)), e); same(rawm(Matrix::<S, $N, $N>::from(&m)), e);
    }
} }
embed!(law_embed_12, 1, 2); embed!(law_embed_13, 1, 3); embed!(law_embed_14, 1, 4); embed!(law_embed_23, 2, 3); embed!(law_embed_24, 2, 4); embed!(law_embed_34, 3, 4);
