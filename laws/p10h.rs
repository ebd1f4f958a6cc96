// Adding, dropping and reading the homogeneous coordinate.
macro_rules! dim { ($m:ident, $N:literal, $P:literal) => { pub mod $m { use super::*;
    type A = [S; $N];
    type B = [S; $P];
    fn up(a: A, x: S) -> B { let mut r = [x; $P]; let mut i = 0; while i < $N { r[i] = a[i]; i += 1; } r }
    fn down(b: B) -> A { let mut r = [b[0]; $N]; let mut i = 0; while i < $N { r[i] = b[i]; i += 1; } r }
    const O: S = 0u8 as S;
    const I: S = 1u8 as S;
    pub fn law_vector(a: A, b: B, x: S) {
        let v: Vector<S, $N> = vec_of(a);
        let w: Vector<S, $P> = vec_of(b);
        let e: Vector<S, $P> = v.extend(x); same(raw(e), up(a, x));
        let e: Vector<S, $P> = v.to_homogeneous(); same(raw(e), up(a, O));
        let e: Vector<S, $N> = w.contract(); same(raw(e), down(b));
        let e: Option<Vector<S, $N>> = vec_of::<S, $P>(up(a, O)).from_homogeneous();
        match e { Some(r) => same(raw(r), a), None => never() }
    }
    pub fn law_vector_none(b: B) {
        assume(b[$N] != O);
        let e: Option<Vector<S, $N>> = vec_of(b).from_homogeneous();
        holds(e.is_none());
    }
    pub fn law_point(a: A, b: B, x: S) {
        let p: Point<S, $N> = pt_of(a);
        let e: Point<S, $P> = p.extend(x); same(rawp(e), up(a, x));
        let e: Vector<S, $P> = p.to_homogeneous(); same(raw(e), up(a, I));
        let e: Point<S, $N> = pt_of(b).contract(); same(rawp(e), down(b));
        let e: Option<Point<S, $N>> = Point::from_homogeneous(&p.to_homogeneous());
        match e { Some(r) => same(rawp(r), a), None => never() }
    }
    pub fn law_point_divide(b: B) {
        assume(b[$N] != O);
        may_panic();
        let e: Option<Point<S, $N>> = Point::from_homogeneous(&vec_of(b));
        match e { Some(r) => same(rawp(r), z1(down(b), O, |x| x / b[$N])), None => never() }
    }
    pub fn law_point_none(a: A) {
        let e: Option<Point<S, $N>> = Point::from_homogeneous(&vec_of(up(a, O)));
        holds(e.is_none());
    }
} } }
dim!(n1, 1, 2);
dim!(n2, 2, 3);
dim!(n3, 3, 4);
