// Equal values feed every hasher the same data.
use std::hash::{Hash, Hasher};
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct E(S);
impl Hash for E { fn hash<H: Hasher>(&self, h: &mut H) { h.write_i64(self.0) } }
pub struct Rec { buf: [S; 40], n: usize }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.buf[self.n] = b[i] as i64; self.n += 1; i += 1; } }
    fn write_i64(&mut self, x: i64) { self.buf[self.n] = x; self.n += 1; }
    fn write_usize(&mut self, x: usize) { self.buf[self.n] = x as i64; self.n += 1; }
}
fn stream<T: Hash>(x: &T) -> Rec { let mut r = Rec { buf: [0; 40], n: 0 }; x.hash(&mut r); r }
fn agree(x: Rec, y: Rec) -> bool { let mut r = x.n == y.n; let mut i = 0; while i < 40 { r = r & (x.buf[i] == y.buf[i]); i += 1; } r }
macro_rules! hash { ($($law:ident: $n:expr, $T:ty;)*) => { $( pub fn $law(a: [S; $n], b: [S; $n]) {
    let (x, y): ($T, $T) = (arr(a), arr(b));
    holds(x != y || agree(stream(&x), stream(&y)));
    same(stream(&x).n, stream(&y).n);
} )* } }
hash! {
    law_vector1: 1, Vector<E, 1>;
    law_vector2: 2, Vector<E, 2>;
    law_vector3: 3, Vector<E, 3>;
    law_vector4: 4, Vector<E, 4>;
    law_vector5: 5, Vector<E, 5>;
    law_point5: 5, Point<E, 5>;
    law_matrix5x2: 10, Matrix<E, 5, 2>;
    law_point2: 2, Point<E, 2>;
    law_point3: 3, Point<E, 3>;
    law_matrix2: 4, Matrix<E, 2, 2>;
    law_matrix2x3: 6, Matrix<E, 2, 3>;
    law_matrix3: 9, Matrix<E, 3, 3>;
    law_matrix4: 16, Matrix<E, 4, 4>;
    law_quaternion: 4, Quaternion<E>;
    law_complex: 2, Complex<E>;
    law_radians: 1, Radians<E>;
    law_degrees: 1, Degrees<E>;
    law_euler: 3, Euler<E>;
    law_unit: 3, Unit<Vector<E, 3>>;
}
