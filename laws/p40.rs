// Exact equality, copying: two values are equal exactly when all their components are.
fn conj<const N: usize>(a: [S; N], b: [S; N]) -> bool { let mut r = true; let mut i = 0; while i < N { r = r & (a[i] == b[i]); i += 1; } r }
macro_rules! eq { ($($law:ident: $n:expr, $T:ty;)*) => { $( pub fn $law(a: [S; $n], b: [S; $n]) {
    let (x, y): ($T, $T) = (arr(a), arr(b));
    let e = conj(a, b);
    same(x == y, e); same(x != y, !e); same(y == x, e); same(PartialEq::eq(&&x, &&y), e);
    same(arr::<[S; $n], $T>(x.clone()), a);
    let mut z = x; z.clone_from(&y); same(arr::<[S; $n], $T>(z), b); same(arr::<[S; $n], $T>(x), a);
} )* } }
eq! {
    law_vector1: 1, Vector1<S>;
    law_vector2: 2, Vector2<S>;
    law_vector3: 3, Vector3<S>;
    law_vector4: 4, Vector4<S>;
    law_vector7: 7, Vector<S, 7>;
    law_point1: 1, Point1<S>;
    law_point2: 2, Point2<S>;
    law_point3: 3, Point3<S>;
    law_point5: 5, Point<S, 5>;
    law_matrix5: 25, Matrix<S, 5, 5>;
    law_matrix2x6: 12, Matrix<S, 2, 6>;
    law_matrix1: 1, Matrix1x1<S>;
    law_matrix2: 4, Matrix2x2<S>;
    law_matrix2x3: 6, Matrix2x3<S>;
    law_matrix3x2: 6, Matrix3x2<S>;
    law_matrix3: 9, Matrix3x3<S>;
    law_matrix4: 16, Matrix4x4<S>;
    law_quaternion: 4, Quaternion<S>;
    law_complex: 2, Complex<S>;
    law_unit_vector2: 2, Unit<Vector2<S>>;
    law_unit_vector3: 3, Unit<Vector3<S>>;
    law_unit_quaternion: 4, Unit<Quaternion<S>>;
    law_unit_complex: 2, Unit<Complex<S>>;
    law_matrix1x2: 2, Matrix1x2<S>;
    law_matrix1x3: 3, Matrix1x3<S>;
    law_matrix1x4: 4, Matrix1x4<S>;
    law_matrix2x4: 8, Matrix2x4<S>;
    law_matrix3x4: 12, Matrix3x4<S>;
    law_matrix4x2: 8, Matrix4x2<S>;
    law_matrix4x3: 12, Matrix4x3<S>;
    law_unit_vector4: 4, Unit<Vector4<S>>;
}
macro_rules! ord { ($($law:ident: $T:ident;)*) => { $( pub fn $law(a: S, b: S) {
    let (x, y) = ($T(a), $T(b));
    same(x == y, a == b); same(x != y, a != b); same(x < y, a < b); same(x <= y, a <= b); same(x > y, a > b); same(x >= y, a >= b);
    same(x.partial_cmp(&y), a.partial_cmp(&b)); same(x.clone().0, a);
} )* } }
ord! { law_radians: Radians; law_degrees: Degrees; }
eq! { law_euler: 3, Euler<Radians<S>>; law_euler_degrees: 3, Euler<Degrees<S>>; }
