// A value with a component that is not a number equals nothing, itself included.
macro_rules! nan { ($($law:ident: $n:expr, $T:ty;)*) => { $( pub fn $law(a: [S; $n], b: [S; $n]) {
    let y: $T = arr(b);
    let mut i = 0; while i < $n { let mut c = a; c[i] = S::NAN; let n: $T = arr(c); same(n == n, false); same(n != n, true); same(n == y, false); same(y == n, false); i += 1; }
} )* } }
nan! {
    law_vector1: 1, Vector1<S>;
    law_vector2: 2, Vector2<S>;
    law_vector3: 3, Vector3<S>;
    law_vector4: 4, Vector4<S>;
    law_vector7: 7, Vector<S, 7>;
    law_point1: 1, Point1<S>;
    law_point2: 2, Point2<S>;
    law_point3: 3, Point3<S>;
    law_matrix1: 1, Matrix1x1<S>;
    law_matrix2: 4, Matrix2x2<S>;
    law_matrix2x3: 6, Matrix2x3<S>;
    law_matrix3x2: 6, Matrix3x2<S>;
    law_matrix3: 9, Matrix3x3<S>;
    law_matrix4: 16, Matrix4x4<S>;
    law_quaternion: 4, Quaternion<S>;
    law_complex: 2, Complex<S>;
    law_unit_vector2: 2, Unit<Vector2<S>>;
    law_unit_vector3: 3, Unit<Vector3<S>>;
    law_unit_quaternion: 4, Unit<Quaternion<S>>;
    law_unit_complex: 2, Unit<Complex<S>>;
    law_matrix1x2: 2, Matrix1x2<S>;
    law_matrix1x3: 3, Matrix1x3<S>;
    law_matrix1x4: 4, Matrix1x4<S>;
    law_matrix2x4: 8, Matrix2x4<S>;
    law_matrix3x4: 12, Matrix3x4<S>;
    law_matrix4x2: 8, Matrix4x2<S>;
    law_matrix4x3: 12, Matrix4x3<S>;
    law_unit_vector4: 4, Unit<Vector4<S>>;
}
nan! { law_euler: 3, Euler<Radians<S>>; law_euler_degrees: 3, Euler<Degrees<S>>; }
macro_rules! ord { ($($law:ident: $T:ident;)*) => { $( pub fn $law(b: S) {
    let (x, y) = ($T(S::NAN), $T(b));
    same(x == x, false); same(x != x, true); same(x == y, false); same(x < y, false); same(x <= y, false); same(x > y, false); same(x >= y, false); same(y < x, false); same(y > x, false);
    same(x.partial_cmp(&y).is_none(), true); same(y.partial_cmp(&x).is_none(), true); same(x.partial_cmp(&x).is_none(), true);
} )* } }
ord! { law_radians: Radians; law_degrees: Degrees; }
