// The text of a value: every component, in order, between fixed punctuation.
macro_rules! text { ($($law:ident: $n:expr, $T:ty, $t:expr;)*) => { $( pub fn $law(a: [S; $n]) { reads(&arr::<$T, _>(a), $t, a); } )* } }
text! {
    law_vector1: 1, Vector<S, 1>, "Vector1 [#]";
    law_vector2: 2, Vector<S, 2>, "Vector2 [#, #]";
    law_vector3: 3, Vector<S, 3>, "Vector3 [#, #, #]";
    law_vector4: 4, Vector<S, 4>, "Vector4 [#, #, #, #]";
    law_vector5: 5, Vector<S, 5>, "Vector5 [#, #, #, #, #]";
    law_point1: 1, Point<S, 1>, "Point1 [#]";
    law_point2: 2, Point<S, 2>, "Point2 [#, #]";
    law_point3: 3, Point<S, 3>, "Point3 [#, #, #]";
    law_matrix1x1: 1, Matrix<S, 1, 1>, "Matrix1x1 [[#]]";
    law_matrix1x2: 2, Matrix<S, 1, 2>, "Matrix1x2 [[#], [#]]";
    law_matrix1x3: 3, Matrix<S, 1, 3>, "Matrix1x3 [[#], [#], [#]]";
    law_matrix1x4: 4, Matrix<S, 1, 4>, "Matrix1x4 [[#], [#], [#], [#]]";
    law_matrix2x1: 2, Matrix<S, 2, 1>, "Matrix2x1 [[#, #]]";
    law_matrix2x2: 4, Matrix<S, 2, 2>, "Matrix2x2 [[#, #], [#, #]]";
    law_matrix2x3: 6, Matrix<S, 2, 3>, "Matrix2x3 [[#, #], [#, #], [#, #]]";
    law_matrix2x4: 8, Matrix<S, 2, 4>, "Matrix2x4 [[#, #], [#, #], [#, #], [#, #]]";
    law_matrix3x1: 3, Matrix<S, 3, 1>, "Matrix3x1 [[#, #, #]]";
    law_matrix3x2: 6, Matrix<S, 3, 2>, "Matrix3x2 [[#, #, #], [#, #, #]]";
    law_matrix3x3: 9, Matrix<S, 3, 3>, "Matrix3x3 [[#, #, #], [#, #, #], [#, #, #]]";
    law_matrix3x4: 12, Matrix<S, 3, 4>, "Matrix3x4 [[#, #, #], [#, #, #], [#, #, #], [#, #, #]]";
    law_matrix4x1: 4, Matrix<S, 4, 1>, "Matrix4x1 [[#, #, #, #]]";
    law_matrix4x2: 8, Matrix<S, 4, 2>, "Matrix4x2 [[#, #, #, #], [#, #, #, #]]";
    law_matrix4x3: 12, Matrix<S, 4, 3>, "Matrix4x3 [[#, #, #, #], [#, #, #, #], [#, #, #, #]]";
    law_matrix4x4: 16, Matrix<S, 4, 4>, "Matrix4x4 [[#, #, #, #], [#, #, #, #], [#, #, #, #], [#, #, #, #]]";
    law_quaternion: 4, Quaternion<S>, "# + [#, #, #]\n";
    law_complex: 2, Complex<S>, "# + i#";
    law_radians: 1, Radians<S>, "# radians";
    law_degrees: 1, Degrees<S>, "# degrees";
    law_euler: 3, Euler<Radians<S>>, "Euler [roll=# radians, yaw=# radians, pitch=# radians]";
    law_euler_scalar: 3, Euler<S>, "Euler [roll=#, yaw=#, pitch=#]";
    law_unit_vector3: 3, Unit<Vector3<S>>, "Vector3 [#, #, #]";
    law_unit_quaternion: 4, Unit<Quaternion<S>>, "# + [#, #, #]\n";
    law_unit_complex: 2, Unit<Complex<S>>, "# + i#";
}
