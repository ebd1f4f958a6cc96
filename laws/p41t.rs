// The text of a transformation: every component, in order, between fixed punctuation.
macro_rules! text { ($($law:ident: $n:expr, $T:ty, $t:expr;)*) => { $( pub fn $law(a: [S; $n]) { reads(&arr::<$T, _>(a), $t, a); } )* } }
text! {
    law_translation2: 2, Translation2<S>, "Translation2 Vector2 [#, #]";
    law_scale2: 2, Scale2<S>, "Scale2 [Vector2 [#, #]]";
    law_rotation2: 4, Rotation2<S>, "Rotation2 [Matrix2x2 [[#, #], [#, #]]]";
    law_transform2: 9, Transform2<S>, "Transform2 [Matrix3x3 [[#, #, #], [#, #, #], [#, #, #]]]";
    law_translation3: 3, Translation3<S>, "Translation3 Vector3 [#, #, #]";
    law_scale3: 3, Scale3<S>, "Scale3 [Vector3 [#, #, #]]";
    law_rotation3: 9, Rotation3<S>, "Rotation3 [Matrix3x3 [[#, #, #], [#, #, #], [#, #, #]]]";
    law_transform3: 16, Transform3<S>, "Transform3 [Matrix4x4 [[#, #, #, #], [#, #, #, #], [#, #, #, #], [#, #, #, #]]]";
    law_perspective: 16, Perspective3<S>, "Perspective3 [Matrix4x4 [[#, #, #, #], [#, #, #, #], [#, #, #, #], [#, #, #, #]]]";
    law_orthographic: 16, Orthographic3<S>, "Orthographic3 [Matrix4x4 [[#, #, #, #], [#, #, #, #], [#, #, #, #], [#, #, #, #]]]";
}
fn join<const N: usize>(p: &[&[S]]) -> [S; N] { let mut r = [0.0; N]; let mut n = 0; let mut i = 0; while i < p.len() { let mut j = 0; while j < p[i].len() { r[n] = p[i][j]; n += 1; j += 1; } i += 1; } r }
macro_rules! dim { ($m:ident, $N:literal, $v:expr, $p:expr, $r:expr) => { pub mod $m { use super::*;
    pub fn law_isometry(a: [S; $N * $N + $N]) {
        let x: Isometry<S, $N> = arr(a);
        reads(&x, concat!("Isometry", $N, " [rotation=Rotation", $N, " [", $r, "], translation=Translation", $N, " ", $v, "]"), join::<{ $N * $N + $N }>(&[&arr::<[S; $N * $N], _>(*x.rotation().matrix()), &raw(*x.translation().vector())]));
    }
    pub fn law_similarity(a: [S; $N * $N + $N + 1]) {
        let x: Similarity<S, $N> = arr(a);
        reads(&x, concat!("Similarity", $N, " [scale=#, rotation=Rotation", $N, " [", $r, "], translation=", $v, "]"), join::<{ $N * $N + $N + 1 }>(&[&[x.scale()], &arr::<[S; $N * $N], _>(*x.rotation().matrix()), &raw(*x.translation().vector())]));
    }
    pub fn law_reflection(a: [S; $N * 2]) {
        let x: Reflection<S, $N> = arr(a);
        reads(&x, concat!("Reflection", $N, " [normal = ", $v, ", bias = ", $p, "]"), join::<{ $N * 2 }>(&[&raw(x.normal()), &rawp(x.bias())]));
    }
    pub fn law_shear(a: [S; $N * 3 + 1]) {
        let x: Shear<S, $N> = arr(a);
        reads(&x, concat!("Shear", $N, " [shear_factor=#, origin=", $p, ", direction=", $v, ", normal=", $v, "]"), join::<{ $N * 3 + 1 }>(&[&[x.shear_factor()], &rawp(x.origin()), &raw(x.direction()), &raw(x.normal())]));
    }
} } }
dim!(n2, 2, "Vector2 [#, #]", "Point2 [#, #]", "Matrix2x2 [[#, #], [#, #]]");
dim!(n3, 3, "Vector3 [#, #, #]", "Point3 [#, #, #]", "Matrix3x3 [[#, #, #], [#, #, #], [#, #, #]]");
