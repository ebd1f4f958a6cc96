// Exact equality and copying of the transformation types.
fn conj<const N: usize>(a: [S; N], b: [S; N]) -> bool { let mut r = true; let mut i = 0; while i < N { r = r & (a[i] == b[i]); i += 1; } r }
macro_rules! eq { ($($law:ident: $n:expr, $T:ty;)*) => { $( pub fn $law(a: [S; $n], b: [S; $n]) {
    let (x, y): ($T, $T) = (arr(a), arr(b));
    let e = conj(a, b);
    same(x == y, e); same(x != y, !e); same(y == x, e); same(PartialEq::eq(&&x, &&y), e);
    same(arr::<[S; $n], $T>(x.clone()), a);
    let mut z = x; z.clone_from(&y); same(arr::<[S; $n], $T>(z), b); same(arr::<[S; $n], $T>(x), a);
    let mut i = 0; while i < $n { let mut c = a; c[i] = S::NAN; let n: $T = arr(c); same(n == n, false); same(n != n, true); same(n == y, false); same(y == n, false); i += 1; }
} )* } }
eq! {
    law_translation2: 2, Translation2<S>;
    law_translation3: 3, Translation3<S>;
    law_scale2: 2, Scale2<S>;
    law_scale3: 3, Scale3<S>;
    law_rotation2: 4, Rotation2<S>;
    law_rotation3: 9, Rotation3<S>;
    law_transform2: 9, Transform2<S>;
    law_transform3: 16, Transform3<S>;
    law_shear2: 7, Shear2<S>;
    law_shear3: 10, Shear3<S>;
    law_reflection2: 4, Reflection2<S>;
    law_reflection3: 6, Reflection3<S>;
    law_isometry2: 6, Isometry2<S>;
    law_isometry3: 12, Isometry3<S>;
    law_similarity2: 7, Similarity2<S>;
    law_similarity3: 13, Similarity3<S>;
    law_perspective: 16, Perspective3<S>;
    law_orthographic: 16, Orthographic3<S>;
    law_translation_tol2: 2, TranslationTol<S, 2>;
    law_translation_tol3: 3, TranslationTol<S, 3>;
    law_scale_tol2: 2, ScaleTol<S, 2>;
    law_scale_tol3: 3, ScaleTol<S, 3>;
    law_rotation_tol2: 4, RotationTol<S, 2>;
    law_rotation_tol3: 9, RotationTol<S, 3>;
    law_shear_tol2: 7, ShearTol<S, 2>;
    law_shear_tol3: 10, ShearTol<S, 3>;
    law_reflection_tol2: 4, ReflectionTol<S, 2>;
    law_reflection_tol3: 6, ReflectionTol<S, 3>;
    law_isometry_tol2: 6, IsometryTol<S, 2>;
    law_isometry_tol3: 12, IsometryTol<S, 3>;
    law_similarity_tol2: 7, SimilarityTol<S, 2>;
    law_similarity_tol3: 13, SimilarityTol<S, 3>;
    law_transform_tol2: 9, TransformTol<S, 2, 3>;
    law_transform_tol3: 16, TransformTol<S, 3, 4>;
    law_perspective_tol: 16, Perspective3Tol<S>;
    law_orthographic_tol: 16, Orthographic3Tol<S>;
    law_translation_diff2: 2, TranslationDiff<S, 2>;
    law_translation_diff3: 3, TranslationDiff<S, 3>;
    law_scale_diff2: 2, ScaleDiff<S, 2>;
    law_scale_diff3: 3, ScaleDiff<S, 3>;
    law_rotation_diff2: 4, RotationDiff<S, 2>;
    law_rotation_diff3: 9, RotationDiff<S, 3>;
    law_shear_diff2: 7, ShearDiff<S, 2>;
    law_shear_diff3: 10, ShearDiff<S, 3>;
    law_reflection_diff2: 4, ReflectionDiff<S, 2>;
    law_reflection_diff3: 6, ReflectionDiff<S, 3>;
    law_isometry_diff2: 6, IsometryDiff<S, 2>;
    law_isometry_diff3: 12, IsometryDiff<S, 3>;
    law_similarity_diff2: 7, SimilarityDiff<S, 2>;
    law_similarity_diff3: 13, SimilarityDiff<S, 3>;
    law_transform_diff2: 9, TransformDiff<S, 2, 3>;
    law_transform_diff3: 16, TransformDiff<S, 3, 4>;
    law_perspective_diff: 16, Perspective3Diff<S>;
    law_orthographic_diff: 16, Orthographic3Diff<S>;
}
