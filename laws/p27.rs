// Translations and scales of dimension two and three.
fn add<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x + y) }
fn sub<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x - y) }
fn mul<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x * y) }
fn tr<const N: usize>(a: [S; N]) -> Translation<S, N> { Translation::from_vector(&vec_of(a)) }
fn rt<const N: usize>(t: Translation<S, N>) -> [S; N] { raw(t.to_vector()) }
fn sc<const N: usize>(a: [S; N]) -> Scale<S, N> { Scale::from_nonuniform_scale(&vec_of(a)) }
fn rs<const N: usize>(t: Scale<S, N>) -> [S; N] { raw(t.to_vector()) }
fn translation<const N: usize>(t: [S; N], u: [S; N], x: [S; N], y: [S; N]) {
    same(rt(tr(t)), t); same(raw(*tr(t).vector()), t); same(raw(*AsRef::<Vector<S, N>>::as_ref(&tr(t))), t);
    same(rawp(tr(t).apply_point(&pt_of(x))), add(x, t)); same(raw(tr(t).apply_vector(&vec_of(x))), x);
    same(rawp(tr(t).inverse_apply_point(&pt_of(x))), sub(x, t)); same(raw(tr(t).inverse_apply_vector(&vec_of(x))), x);
    same(rt(tr(t).inverse()), z1(t, 0.0, |x| -x)); let mut m = tr(t); m.inverse_mut(); same(rt(m), z1(t, 0.0, |x| -x));
    same(rt(Translation::identity()), [0.0; N]);
    same(rt(Translation::between_vectors(&vec_of(x), &vec_of(y))), sub(y, x)); same(rt(Translation::between_points(&pt_of(x), &pt_of(y))), sub(y, x));
    forms!(rawp, tr(t), pt_of(x), add(x, t)); forms!(raw, tr(t), vec_of(x), x); forms!(rt, tr(t), tr(u), add(t, u));
    same(tr(t) == tr(u), vec_of(t) == vec_of(u));
}
fn scale<const N: usize>(t: [S; N], u: [S; N], x: [S; N], s: S) {
    same(rs(sc(t)), t); same(rs(Scale::from_scale(s)), [s; N]); same(rs(Scale::identity()), [1.0; N]);
    same(rawp(sc(t).apply_point(&pt_of(x))), mul(x, t)); same(raw(sc(t).apply_vector(&vec_of(x))), mul(x, t));
    forms!(rawp, sc(t), pt_of(x), mul(x, t)); forms!(raw, sc(t), vec_of(x), mul(x, t)); forms!(rs, sc(t), sc(u), mul(t, u));
    same(sc(t) == sc(u), vec_of(t) == vec_of(u));
}
fn scale_inverse<const N: usize>(t: [S; N], x: [S; N]) {
    let d = |a: [S; N], b: [S; N]| z2(a, b, 0.0, |x, y| x / y);
    same(rs(sc(t).inverse()), d([1.0; N], t));
    same(rawp(sc(t).inverse_apply_point(&pt_of(x))), d(x, t)); same(raw(sc(t).inverse_apply_vector(&vec_of(x))), d(x, t));
    same(rawp(sc(t).inverse() * (sc(t) * pt_of(x))), x);
}
pub fn law_translation2(t: [S; 2], u: [S; 2], x: [S; 2], y: [S; 2]) { translation(t, u, x, y); same(rt(Translation2::new(t[0], t[1])), t); }
pub fn law_translation3(t: [S; 3], u: [S; 3], x: [S; 3], y: [S; 3]) { translation(t, u, x, y); same(rt(Translation3::new(t[0], t[1], t[2])), t); }
pub fn law_translation2_matrix(t: [S; 2]) {
    let e = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [t[0], t[1], 1.0]];
    same(rawm(tr(t).to_affine_matrix()), e); same(rawm(tr(t).to_transform().to_matrix()), e); same(rawm(Matrix3x3::from(tr(t))), e); same(rawm(Matrix3x3::from(&tr(t))), e);
}
pub fn law_translation3_matrix(t: [S; 3]) {
    let e = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [t[0], t[1], t[2], 1.0]];
    same(rawm(tr(t).to_affine_matrix()), e); same(rawm(tr(t).to_transform().to_matrix()), e); same(rawm(Matrix4x4::from(tr(t))), e); same(rawm(Matrix4x4::from(&tr(t))), e);
}
pub fn law_scale2(t: [S; 2], u: [S; 2], x: [S; 2], s: S) { scale(t, u, x, s); same(rs(Scale2::new(t[0], t[1])), t); }
pub fn law_scale3(t: [S; 3], u: [S; 3], x: [S; 3], s: S) { scale(t, u, x, s); same(rs(Scale3::new(t[0], t[1], t[2])), t); }
pub fn law_scale2_inverse(a: NonZero<S>, b: NonZero<S>, x: [S; 2]) { scale_inverse([a.0, b.0], x); }
pub fn law_scale3_inverse(a: NonZero<S>, b: NonZero<S>, c: NonZero<S>, x: [S; 3]) { scale_inverse([a.0, b.0, c.0], x); }
pub fn law_scale2_matrix(t: [S; 2]) {
    same(rawm(sc(t).to_matrix()), [[t[0], 0.0], [0.0, t[1]]]);
    let e = [[t[0], 0.0, 0.0], [0.0, t[1], 0.0], [0.0, 0.0, 1.0]];
    same(rawm(sc(t).to_affine_matrix()), e); same(rawm(sc(t).to_transform().to_matrix()), e); same(rawm(Matrix3x3::from(sc(t))), e); same(rawm(Matrix3x3::from(&sc(t))), e);
}
pub fn law_scale3_matrix(t: [S; 3]) {
    same(rawm(sc(t).to_matrix()), [[t[0], 0.0, 0.0], [0.0, t[1], 0.0], [0.0, 0.0, t[2]]]);
    let e = [[t[0], 0.0, 0.0, 0.0], [0.0, t[1], 0.0, 0.0], [0.0, 0.0, t[2], 0.0], [0.0, 0.0, 0.0, 1.0]];
    same(rawm(sc(t).to_affine_matrix()), e); same(rawm(sc(t).to_transform().to_matrix()), e); same(rawm(Matrix4x4::from(sc(t))), e); same(rawm(Matrix4x4::from(&sc(t))), e);
}
pub fn law_translation1(t: [S; 1], u: [S; 1], x: [S; 1], y: [S; 1]) { translation(t, u, x, y); }
pub fn law_translation5(t: [S; 5], u: [S; 5], x: [S; 5], y: [S; 5]) { translation(t, u, x, y); }
pub fn law_scale1(t: [S; 1], u: [S; 1], x: [S; 1], s: S) { scale(t, u, x, s); }
pub fn law_scale5(t: [S; 5], u: [S; 5], x: [S; 5], s: S) { scale(t, u, x, s); }
pub fn law_scale5_inverse(a: NonZero<S>, b: NonZero<S>, c: NonZero<S>, d: NonZero<S>, e: NonZero<S>, x: [S; 5]) { scale_inverse([a.0, b.0, c.0, d.0, e.0], x); }
