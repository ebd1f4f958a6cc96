// Similarities of dimension two and three.
type V = [S; 3];
type W = [S; 2];
fn add<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x + y) }
fn neg<const N: usize>(a: [S; N]) -> [S; N] { z1(a, 0.0, |x| -x) }
fn sub<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x - y) }
fn tr<const N: usize>(a: [S; N]) -> Translation<S, N> { Translation::from_vector(&vec_of(a)) }
type P<const N: usize> = (S, [[S; N]; N], [S; N]);
fn ri<const N: usize>(i: Isometry<S, N>) -> ([[S; N]; N], [S; N]) { (rawm(i.rotation().to_matrix()), raw(i.translation().to_vector())) }
fn rs<const N: usize>(i: Similarity<S, N>) -> P<N> { (i.scale(), rawm(i.rotation().to_matrix()), raw(i.translation().to_vector())) }
fn sc<const N: usize>(k: S, a: [S; N]) -> [S; N] { z1(a, 0.0, |x| k * x) }
fn mv<const N: usize>(m: [[S; N]; N], x: [S; N]) -> [S; N] { let mut r = [0.0; N]; let mut i = 0; while i < N { let mut j = 0; while j < N { r[j] = r[j] + m[i][j] * x[i]; j += 1; } i += 1; } r }
fn mm<const N: usize>(a: [[S; N]; N], b: [[S; N]; N]) -> [[S; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { r[i] = mv(a, b[i]); i += 1; } r }
fn tp<const N: usize>(a: [[S; N]; N]) -> [[S; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { let mut j = 0; while j < N { r[i][j] = a[j][i]; j += 1; } i += 1; } r }
fn eye<const N: usize>() -> [[S; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { r[i][i] = 1.0; i += 1; } r }
fn acts<const N: usize>(r: Rotation<S, N>, t: [S; N], k: S, x: [S; N]) {
    let m = rawm(r.to_matrix()); let i = Similarity::from_parts(&tr(t), &r, k); let z = [0.0; N];
    same(rs(i), (k, m, t)); same(rs(Similarity::from_rotation(&r)), (1.0, m, z)); same(rs(Similarity::from_translation(&tr(t))), (1.0, eye(), t)); same(rs(Similarity::<S, N>::from_scale(k)), (k, eye(), z));
    same(rs(Similarity::<S, N>::identity()), (1.0, eye(), z)); same(rs(Similarity::from_isometry(&Isometry::from_parts(&tr(t), &r))), (1.0, m, t));
    let (v, p) = (sc(k, mv(m, x)), add(sc(k, mv(m, x)), t));
    same(raw(i.apply_vector(&vec_of(x))), v); same(rawp(i.apply_point(&pt_of(x))), p);
    forms!(raw, i, vec_of(x), v); forms!(rawp, i, pt_of(x), p);
}
fn inverse<const N: usize>(r: Rotation<S, N>, t: [S; N], k: S, x: [S; N]) {
    let m = rawm(r.to_matrix()); let i = Similarity::from_parts(&tr(t), &r, k); let n = tp(m);
    let (v, p) = (sc(1.0 / k, mv(n, x)), sc(1.0 / k, mv(n, sub(x, t)))); let e = (1.0 / k, n, sc(-1.0 / k, mv(n, t)));
    same(raw(i.inverse_apply_vector(&vec_of(x))), v); same(rawp(i.inverse_apply_point(&pt_of(x))), p);
    same(rs(i.inverse()), e); let mut j = i; j.inverse_mut(); same(rs(j), e);
    same(raw(i.inverse() * vec_of(x)), v); same(rawp(i.inverse() * pt_of(x)), p);
}
fn q3(a: UVec4<S>) -> Rotation3<S> { Rotation3::from_quaternion(&arr(a)) }
fn a2(a: S) -> Rotation2<S> { Rotation2::from_angle(Radians(a)) }
pub fn law_acts2(a: S, t: W, k: S, x: W) { acts(a2(a), t, k, x); }
pub fn law_acts3(a: UVec4<S>, t: V, k: S, x: V) { acts(q3(a), t, k, x); }
pub fn law_inverse2(a: S, t: W, k: NonZero<S>, x: W) { inverse(a2(a), t, k.0, x); }
pub fn law_inverse3(a: UVec4<S>, t: V, k: NonZero<S>, x: V) { inverse(q3(a), t, k.0, x); }
pub fn law_undo2(a: S, t: W, k: NonZero<S>, x: W) { let i = Similarity::from_parts(&tr(t), &a2(a), k.0); let e = (1.0, eye(), [0.0; 2]); same(rs(i * i.inverse()), e); same(rs(i.inverse() * i), e); same(rawp(i.inverse_apply_point(&(i * pt_of(x)))), x); same(raw(i.inverse_apply_vector(&(i * vec_of(x)))), x); }
pub fn law_undo3(a: UVec4<S>, t: V, k: NonZero<S>, x: V) { let i = Similarity::from_parts(&tr(t), &q3(a), k.0); let e = (1.0, eye(), [0.0; 3]); same(rs(i * i.inverse()), e); same(rs(i.inverse() * i), e); same(rawp(i.inverse_apply_point(&(i * pt_of(x)))), x); same(raw(i.inverse_apply_vector(&(i * vec_of(x)))), x); }
pub fn law_compose2(a: S, t: W, k: S, b: S, u: W, l: S) {
    let (r, s) = (a2(a), a2(b)); let (i, j) = (Similarity::from_parts(&tr(t), &r, k), Similarity::from_parts(&tr(u), &s, l)); let (m, n) = (rawm(r.to_matrix()), rawm(s.to_matrix()));
    forms!(rs, i, j, (k * l, mm(m, n), add(t, sc(k, mv(m, u))))); forms!(rs, i, Isometry::from_parts(&tr(u), &s), (k, mm(m, n), add(t, sc(k, mv(m, u)))));
}
pub fn law_compose3(a: UVec4<S>, t: V, k: S, b: UVec4<S>, u: V, l: S) {
    let (r, s) = (q3(a), q3(b)); let (i, j) = (Similarity::from_parts(&tr(t), &r, k), Similarity::from_parts(&tr(u), &s, l)); let (m, n) = (rawm(r.to_matrix()), rawm(s.to_matrix()));
    forms!(rs, i, j, (k * l, mm(m, n), add(t, sc(k, mv(m, u))))); forms!(rs, i, Isometry::from_parts(&tr(u), &s), (k, mm(m, n), add(t, sc(k, mv(m, u)))));
}
/// distances are multiplied by the scale
pub fn law_distance2(a: S, t: W, k: S, x: W, y: W) { let i = Similarity::from_parts(&tr(t), &a2(a), k); let f = |d: W| d[0] * d[0] + d[1] * d[1]; same(f(sub(rawp(i * pt_of(x)), rawp(i * pt_of(y)))), k * k * f(sub(x, y))); same(f(raw(i * vec_of(x))), k * k * f(x)); }
pub fn law_distance3(a: UVec4<S>, t: V, k: S, x: V, y: V) { let i = Similarity::from_parts(&tr(t), &q3(a), k); let f = |d: V| d[0] * d[0] + d[1] * d[1] + d[2] * d[2]; same(f(sub(rawp(i * pt_of(x)), rawp(i * pt_of(y)))), k * k * f(sub(x, y))); same(f(raw(i * vec_of(x))), k * k * f(x)); }
pub fn law_matrix2(a: S, t: W, k: S) {
    let i = Similarity::from_parts(&tr(t), &a2(a), k); let m = rawm(a2(a).to_matrix()); let e = [[k * m[0][0], k * m[0][1], 0.0], [k * m[1][0], k * m[1][1], 0.0], [t[0], t[1], 1.0]];
    same(rawm(i.to_affine_matrix()), e); same(rawm(i.to_transform().to_matrix()), e); same(rawm(Matrix3x3::from(i)), e); same(rawm(Matrix3x3::from(&i)), e);
}
pub fn law_matrix3(a: UVec4<S>, t: V, k: S) {
    let i = Similarity::from_parts(&tr(t), &q3(a), k); let m = rawm(q3(a).to_matrix()); let e = [[k * m[0][0], k * m[0][1], k * m[0][2], 0.0], [k * m[1][0], k * m[1][1], k * m[1][2], 0.0], [k * m[2][0], k * m[2][1], k * m[2][2], 0.0], [t[0], t[1], t[2], 1.0]];
    same(rawm(i.to_affine_matrix()), e); same(rawm(i.to_transform().to_matrix()), e); same(rawm(Matrix4x4::from(i)), e); same(rawm(Matrix4x4::from(&i)), e);
}
fn one<const N: usize>(s: Similarity<S, N>, i: Isometry<S, N>) { same(rs(s), (1.0, ri(i).0, ri(i).1)); }
pub fn law_named(k: UVec3<S>, a: S) {
    one(Similarity2::from_angle(Radians(a)), Isometry2::from_angle(Radians(a))); one(Similarity2::from_angle(Degrees(a)), Isometry2::from_angle(Degrees(a)));
    let u: Unit<Vector3<S>> = arr(k); one(Similarity3::from_axis_angle(&u, Radians(a)), Isometry3::from_axis_angle(&u, Radians(a))); one(Similarity3::from_axis_angle(&u, Degrees(a)), Isometry3::from_axis_angle(&u, Degrees(a)));
}
fn dot(a: V, b: V) -> S { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn ok(d: V, u: V) { assume(dot(d, d) > 0.0); let w = cross(u, d); assume(dot(w, w) > 0.0); }
fn view(i: Similarity3<S>, r: Matrix3x3<S>, e: V) { same(rs(i), (1.0, rawm(r), neg(mv(rawm(r), e)))); }
fn back(i: Similarity3<S>, r: Matrix3x3<S>, e: V) { same(rs(i), (1.0, rawm(r), e)); }
pub fn law_look_to(e: V, d: V, u: V) {
    ok(d, u);
    let (p, d, u) = (pt_of(e), vec_of(d), vec_of(u));
    view(Similarity3::look_to_lh(&p, &d, &u), Matrix3x3::look_to_lh(&d, &u), e); view(Similarity3::look_to_rh(&p, &d, &u), Matrix3x3::look_to_rh(&d, &u), e);
    back(Similarity3::look_to_lh_inv(&p, &d, &u), Matrix3x3::look_to_lh_inv(&d, &u), e); back(Similarity3::look_to_rh_inv(&p, &d, &u), Matrix3x3::look_to_rh_inv(&d, &u), e);
}
pub fn law_look_at(e: V, t: V, u: V) {
    ok(sub(t, e), u);
    let (p, t, u) = (pt_of(e), pt_of(t), vec_of(u));
    view(Similarity3::look_at_lh(&p, &t, &u), Matrix3x3::look_at_lh(&p, &t, &u), e); view(Similarity3::look_at_rh(&p, &t, &u), Matrix3x3::look_at_rh(&p, &t, &u), e);
    back(Similarity3::look_at_lh_inv(&p, &t, &u), Matrix3x3::look_at_lh_inv(&p, &t, &u), e); back(Similarity3::look_at_rh_inv(&p, &t, &u), Matrix3x3::look_at_rh_inv(&p, &t, &u), e);
}
pub fn law_eq2(a: S, t: W, k: S, b: S, u: W, l: S) { let (i, j) = (Similarity::from_parts(&tr(t), &a2(a), k), Similarity::from_parts(&tr(u), &a2(b), l)); same(i == j, a2(a) == a2(b) && vec_of(t) == vec_of(u) && k == l); }
