// Isometries of dimension two and three.
type V = [S; 3];
type W = [S; 2];
fn add<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x + y) }
fn neg<const N: usize>(a: [S; N]) -> [S; N] { z1(a, 0.0, |x| -x) }
fn sub<const N: usize>(a: [S; N], b: [S; N]) -> [S; N] { z2(a, b, 0.0, |x, y| x - y) }
fn tr<const N: usize>(a: [S; N]) -> Translation<S, N> { Translation::from_vector(&vec_of(a)) }
fn ri<const N: usize>(i: Isometry<S, N>) -> ([[S; N]; N], [S; N]) { (rawm(i.rotation().to_matrix()), raw(i.translation().to_vector())) }
fn mv<const N: usize>(m: [[S; N]; N], x: [S; N]) -> [S; N] { let mut r = [0.0; N]; let mut i = 0; while i < N { let mut j = 0; while j < N { r[j] = r[j] + m[i][j] * x[i]; j += 1; } i += 1; } r }
fn mm<const N: usize>(a: [[S; N]; N], b: [[S; N]; N]) -> [[S; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { r[i] = mv(a, b[i]); i += 1; } r }
fn tp<const N: usize>(a: [[S; N]; N]) -> [[S; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { let mut j = 0; while j < N { r[i][j] = a[j][i]; j += 1; } i += 1; } r }
fn eye<const N: usize>() -> [[S; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { r[i][i] = 1.0; i += 1; } r }
fn acts<const N: usize>(r: Rotation<S, N>, t: [S; N], x: [S; N]) {
    let m = rawm(r.to_matrix()); let i = Isometry::from_parts(&tr(t), &r);
    same(ri(i), (m, t)); same(ri(Isometry::from_rotation(&r)), (m, [0.0; N])); same(ri(Isometry::from_translation(&tr(t))), (eye(), t)); same(ri(Isometry::<S, N>::identity()), (eye(), [0.0; N]));
    let (v, p) = (mv(m, x), add(mv(m, x), t)); let (w, q) = (mv(tp(m), x), mv(tp(m), sub(x, t)));
    same(raw(i.apply_vector(&vec_of(x))), v); same(rawp(i.apply_point(&pt_of(x))), p); same(raw(i.inverse_apply_vector(&vec_of(x))), w); same(rawp(i.inverse_apply_point(&pt_of(x))), q);
    same(ri(i.inverse()), (tp(m), mv(tp(m), neg(t)))); let mut j = i; j.inverse_mut(); same(ri(j), (tp(m), mv(tp(m), neg(t))));
    forms!(raw, i, vec_of(x), v); forms!(rawp, i, pt_of(x), p);
}
fn products<const N: usize>(r: Rotation<S, N>, t: [S; N], u: [S; N]) {
    let m = rawm(r.to_matrix()); let i = Isometry::from_parts(&tr(t), &r);
    forms!(ri, r, tr(u), (m, mv(m, u))); forms!(ri, tr(u), r, (m, u));
    forms!(ri, i, tr(u), (m, add(t, mv(m, u)))); forms!(ri, tr(u), i, (m, add(u, t)));
}
fn q3(a: UVec4<S>) -> Rotation3<S> { Rotation3::from_quaternion(&arr(a)) }
fn a2(a: S) -> Rotation2<S> { Rotation2::from_angle(Radians(a)) }
pub fn law_acts2(a: S, t: W, x: W) { acts(a2(a), t, x); }
pub fn law_acts3(a: UVec4<S>, t: V, x: V) { acts(q3(a), t, x); }
pub fn law_products2(a: S, t: W, u: W) { products(a2(a), t, u); }
pub fn law_products3(a: UVec4<S>, t: V, u: V) { products(q3(a), t, u); }
pub fn law_compose2(a: S, t: W, b: S, u: W) {
    let (r, s) = (a2(a), a2(b)); let (i, j) = (Isometry::from_parts(&tr(t), &r), Isometry::from_parts(&tr(u), &s)); let (m, n) = (rawm(r.to_matrix()), rawm(s.to_matrix()));
    forms!(ri, i, j, (mm(m, n), add(t, mv(m, u)))); forms!(ri, i, s, (mm(m, n), t)); forms!(ri, r, j, (mm(m, n), mv(m, u)));
}
pub fn law_compose3(a: UVec4<S>, t: V, b: UVec4<S>, u: V) {
    let (r, s) = (q3(a), q3(b)); let (i, j) = (Isometry::from_parts(&tr(t), &r), Isometry::from_parts(&tr(u), &s)); let (m, n) = (rawm(r.to_matrix()), rawm(s.to_matrix()));
    forms!(ri, i, j, (mm(m, n), add(t, mv(m, u)))); forms!(ri, i, s, (mm(m, n), t)); forms!(ri, r, j, (mm(m, n), mv(m, u)));
}
pub fn law_undo2(a: S, t: W, x: W) { let i = Isometry::from_parts(&tr(t), &a2(a)); let e = (eye(), [0.0; 2]); same(ri(i * i.inverse()), e); same(ri(i.inverse() * i), e); same(rawp(i.inverse_apply_point(&(i * pt_of(x)))), x); same(raw(i.inverse_apply_vector(&(i * vec_of(x)))), x); }
pub fn law_undo3(a: UVec4<S>, t: V, x: V) { let i = Isometry::from_parts(&tr(t), &q3(a)); let e = (eye(), [0.0; 3]); same(ri(i * i.inverse()), e); same(ri(i.inverse() * i), e); same(rawp(i.inverse_apply_point(&(i * pt_of(x)))), x); same(raw(i.inverse_apply_vector(&(i * vec_of(x)))), x); }
/// distances are kept
pub fn law_distance2(a: S, t: W, x: W, y: W) { let i = Isometry::from_parts(&tr(t), &a2(a)); let f = |d: W| d[0] * d[0] + d[1] * d[1]; same(f(sub(rawp(i * pt_of(x)), rawp(i * pt_of(y)))), f(sub(x, y))); same(f(raw(i * vec_of(x))), f(x)); }
pub fn law_distance3(a: UVec4<S>, t: V, x: V, y: V) { let i = Isometry::from_parts(&tr(t), &q3(a)); let f = |d: V| d[0] * d[0] + d[1] * d[1] + d[2] * d[2]; same(f(sub(rawp(i * pt_of(x)), rawp(i * pt_of(y)))), f(sub(x, y))); same(f(raw(i * vec_of(x))), f(x)); }
pub fn law_matrix2(a: S, t: W) {
    let i = Isometry::from_parts(&tr(t), &a2(a)); let m = rawm(a2(a).to_matrix()); let e = [[m[0][0], m[0][1], 0.0], [m[1][0], m[1][1], 0.0], [t[0], t[1], 1.0]];
    same(rawm(i.to_affine_matrix()), e); same(rawm(i.to_transform().to_matrix()), e); same(rawm(Matrix3x3::from(i)), e); same(rawm(Matrix3x3::from(&i)), e);
}
pub fn law_matrix3(a: UVec4<S>, t: V) {
    let i = Isometry::from_parts(&tr(t), &q3(a)); let m = rawm(q3(a).to_matrix()); let e = [[m[0][0], m[0][1], m[0][2], 0.0], [m[1][0], m[1][1], m[1][2], 0.0], [m[2][0], m[2][1], m[2][2], 0.0], [t[0], t[1], t[2], 1.0]];
    same(rawm(i.to_affine_matrix()), e); same(rawm(i.to_transform().to_matrix()), e); same(rawm(Matrix4x4::from(i)), e); same(rawm(Matrix4x4::from(&i)), e);
}
fn m2(r: Rotation2<S>) -> [W; 2] { rawm(r.to_matrix()) }
fn m3(r: Rotation3<S>) -> [V; 3] { rawm(r.to_matrix()) }
fn u2(a: UVec2<S>) -> Unit<Vector2<S>> { arr(a) }
fn u3(a: UVec3<S>) -> Unit<Vector3<S>> { arr(a) }
pub fn law_named2(a: S, t: W) {
    same(ri(Isometry2::from_angle(Radians(a))), (m2(a2(a)), [0.0; 2])); same(ri(Isometry2::from_angle_translation(Radians(a), &vec_of(t))), (m2(a2(a)), t));
    let d = Rotation2::from_angle(Degrees(a)); same(ri(Isometry2::from_angle(Degrees(a))), (m2(d), [0.0; 2])); same(ri(Isometry2::from_angle_translation(Degrees(a), &vec_of(t))), (m2(d), t));
}
pub fn law_between2(a: UVec2<S>, b: UVec2<S>, x: Pos<S>, y: Pos<S>) {
    let r = Isometry2::rotation_between_axis(&u2(a), &u2(b)); same(raw(r * a.v()), raw(b.v())); same(ri(r).1, [0.0; 2]); same(ri(r).0, m2(Rotation2::rotation_between_axis(&u2(a), &u2(b))));
    same(ri(Isometry2::rotation_between(&(a.v() * x.0), &(b.v() * y.0))), ri(r));
}
pub fn law_between2_zero(a: W) { let e = (eye(), [0.0; 2]); same(ri(Isometry2::rotation_between(&vec_of(a), &vec_of([0.0, 0.0]))), e); same(ri(Isometry2::rotation_between(&vec_of([0.0, 0.0]), &vec_of(a))), e); }
pub fn law_named3(k: UVec3<S>, a: S, t: V) {
    let z = [0.0; 3]; let r = Rotation3::from_axis_angle(&u3(k), Radians(a)); let d = Rotation3::from_axis_angle(&u3(k), Degrees(a));
    same(ri(Isometry3::from_axis_angle(&u3(k), Radians(a))), (m3(r), z)); same(ri(Isometry3::from_axis_angle_translation(&u3(k), Radians(a), &vec_of(t))), (m3(r), t));
    same(ri(Isometry3::from_axis_angle(&u3(k), Degrees(a))), (m3(d), z)); same(ri(Isometry3::from_axis_angle_translation(&u3(k), Degrees(a), &vec_of(t))), (m3(d), t));
    same(ri(Isometry3::from_angle_x(Radians(a))), (m3(Rotation3::from_angle_x(Radians(a))), z)); same(ri(Isometry3::from_angle_y(Radians(a))), (m3(Rotation3::from_angle_y(Radians(a))), z)); same(ri(Isometry3::from_angle_z(Radians(a))), (m3(Rotation3::from_angle_z(Radians(a))), z));
    same(ri(Isometry3::from_angle_x(Degrees(a))), (m3(Rotation3::from_angle_x(Degrees(a))), z)); same(ri(Isometry3::from_angle_y(Degrees(a))), (m3(Rotation3::from_angle_y(Degrees(a))), z)); same(ri(Isometry3::from_angle_z(Degrees(a))), (m3(Rotation3::from_angle_z(Degrees(a))), z));
}
fn dot(a: V, b: V) -> S { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn law_between3(a: UVec3<S>, b: UVec3<S>) {
    let w = cross(raw(a.v()), raw(b.v())); let c = dot(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON); assume(c < 1.0); assume(c > -1.0);
    match Isometry3::rotation_between_axis(&u3(a), &u3(b)) { Some(r) => { same(raw(r * a.v()), raw(b.v())); same(ri(r).1, [0.0; 3]); } None => never() }
}
fn clear(x: S) { assume(x * x > 256.0 * S::EPSILON * S::EPSILON); }
pub fn law_between3_scaled(a: UVec3<S>, b: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    let w = cross(raw(a.v()), raw(b.v())); let c = dot(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON); assume(c < 1.0); assume(c > -1.0); clear(x.0); clear(y.0);
    match Isometry3::rotation_between(&(a.v() * x.0), &(b.v() * y.0)) { Some(r) => { same(raw(r * a.v()), raw(b.v())); same(ri(r).1, [0.0; 3]); } None => never() }
}
pub fn law_between3_parallel_scaled(a: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    clear(x.0); clear(y.0);
    match Isometry3::rotation_between(&(a.v() * x.0), &(a.v() * y.0)) { Some(m) => same(ri(m), (eye(), [0.0; 3])), None => never() }
    same(Isometry3::rotation_between(&(a.v() * x.0), &(a.v() * -y.0)).is_none(), true);
}
pub fn law_between3_parallel(a: UVec3<S>) {
    match Isometry3::rotation_between_axis(&u3(a), &u3(a)) { Some(m) => same(ri(m), (eye(), [0.0; 3])), None => never() }
    same(Isometry3::rotation_between_axis(&u3(a), &-u3(a)).is_none(), true);
}
fn ok(d: V, u: V) { assume(dot(d, d) > 0.0); let w = cross(u, d); assume(dot(w, w) > 0.0); }
fn view(i: Isometry3<S>, r: Rotation3<S>, e: V) { same(ri(i).0, m3(r)); same(ri(i).1, neg(mv(m3(r), e))); }
fn back(i: Isometry3<S>, r: Rotation3<S>, e: V) { same(ri(i), (m3(r), e)); }
pub fn law_look_to(e: V, d: V, u: V) {
    ok(d, u);
    let (p, d, u) = (pt_of(e), vec_of(d), vec_of(u));
    view(Isometry3::look_to_lh(&p, &d, &u), Rotation3::look_to_lh(&d, &u), e); view(Isometry3::look_to_rh(&p, &d, &u), Rotation3::look_to_rh(&d, &u), e);
    back(Isometry3::look_to_lh_inv(&p, &d, &u), Rotation3::look_to_lh_inv(&d, &u), e); back(Isometry3::look_to_rh_inv(&p, &d, &u), Rotation3::look_to_rh_inv(&d, &u), e);
}
pub fn law_look_at(e: V, t: V, u: V) {
    ok(sub(t, e), u);
    let (p, t, u) = (pt_of(e), pt_of(t), vec_of(u));
    view(Isometry3::look_at_lh(&p, &t, &u), Rotation3::look_at_lh(&p, &t, &u), e); view(Isometry3::look_at_rh(&p, &t, &u), Rotation3::look_at_rh(&p, &t, &u), e);
    back(Isometry3::look_at_lh_inv(&p, &t, &u), Rotation3::look_at_lh_inv(&p, &t, &u), e); back(Isometry3::look_at_rh_inv(&p, &t, &u), Rotation3::look_at_rh_inv(&p, &t, &u), e);
}
pub fn law_eq2(a: S, t: W, b: S, u: W) { let (i, j) = (Isometry::from_parts(&tr(t), &a2(a)), Isometry::from_parts(&tr(u), &a2(b))); same(i == j, a2(a) == a2(b) && vec_of(t) == vec_of(u)); }
