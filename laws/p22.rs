// Quaternions as rotations.
type V = [S; 3];
type A = [S; 4];
fn q(a: A) -> Quaternion<S> { quat_of(a) }
fn dot(a: V, b: V) -> S { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn u3(a: UVec3<S>) -> Unit<Vector3<S>> { arr(a) }
fn uq(a: UVec4<S>) -> Quaternion<S> { arr(a) }
fn n2(a: A) -> S { a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] }
fn mul(a: A, b: A) -> A {
    [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
     a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]
}
/// q v q^-1
fn turn(a: A, v: V) -> V { let w = mul(mul(a, [0.0, v[0], v[1], v[2]]), [a[0], -a[1], -a[2], -a[3]]); let n = n2(a); [w[1] / n, w[2] / n, w[3] / n] }
fn mat(a: A) -> [V; 3] { [turn(a, [1.0, 0.0, 0.0]), turn(a, [0.0, 1.0, 0.0]), turn(a, [0.0, 0.0, 1.0])] }
fn aff(m: [V; 3]) -> [A; 4] { [[m[0][0], m[0][1], m[0][2], 0.0], [m[1][0], m[1][1], m[1][2], 0.0], [m[2][0], m[2][1], m[2][2], 0.0], [0.0, 0.0, 0.0, 1.0]] }
fn outer(a: A) -> [A; 4] { [[a[0] * a[0], a[0] * a[1], a[0] * a[2], a[0] * a[3]], [a[1] * a[0], a[1] * a[1], a[1] * a[2], a[1] * a[3]], [a[2] * a[0], a[2] * a[1], a[2] * a[2], a[2] * a[3]], [a[3] * a[0], a[3] * a[1], a[3] * a[2], a[3] * a[3]]] }
pub fn law_axis_angle(k: UVec3<S>, t: S) {
    let (s, c) = (S::sin(t / 2.0), S::cos(t / 2.0));
    same(rawq(Quaternion::from_axis_angle(&u3(k), Radians(t))), [c, k.0 * s, k.1 * s, k.2 * s]);
    same(rawq(Quaternion::from_axis_angle(&u3(k), Degrees(t))), rawq(Quaternion::from_axis_angle(&u3(k), Radians::from(Degrees(t)))));
    same(Quaternion::from_axis_angle(&u3(k), Radians(t)).norm_squared(), 1.0);
}
pub fn law_axis_angle_rotates(k: UVec3<S>, t: S) {
    same(rawm(Quaternion::from_axis_angle(&u3(k), Radians(t)).to_matrix()), rawm(Matrix3x3::from_axis_angle(&u3(k), Radians(t))));
}
pub fn law_to_matrix(a: A) {
    assume(n2(a) > 0.0);
    let m = mat(a);
    same(rawm(q(a).to_matrix()), m); same(rawm(q(a).to_affine_matrix()), aff(m));
    same(rawm(Matrix3x3::from(q(a))), m); same(rawm(Matrix3x3::from(&q(a))), m);
    same(rawm(Matrix4x4::from(q(a))), aff(m)); same(rawm(Matrix4x4::from(&q(a))), aff(m));
}
pub fn law_to_matrix_mut(a: A, x: [V; 3], y: [A; 4]) {
    assume(n2(a) > 0.0);
    let m = mat(a);
    let mut w = mat_of(x); q(a).to_matrix_mut(&mut w); same(rawm(w), m);
    let mut w = mat_of(y); q(a).to_affine_matrix_mut(&mut w); same(rawm(w), aff(m));
}
pub fn law_to_matrix_orthogonal(a: UVec4<S>) {
    let m = uq(a).to_matrix();
    same(rawm(m * m.transpose()), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
    same(m.determinant(), 1.0);
}
pub fn law_product_composes(a: UVec4<S>, b: UVec4<S>) { same(rawm((uq(a) * uq(b)).to_matrix()), rawm(uq(a).to_matrix() * uq(b).to_matrix())); }
pub fn law_from_matrix(a: UVec4<S>) {
    let b = [a.0, a.1, a.2, a.3];
    same(outer(rawq(Quaternion::from_matrix(&mat_of(mat(b))))), outer(b));
}
pub fn law_from_matrix_forms(a: UVec4<S>) {
    let m = mat_of(mat([a.0, a.1, a.2, a.3])); let p = rawq(Quaternion::from_matrix(&m));
    same(rawq(Quaternion::from(m)), p); same(rawq(Quaternion::from(&m)), p);
}
pub fn law_between_units(a: UVec3<S>, b: UVec3<S>) {
    let w = cross(raw(a.v()), raw(b.v()));
    let c = dot(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON); assume(c < 1.0); assume(c > -1.0);
    match Quaternion::rotation_between_axis(&u3(a), &u3(b)) { Some(m) => { same(turn(rawq(m), raw(a.v())), raw(b.v())); same(m.norm_squared(), 1.0); } None => never() }
}
pub fn law_between(a: UVec3<S>, b: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    let w = cross(raw(a.v()), raw(b.v()));
    let c = dot(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON); assume(c < 1.0); assume(c > -1.0);
    match Quaternion::rotation_between(&(a.v() * x.0), &(b.v() * y.0)) { Some(m) => same(turn(rawq(m), raw(a.v())), raw(b.v())), None => never() }
}
pub fn law_between_parallel(a: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    match Quaternion::rotation_between(&(a.v() * x.0), &(a.v() * y.0)) { Some(m) => same(rawq(m), [1.0, 0.0, 0.0, 0.0]), None => never() }
    match Quaternion::rotation_between_axis(&u3(a), &u3(a)) { Some(m) => same(rawq(m), [1.0, 0.0, 0.0, 0.0]), None => never() }
    same(Quaternion::rotation_between(&(a.v() * x.0), &(a.v() * -y.0)).is_none(), true);
    same(Quaternion::rotation_between_axis(&u3(a), &-u3(a)).is_none(), true);
}
pub fn law_between_acute(a: UVec3<S>, b: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    assume(dot(raw(a.v()), raw(b.v())) > 0.0);
    same(Quaternion::rotation_between(&(a.v() * x.0), &(b.v() * y.0)).is_some(), true);
    same(Quaternion::rotation_between_axis(&u3(a), &u3(b)).is_some(), true);
}
pub fn law_between_zero(a: V) {
    match Quaternion::rotation_between(&vec_of([0.0, 0.0, 0.0]), &vec_of(a)) { Some(m) => same(rawq(m), [1.0, 0.0, 0.0, 0.0]), None => never() }
    match Quaternion::rotation_between(&vec_of(a), &vec_of([0.0, 0.0, 0.0])) { Some(m) => same(rawq(m), [1.0, 0.0, 0.0, 0.0]), None => never() }
}
fn ok(d: V, u: V) { assume(dot(d, d) > 0.0); let w = cross(u, d); assume(dot(w, w) > 0.0); }
pub fn law_look_to(d: V, u: V) {
    ok(d, u);
    let (d, u) = (vec_of(d), vec_of(u));
    same(rawq(Quaternion::look_to_lh(&d, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_to_lh(&d, &u))));
    same(rawq(Quaternion::look_to_rh(&d, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_to_rh(&d, &u))));
    same(rawq(Quaternion::look_to_lh_inv(&d, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_to_lh_inv(&d, &u))));
    same(rawq(Quaternion::look_to_rh_inv(&d, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_to_rh_inv(&d, &u))));
}
pub fn law_look_at(e: V, t: V, u: V) {
    ok([t[0] - e[0], t[1] - e[1], t[2] - e[2]], u);
    let (e, t, u) = (pt_of(e), pt_of(t), vec_of(u));
    same(rawq(Quaternion::look_at_lh(&e, &t, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_at_lh(&e, &t, &u))));
    same(rawq(Quaternion::look_at_rh(&e, &t, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_at_rh(&e, &t, &u))));
    same(rawq(Quaternion::look_at_lh_inv(&e, &t, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_at_lh_inv(&e, &t, &u))));
    same(rawq(Quaternion::look_at_rh_inv(&e, &t, &u)), rawq(Quaternion::from_matrix(&Matrix3x3::look_at_rh_inv(&e, &t, &u))));
}
pub fn law_slerp(a: UVec4<S>, b: UVec4<S>, t: S) {
    let c = a.0 * b.0 + a.1 * b.1 + a.2 * b.2 + a.3 * b.3;
    let s = S::sqrt(1.0 - c * c);
    assume(c >= 0.0); assume(c < 1.0); assume(s >= 0.0005);
    let h = S::acos(c);
    let (x, y) = (S::sin((1.0 - t) * h) / s, S::sin(t * h) / s);
    same(rawq(uq(a).slerp(&uq(b), t)), [x * a.0 + y * b.0, x * a.1 + y * b.1, x * a.2 + y * b.2, x * a.3 + y * b.3]);
}
pub fn law_slerp_ends(a: UVec4<S>, b: UVec4<S>) {
    let c = a.0 * b.0 + a.1 * b.1 + a.2 * b.2 + a.3 * b.3;
    assume(c >= 0.0); assume(c < 1.0);
    same(rawq(uq(a).slerp(&uq(b), 0.0)), rawq(uq(a)));
    same(rawq(uq(a).slerp(&uq(b), 1.0)), rawq(uq(b)));
}
pub fn law_slerp_unit(a: UVec4<S>, b: UVec4<S>, t: S) {
    let c = a.0 * b.0 + a.1 * b.1 + a.2 * b.2 + a.3 * b.3;
    assume(c >= 0.0); assume(c < 1.0); assume(t >= 0.0); assume(t <= 1.0);
    same(uq(a).slerp(&uq(b), t).norm_squared(), 1.0);
}
pub fn law_slerp_short_way(a: UVec4<S>, b: UVec4<S>, t: S) {
    let c = a.0 * b.0 + a.1 * b.1 + a.2 * b.2 + a.3 * b.3;
    assume(c < 0.0);
    same(rawq(uq(a).slerp(&uq(b), t)), rawq((-uq(a)).slerp(&uq(b), t)));
}
pub fn law_slerp_same(a: UVec4<S>, t: S) { same(rawq(uq(a).slerp(&uq(a), t)), rawq(uq(a))); }
pub fn law_arg(a: A) {
    assume(a[0] * a[0] > 256.0 * S::EPSILON * S::EPSILON);
    same(q(a).arg(), S::atan2(S::sqrt(a[1] * a[1] + a[2] * a[2] + a[3] * a[3]), a[0]));
}
pub fn law_arg_pure(v: V) { same(q([0.0, v[0], v[1], v[2]]).arg(), K::PI / 2.0); }
