// Rotations of dimension two and three.
type V = [S; 3];
type A = [S; 4];
fn dot(a: V, b: V) -> S { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn u2(a: UVec2<S>) -> Unit<Vector2<S>> { arr(a) }
fn u3(a: UVec3<S>) -> Unit<Vector3<S>> { arr(a) }
fn r2(r: Rotation2<S>) -> [[S; 2]; 2] { rawm(r.to_matrix()) }
fn r3(r: Rotation3<S>) -> [V; 3] { rawm(r.to_matrix()) }
/// x turned by t about the unit axis k
fn turn(k: V, t: S, x: V) -> V { let (s, c) = (S::sin(t), S::cos(t)); let (w, d) = (cross(k, x), dot(k, x) * (1.0 - c)); [x[0] * c + w[0] * s + k[0] * d, x[1] * c + w[1] * s + k[1] * d, x[2] * c + w[2] * s + k[2] * d] }
fn mat(k: V, t: S) -> [V; 3] { [turn(k, t, [1.0, 0.0, 0.0]), turn(k, t, [0.0, 1.0, 0.0]), turn(k, t, [0.0, 0.0, 1.0])] }
fn aff(m: [V; 3]) -> [A; 4] { [[m[0][0], m[0][1], m[0][2], 0.0], [m[1][0], m[1][1], m[1][2], 0.0], [m[2][0], m[2][1], m[2][2], 0.0], [0.0, 0.0, 0.0, 1.0]] }
const ID3: [V; 3] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
const ID2: [[S; 2]; 2] = [[1.0, 0.0], [0.0, 1.0]];
pub fn law_plane(t: S, x: [S; 2]) {
    let r = Rotation2::from_angle(Radians(t)); let (s, c) = (S::sin(t), S::cos(t));
    same(r2(r), [[c, s], [-s, c]]); same(rawm(*r.matrix()), [[c, s], [-s, c]]); same(rawm(*AsRef::<Matrix2x2<S>>::as_ref(&r)), [[c, s], [-s, c]]);
    let y = [c * x[0] - s * x[1], s * x[0] + c * x[1]]; let z = [c * x[0] + s * x[1], c * x[1] - s * x[0]];
    same(raw(r.apply_vector(&vec_of(x))), y); same(rawp(r.apply_point(&pt_of(x))), y);
    same(raw(r.inverse_apply_vector(&vec_of(x))), z); same(rawp(r.inverse_apply_point(&pt_of(x))), z);
    forms!(raw, r, vec_of(x), y); forms!(rawp, r, pt_of(x), y);
    same(r2(r.inverse()), [[c, -s], [s, c]]); let mut m = r; m.inverse_mut(); same(r2(m), [[c, -s], [s, c]]);
    same(r2(Rotation2::identity()), ID2);
    same(r2(Rotation2::from_angle(Degrees(t))), r2(Rotation2::from_angle(Radians::from(Degrees(t)))));
}
pub fn law_plane_matrix(t: S) {
    let r = Rotation2::from_angle(Radians(t)); let (s, c) = (S::sin(t), S::cos(t)); let e = [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]];
    same(rawm(r.to_affine_matrix()), e); same(rawm(r.to_transform().to_matrix()), e); same(rawm(Matrix3x3::from(r)), e); same(rawm(Matrix3x3::from(&r)), e);
}
pub fn law_plane_angle(t: S) {
    let a = Rotation2::from_angle(Radians(t)).angle();
    same((S::cos(a.0), S::sin(a.0)), (S::cos(t), S::sin(t)));
}
pub fn law_plane_compose(t: S, u: S) { forms!(r2, Rotation2::from_angle(Radians(t)), Rotation2::from_angle(Radians(u)), r2(Rotation2::from_angle(Radians(t + u)))); }
pub fn law_plane_between(a: UVec2<S>, b: UVec2<S>, x: Pos<S>, y: Pos<S>) {
    let r = Rotation2::rotation_between_axis(&u2(a), &u2(b)); same(raw(r * a.v()), raw(b.v()));
    let m = r.to_matrix(); same(rawm(m * m.transpose()), ID2); same(m.determinant(), 1.0);
    same(r2(Rotation2::rotation_between(&(a.v() * x.0), &(b.v() * y.0))), r2(r));
}
pub fn law_plane_between_zero(a: [S; 2]) {
    same(r2(Rotation2::rotation_between(&vec_of(a), &vec_of([0.0, 0.0]))), ID2); same(r2(Rotation2::rotation_between(&vec_of([0.0, 0.0]), &vec_of(a))), ID2);
}
pub fn law_space(k: UVec3<S>, t: S, x: V) {
    let r = Rotation3::from_axis_angle(&u3(k), Radians(t)); let k = raw(k.v());
    let m = mat(k, t); let n = mat(k, -t);
    same(r3(r), m); same(rawm(*r.matrix()), m); same(rawm(*AsRef::<Matrix3x3<S>>::as_ref(&r)), m);
    let y = turn(k, t, x); let z = turn(k, -t, x);
    same(raw(r.apply_vector(&vec_of(x))), y); same(rawp(r.apply_point(&pt_of(x))), y);
    same(raw(r.inverse_apply_vector(&vec_of(x))), z); same(rawp(r.inverse_apply_point(&pt_of(x))), z);
    forms!(raw, r, vec_of(x), y); forms!(rawp, r, pt_of(x), y);
    same(r3(r.inverse()), n); let mut w = r; w.inverse_mut(); same(r3(w), n);
    same(r3(Rotation3::identity()), ID3);
}
pub fn law_space_matrix(k: UVec3<S>, t: S) {
    let r = Rotation3::from_axis_angle(&u3(k), Radians(t)); let e = aff(mat(raw(k.v()), t));
    same(rawm(r.to_affine_matrix()), e); same(rawm(r.to_transform().to_matrix()), e); same(rawm(Matrix4x4::from(r)), e); same(rawm(Matrix4x4::from(&r)), e);
    same(r3(Rotation3::from_axis_angle(&u3(k), Degrees(t))), r3(Rotation3::from_axis_angle(&u3(k), Radians::from(Degrees(t)))));
}
pub fn law_coordinate_axes(t: S) {
    same(r3(Rotation3::from_angle_x(Radians(t))), mat([1.0, 0.0, 0.0], t)); same(r3(Rotation3::from_angle_y(Radians(t))), mat([0.0, 1.0, 0.0], t)); same(r3(Rotation3::from_angle_z(Radians(t))), mat([0.0, 0.0, 1.0], t));
    same(r3(Rotation3::from_angle_x(Degrees(t))), r3(Rotation3::from_angle_x(Radians::from(Degrees(t)))));
    same(r3(Rotation3::from_angle_y(Degrees(t))), r3(Rotation3::from_angle_y(Radians::from(Degrees(t)))));
    same(r3(Rotation3::from_angle_z(Degrees(t))), r3(Rotation3::from_angle_z(Radians::from(Degrees(t)))));
}
pub fn law_space_compose(a: UVec4<S>, b: UVec4<S>) {
    let (p, q): (Quaternion<S>, Quaternion<S>) = (arr(a), arr(b));
    forms!(r3, Rotation3::from_quaternion(&p), Rotation3::from_quaternion(&q), rawm((p * q).to_matrix()));
}
pub fn law_space_compose_inverse(k: UVec3<S>, t: S) { let r = Rotation3::from_axis_angle(&u3(k), Radians(t)); same(r3(r * r.inverse()), ID3); same(r3(r.inverse() * r), ID3); }
pub fn law_quaternion(a: UVec4<S>) {
    let q: Quaternion<S> = arr(a); let m = rawm(q.to_matrix());
    same(r3(Rotation3::from_quaternion(&q)), m); same(r3(Rotation3::from(q)), m); same(r3(Rotation3::from(&q)), m);
    let e = rawq(Quaternion::from_matrix(&mat_of(m)));
    let r = Rotation3::from(q); same(rawq(Quaternion::from(r)), e); same(rawq(Quaternion::from(&r)), e);
}
pub fn law_axis(k: UVec3<S>, t: S) {
    assume(S::sin(t) > 16.0 * S::EPSILON); assume(S::sin(t) * S::sin(t) > 256.0 * S::EPSILON * S::EPSILON);
    let r = Rotation3::from_axis_angle(&u3(k), Radians(t));
    match r.axis() { Some(u) => same(arr::<V, _>(u), raw(k.v())), None => never() }
    same((S::cos(r.angle().0)), S::cos(t)); same(S::sin(r.angle().0), S::sin(t));
    match r.axis_angle() { Some((u, h)) => { same(arr::<V, _>(u), raw(k.v())); same(h.0, r.angle().0); } None => never() }
}
pub fn law_axis_back(k: UVec3<S>, t: S) {
    assume(S::sin(t) < -16.0 * S::EPSILON); assume(S::sin(t) * S::sin(t) > 256.0 * S::EPSILON * S::EPSILON);
    let r = Rotation3::from_axis_angle(&u3(k), Radians(t));
    match r.axis_angle() { Some((u, h)) => { same(arr::<V, _>(u), [-k.0, -k.1, -k.2]); same((S::cos(h.0), S::sin(h.0)), (S::cos(t), -S::sin(t))); } None => never() }
}
pub fn law_axis_identity() { same(Rotation3::<S>::identity().axis().is_none(), true); same(Rotation3::<S>::identity().angle().0, 0.0); same(Rotation3::<S>::identity().axis_angle().is_none(), true); }
fn ok(d: V, u: V) { assume(dot(d, d) > 0.0); let w = cross(u, d); assume(dot(w, w) > 0.0); }
pub fn law_look_to(d: V, u: V) {
    ok(d, u);
    let (d, u) = (vec_of(d), vec_of(u));
    same(r3(Rotation3::look_to_lh(&d, &u)), rawm(Matrix3x3::look_to_lh(&d, &u))); same(r3(Rotation3::look_to_rh(&d, &u)), rawm(Matrix3x3::look_to_rh(&d, &u)));
    same(r3(Rotation3::look_to_lh_inv(&d, &u)), rawm(Matrix3x3::look_to_lh_inv(&d, &u))); same(r3(Rotation3::look_to_rh_inv(&d, &u)), rawm(Matrix3x3::look_to_rh_inv(&d, &u)));
}
pub fn law_look_at(e: V, t: V, u: V) {
    ok([t[0] - e[0], t[1] - e[1], t[2] - e[2]], u);
    let (e, t, u) = (pt_of(e), pt_of(t), vec_of(u));
    same(r3(Rotation3::look_at_lh(&e, &t, &u)), rawm(Matrix3x3::look_at_lh(&e, &t, &u))); same(r3(Rotation3::look_at_rh(&e, &t, &u)), rawm(Matrix3x3::look_at_rh(&e, &t, &u)));
    same(r3(Rotation3::look_at_lh_inv(&e, &t, &u)), rawm(Matrix3x3::look_at_lh_inv(&e, &t, &u))); same(r3(Rotation3::look_at_rh_inv(&e, &t, &u)), rawm(Matrix3x3::look_at_rh_inv(&e, &t, &u)));
}
pub fn law_between(a: UVec3<S>, b: UVec3<S>) {
    let w = cross(raw(a.v()), raw(b.v())); let c = dot(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON); assume(c < 1.0); assume(c > -1.0);
    match Rotation3::rotation_between_axis(&u3(a), &u3(b)) { Some(r) => same(raw(r * a.v()), raw(b.v())), None => never() }
}
pub fn law_between_scaled(a: UVec3<S>, b: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    let w = cross(raw(a.v()), raw(b.v())); let c = dot(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON); assume(c < 1.0); assume(c > -1.0);
    match Rotation3::rotation_between(&(a.v() * x.0), &(b.v() * y.0)) { Some(r) => same(raw(r * a.v()), raw(b.v())), None => never() }
}
pub fn law_between_parallel(a: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    match Rotation3::rotation_between(&(a.v() * x.0), &(a.v() * y.0)) { Some(m) => same(r3(m), ID3), None => never() }
    match Rotation3::rotation_between_axis(&u3(a), &u3(a)) { Some(m) => same(r3(m), ID3), None => never() }
    same(Rotation3::rotation_between(&(a.v() * x.0), &(a.v() * -y.0)).is_none(), true);
    same(Rotation3::rotation_between_axis(&u3(a), &-u3(a)).is_none(), true);
}
pub fn law_between_zero(a: [S; 3]) {
    match Rotation3::rotation_between(&vec_of([0.0, 0.0, 0.0]), &vec_of(a)) { Some(m) => same(r3(m), ID3), None => never() }
    match Rotation3::rotation_between(&vec_of(a), &vec_of([0.0, 0.0, 0.0])) { Some(m) => same(r3(m), ID3), None => never() }
}
pub fn law_euler(x: S, y: S, z: S) {
    let e = Euler::new(Radians(x), Radians(y), Radians(z)); let m = rawm(e.to_matrix());
    same(r3(Rotation3::from_euler_angles(&e)), m); same(r3(Rotation3::from(e)), m); same(r3(Rotation3::from(&e)), m);
    let e = Euler::new(Degrees(x), Degrees(y), Degrees(z)); let m = rawm(e.to_matrix());
    same(r3(Rotation3::from_euler_angles(&e)), m); same(r3(Rotation3::from(e)), m); same(r3(Rotation3::from(&e)), m);
}
pub fn law_euler_angles(a: UVec4<S>) {
    let s = 2.0 * (a.1 * a.3 + a.0 * a.2);
    assume(s < 1.0); assume(s > -1.0); assume(1.0 - s * s > 64.0 * S::EPSILON);
    let r = Rotation3::from_quaternion(&arr(a));
    let e = r.euler_angles();
    same(rawm(e.to_matrix()), r3(r)); holds(S::cos(e.y.0) > 0.0);
}
pub fn law_eq(t: S, u: S) { let (a, b) = (Rotation2::from_angle(Radians(t)), Rotation2::from_angle(Radians(u))); same(a == b, a.to_matrix() == b.to_matrix()); }
