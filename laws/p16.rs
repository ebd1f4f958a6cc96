// Rotation matrices.
fn e3<const R: usize>(c: [[S; R]; R], d: [[S; 4]; 4]) -> [[S; 4]; 4] { let mut r = d; let mut i = 0; while i < R { let mut j = 0; while j < R { r[i][j] = c[i][j]; j += 1; } i += 1; } r }
fn id4() -> [[S; 4]; 4] { let mut r = [[0.0; 4]; 4]; let mut i = 0; while i < 4 { r[i][i] = 1.0; i += 1; } r }
fn id3() -> [[S; 3]; 3] { let mut r = [[0.0; 3]; 3]; let mut i = 0; while i < 3 { r[i][i] = 1.0; i += 1; } r }
fn cross(a: [S; 3], b: [S; 3]) -> [S; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: [S; 3], b: [S; 3]) -> S { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn u3(a: UVec3<S>) -> Unit<Vector3<S>> { arr(a) }
fn u2(a: UVec2<S>) -> Unit<Vector2<S>> { arr(a) }
fn rodrigues(k: [S; 3], t: S, v: [S; 3]) -> [S; 3] {
    let (s, c) = (S::sin(t), S::cos(t));
    let w = cross(k, v);
    let d = dot(k, v) * (1.0 - c);
    [v[0] * c + w[0] * s + k[0] * d, v[1] * c + w[1] * s + k[1] * d, v[2] * c + w[2] * s + k[2] * d]
}
pub fn law_plane(t: S, v: [S; 2]) {
    let e = [v[0] * S::cos(t) - v[1] * S::sin(t), v[0] * S::sin(t) + v[1] * S::cos(t)];
    same(raw(Matrix2x2::from_angle(Radians(t)) * vec_of(v)), e);
    same(raw(Matrix3x3::from_affine_angle(Radians(t)) * vec_of([v[0], v[1], 1.0])), [e[0], e[1], 1.0]);
    same(raw(Matrix3x3::from_affine_angle(Radians(t)) * vec_of([v[0], v[1], 0.0])), [e[0], e[1], 0.0]);
    same(rawm(Matrix2x2::from_angle(Degrees(t))), rawm(Matrix2x2::from_angle(Radians::from(Degrees(t)))));
    same(rawm(Matrix3x3::from_affine_angle(Degrees(t))), rawm(Matrix3x3::from_affine_angle(Radians::from(Degrees(t)))));
}
pub fn law_plane_group(t: S, u: S) {
    let m = |x: S| Matrix2x2::from_angle(Radians(x));
    same(rawm(m(t) * m(u)), rawm(m(t + u)));
    same(rawm(m(t) * m(-t)), [[1.0, 0.0], [0.0, 1.0]]);
    same(rawm(m(t).transpose()), rawm(m(-t)));
    same(m(t).determinant(), 1.0);
}
pub fn law_axis_angle(k: UVec3<S>, t: S, v: [S; 3]) {
    let e = rodrigues(raw(k.v()), t, v);
    same(raw(Matrix3x3::from_axis_angle(&u3(k), Radians(t)) * vec_of(v)), e);
    same(raw(Matrix4x4::from_affine_axis_angle(&u3(k), Radians(t)) * vec_of([v[0], v[1], v[2], 1.0])), [e[0], e[1], e[2], 1.0]);
    same(raw(Matrix4x4::from_affine_axis_angle(&u3(k), Radians(t)) * vec_of([v[0], v[1], v[2], 0.0])), [e[0], e[1], e[2], 0.0]);
    same(rawm(Matrix3x3::from_axis_angle(&u3(k), Degrees(t))), rawm(Matrix3x3::from_axis_angle(&u3(k), Radians::from(Degrees(t)))));
    same(rawm(Matrix4x4::from_affine_axis_angle(&u3(k), Degrees(t))), rawm(Matrix4x4::from_affine_axis_angle(&u3(k), Radians::from(Degrees(t)))));
}
pub fn law_axis_fixed(k: UVec3<S>, t: S) { same(raw(Matrix3x3::from_axis_angle(&u3(k), Radians(t)) * k.v()), raw(k.v())); }
pub fn law_orthogonal(k: UVec3<S>, t: S) {
    let m = Matrix3x3::from_axis_angle(&u3(k), Radians(t));
    same(rawm(m * m.transpose()), id3());
    same(m.determinant(), 1.0);
    same(rawm(m.transpose()), rawm(Matrix3x3::from_axis_angle(&u3(k), Radians(-t))));
}
pub fn law_group(k: UVec3<S>, t: S, u: S) {
    let m = |x: S| Matrix3x3::from_axis_angle(&u3(k), Radians(x));
    same(rawm(m(t) * m(u)), rawm(m(t + u)));
}
pub fn law_coordinate_axes(t: S, v: [S; 3]) {
    let x = rodrigues([1.0, 0.0, 0.0], t, v);
    let y = rodrigues([0.0, 1.0, 0.0], t, v);
    let z = rodrigues([0.0, 0.0, 1.0], t, v);
    same(raw(Matrix3x3::from_angle_x(Radians(t)) * vec_of(v)), x);
    same(raw(Matrix3x3::from_angle_y(Radians(t)) * vec_of(v)), y);
    same(raw(Matrix3x3::from_angle_z(Radians(t)) * vec_of(v)), z);
}
pub fn law_affine_axes(t: S) {
    let x = rawm(Matrix3x3::from_angle_x(Radians(t)));
    let y = rawm(Matrix3x3::from_angle_y(Radians(t)));
    let z = rawm(Matrix3x3::from_angle_z(Radians(t)));
    same(rawm(Matrix4x4::from_affine_angle_x(Radians(t))), e3(x, id4()));
    same(rawm(Matrix4x4::from_affine_angle_y(Radians(t))), e3(y, id4()));
    same(rawm(Matrix4x4::from_affine_angle_z(Radians(t))), e3(z, id4()));
    let d = Degrees(t); let r = Radians::from(d);
    same(rawm(Matrix3x3::from_angle_x(d)), rawm(Matrix3x3::from_angle_x(r)));
    same(rawm(Matrix3x3::from_angle_y(d)), rawm(Matrix3x3::from_angle_y(r)));
    same(rawm(Matrix3x3::from_angle_z(d)), rawm(Matrix3x3::from_angle_z(r)));
    same(rawm(Matrix4x4::from_affine_angle_x(d)), rawm(Matrix4x4::from_affine_angle_x(r)));
    same(rawm(Matrix4x4::from_affine_angle_y(d)), rawm(Matrix4x4::from_affine_angle_y(r)));
    same(rawm(Matrix4x4::from_affine_angle_z(d)), rawm(Matrix4x4::from_affine_angle_z(r)));
}
pub fn law_cross_matrix(a: [S; 3], b: [S; 3]) { same(raw(Matrix3x3::cross_matrix(&vec_of(a)) * vec_of(b)), cross(a, b)); }
pub fn law_embed(a: [[S; 2]; 2], b: [[S; 3]; 3]) {
    same(rawm(Matrix3x3::from(mat_of(a))), [[a[0][0], a[0][1], 0.0], [a[1][0], a[1][1], 0.0], [0.0, 0.0, 1.0]]);
    same(rawm(Matrix3x3::from(&mat_of(a))), rawm(Matrix3x3::from(mat_of(a))));
    same(rawm(Matrix4x4::from(mat_of(b))), e3(b, id4()));
    same(rawm(Matrix4x4::from(&mat_of(b))), e3(b, id4()));
    same(rawm(Matrix4x4::from(mat_of(a))), e3(a, id4()));
    same(rawm(Matrix4x4::from(&mat_of(a))), e3(a, id4()));
}
pub fn law_between_plane(a: UVec2<S>, b: UVec2<S>) {
    let m = Matrix2x2::rotation_between_axis(&u2(a), &u2(b));
    same(raw(m * a.v()), raw(b.v()));
    same(m.determinant(), 1.0);
}
pub fn law_between_plane_any(a: UVec2<S>, b: UVec2<S>, x: Pos<S>, y: Pos<S>) {
    let m = Matrix2x2::rotation_between(&(a.v() * x.0), &(b.v() * y.0));
    same(raw(m * a.v()), raw(b.v()));
}
pub fn law_between_plane_zero(a: [S; 2]) {
    same(rawm(Matrix2x2::rotation_between(&vec_of([0.0, 0.0]), &vec_of(a))), [[1.0, 0.0], [0.0, 1.0]]);
    same(rawm(Matrix2x2::rotation_between(&vec_of(a), &vec_of([0.0, 0.0]))), [[1.0, 0.0], [0.0, 1.0]]);
}
pub fn law_between_units(a: UVec3<S>, b: UVec3<S>) {
    let w = cross(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON);
    match Matrix3x3::rotation_between_axis(&u3(a), &u3(b)) { Some(m) => same(raw(m * a.v()), raw(b.v())), None => never() }
}
pub fn law_between(a: UVec3<S>, b: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    let w = cross(raw(a.v()), raw(b.v()));
    assume(S::sqrt(dot(w, w)) > 16.0 * S::EPSILON);
    match Matrix3x3::rotation_between(&(a.v() * x.0), &(b.v() * y.0)) { Some(m) => same(raw(m * a.v()), raw(b.v())), None => never() }
}
pub fn law_between_parallel(a: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    match Matrix3x3::rotation_between(&(a.v() * x.0), &(a.v() * y.0)) { Some(m) => same(rawm(m), id3()), None => never() }
    match Matrix3x3::rotation_between_axis(&u3(a), &u3(a)) { Some(m) => same(rawm(m), id3()), None => never() }
    same(Matrix3x3::rotation_between(&(a.v() * x.0), &(a.v() * -y.0)).is_none(), true);
    same(Matrix3x3::rotation_between_axis(&u3(a), &-u3(a)).is_none(), true);
}
pub fn law_between_acute(a: UVec3<S>, b: UVec3<S>, x: Pos<S>, y: Pos<S>) {
    assume(dot(raw(a.v()), raw(b.v())) > 0.0);
    same(Matrix3x3::rotation_between(&(a.v() * x.0), &(b.v() * y.0)).is_some(), true);
    same(Matrix3x3::rotation_between_axis(&u3(a), &u3(b)).is_some(), true);
}
pub fn law_between_zero(a: [S; 3]) {
    match Matrix3x3::rotation_between(&vec_of([0.0, 0.0, 0.0]), &vec_of(a)) { Some(m) => same(rawm(m), id3()), None => never() }
    match Matrix3x3::rotation_between(&vec_of(a), &vec_of([0.0, 0.0, 0.0])) { Some(m) => same(rawm(m), id3()), None => never() }
}
