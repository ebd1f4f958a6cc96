// Euler angles.
type V = [S; 3];
type A = [S; 4];
fn mm(a: [V; 3], b: [V; 3]) -> [V; 3] {
    let col = |c: V| [a[0][0] * c[0] + a[1][0] * c[1] + a[2][0] * c[2], a[0][1] * c[0] + a[1][1] * c[1] + a[2][1] * c[2], a[0][2] * c[0] + a[1][2] * c[1] + a[2][2] * c[2]];
    [col(b[0]), col(b[1]), col(b[2])]
}
fn aff(m: [V; 3]) -> [A; 4] { [[m[0][0], m[0][1], m[0][2], 0.0], [m[1][0], m[1][1], m[1][2], 0.0], [m[2][0], m[2][1], m[2][2], 0.0], [0.0, 0.0, 0.0, 1.0]] }
fn rx(t: S) -> [V; 3] { [[1.0, 0.0, 0.0], [0.0, S::cos(t), S::sin(t)], [0.0, -S::sin(t), S::cos(t)]] }
fn ry(t: S) -> [V; 3] { [[S::cos(t), 0.0, -S::sin(t)], [0.0, 1.0, 0.0], [S::sin(t), 0.0, S::cos(t)]] }
fn rz(t: S) -> [V; 3] { [[S::cos(t), S::sin(t), 0.0], [-S::sin(t), S::cos(t), 0.0], [0.0, 0.0, 1.0]] }
fn full(x: S, y: S, z: S) -> [V; 3] { mm(mm(rx(x), ry(y)), rz(z)) }
pub fn law_matrix(x: S, y: S, z: S) {
    let e = Euler::new(Radians(x), Radians(y), Radians(z)); let m = full(x, y, z);
    same((e.x.0, e.y.0, e.z.0), (x, y, z));
    same(rawm(e.to_matrix()), m); same(rawm(e.to_affine_matrix()), aff(m));
    same(rawm(Matrix3x3::from(e)), m); same(rawm(Matrix3x3::from(&e)), m); same(rawm(Matrix4x4::from(e)), aff(m)); same(rawm(Matrix4x4::from(&e)), aff(m));
    same(rawm(Matrix3x3::from_euler_angles(&e)), m); same(rawm(Matrix4x4::from_euler_angles(&e)), aff(m));
}
pub fn law_matrix_degrees(x: S, y: S, z: S) {
    let e = Euler::new(Degrees(x), Degrees(y), Degrees(z));
    let r = |t: S| Radians::from(Degrees(t)).0;
    let m = full(r(x), r(y), r(z));
    same(rawm(e.to_matrix()), m); same(rawm(e.to_affine_matrix()), aff(m));
    same(rawm(Matrix3x3::from(e)), m); same(rawm(Matrix3x3::from(&e)), m); same(rawm(Matrix4x4::from(e)), aff(m)); same(rawm(Matrix4x4::from(&e)), aff(m));
    same(rawm(Matrix3x3::from_euler_angles(&e)), m); same(rawm(Matrix4x4::from_euler_angles(&e)), aff(m));
}
pub fn law_zero(x: S, y: S, z: S) {
    let e: Euler<Radians<S>> = Euler::zero();
    same((e.x.0, e.y.0, e.z.0), (0.0, 0.0, 0.0)); holds(e.is_zero());
    same(Euler::new(Radians(x), Radians(y), Radians(z)).is_zero(), x == 0.0 && y == 0.0 && z == 0.0);
    let e: Euler<Degrees<S>> = Euler::zero();
    same((e.x.0, e.y.0, e.z.0), (0.0, 0.0, 0.0));
}
pub fn law_from_quaternion(a: UVec4<S>) {
    let q: Quaternion<S> = arr(a);
    let s = 2.0 * (a.1 * a.3 + a.0 * a.2);
    assume(s < 1.0); assume(s > -1.0); assume(1.0 - s * s > 64.0 * S::EPSILON);
    let e = Euler::from(q);
    same(rawm(e.to_matrix()), rawm(q.to_matrix()));
    let f = Euler::from(&q);
    same((f.x.0, f.y.0, f.z.0), (e.x.0, e.y.0, e.z.0));
}
pub fn law_from_quaternion_ranges(a: UVec4<S>) {
    let s = 2.0 * (a.1 * a.3 + a.0 * a.2);
    assume(s < 1.0); assume(s > -1.0); assume(1.0 - s * s > 64.0 * S::EPSILON);
    let e = Euler::from(arr::<Quaternion<S>, _>(a));
    same(S::sin(e.y.0), s); holds(S::cos(e.y.0) > 0.0);
}
// at gimbal lock (the middle angle a quarter turn up or down) one outer angle is free, and the pair still rebuilds the matrix
pub fn law_from_quaternion_gimbal(c: S, s: S) {
    assume(c * c + s * s == 0.5);
    let q = quat_of([c, s, c, s]); same(rawm(Euler::from(q).to_matrix()), rawm(q.to_matrix()));
    let q = quat_of([c, s, -c, -s]); same(rawm(Euler::from(q).to_matrix()), rawm(q.to_matrix()));
}
// within rounding of gimbal lock the vanishing entries are not used to tell the outer angles
pub fn law_near_gimbal(a: UVec4<S>) {
    let s = 2.0 * (a.1 * a.3 + a.0 * a.2);
    assume(1.0 - s * s < S::EPSILON / 4.0);
    same(Euler::from(arr::<Quaternion<S>, _>(a)).z.0, 0.0);
}
