// View matrices.
type V = [S; 3];
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: V, b: V) -> S { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn unit(a: V) -> V { let n = S::sqrt(dot(a, a)); [a[0] / n, a[1] / n, a[2] / n] }
fn neg(a: V) -> V { [-a[0], -a[1], -a[2]] }
fn ok(d: V, u: V) { assume(dot(d, d) > 0.0); let w = cross(u, d); assume(dot(w, w) > 0.0); }
/// rows x, y, z of the observer's frame whose third axis is `z`
fn frame(z: V, u: V) -> [V; 3] { let z = unit(z); let x = unit(cross(u, z)); [x, cross(z, x), z] }
fn rot(f: [V; 3]) -> [[S; 3]; 3] { [[f[0][0], f[1][0], f[2][0]], [f[0][1], f[1][1], f[2][1]], [f[0][2], f[1][2], f[2][2]]] }
fn aff(f: [V; 3], e: V) -> [[S; 4]; 4] {
    let r = rot(f);
    [[r[0][0], r[0][1], r[0][2], 0.0], [r[1][0], r[1][1], r[1][2], 0.0], [r[2][0], r[2][1], r[2][2], 0.0], [-dot(f[0], e), -dot(f[1], e), -dot(f[2], e), 1.0]]
}
/// the inverse of `aff`: frame axes as columns, the eye as translation
fn aff_inv(f: [V; 3], e: V) -> [[S; 4]; 4] {
    [[f[0][0], f[0][1], f[0][2], 0.0], [f[1][0], f[1][1], f[1][2], 0.0], [f[2][0], f[2][1], f[2][2], 0.0], [e[0], e[1], e[2], 1.0]]
}
pub fn law_to3(d: V, u: V) {
    ok(d, u);
    same(rawm(Matrix3x3::look_to_lh(&vec_of(d), &vec_of(u))), rot(frame(d, u)));
    same(rawm(Matrix3x3::look_to_rh(&vec_of(d), &vec_of(u))), rot(frame(neg(d), u)));
    same(rawm(Matrix3x3::look_to_lh_inv(&vec_of(d), &vec_of(u))), frame(d, u));
    same(rawm(Matrix3x3::look_to_rh_inv(&vec_of(d), &vec_of(u))), frame(neg(d), u));
}
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn law_at3(e: V, t: V, u: V) {
    let d = sub(t, e);
    ok(d, u);
    same(rawm(Matrix3x3::look_at_lh(&pt_of(e), &pt_of(t), &vec_of(u))), rot(frame(d, u)));
    same(rawm(Matrix3x3::look_at_rh(&pt_of(e), &pt_of(t), &vec_of(u))), rot(frame(neg(d), u)));
    same(rawm(Matrix3x3::look_at_lh_inv(&pt_of(e), &pt_of(t), &vec_of(u))), frame(d, u));
    same(rawm(Matrix3x3::look_at_rh_inv(&pt_of(e), &pt_of(t), &vec_of(u))), frame(neg(d), u));
}
pub fn law_to4(e: V, d: V, u: V) {
    ok(d, u);
    same(rawm(Matrix4x4::look_to_lh(&pt_of(e), &vec_of(d), &vec_of(u))), aff(frame(d, u), e));
    same(rawm(Matrix4x4::look_to_rh(&pt_of(e), &vec_of(d), &vec_of(u))), aff(frame(neg(d), u), e));
}
pub fn law_at4(e: V, t: V, u: V) {
    let d = sub(t, e);
    ok(d, u);
    same(rawm(Matrix4x4::look_at_lh(&pt_of(e), &pt_of(t), &vec_of(u))), aff(frame(d, u), e));
    same(rawm(Matrix4x4::look_at_rh(&pt_of(e), &pt_of(t), &vec_of(u))), aff(frame(neg(d), u), e));
}
pub fn law_to4_inv_axes(e: V, d: V, u: V) {
    ok(d, u);
    let l = rawm(Matrix4x4::look_to_lh_inv(&pt_of(e), &vec_of(d), &vec_of(u))); let f = aff_inv(frame(d, u), e);
    same([l[0], l[1], l[2]], [f[0], f[1], f[2]]);
    let r = rawm(Matrix4x4::look_to_rh_inv(&pt_of(e), &vec_of(d), &vec_of(u))); let f = aff_inv(frame(neg(d), u), e);
    same([r[0], r[1], r[2]], [f[0], f[1], f[2]]);
}
pub fn law_to4_inv_eye(e: V, d: V, u: V) {
    ok(d, u);
    same(rawm(Matrix4x4::look_to_lh_inv(&pt_of(e), &vec_of(d), &vec_of(u)))[3], [e[0], e[1], e[2], 1.0]);
    same(rawm(Matrix4x4::look_to_rh_inv(&pt_of(e), &vec_of(d), &vec_of(u)))[3], [e[0], e[1], e[2], 1.0]);
}
pub fn law_at4_inv(e: V, t: V, u: V) {
    let d = sub(t, e);
    ok(d, u);
    same(rawm(Matrix4x4::look_at_lh_inv(&pt_of(e), &pt_of(t), &vec_of(u))), rawm(Matrix4x4::look_to_lh_inv(&pt_of(e), &vec_of(d), &vec_of(u))));
    same(rawm(Matrix4x4::look_at_rh_inv(&pt_of(e), &pt_of(t), &vec_of(u))), rawm(Matrix4x4::look_to_rh_inv(&pt_of(e), &vec_of(d), &vec_of(u))));
}
pub fn law_orthonormal(d: V, u: V) {
    ok(d, u);
    let m = Matrix3x3::look_to_lh(&vec_of(d), &vec_of(u));
    same(rawm(m * m.transpose()), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
    let w = raw(m * vec_of(d));
    same([w[0], w[1], w[2]], [0.0, 0.0, S::sqrt(dot(d, d))]);
}
/// Until the recorded defect is repaired the last column is the eye seen from the observer's frame.
pub fn law_to4_inv_column(e: V, d: V, u: V) {
    ok(d, u);
    let l = rawm(Matrix4x4::look_to_lh_inv(&pt_of(e), &vec_of(d), &vec_of(u)))[3]; let f = frame(d, u);
    let is = |c: [S; 4], w: V| c[0] == w[0] && c[1] == w[1] && c[2] == w[2];
    holds(is(l, e) || is(l, [dot(f[0], e), dot(f[1], e), dot(f[2], e)]));
    same(l[3], 1.0);
    let r = rawm(Matrix4x4::look_to_rh_inv(&pt_of(e), &vec_of(d), &vec_of(u)))[3]; let f = frame(neg(d), u);
    holds(is(r, e) || is(r, [dot(f[0], e), dot(f[1], e), dot(f[2], e)]));
    same(r[3], 1.0);
}
