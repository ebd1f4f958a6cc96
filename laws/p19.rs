// Projection matrices. Bounds are given as distances from the axis: left and bottom are subtracted.
type V = [S; 3];
fn clip(m: Matrix4x4<S>, v: V) -> [S; 4] { raw(m * vec_of([v[0], v[1], v[2], 1.0])) }
pub fn law_orthographic(l: S, r: S, b: S, t: S, n: S, f: S, v: V) {
    assume(r + l != 0.0); assume(t + b != 0.0); assume(f - n != 0.0);
    let e = [(2.0 * v[0] - (r - l)) / (r + l), (2.0 * v[1] - (t - b)) / (t + b), (-2.0 * v[2] - (f + n)) / (f - n), 1.0];
    same(clip(Matrix4x4::from_orthographic(l, r, b, t, n, f), v), e);
}
pub fn law_orthographic_corners(l: S, r: S, b: S, t: S, n: S, f: S) {
    assume(r + l != 0.0); assume(t + b != 0.0); assume(f - n != 0.0);
    let m = Matrix4x4::from_orthographic(l, r, b, t, n, f);
    same(clip(m, [-l, -b, -n]), [-1.0, -1.0, -1.0, 1.0]);
    same(clip(m, [r, t, -f]), [1.0, 1.0, 1.0, 1.0]);
}
pub fn law_perspective(l: S, r: S, b: S, t: S, n: S, f: S, v: V) {
    assume(r + l != 0.0); assume(t + b != 0.0); assume(f - n != 0.0);
    let e = [(2.0 * n * v[0] + (r - l) * v[2]) / (r + l), (2.0 * n * v[1] + (t - b) * v[2]) / (t + b), (-(f + n) * v[2] - 2.0 * f * n) / (f - n), -v[2]];
    same(clip(Matrix4x4::from_perspective(l, r, b, t, n, f), v), e);
}
pub fn law_perspective_corners(l: S, r: S, b: S, t: S, n: Pos<S>, f: Pos<S>) {
    let (n, f) = (n.0, f.0);
    assume(r + l != 0.0); assume(t + b != 0.0); assume(f - n != 0.0);
    let m = Matrix4x4::from_perspective(l, r, b, t, n, f);
    same(clip(m, [-l, -b, -n]), [-n, -n, -n, n]);
    same(clip(m, [r * f / n, t * f / n, -f]), [f, f, f, f]);
}
pub fn law_vfov(a: S, q: S, n: S, f: S) {
    let h = S::tan(a / 2.0);
    assume(h != 0.0); assume(q != 0.0); assume(n != 0.0); assume(f - n != 0.0);
    let e = [[1.0 / (h * q), 0.0, 0.0, 0.0], [0.0, 1.0 / h, 0.0, 0.0], [0.0, 0.0, -(f + n) / (f - n), -1.0], [0.0, 0.0, -2.0 * f * n / (f - n), 0.0]];
    same(rawm(Matrix4x4::from_perspective_vfov(Radians(a), q, n, f)), e);
    same(rawm(Matrix4x4::from_perspective(n * h * q, n * h * q, n * h, n * h, n, f)), e);
}
pub fn law_vfov_degrees(a: S, q: S, n: S, f: S) { 
    let r = Radians::from(Degrees(a));
    same(rawm(Matrix4x4::from_perspective_vfov(Degrees(a), q, n, f)), rawm(Matrix4x4::from_perspective_vfov(r, q, n, f)));
}
