// Perspective and orthographic projections. Left and bottom bounds are distances: the planes lie at minus them.
type V = [S; 3];
struct B { l: S, r: S, b: S, t: S, n: S, f: S }
fn persp(b: &B) -> Perspective3<S> { Perspective3::new(b.l, b.r, b.b, b.t, b.n, b.f) }
fn ortho(b: &B) -> Orthographic3<S> { Orthographic3::new(b.l, b.r, b.b, b.t, b.n, b.f) }
fn ok(b: &B) { assume(b.r + b.l != 0.0); assume(b.t + b.b != 0.0); assume(b.f - b.n != 0.0); }
fn un(u: Unit<Vector3<S>>) -> V { arr(u) }
pub fn law_perspective(l: S, r: S, b: S, t: S, n: NonZero<S>, f: S, x: V) {
    let b = &B { l, r, b, t, n: n.0, f }; ok(b); assume(x[2] != 0.0);
    let p = persp(b); let w = -1.0 / x[2];
    let e = [(2.0 * b.n * x[0] + (b.r - b.l) * x[2]) / (b.r + b.l) * w, (2.0 * b.n * x[1] + (b.t - b.b) * x[2]) / (b.t + b.b) * w, (-(b.f + b.n) * x[2] - 2.0 * b.f * b.n) / (b.f - b.n) * w];
    same(rawp(p.project_point(&pt_of(x))), e); same(raw(p.project_vector(&vec_of(x))), e);
    forms!(rawp, p, pt_of(x), e); forms!(raw, p, vec_of(x), e);
}
pub fn law_perspective_matrix(l: S, r: S, b: S, t: S, n: S, f: S) {
    let b = &B { l, r, b, t, n, f }; ok(b);
    let p = persp(b); let m = rawm(Matrix4x4::from_perspective(b.l, b.r, b.b, b.t, b.n, b.f));
    same(rawm(*p.matrix()), m); same(rawm(p.to_projective_matrix()), m); same(rawm(p.to_transform().to_matrix()), m); same(rawm(*AsRef::<Matrix4x4<S>>::as_ref(&p)), m); same(rawm(Matrix4x4::from(p)), m);
}
pub fn law_perspective_bounds(l: NonZero<S>, r: S, b: NonZero<S>, t: S, n: NonZero<S>, f: NonZero<S>) {
    let b = &B { l: l.0, r, b: b.0, t, n: n.0, f: f.0 }; ok(b);
    let p = persp(b);
    same((p.left(), p.right(), p.bottom(), p.top(), p.near(), p.far()), (b.l, b.r, b.b, b.t, b.n, b.f));
    same(p.aspect_ratio(), (b.r + b.l) / (b.t + b.b));
}
/// a bound of zero does not disturb the opposite one
pub fn law_perspective_bounds_zero(r: NonZero<S>, t: NonZero<S>, n: NonZero<S>, f: NonZero<S>) {
    let b = &B { l: 0.0, r: r.0, b: 0.0, t: t.0, n: n.0, f: f.0 }; ok(b);
    let p = persp(b); same((p.right(), p.top(), p.near(), p.far()), (b.r, b.t, b.n, b.f)); same(p.aspect_ratio(), b.r / b.t);
}
pub fn law_perspective_unproject(l: NonZero<S>, r: S, b: NonZero<S>, t: S, n: NonZero<S>, f: NonZero<S>, x: V) {
    let b = &B { l: l.0, r, b: b.0, t, n: n.0, f: f.0 }; ok(b); assume(x[2] != 0.0);
    let p = persp(b);
    same(rawp(p.unproject_point(&p.project_point(&pt_of(x)))), x); same(raw(p.unproject_vector(&p.project_vector(&vec_of(x)))), x);
}
pub fn law_perspective_project(l: NonZero<S>, r: S, b: NonZero<S>, t: S, n: NonZero<S>, f: NonZero<S>, x: V) {
    let b = &B { l: l.0, r, b: b.0, t, n: n.0, f: f.0 }; ok(b);
    assume((b.f + b.n) - (b.f - b.n) * x[2] != 0.0);
    let p = persp(b);
    same(rawp(p.project_point(&p.unproject_point(&pt_of(x)))), x); same(raw(p.project_vector(&p.unproject_vector(&vec_of(x)))), x);
}
pub fn law_vfov_matrix(a: S, q: NonZero<S>, n: NonZero<S>, f: S) {
    assume(S::tan(a / 2.0) != 0.0); assume(f - n.0 != 0.0);
    same(rawm(Perspective3::from_vfov(Radians(a), q.0, n.0, f).to_projective_matrix()), rawm(Matrix4x4::from_perspective_vfov(Radians(a), q.0, n.0, f)));
    same(Perspective3::from_vfov(Radians(a), q.0, n.0, f).aspect_ratio(), q.0);
}
pub fn law_vfov_degrees(a: S, q: S, n: S, f: S) { same(rawm(Perspective3::from_vfov(Degrees(a), q, n, f).to_projective_matrix()), rawm(Perspective3::from_vfov(Radians::from(Degrees(a)), q, n, f).to_projective_matrix())); }
/// the field of view read back is the one put in, also beyond a right angle
pub fn law_vfov(h: S, q: Pos<S>, n: Pos<S>, f: S) {
    assume(S::sin(h) > 0.0); assume(S::cos(h) > 0.0); assume(f > n.0);
    let v = Perspective3::from_vfov(Radians(h * 2.0), q.0, n.0, f).vfov().0;
    same(S::cos(v), 2.0 * S::cos(h) * S::cos(h) - 1.0); same(S::sin(v), 2.0 * S::sin(h) * S::cos(h));
}
/// of any frustum: the sum of the angles to its top and bottom planes
pub fn law_vfov_bounds(l: S, r: S, b: Pos<S>, t: Pos<S>, n: Pos<S>, f: S) {
    let b = &B { l, r, b: b.0, t: t.0, n: n.0, f }; ok(b);
    let v = persp(b).vfov().0;
    let (x, y) = (b.n * b.n - b.t * b.b, b.n * (b.t + b.b)); let h = S::sqrt(x * x + y * y);
    same(S::cos(v) * h, x); same(S::sin(v) * h, y);
}
pub fn law_orthographic(l: S, r: S, b: S, t: S, n: S, f: S, x: V) {
    let b = &B { l, r, b, t, n, f }; ok(b);
    let p = ortho(b);
    let v = [2.0 * x[0] / (b.r + b.l), 2.0 * x[1] / (b.t + b.b), -2.0 * x[2] / (b.f - b.n)];
    let e = [v[0] - (b.r - b.l) / (b.r + b.l), v[1] - (b.t - b.b) / (b.t + b.b), v[2] - (b.f + b.n) / (b.f - b.n)];
    same(rawp(p.project_point(&pt_of(x))), e); same(raw(p.project_vector(&vec_of(x))), v);
    forms!(rawp, p, pt_of(x), e); forms!(raw, p, vec_of(x), v);
}
pub fn law_orthographic_matrix(l: S, r: S, b: S, t: S, n: S, f: S) {
    let b = &B { l, r, b, t, n, f }; ok(b);
    let p = ortho(b); let m = rawm(Matrix4x4::from_orthographic(b.l, b.r, b.b, b.t, b.n, b.f));
    same(rawm(*p.matrix()), m); same(rawm(p.to_projective_matrix()), m); same(rawm(p.to_transform().to_matrix()), m); same(rawm(*AsRef::<Matrix4x4<S>>::as_ref(&p)), m); same(rawm(Matrix4x4::from(p)), m);
}
pub fn law_orthographic_bounds(l: NonZero<S>, r: S, b: NonZero<S>, t: S, n: NonZero<S>, f: S) {
    let b = &B { l: l.0, r, b: b.0, t, n: n.0, f }; ok(b);
    let p = ortho(b);
    same((p.left(), p.right(), p.bottom(), p.top(), p.near(), p.far()), (b.l, b.r, b.b, b.t, b.n, b.f));
}
pub fn law_orthographic_bounds_zero(r: NonZero<S>, t: NonZero<S>, f: NonZero<S>) {
    let b = &B { l: 0.0, r: r.0, b: 0.0, t: t.0, n: 0.0, f: f.0 }; ok(b);
    let p = ortho(b); same((p.right(), p.top(), p.far()), (b.r, b.t, b.f));
}
pub fn law_orthographic_unproject(l: NonZero<S>, r: S, b: NonZero<S>, t: S, n: NonZero<S>, f: S, x: V) {
    let b = &B { l: l.0, r, b: b.0, t, n: n.0, f }; ok(b);
    let p = ortho(b);
    same(rawp(p.unproject_point(&p.project_point(&pt_of(x)))), x); same(raw(p.unproject_vector(&p.project_vector(&vec_of(x)))), x);
    same(rawp(p.project_point(&p.unproject_point(&pt_of(x)))), x); same(raw(p.project_vector(&p.unproject_vector(&vec_of(x)))), x);
}
/// named directions and bounds of view space and clip space
pub fn law_frames(l: S, r: S, b: S, t: S, n: S, f: S) {
    let b = &B { l, r, b, t, n, f }; ok(b);
    let (x, y, z, g) = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]); let c = ((-1.0, 1.0), (-1.0, 1.0), (-1.0, 1.0));
    let p = persp(b);
    same((un(p.view_unit_right()), un(p.view_unit_up()), un(p.view_unit_depth()), un(p.view_unit_gaze())), (x, y, z, g));
    same((un(p.clip_unit_right()), un(p.clip_unit_up()), un(p.clip_unit_depth()), un(p.clip_unit_gaze())), (x, y, z, z)); same(p.clip_ndc_bounds(), c);
    let p = ortho(b);
    same((un(p.view_unit_right()), un(p.view_unit_up()), un(p.view_unit_depth()), un(p.view_unit_gaze())), (x, y, z, g));
    same((un(p.clip_unit_right()), un(p.clip_unit_up()), un(p.clip_unit_depth()), un(p.clip_unit_gaze())), (x, y, z, z)); same(p.clip_ndc_bounds(), c);
}
