// Norms, inverses, division, products and interpolation of real quaternions.
type A = [S; 4];
fn q(a: A) -> Quaternion<S> { quat_of(a) }
fn n2(a: A) -> S { a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] }
const ID: A = [1.0, 0.0, 0.0, 0.0];
pub fn law_norm(a: A, b: A) {
    let n = S::sqrt(n2(a));
    same(q(a).norm(), n); same(q(a).modulus(), n); same(q(a).magnitude(), n); same(q(a).l2_norm(), n); same(Normed::norm(&q(a)), n); same(Normed::norm_squared(&q(a)), n2(a));
    let d = S::sqrt(n2(z2(a, b, 0.0, |x, y| x - y)));
    same(q(a).metric_distance(&q(b)), d); same(q(a).distance(&q(b)), d); same(q(a).distance_squared(&q(b)), d * d);
    same(q(a).l1_norm(), S::abs(a[0]) + S::abs(a[1]) + S::abs(a[2]) + S::abs(a[3]));
}
pub fn law_inverse(a: A) {
    match q(a).try_inverse() { Some(i) => { same(rawq(q(a) * i), ID); same(rawq(i * q(a)), ID) } None => {} }
}
pub fn law_inverse_exists(a: A) {
    assume(n2(a) > 256.0 * S::EPSILON * S::EPSILON);
    holds(q(a).is_invertible()); same(q(a).try_inverse().is_some(), true);
    match q(a).try_inverse() { Some(i) => same(rawq(q(a).inverse()), rawq(i)), None => never() }
}
pub fn law_invertible_means_inverse(a: A) { same(q(a).is_invertible(), q(a).try_inverse().is_some()); }
pub fn law_zero_not_invertible() { same(q([0.0; 4]).try_inverse().is_none(), true); same(q([0.0; 4]).is_invertible(), false); }
pub fn law_division(a: A, b: A) {
    assume(n2(b) > 256.0 * S::EPSILON * S::EPSILON);
    match q(a).div_left(&q(b)) { Some(x) => same(rawq(q(b) * x), a), None => never() }
    match q(a).div_right(&q(b)) { Some(x) => same(rawq(x * q(b)), a), None => never() }
}
pub fn law_division_zero(a: A) { same(q(a).div_left(&q([0.0; 4])).is_none(), true); same(q(a).div_right(&q([0.0; 4])).is_none(), true); }
pub fn law_inner_outer(a: A, b: A) {
    let (i, o) = (q(a).inner(&q(b)), q(a).outer(&q(b)));
    same(rawq(i + o), rawq(q(a) * q(b))); same(rawq(i - o), rawq(q(b) * q(a)));
}
pub fn law_half(a: A) { same(rawq(q(a).half()), z1(a, 0.0, |x| x / 2.0)); }
pub fn law_lerp(a: A, b: A, t: S) {
    same(rawq(q(a).lerp(&q(b), t)), z2(a, b, 0.0, |x, y| x + (y - x) * t));
    same(rawq(q(a).lerp(&q(b), 0.0)), a); same(rawq(q(a).lerp(&q(b), 1.0)), b);
}
pub fn law_nlerp(a: A, b: A, t: S) {
    let l = z2(a, b, 0.0, |x, y| x + (y - x) * t);
    assume(n2(l) > 0.0);
    same(rawq(q(a).nlerp(&q(b), t)), z1(l, 0.0, |x| x / S::sqrt(n2(l))));
}
pub fn law_project(a: A, b: A) {
    assume(n2(b) > 0.0);
    let p = q(a).project(&q(b));
    same(q(a).reject(&q(b)).dot(&q(b)), 0.0);
    same(rawq(p + q(a).reject(&q(b))), a);
    same(rawq(p.project(&q(b))), rawq(p));
    same(rawq(q(b).project(&q(b))), b);
}
pub fn law_finite(a: A) { same(q(a).is_finite(), a[0].is_finite() && a[1].is_finite() && a[2].is_finite() && a[3].is_finite()); }
pub fn law_from_vector(a: A) { same(rawq(Quaternion::from(Vector4::new(a[0], a[1], a[2], a[3]))), a); same(rawq(Quaternion::from(&Vector4::new(a[0], a[1], a[2], a[3]))), a); }
