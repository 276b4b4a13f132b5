#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion, Rotation};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::transforms::*;
use aether_core::reference_frame::{Body, Pose, RotatingFrame, ICRF, ITRF, NED};
use aether_core::utils::{ToDegrees, ToRadians};
use prelude::*;

type A = ICRF<f64>;
type B = Body<f64>;
type N = NED<f64>;
type Q = Quaternion<f64, A, B>;
type D = DirectionCosineMatrix<f64, A, B>;
type E = Euler<f64, A, B>;
type M3 = [[f64; 3]; 3];

// ---------------------------------------------------------------- reference definitions
fn q(a: &[f64; 4]) -> Q {
    Q::new(a[0], a[1], a[2], a[3])
}
fn n2(a: &[f64; 4]) -> f64 {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
fn unit(a: &[f64; 4]) -> [f64; 4] {
    let n = n2(a).sqrt();
    [a[0] / n, a[1] / n, a[2] / n, a[3] / n]
}
/// Hamilton product
fn ham(a: &[f64; 4], b: &[f64; 4]) -> [f64; 4] {
    let [w, x, y, z] = *a;
    let [p, i, j, k] = *b;
    [w * p - x * i - y * j - z * k, w * i + x * p + y * k - z * j, w * j - x * k + y * p + z * i, w * k + x * j - y * i + z * p]
}
fn conj(a: &[f64; 4]) -> [f64; 4] {
    [a[0], -a[1], -a[2], -a[3]]
}
/// passive transform of a unit quaternion: q* (0,v) q
fn rot(a: &[f64; 4], v: &[f64; 3]) -> [f64; 3] {
    let r = ham(&ham(&conj(a), &[0.0, v[0], v[1], v[2]]), a);
    [r[1], r[2], r[3]]
}
/// columns are the images of the axes
fn mat(a: &[f64; 4]) -> M3 {
    let c0 = rot(a, &[1.0, 0.0, 0.0]);
    let c1 = rot(a, &[0.0, 1.0, 0.0]);
    let c2 = rot(a, &[0.0, 0.0, 1.0]);
    [[c0[0], c1[0], c2[0]], [c0[1], c1[1], c2[1]], [c0[2], c1[2], c2[2]]]
}
fn mm(a: &M3, b: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn mv(a: &M3, v: &[f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i] += a[i][j] * v[j];
        }
    }
    o
}
fn t(a: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[j][i];
        }
    }
    o
}
fn rx(a: f64) -> M3 {
    [[1.0, 0.0, 0.0], [0.0, a.cos(), a.sin()], [0.0, -a.sin(), a.cos()]]
}
fn ry(a: f64) -> M3 {
    [[a.cos(), 0.0, -a.sin()], [0.0, 1.0, 0.0], [a.sin(), 0.0, a.cos()]]
}
fn rz(a: f64) -> M3 {
    [[a.cos(), a.sin(), 0.0], [-a.sin(), a.cos(), 0.0], [0.0, 0.0, 1.0]]
}
fn d(m: &M3) -> D {
    D::new(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2])
}
fn cv(v: &[f64; 3]) -> Cartesian<f64, A> {
    Cartesian::new(v[0], v[1], v[2])
}
fn v3(v: &[f64; 3]) -> Vector<f64, 3> {
    Vector::new([v[0], v[1], v[2]])
}

// ---------------------------------------------------------------- quaternion
ob!("C06", "q_parts", (a: &[f64; 4]) -> [f64; 4], { let x = q(a); [x.w(), x.i(), x.j(), x.k()] } == { *a });
ob!("C06", "q_identity", () -> [f64; 4], { Q::identity().data.data } == { [1.0, 0.0, 0.0, 0.0] });
ob!("C06", "q_from_parts", (w: f64, v: &[f64; 3]) -> [f64; 4], { Q::from_parts(w, cv(v)).data.data } == { [w, v[0], v[1], v[2]] });
ob!("C06", "q_norm2", (a: &[f64; 4]) -> f64, { q(a).norm2() } == { n2(a) });
ob!("C06", "q_norm", (a: &[f64; 4]) -> f64, { q(a).norm() } == { n2(a).sqrt() });
ob!("C06", "q_normalized", (a: &[f64; 4]) -> [f64; 4], { q(a).normalized().data.data } == { unit(a) });
ob!("C06", "q_dot", (a: &[f64; 4], b: &[f64; 4]) -> f64, { q(a).dot(&q(b)) } == { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] });
ob!("C06", "q_conjugate", (a: &[f64; 4]) -> [f64; 4], { q(a).conjugate().data.data } == { conj(a) });
ob!("C06", "q_inverse_left", (a: &[f64; 4]) -> [f64; 4], { assume(n2(a) != 0.0); (q(a).inverse() * q(a)).data.data } == { [1.0, 0.0, 0.0, 0.0] });
ob!("C06", "q_inverse_right", (a: &[f64; 4]) -> [f64; 4], { assume(n2(a) != 0.0); (q(a) * q(a).inverse()).data.data } == { [1.0, 0.0, 0.0, 0.0] });
ob!("C06", "q_axis_angle", (v: &[f64; 3], h: f64) -> [f64; 4], {
    assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] != 0.0);
    Q::from_axis_angle(v3(v), 2.0 * h).data.data
} == {
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    [h.cos(), v[0] / n * h.sin(), v[1] / n * h.sin(), v[2] / n * h.sin()]
});
ob!("C06", "q_axis_angle_z_is_rz", (h: f64) -> M3, { D::from(&Q::from_axis_angle(v3(&[0.0, 0.0, 1.0]), 2.0 * h)).as_matrix().data } == { rz(2.0 * h) });
ob!("C06", "q_axis_angle_y_is_ry", (h: f64) -> M3, { D::from(&Q::from_axis_angle(v3(&[0.0, 1.0, 0.0]), 2.0 * h)).as_matrix().data } == { ry(2.0 * h) });
ob!("C06", "q_axis_angle_x_is_rx", (h: f64) -> M3, { D::from(&Q::from_axis_angle(v3(&[1.0, 0.0, 0.0]), 2.0 * h)).as_matrix().data } == { rx(2.0 * h) });
ob!("C06", "q_add", (a: &[f64; 4], b: &[f64; 4]) -> [f64; 4], { (q(a) + q(b)).data.data } == { [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]] });
ob!("C06", "q_sub", (a: &[f64; 4], b: &[f64; 4]) -> [f64; 4], { (q(a) - q(b)).data.data } == { [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]] });
ob!("C06", "q_neg", (a: &[f64; 4]) -> [f64; 4], { (-q(a)).data.data } == { [-a[0], -a[1], -a[2], -a[3]] });
ob!("C06", "q_scale", (a: &[f64; 4], k: f64) -> [f64; 4], { (q(a) * k).data.data } == { [a[0] * k, a[1] * k, a[2] * k, a[3] * k] });
ob!("C06", "q_div", (a: &[f64; 4], k: f64) -> [f64; 4], { (q(a) / k).data.data } == { [a[0] / k, a[1] / k, a[2] / k, a[3] / k] });
ob!("C06", "q_hamilton", (a: &[f64; 4], b: &[f64; 4]) -> [f64; 4], { q(a).mul_hamilton_same(&q(b)).data.data } == { ham(a, b) });

// ---------------------------------------------------------------- one passive convention
ob!("C06", "rot_vector", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { q(a).rotate_vector(v3(v)).data } == { rot(&unit(a), v) });
ob!("C06", "rot_vec", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { q(a).rotate_vec(&v3(v)).data } == { rot(&unit(a), v) });
ob!("C06", "rot_cart", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { q(a).rotate_cartesian(cv(v)).data.data } == { rot(&unit(a), v) });
ob!("C06", "rot_mul_vv", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { (q(a) * cv(v)).data.data } == { rot(&unit(a), v) });
ob!("C06", "rot_mul_rr", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { (&q(a) * &cv(v)).data.data } == { rot(&unit(a), v) });
ob!("C06", "rot_mul_rv", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { (&q(a) * cv(v)).data.data } == { rot(&unit(a), v) });
ob!("C06", "rot_mul_vr", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { (q(a) * &cv(v)).data.data } == { rot(&unit(a), v) });
ob!("C06", "rot_inverse_undoes", (a: &[f64; 4], v: &[f64; 3]) -> [f64; 3], { assume(n2(a) != 0.0); (q(a).inverse() * (q(a) * cv(v))).data.data } == { *v });
ob!("C06", "to_dcm", (a: &[f64; 4]) -> M3, { q(a).to_dcm().as_matrix().data } == { mat(&unit(a)) });
ob!("C06", "dcm_from_q", (a: &[f64; 4]) -> M3, { D::from(&q(&unit(a))).as_matrix().data } == { mat(&unit(a)) });
ob!("C06", "dcm_from_q_owned", (a: &[f64; 4]) -> M3, { D::from(q(&unit(a))).as_matrix().data } == { mat(&unit(a)) });
ob!("C06", "dcm_of_q_orthonormal", (a: &[f64; 4]) -> M3, { assume(n2(a) != 0.0); let m = q(a).to_dcm(); (m * m.transpose()).as_matrix().data } == { [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] });
// composition: acting with the product is acting with the factors in turn, right one first
ob!("C06", "compose_vv", (a: &[f64; 4], b: &[f64; 4]) -> M3, {
    let x: Quaternion<f64, A, N> = Quaternion::<f64, B, N>::new(b[0], b[1], b[2], b[3]) * q(a);
    assume(n2(a) != 0.0 && n2(b) != 0.0);
    DirectionCosineMatrix::from(x).as_matrix().data
} == { let s = n2(a) * n2(b); let mut o = mm(&mat(&unit(b)), &mat(&unit(a))); for r in o.iter_mut() { for e in r.iter_mut() { *e *= s; } } o });
ob!("C06", "compose_rr", (a: &[f64; 4], b: &[f64; 4]) -> [f64; 4], {
    (&Quaternion::<f64, B, N>::new(b[0], b[1], b[2], b[3]) * &q(a)).data.data
} == { ham(a, b) });
ob!("C06", "rotation_compose", (a: &[f64; 4], b: &[f64; 4]) -> [f64; 4], {
    Rotation::from_quaternion(q(a)).compose(&Rotation::from_quaternion(Quaternion::<f64, B, N>::new(b[0], b[1], b[2], b[3]))).quaternion().data.data
} == { ham(a, b) });
ob!("C06", "rotation_from_q", (a: &[f64; 4]) -> [f64; 4], { Rotation::from(&q(a)).quaternion().data.data } == { unit(a) });
// the quaternion of a rotation matrix is that rotation (up to sign)
fn outer(a: &[f64; 4]) -> [f64; 10] {
    [a[0] * a[0], a[0] * a[1], a[0] * a[2], a[0] * a[3], a[1] * a[1], a[1] * a[2], a[1] * a[3], a[2] * a[2], a[2] * a[3], a[3] * a[3]]
}
fn big(a: &[f64; 4]) -> bool {
    let n = n2(a);
    n != 0.0 && (a[0] * a[0] * 16.0 > n || a[1] * a[1] * 16.0 > n || a[2] * a[2] * 16.0 > n || a[3] * a[3] * 16.0 > n)
}
ob!("C06", "q_from_dcm", (a: &[f64; 4]) -> Option<[f64; 10]>, {
    assume(big(a));
    match Q::try_from(&d(&mat(&unit(a)))) { Ok(r) => Some(outer(&r.data.data)), Err(_) => None }
} == { Some(outer(&unit(a))) });
ob!("C06", "rotation_from_dcm", (a: &[f64; 4]) -> Option<[f64; 10]>, {
    assume(big(a));
    match Rotation::try_from(&d(&mat(&unit(a)))) { Ok(r) => Some(outer(&r.quaternion().data.data)), Err(_) => None }
} == { Some(outer(&unit(a))) });

// ---------------------------------------------------------------- kinematics
ob!("C06", "q_rate", (v: &[f64; 3], h: f64) -> [f64; 4], {
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    assume(n != 0.0);
    Quaternion::<f64, B, B>::from_angular_velocity(v3(v), 2.0 * h).data.data
} == {
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    [(n * h).cos(), v[0] / n * (n * h).sin(), v[1] / n * (n * h).sin(), v[2] / n * (n * h).sin()]
});
ob!("C06", "q_rate_zero", (dt: f64) -> [f64; 4], { Quaternion::<f64, B, B>::from_angular_velocity(v3(&[0.0; 3]), dt).data.data } == { [1.0, 0.0, 0.0, 0.0] });
ob!("C06", "rotation_integrate", (a: &[f64; 4], v: &[f64; 3], dt: f64) -> [f64; 4], {
    Rotation::from_quaternion(q(a)).integrate(v3(v), dt).quaternion().data.data
} == { ham(a, &Quaternion::<f64, B, B>::from_angular_velocity(v3(v), dt).data.data) });
// a z rate turns the frame about z by rate times time
ob!("C06", "rotation_integrate_z", (w: f64, dt: f64) -> M3, {
    assume(w > 0.0);
    let r = Rotation::<f64, A, B>::from_quaternion(Q::identity()).integrate(v3(&[0.0, 0.0, w]), 2.0 * dt);
    D::from(r.quaternion()).as_matrix().data
} == { rz(2.0 * (w * dt)) });
// third-order Taylor expansion of dq/dt = q w / 2 with constant angular acceleration
ob!("C06", "q_integrate", (a: &[f64; 4], w: &[f64; 3], al: &[f64; 3], dt: f64) -> [f64; 4], {
    assume(n2(a) == 1.0);
    q(a).integrate(cv(w), cv(al), dt).data.data
} == {
    let om = [0.0, w[0], w[1], w[2]];
    let ac = [0.0, al[0], al[1], al[2]];
    let qn = unit(a);
    let qw = ham(&qn, &om);
    let qww = ham(&qw, &om);
    let qwww = ham(&qww, &om);
    let qa = ham(&qn, &ac);
    let qaw = ham(&qa, &om);
    let qwa = ham(&qw, &ac);
    let mut o = [0.0; 4];
    for i in 0..4 {
        let d1 = qw[i] / 2.0;
        let d2 = qww[i] / 4.0 + qa[i] / 2.0;
        let d3 = qwww[i] / 8.0 + qaw[i] / 4.0 + qwa[i] / 2.0;
        o[i] = qn[i] + d1 * dt + d2 * dt * dt / 2.0 + d3 * dt * dt * dt / 6.0;
    }
    unit(&o)
});

// ---------------------------------------------------------------- direction cosine matrices
ob!("C06", "dcm_new", (m: &M3) -> M3, { d(m).as_matrix().data } == { *m });
ob!("C06", "dcm_from_matrix", (m: &M3) -> M3, { D::from_matrix(Matrix::new(*m)).as_matrix().data } == { *m });
ob!("C06", "dcm_from_matrix_ref", (m: &M3) -> M3, { D::from(&Matrix::new(*m)).as_matrix().data } == { *m });
ob!("C06", "dcm_entries", (m: &M3) -> M3, { let x = d(m); [[x.m11(), x.m12(), x.m13()], [x.m21(), x.m22(), x.m23()], [x.m31(), x.m32(), x.m33()]] } == { *m });
ob!("C06", "dcm_transpose", (m: &M3) -> M3, { d(m).transpose().as_matrix().data } == { t(m) });
ob!("C06", "dcm_x", (a: f64) -> M3, { D::rotate_x(a).as_matrix().data } == { rx(a) });
ob!("C06", "dcm_y", (a: f64) -> M3, { D::rotate_y(a).as_matrix().data } == { ry(a) });
ob!("C06", "dcm_z", (a: f64) -> M3, { D::rotate_z(a).as_matrix().data } == { rz(a) });
ob!("C06", "dcm_chain", (a: &M3, b: &M3) -> M3, { (DirectionCosineMatrix::<f64, B, N>::from_matrix(Matrix::new(*b)) * d(a)).as_matrix().data } == { mm(b, a) });
ob!("C06", "dcm_mul_vv", (m: &M3, v: &[f64; 3]) -> [f64; 3], { (d(m) * cv(v)).data.data } == { mv(m, v) });
ob!("C06", "dcm_mul_rv", (m: &M3, v: &[f64; 3]) -> [f64; 3], { (&d(m) * cv(v)).data.data } == { mv(m, v) });
ob!("C06", "dcm_mul_vr", (m: &M3, v: &[f64; 3]) -> [f64; 3], { (d(m) * &cv(v)).data.data } == { mv(m, v) });
ob!("C06", "dcm_mul_rr", (m: &M3, v: &[f64; 3]) -> [f64; 3], { (&d(m) * &cv(v)).data.data } == { mv(m, v) });

// ---------------------------------------------------------------- Euler angles (passive 3-2-1)
fn m321(r: f64, p: f64, y: f64) -> M3 {
    mm(&rx(r), &mm(&ry(p), &rz(y)))
}
ob!("C06", "euler_parts", (a: &[f64; 3]) -> [f64; 3], { let e = E::new(a[0], a[1], a[2]); [e.roll(), e.pitch(), e.yaw()] } == { *a });
ob!("C06", "euler_to_dcm", (a: &[f64; 3]) -> M3, { D::from(E::new(a[0], a[1], a[2])).as_matrix().data } == { m321(a[0], a[1], a[2]) });
ob!("C06", "euler_to_q", (h: &[f64; 3]) -> M3, { D::from(Q::from(&E::new(2.0 * h[0], 2.0 * h[1], 2.0 * h[2]))).as_matrix().data } == { m321(2.0 * h[0], 2.0 * h[1], 2.0 * h[2]) });
ob!("C06", "euler_to_q_unit", (h: &[f64; 3]) -> f64, { Q::from(&E::new(2.0 * h[0], 2.0 * h[1], 2.0 * h[2])).norm2() } == { 1.0 });
ob!("C06", "euler_from_dcm", (m: &M3) -> [f64; 3], { E::from(&d(m)).data.data } == { [m[1][2].atan2(m[2][2]), (-m[0][2]).asin(), m[0][1].atan2(m[0][0])] });
ob!("C06", "euler_from_q", (a: &[f64; 4]) -> [f64; 3], {
    assume(n2(a) != 0.0);
    E::from(&q(&unit(a))).data.data
} == {
    let m = mat(&unit(a));
    let s = -m[0][2];
    let p = if s >= 1.0 { core::f64::consts::FRAC_PI_2 } else if s <= -1.0 { -core::f64::consts::FRAC_PI_2 } else { s.asin() };
    [m[1][2].atan2(m[2][2]), p, m[0][1].atan2(m[0][0])]
});
// an attitude matrix rebuilt from its angles is the same matrix
ob!("C06", "euler_round_trip", (a: &[f64; 4]) -> M3, {
    let m = mat(&unit(a));
    assume(n2(a) != 0.0 && m[0][0] * m[0][0] + m[0][1] * m[0][1] != 0.0);
    D::from(E::from(&d(&m))).as_matrix().data
} == { mat(&unit(a)) });
fn z(a: &[f64; 3], b: &[f64; 3], f: impl Fn(f64, f64) -> f64) -> [f64; 3] {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])]
}
fn e(a: &[f64; 3]) -> E {
    E::new(a[0], a[1], a[2])
}
macro_rules! bin {
    ($n1:literal, $n2:literal, $n3:literal, $n4:literal, $op:tt) => {
        ob!("C06", $n1, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (e(a) $op e(b)).data.data } == { z(a, b, |x, y| x $op y) });
        ob!("C06", $n2, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (&e(a) $op &e(b)).data.data } == { z(a, b, |x, y| x $op y) });
        ob!("C06", $n3, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (&e(a) $op e(b)).data.data } == { z(a, b, |x, y| x $op y) });
        ob!("C06", $n4, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (e(a) $op &e(b)).data.data } == { z(a, b, |x, y| x $op y) });
    };
}
bin!("euler_add_vv", "euler_add_rr", "euler_add_rv", "euler_add_vr", +);
bin!("euler_sub_vv", "euler_sub_rr", "euler_sub_rv", "euler_sub_vr", -);
ob!("C06", "euler_add_assign", (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { let mut x = e(a); x += e(b); x.data.data } == { z(a, b, |x, y| x + y) });
ob!("C06", "euler_add_assign_r", (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { let mut x = e(a); x += &e(b); x.data.data } == { z(a, b, |x, y| x + y) });
ob!("C06", "euler_neg", (a: &[f64; 3]) -> [f64; 3], { (-e(a)).data.data } == { [-a[0], -a[1], -a[2]] });
ob!("C06", "euler_neg_r", (a: &[f64; 3]) -> [f64; 3], { (-&e(a)).data.data } == { [-a[0], -a[1], -a[2]] });
ob!("C06", "euler_scale", (a: &[f64; 3], k: f64) -> [f64; 3], { (e(a) * k).data.data } == { [a[0] * k, a[1] * k, a[2] * k] });
ob!("C06", "euler_scale_r", (a: &[f64; 3], k: f64) -> [f64; 3], { (&e(a) * k).data.data } == { [a[0] * k, a[1] * k, a[2] * k] });
ob!("C06", "euler_div", (a: &[f64; 3], k: f64) -> [f64; 3], { (e(a) / k).data.data } == { [a[0] / k, a[1] / k, a[2] / k] });
ob!("C06", "euler_div_r", (a: &[f64; 3], k: f64) -> [f64; 3], { (&e(a) / k).data.data } == { [a[0] / k, a[1] / k, a[2] / k] });
const R: f64 = core::f64::consts::PI / 180.0;
ob!("C06", "euler_from_degrees", (a: &[f64; 3]) -> [f64; 3], { E::from_degrees_vec(v3(a)).data.data } == { [a[0] * R, a[1] * R, a[2] * R] });
ob!("C06", "euler_to_degrees", (a: &[f64; 3]) -> [f64; 3], { e(a).to_degrees_vec().data } == { [a[0] / R, a[1] / R, a[2] / R] });
ob!("C06", "euler_degrees_round", (a: &[f64; 3]) -> [f64; 3], { E::from_degrees_vec(v3(a)).to_degrees_vec().data } == { *a });
ob!("C06", "deg_arr", (a: &[f64; 3]) -> [f64; 3], { <[f64; 3] as ToRadians>::to_radians(*a) } == { [a[0] * R, a[1] * R, a[2] * R] });
ob!("C06", "rad_arr", (a: &[f64; 3]) -> [f64; 3], { <[f64; 3] as ToDegrees>::to_degrees(*a) } == { [a[0] / R, a[1] / R, a[2] / R] });
ob!("C06", "deg", (a: f64) -> f64, { <f64 as ToRadians>::to_radians(a) } == { a * R });
ob!("C06", "rad", (a: f64) -> f64, { <f64 as ToDegrees>::to_degrees(a) } == { a / R });
ob!("C06", "deg_f32", (a: f32) -> f32, { <f32 as ToRadians>::to_radians(a) } == { a * core::f32::consts::PI / 180.0 });
ob!("C06", "rad_f32", (a: f32) -> f32, { <f32 as ToDegrees>::to_degrees(a) } == { a * 180.0 / core::f32::consts::PI });

// ---------------------------------------------------------------- named frame transforms
ob!("C06", "rate_matrix", (w: &[f64; 3], v: &[f64; 3]) -> [f64; 3], { mv(&angular_rate_dcm(w[0], w[1], w[2]).data, v) } == { [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]] });
ob!("C06", "aircraft_wind", (al: f64, be: f64) -> M3, { aircraft_wind_to_body(al, be).data } == { mm(&rz(be), &ry(-al)) });
ob!("C06", "aeroballistic_wind", (al: f64, ph: f64) -> M3, { aeroballistic_wind_to_body(al, ph).data } == { mm(&ry(-al), &t(&rx(ph))) });
ob!("C06", "flight_path", (chi: f64, ga: f64) -> M3, { flight_path_to_geographic(chi, ga).data } == { mm(&ry(ga), &rz(chi)) });
// the Body -> NED matrix is the transpose of the 3-2-1 matrix; one entry stands for the direction (known finding), the next obligation pins all nine values
ob!("C06", "body_to_ned_direction", (a: &[f64; 3]) -> f64, { body_to_ned(a[0], a[1], a[2]).m31() } == { t(&m321(a[0], a[1], a[2]))[2][0] });
ob!("C06", "body_to_ned_angles", (a: &[f64; 3]) -> M3, { body_to_ned(a[0], a[1], a[2]).as_matrix().data } == { m321(a[0], a[1], a[2]) });
ob!("C06", "itrf_to_ned", (lat: f64, lon: f64) -> M3, { itrf_to_ned(lat, lon).as_matrix().data } == {
    [[-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()], [-lon.sin(), lon.cos(), 0.0], [-lat.cos() * lon.cos(), -lat.cos() * lon.sin(), -lat.sin()]]
});
ob!("C06", "icrf_to_itrf", (tm: f64, w: &[f64; 3]) -> M3, { icrf_to_itrf(tm, Cartesian::new(w[0], w[1], w[2])).as_matrix().data } == { rz(w[2] * tm) });
ob!("C06", "itrf_to_icrf", (tm: f64, w: &[f64; 3]) -> M3, { itrf_to_icrf(tm, Cartesian::new(w[0], w[1], w[2])).as_matrix().data } == { rz(-(w[2] * tm)) });
ob!("C06", "icrf_itrf_inverse", (tm: f64, w: &[f64; 3]) -> M3, {
    (icrf_to_itrf(tm, Cartesian::new(w[0], w[1], w[2])) * itrf_to_icrf(tm, Cartesian::new(w[0], w[1], w[2]))).as_matrix().data
} == { [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] });
ob!("C06", "itrf_orientation", (e0: f64, tm: f64) -> [f64; 4], { ITRF { epoch: e0 }.orientation_at(tm).data.data } == {
    let h = (tm - e0) * 7.2921150e-5 * 0.5;
    [h.cos(), 0.0, 0.0, h.sin()]
});
ob!("C06", "itrf_rate", (e0: f64) -> [f64; 4], { let f = ITRF { epoch: e0 }; let w = f.angular_velocity(); [w.x(), w.y(), w.z(), f.epoch()] } == { [0.0, 0.0, 7.2921150e-5, e0] });
ob!("C06", "pose_identity", () -> ([f64; 3], M3), { let p = Pose::<f64, B>::identity(); (p.r_cm_in_assembly.data.data, p.R_local_to_assembly.as_matrix().data) } == { ([0.0; 3], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]) });
