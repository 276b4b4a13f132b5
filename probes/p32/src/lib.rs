#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::ITRF;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::*;
use prelude::*;
const PI: f64 = core::f64::consts::PI;
type C = Cartesian<f64, ITRF<f64>>;
fn c(v: &[f64; 3]) -> C { Cartesian::new(v[0], v[1], v[2]) }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn len(a: [f64; 3]) -> f64 { dot(a, a).sqrt() }
fn row(m: &Matrix<f64, 4, 4>, i: usize) -> [f64; 3] { [m.data[i][0], m.data[i][1], m.data[i][2]] }
fn view(m: &Matrix<f64, 4, 4>, p: [f64; 3]) -> [f64; 3] { [dot(row(m, 0), p) + m.data[0][3], dot(row(m, 1), p) + m.data[1][3], dot(row(m, 2), p) + m.data[2][3]] }
fn apply(m: &Matrix<f64, 4, 4>, p: [f64; 4]) -> [f64; 4] { let mut o = [0.0; 4]; let mut i = 0; while i < 4 { o[i] = m.data[i][0] * p[0] + m.data[i][1] * p[1] + m.data[i][2] * p[2] + m.data[i][3] * p[3]; i += 1; } o }

// ------------------------------------------------------------------ view
ob!("C32", "look_at", (e: &[f64; 3], f: &[f64; 3], u: &[f64; 3], p: &[f64; 3]) -> [f64; 3], {
    let t = [e[0] + f[0], e[1] + f[1], e[2] + f[2]];
    assume(len(*f) > 1.0e-3);
    assume(len(cross(*f, *u)) > 1.0e-3);
    view(&look_at(&c(e), &c(&t), &c(u)), [e[0] + p[0], e[1] + p[1], e[2] + p[2]])
} == {
    let k = len(*f);
    let g = [f[0] / k, f[1] / k, f[2] / k];
    let s = cross(g, *u);
    let n = len(s);
    let r = [s[0] / n, s[1] / n, s[2] / n];
    [dot(r, *p), dot(cross(r, g), *p), -dot(g, *p)]
});
ob!("C32", "look_at_eye", (e: &[f64; 3], t: &[f64; 3], u: &[f64; 3]) -> ([f64; 3], [f64; 4]), { let m = look_at(&c(e), &c(t), &c(u)); (view(&m, *e), m.data[3]) } == { ([0.0; 3], [0.0, 0.0, 0.0, 1.0]) });
ob!("C32", "look_at_target", (e: &[f64; 3], f: &[f64; 3], u: &[f64; 3]) -> [f64; 3], {
    let t = [e[0] + f[0], e[1] + f[1], e[2] + f[2]];
    assume(len(*f) > 1.0e-3);
    assume(len(cross(*f, *u)) > 1.0e-3);
    view(&look_at(&c(e), &c(&t), &c(u)), t)
} == { [0.0, 0.0, -len(*f)] });
ob!("C32", "look_at_proper", (e: &[f64; 3], f: &[f64; 3], u: &[f64; 3]) -> [f64; 7], {
    let t = [e[0] + f[0], e[1] + f[1], e[2] + f[2]];
    assume(len(*f) > 1.0e-3);
    assume(len(cross(*f, *u)) > 1.0e-3);
    let m = look_at(&c(e), &c(&t), &c(u));
    let (x, y, z) = (row(&m, 0), row(&m, 1), row(&m, 2));
    [dot(x, x), dot(y, y), dot(z, z), dot(x, y), dot(y, z), dot(z, x), dot(cross(x, y), z)]
} == { [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0] });

// ------------------------------------------------------------------ projection
ob!("C32", "perspective", (p: &[f64; 3], r: f64, h: f64, n: f64, f: f64) -> [f64; 4], { apply(&perspective(r, 2.0 * h, n, f), [p[0], p[1], p[2], 1.0]) } == {
    let t = h.tan();
    [p[0] / (r * t), p[1] / t, ((f + n) * p[2] + 2.0 * f * n) / (n - f), -p[2]]
});
ob!("C32", "perspective_planes", (r: f64, h: f64, n: f64, f: f64) -> (f64, f64), { assume(n > 0.0 && f > n); let m = perspective(r, 2.0 * h, n, f); let (a, b) = (apply(&m, [0.0, 0.0, -n, 1.0]), apply(&m, [0.0, 0.0, -f, 1.0])); (a[2] / a[3], b[2] / b[3]) } == { (-1.0, 1.0) });
ob!("C32", "perspective_f32", (r: f32, h: f32, n: f32, f: f32) -> [f64; 5], { let m = perspective(r, 2.0 * h, n, f).data; [m[0][0] as f64, m[1][1] as f64, m[2][2] as f64, m[2][3] as f64, m[3][2] as f64] } == { let t = h.tan(); let k = 1.0 / (n - f); [(1.0 / t / r) as f64, (1.0 / t) as f64, ((f + n) * k) as f64, (2.0 * f * n * k) as f64, -1.0] });
ob!("C32", "look_at_perspective", (e: &[f64; 3], t: &[f64; 3], u: &[f64; 3], k: &[f64; 4]) -> ([[f64; 4]; 4], [[f64; 4]; 4]), { let (a, b) = look_at_perspective(&c(e), &c(t), &c(u), k[0], k[1], k[2], k[3]); (a.data, b.data) } == { (look_at(&c(e), &c(t), &c(u)).data, perspective(k[0], k[1], k[2], k[3]).data) });
ob!("C32", "translate", (m: &[[f64; 4]; 4], t: &[f64; 3], p: &[f64; 3]) -> [f64; 3], { view(&translate(&Matrix::new(*m), &Vector::new(*t)), *p) } == { view(&Matrix::new(*m), [p[0] + t[0], p[1] + t[1], p[2] + t[2]]) });
ob!("C32", "translate_last_row", (m: &[[f64; 4]; 4], t: &[f64; 3]) -> [f64; 4], { translate(&Matrix::new(*m), &Vector::new(*t)).data[3] } == { m[3] });

// ------------------------------------------------------------------ orbit camera
type Cam = OrbitCamera<f64>;
fn cam(y: f64, p: f64) -> Cam { let mut k = Cam::default(); k.set_angles(2.0 * y, 2.0 * p); k }
fn mapped(y: f64, p: f64) -> [f64; 3] { [p.cos() * y.cos(), p.cos() * y.sin(), p.sin()] }
ob!("C32", "camera_forward", (y: f64, p: f64) -> [f64; 3], { cam(y, p).forward().data } == { mapped(2.0 * y, 2.0 * p) });
ob!("C32", "camera_angles_kept", (y: f64, p: f64) -> [f64; 2], { let k = cam(y, p); [k.yaw, k.pitch] } == { [2.0 * y, 2.0 * p] });
ob!("C32", "camera_position", (y: f64, p: f64, d: f64, t: &[f64; 3]) -> [f64; 3], { let mut k = cam(y, p); k.target = Vector::new(*t); k.distance = d; k.position().data } == { let f = mapped(2.0 * y, 2.0 * p); [t[0] - d * f[0], t[1] - d * f[1], t[2] - d * f[2]] });
/// (cos, sin) of the sum of two angles
fn plus(a: f64, b: f64) -> (f64, f64) { (a.cos() * b.cos() - a.sin() * b.sin(), a.sin() * b.cos() + a.cos() * b.sin()) }
ob!("C32", "camera_orbit_yaw", (y: f64, p: f64, a: f64) -> [f64; 3], { let mut k = cam(y, p); k.apply_orbit_angles(2.0 * a, 0.0); k.forward().data } == { let (c, s) = plus(2.0 * y, 2.0 * a); let p = 2.0 * p; [p.cos() * c, p.cos() * s, p.sin()] });
ob!("C32", "camera_orbit_pitch", (p: f64, b: f64) -> [f64; 3], { let q = 2.0 * p; assume(q.cos() > 0.0 && q.cos() * q.cos() > 1.0e-15); let mut k = cam(0.0, p); k.apply_orbit_angles(0.0, 2.0 * b); k.forward().data } == { let (c, s) = plus(2.0 * p, 2.0 * b); [c, 0.0, s] });
ob!("C32", "camera_orbit_is_two_turns", (a: f64, b: f64) -> [f64; 3], { let mut k = Cam::default(); k.apply_orbit_angles(2.0 * a, 2.0 * b); k.forward().data } == { mapped(2.0 * a, 2.0 * b) });
ob!("C32", "camera_telemetry", (a: f64, b: f64) -> [f64; 2], { let mut k = Cam::default(); k.apply_orbit_angles(2.0 * a, 2.0 * b); [k.yaw, k.pitch] } == { let f = mapped(2.0 * a, 2.0 * b); [f[1].atan2(f[0]), f[2].max(-1.0).min(1.0).asin()] });
ob!("C32", "camera_pixels", (x: f64, y: f64, s: f64) -> [f64; 3], { let mut k = Cam::default(); k.orbit_sens = s; k.apply_orbit_pixels(x, y); k.forward().data } == { let mut k = Cam::default(); k.apply_orbit_angles(-x * s, -y * s); k.forward().data });
ob!("C32", "camera_world", (a: f64, b: f64) -> [f64; 3], { let mut k = Cam::default(); k.apply_orbit_world_angles(2.0 * a, 2.0 * b); k.forward().data } == { let (a, b) = (2.0 * a, 2.0 * b); [b.cos(), a.sin() * b.sin(), -a.cos() * b.sin()] });
ob!("C32", "camera_world_pixels", (x: f64, y: f64, s: f64) -> [f64; 3], { let mut k = Cam::default(); k.orbit_sens = s; k.apply_orbit_world_pixels(x, y); k.forward().data } == { let mut k = Cam::default(); k.apply_orbit_world_angles(-y * s, -x * s); k.forward().data });
ob!("C32", "camera_world_x_after", (y: f64, p: f64, a: f64) -> [f64; 3], { let mut k = cam(y, p); k.apply_orbit_world_angles(2.0 * a, 0.0); k.forward().data } == { let (f, c, s) = (mapped(2.0 * y, 2.0 * p), (2.0 * a).cos(), (2.0 * a).sin()); [f[0], c * f[1] - s * f[2], s * f[1] + c * f[2]] });
ob!("C32", "camera_world_y_after", (y: f64, p: f64, b: f64) -> [f64; 3], { let mut k = cam(y, p); k.apply_orbit_world_angles(0.0, 2.0 * b); k.forward().data } == { let (f, c, s) = (mapped(2.0 * y, 2.0 * p), (2.0 * b).cos(), (2.0 * b).sin()); [c * f[0] + s * f[2], f[1], c * f[2] - s * f[0]] });
ob!("C32", "camera_world_after", (y: f64, a: f64, b: f64) -> [f64; 3], { let mut k = cam(y, 0.0); k.apply_orbit_world_angles(2.0 * a, 2.0 * b); k.forward().data } == { let (f, c, s) = (mapped(2.0 * y, 0.0), (2.0 * b).cos(), (2.0 * b).sin()); let g = [c * f[0], f[1], -s * f[0]]; let (c, s) = ((2.0 * a).cos(), (2.0 * a).sin()); [g[0], c * g[1] - s * g[2], s * g[1] + c * g[2]] });
ob!("C32", "camera_world_twice", (a: f64, b: f64) -> [f64; 3], { let mut k = Cam::default(); k.apply_orbit_world_angles(0.0, 2.0 * b); k.apply_orbit_world_angles(2.0 * a, 0.0); k.forward().data } == { let mut k = Cam::default(); k.apply_orbit_world_angles(2.0 * a, 2.0 * b); k.forward().data });
ob!("C32", "camera_orbit_pitch_after_yaw", (y: f64, p: f64, b: f64) -> [f64; 3], { let q = 2.0 * p; assume(q.cos() > 0.0 && q.cos() * q.cos() > 1.0e-15); let mut k = cam(y, p); k.apply_orbit_angles(0.0, 2.0 * b); k.forward().data } == { let (c, s) = plus(2.0 * p, 2.0 * b); [c * (2.0 * y).cos(), c * (2.0 * y).sin(), s] });
ob!("C32", "camera_orbit_after_yaw", (y: f64, a: f64, b: f64) -> [f64; 3], { let mut k = cam(y, 0.0); k.apply_orbit_angles(2.0 * a, 2.0 * b); k.forward().data } == { let (c, s) = plus(2.0 * y, 2.0 * a); let b = 2.0 * b; [b.cos() * c, b.cos() * s, b.sin()] });
/// away from the poles
fn tilted(y: f64, p: f64) -> Cam { let f = mapped(2.0 * y, 2.0 * p); assume(f[0] * f[0] + f[1] * f[1] > 1.0e-15); cam(y, p) }
ob!("C32", "camera_axes", (y: f64, p: f64) -> [f64; 6], {
    let k = tilted(y, p);
    let (f, r, u) = (k.forward().data, k.right().data, k.cam_up().data);
    [dot(r, r), dot(u, u), dot(f, r), dot(f, u), dot(r, u), r[2]]
} == { [1.0, 1.0, 0.0, 0.0, 0.0, 0.0] });
ob!("C32", "camera_axes_at_the_pole", () -> [f64; 7], {
    let mut k = Cam::default();
    k.set_angles(0.0, core::f64::consts::FRAC_PI_2);
    let (f, r, u) = (k.forward().data, k.right().data, k.cam_up().data);
    [f[2], dot(r, r), dot(u, u), dot(f, r), dot(f, u), dot(r, u), r[2]]
} == { [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0] });
ob!("C32", "camera_orbit_from_the_pole", () -> [f64; 2], {
    let mut k = Cam::default();
    k.set_angles(0.0, core::f64::consts::FRAC_PI_2);
    k.apply_orbit_angles(0.0, 1.0);
    let f = k.forward().data;
    [dot(f, f), f[2]]
} == { [1.0, (1.0f64).cos()] });
ob!("C32", "camera_up_points_up", (p: f64) -> f64, { tilted(0.0, p).cam_up().data[2] } == { (2.0 * p).cos().abs() });
/// the axes turn the same way round everywhere
fn turning(k: &Cam) -> f64 { let (f, r, u) = (k.forward().data, k.right().data, k.cam_up().data); u[0] * (f[1] * r[2] - f[2] * r[1]) + u[1] * (f[2] * r[0] - f[0] * r[2]) + u[2] * (f[0] * r[1] - f[1] * r[0]) }
ob!("C32", "camera_axes_turn", (y: f64, p: f64) -> f64, { turning(&tilted(y, p)) } == { 1.0 });
