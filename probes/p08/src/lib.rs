#![allow(dead_code, unused)]
#![cfg_attr(half, feature(f16, f128))]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::attitude::Euler;
use aether_core::coordinate::Cartesian;
use aether_core::math::tensor::*;
use aether_core::math::Vector;
use aether_core::numerical_methods::integration::{EulerIntegrate, Rk4Integrate, TrapezoidalIntegrate};
use aether_core::numerical_methods::solvers::NewtonRaphson;
use aether_core::real::Real;
use aether_core::real::real::RealCast;
use aether_core::reference_frame::{ICRF, ITRF};
use prelude::*;

extern "Rust" {
    fn uf_f(x: f64) -> f64;
    fn uf_df(x: f64) -> f64;
    fn uf_ff(x: f32) -> f32;
    fn uf_dff(x: f32) -> f32;
    fn uf_g0(a: f64, b: f64, c: f64) -> f64;
    fn uf_g1(a: f64, b: f64, c: f64) -> f64;
    fn uf_g2(a: f64, b: f64, c: f64) -> f64;
}
fn f(x: f64) -> f64 {
    unsafe { uf_f(x) }
}
fn df(x: f64) -> f64 {
    unsafe { uf_df(x) }
}
fn g(v: [f64; 3]) -> [f64; 3] {
    unsafe { [uf_g0(v[0], v[1], v[2]), uf_g1(v[0], v[1], v[2]), uf_g2(v[0], v[1], v[2])] }
}

// ------------------------------------------------------------------ C08 integrators and root finding
fn axpy(x: [f64; 3], k: [f64; 3], h: f64) -> [f64; 3] {
    [x[0] + h * k[0], x[1] + h * k[1], x[2] + h * k[2]]
}
fn rk4(x: &[f64; 3], dt: f64) -> [f64; 3] {
    let x = *x;
    let k1 = g(x);
    let k2 = g(axpy(x, k1, dt / 2.0));
    let k3 = g(axpy(x, k2, dt / 2.0));
    let k4 = g(axpy(x, k3, dt));
    let mut o = x;
    for i in 0..3 {
        o[i] += dt / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
    }
    o
}
ob!("C08", "rk4_vector", (x: &[f64; 3], dt: f64) -> [f64; 3], {
    Vector::<f64, 3>::new(*x).integrate_rk4(|v| Vector::new(g(v.data)), dt).data
} == { rk4(x, dt) });
ob!("C08", "rk4_cartesian", (x: &[f64; 3], dt: f64) -> [f64; 3], {
    Cartesian::<f64, ITRF<f64>>::new(x[0], x[1], x[2]).integrate_rk4(|v| { let k = g(v.data.data); Cartesian::new(k[0], k[1], k[2]) }, dt).data.data
} == { rk4(x, dt) });
ob!("C08", "rk4_euler", (x: &[f64; 3], dt: f64) -> [f64; 3], {
    Euler::<f64, ITRF<f64>, ICRF<f64>>::new(x[0], x[1], x[2]).integrate_rk4(|v| { let k = g(v.data.data); Euler::new(k[0], k[1], k[2]) }, dt).data.data
} == { rk4(x, dt) });
ob!("C08", "rk4_scalar32", (x: f32, dt: f32) -> f64, {
    Vector::<f32, 1>::new([x]).integrate_rk4(|v| Vector::new([unsafe { uf_ff(v.data[0]) }]), dt).data[0] as f64
} == {
    let u = |x: f32| unsafe { uf_ff(x) };
    let k1 = u(x);
    let k2 = u(x + dt / 2.0 * k1);
    let k3 = u(x + dt / 2.0 * k2);
    let k4 = u(x + dt * k3);
    (x + dt / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4)) as f64
});
ob!("C08", "euler_vector", (x: &[f64; 4], dt: f64) -> [f64; 4], { Vector::<f64, 4>::new(*x).integrate_euler(dt).data } == { [x[0] * dt, x[1] * dt, x[2] * dt, x[3] * dt] });
ob!("C08", "euler_cartesian", (x: &[f64; 3], dt: f64) -> [f64; 3], { Cartesian::<f64, ITRF<f64>>::new(x[0], x[1], x[2]).integrate_euler(dt).data.data } == { [x[0] * dt, x[1] * dt, x[2] * dt] });
ob!("C08", "euler_euler", (x: &[f64; 3], dt: f64) -> [f64; 3], { Euler::<f64, ITRF<f64>, ICRF<f64>>::new(x[0], x[1], x[2]).integrate_euler(dt).data.data } == { [x[0] * dt, x[1] * dt, x[2] * dt] });
fn trap(x: &[f64; 3], y: &[f64; 3], dt: f64) -> [f64; 3] {
    [(x[0] + y[0]) * dt / 2.0, (x[1] + y[1]) * dt / 2.0, (x[2] + y[2]) * dt / 2.0]
}
ob!("C08", "trap_vector", (x: &[f64; 3], y: &[f64; 3], dt: f64) -> [f64; 3], { Vector::<f64, 3>::new(*x).integrate_trapezoidal(&Vector::new(*y), dt).data } == { trap(x, y, dt) });
ob!("C08", "trap_cartesian", (x: &[f64; 3], y: &[f64; 3], dt: f64) -> [f64; 3], { Cartesian::<f64, ITRF<f64>>::new(x[0], x[1], x[2]).integrate_trapezoidal(&Cartesian::new(y[0], y[1], y[2]), dt).data.data } == { trap(x, y, dt) });
ob!("C08", "trap_euler", (x: &[f64; 3], y: &[f64; 3], dt: f64) -> [f64; 3], { Euler::<f64, ITRF<f64>, ICRF<f64>>::new(x[0], x[1], x[2]).integrate_trapezoidal(&Euler::new(y[0], y[1], y[2]), dt).data.data } == { trap(x, y, dt) });

// Newton: the returned value is the iterate whose last step is below the tolerance; no answer for a zero slope or after the budget
fn newton(tol: f64, n: usize, x0: f64) -> (bool, f64) {
    let mut x = x0;
    for _ in 0..n {
        let d = df(x);
        if d == 0.0 {
            return (false, 0.0);
        }
        let step = f(x) / d;
        let y = x - step;
        if (y - x).abs() < tol {
            return (true, y);
        }
        x = y;
    }
    (false, 0.0)
}
macro_rules! newt {
    ($n:literal, $k:expr) => {
        ob!("C08", $n, (tol: f64, x0: f64) -> (bool, f64), {
            match NewtonRaphson::new(tol, $k).solve(x0, f, df) { Ok(x) => (true, x), Err(_) => (false, 0.0) }
        } == { newton(tol, $k, x0) });
    };
}
newt!("newton_0", 0);
newt!("newton_1", 1);
newt!("newton_2", 2);
newt!("newton_3", 3);
newt!("newton_6", 6);
newt!("newton_8", 8);
// a long run: the error halves, so every tolerance is met at its own iteration or not within the budget
macro_rules! newt_half { ($($n:literal),*) => { $( ob!("C08", concat!("newton_halving_", $n), (tol: f64, x0: f64) -> (bool, f64), {
    match NewtonRaphson::new(tol, $n).solve(x0, |x| x, |_| 2.0) { Ok(x) => (true, x), Err(_) => (false, 0.0) }
} == {
    let mut x = x0;
    for _ in 0..$n { let y = x - x / 2.0; if (y - x).abs() < tol { return (true, y); } x = y; }
    (false, 0.0)
}); )* } }
newt_half!(9, 24, 50);
ob!("C08", "newton_f32", (tol: f32, x0: f32) -> (bool, f64), {
    match NewtonRaphson::new(tol, 1).solve(x0, |x| unsafe { uf_ff(x) }, |x| unsafe { uf_dff(x) }) { Ok(x) => (true, x as f64), Err(_) => (false, 0.0) }
} == {
    let d = unsafe { uf_dff(x0) };
    if d == 0.0 { (false, 0.0) } else {
        let s = unsafe { uf_ff(x0) } / d;
        if s.abs() < tol { (true, (x0 - s) as f64) } else { (false, 0.0) }
    }
});

// ------------------------------------------------------------------ C09 the scalar abstraction
macro_rules! un {
    ($n64:literal, $n32:literal, $m:ident) => {
        ob!("C09", $n64, (x: f64) -> f64, { Real::$m(x) } == { f64::$m(x) });
        ob!("C09", $n32, (x: f32) -> f64, { Real::$m(x) as f64 } == { f32::$m(x) as f64 });
    };
}
macro_rules! bi {
    ($n64:literal, $n32:literal, $m:ident) => {
        ob!("C09", $n64, (x: f64, y: f64) -> f64, { Real::$m(x, y) } == { f64::$m(x, y) });
        ob!("C09", $n32, (x: f32, y: f32) -> f64, { Real::$m(x, y) as f64 } == { f32::$m(x, y) as f64 });
    };
}
un!("abs_64", "abs_32", abs);
un!("floor_64", "floor_32", floor);
un!("ceil_64", "ceil_32", ceil);
un!("round_64", "round_32", round);
un!("trunc_64", "trunc_32", trunc);
un!("fract_64", "fract_32", fract);
un!("sqrt_64", "sqrt_32", sqrt);
un!("sin_64", "sin_32", sin);
un!("cos_64", "cos_32", cos);
un!("tan_64", "tan_32", tan);
un!("asin_64", "asin_32", asin);
un!("acos_64", "acos_32", acos);
un!("atan_64", "atan_32", atan);
un!("exp_64", "exp_32", exp);
un!("exp2_64", "exp2_32", exp2);
un!("ln_64", "ln_32", ln);
un!("log2_64", "log2_32", log2);
un!("log10_64", "log10_32", log10);
un!("signum_64", "signum_32", signum);
bi!("min_64", "min_32", min);
bi!("max_64", "max_32", max);
bi!("copysign_64", "copysign_32", copysign);
bi!("atan2_64", "atan2_32", atan2);
bi!("powf_64", "powf_32", powf);
ob!("C09", "signum_nan_64", (x: f64) -> bool, { Real::signum(x).is_nan() } == { x.is_nan() });
ob!("C09", "signum_nan_32", (x: f32) -> bool, { Real::signum(x).is_nan() } == { x.is_nan() });
ob!("C09", "deg_64", (x: f64) -> f64, { Real::to_degrees(x) } == { x * (180.0 / core::f64::consts::PI) });
ob!("C09", "rad_64", (x: f64) -> f64, { Real::to_radians(x) } == { x * (core::f64::consts::PI / 180.0) });
ob!("C09", "deg_32", (x: f32) -> f64, { Real::to_degrees(x) as f64 } == { (x * 57.29577951308232_f32) as f64 });
ob!("C09", "rad_32", (x: f32) -> f64, { Real::to_radians(x) as f64 } == { (x * 0.017453292519943295_f32) as f64 });
macro_rules! powi {
    ($a:literal, $b:literal, $k:expr) => {
        ob!("C09", $a, (x: f64) -> f64, { Real::powi(x, $k) } == { let mut r = 1.0; let mut i: i32 = 0; while i < ($k as i32).abs() { r *= x; i += 1; } if $k < 0 { 1.0 / r } else { r } });
        ob!("C09", $b, (x: f32) -> f64, { Real::powi(x, $k) as f64 } == { let mut r = 1.0f32; let mut i: i32 = 0; while i < ($k as i32).abs() { r *= x; i += 1; } (if $k < 0 { 1.0 / r } else { r }) as f64 });
    };
}
powi!("powi_m2", "powi32_m2", -2);
powi!("powi_m1", "powi32_m1", -1);
powi!("powi_0", "powi32_0", 0);
powi!("powi_1", "powi32_1", 1);
powi!("powi_2", "powi32_2", 2);
powi!("powi_3", "powi32_3", 3);
powi!("powi_5", "powi32_5", 5);
powi!("powi_4", "powi32_4", 4);
powi!("powi_6", "powi32_6", 6);
powi!("powi_7", "powi32_7", 7);
powi!("powi_8", "powi32_8", 8);
powi!("powi_17", "powi32_17", 17);
powi!("powi_m3", "powi32_m3", -3);
powi!("powi_m4", "powi32_m4", -4);
powi!("powi_m9", "powi32_m9", -9);
ob!("C09", "powi_any", (x: f64, n: i32) -> f64, { Real::powi(x, n) } == { f64::powi(x, n) });
ob!("C09", "powi32_any", (x: f32, n: i32) -> f64, { Real::powi(x, n) as f64 } == { f32::powi(x, n) as f64 });
// casts and constants
ob!("C09", "cast_64", (a: f32, b: f64, c: u32, d: usize) -> [f64; 5], { [f64::from_f32(a), f64::from_f64(b), f64::from_u32(c), f64::from_usize(d), RealCast::to_f64(b)] } == { [a as f64, b, c as f64, d as f64, b] });
ob!("C09", "cast_32", (a: f32, b: f64, c: u32) -> [f64; 4], { [f32::from_f32(a) as f64, f32::from_f64(b) as f64, f32::from_u32(c) as f64, RealCast::to_f64(a)] } == { [a as f64, b as f32 as f64, c as f32 as f64, a as f64] });
ob!("C09", "cast_usize", (d: usize) -> [f64; 2], { [f32::from_usize(d) as f64, f64::from_usize(d)] } == { [d as f32 as f64, d as f64] });
ob!("C09", "cast_down", (b: f64) -> f64, { RealCast::to_f32(b) as f64 } == { b as f32 as f64 });
ob!("C09", "consts_64", () -> [f64; 5], { [<f64 as Real>::ZERO, <f64 as Real>::ONE, <f64 as Real>::PI, <f64 as Real>::FRAC_PI_2, <f64 as Real>::EPSILON] } == { [0.0, 1.0, core::f64::consts::PI, core::f64::consts::FRAC_PI_2, f64::EPSILON] });
ob!("C09", "consts_32", () -> [f64; 5], { [<f32 as Real>::ZERO as f64, <f32 as Real>::ONE as f64, <f32 as Real>::PI as f64, <f32 as Real>::FRAC_PI_2 as f64, <f32 as Real>::EPSILON as f64] } == { [0.0, 1.0, core::f32::consts::PI as f64, core::f32::consts::FRAC_PI_2 as f64, f32::EPSILON as f64] });
ob!("C09", "infinities", () -> [bool; 4], { [<f64 as Real>::INFINITY == f64::INFINITY, <f64 as Real>::NEG_INFINITY == f64::NEG_INFINITY, <f32 as Real>::INFINITY == f32::INFINITY, <f32 as Real>::NEG_INFINITY == f32::NEG_INFINITY] } == { [true; 4] });

// ------------------------------------------------------------------ C10 tensors
type T3 = Tensor3<f64, 2, 2, 3>;
type T4 = Tensor4<f64, 2, 3, 2, 3>;
ob!("C10", "t3_get", (d: &[[[f64; 3]; 2]; 2], i: usize, j: usize, k: usize) -> f64, { T3::new(*d)[(i, j, k)] } == { d[i][j][k] });
ob!("C10", "t3_set", (d: &mut [[[f64; 3]; 2]; 2], i: usize, j: usize, k: usize, x: f64), { let mut t = T3::new(*d); t[(i, j, k)] = x; *d = t.data; } == { assert!(i < 2 && j < 2 && k < 3); for a in 0..2 { for b in 0..2 { for c in 0..3 { if a == i && b == j && c == k { d[a][b][c] = x; } } } } });
ob!("C10", "t3_dims", () -> (usize, usize, usize), { T3::dims() } == { (2, 2, 3) });
ob!("C10", "t3_flat", (d: &[[[f64; 3]; 2]; 2], i: usize) -> f64, { let t = T3::new(*d); let f = t.as_flat(); assert!(f.len() == 12); f[i] } == { assert!(i < 12); d[i / 6][i / 3 % 2][i % 3] });
ob!("C10", "t3_flat_mut", (d: &mut [[[f64; 3]; 2]; 2], x: &[f64; 12]) -> usize, { let mut t = T3::new(*d); let f = t.as_flat_mut(); let n = f.len(); for i in 0..12 { f[i] = x[i]; } *d = t.data; n } == { for i in 0..2 { for j in 0..2 { for k in 0..3 { d[i][j][k] = x[i * 6 + j * 3 + k]; } } } 12 });
ob!("C10", "t4_get", (d: &[[[[f64; 3]; 2]; 3]; 2], i: usize, j: usize, k: usize, l: usize) -> f64, { T4::new(*d)[(i, j, k, l)] } == { d[i][j][k][l] });
macro_rules! t4set { ($($n:literal: $i:literal $j:literal $k:literal $l:literal),*) => { $(
ob!("C10", concat!("t4_set_", $n), (d: &mut [[[[f64; 3]; 2]; 3]; 2], x: f64), { let mut t = T4::new(*d); t[($i, $j, $k, $l)] = x; *d = t.data; } == { d[$i][$j][$k][$l] = x; });
)* } }
t4set!(0: 0 0 0 0, 1: 1 2 0 1, 2: 0 1 1 2, 3: 1 0 1 0);
ob!("C10", "t4_set_out", (d: &mut [[[[f64; 3]; 2]; 3]; 2], i: usize, j: usize, k: usize, l: usize, x: f64), { assume(i > 1 || j > 2 || k > 1 || l > 2); let mut t = T4::new(*d); t[(i, j, k, l)] = x; } == { assume(i > 1 || j > 2 || k > 1 || l > 2); panic!() });
ob!("C10", "t4_dims", () -> (usize, usize, usize, usize), { T4::dims() } == { (2, 3, 2, 3) });
ob!("C10", "view_2", (d: &[f64; 12], i: usize, j: usize) -> f64, { assume(i < 3 && j < 4); *TensorView { data: d, shape: &[3, 4] }.get(&[i, j]) } == { d[i * 4 + j] });
ob!("C10", "view_3", (d: &[f64; 12], i: usize, j: usize, k: usize) -> f64, { assume(i < 2 && j < 2 && k < 3); *TensorView { data: d, shape: &[2, 2, 3] }.get(&[i, j, k]) } == { d[(i * 2 + j) * 3 + k] });
macro_rules! views { ($($r:literal),*) => { $(
ob!("C10", concat!("view_rank_", $r), (d: &[f64], n: &[usize; $r], x: &[usize; $r]) -> f64, {
    let mut a = 0; while a < $r { assume(x[a] < n[a]); a += 1; }
    *TensorView { data: d, shape: n }.get(x)
} == {
    let mut a = 0; while a < $r { assume(x[a] < n[a]); a += 1; }
    let mut o = 0usize; let mut a = 0; while a < $r { let mut s = x[a]; let mut b = a + 1; while b < $r { s = s.wrapping_mul(n[b]); b += 1; } o = o.wrapping_add(s); a += 1; }
    d[o]
});
ob!("C10", concat!("view_mut_rank_", $r), (d: &mut [f64], n: &[usize; $r], x: &[usize; $r], v: f64) -> usize, {
    let mut a = 0; while a < $r { assume(x[a] < n[a]); a += 1; }
    let p = d.as_ptr() as usize;
    let mut t = TensorViewMut { data: d, shape: n };
    let q: &mut f64 = t.get_mut(x);
    (q as *mut f64 as usize).wrapping_sub(p)
} == {
    let mut a = 0; while a < $r { assume(x[a] < n[a]); a += 1; }
    let mut o = 0usize; let mut a = 0; while a < $r { let mut s = x[a]; let mut b = a + 1; while b < $r { s = s.wrapping_mul(n[b]); b += 1; } o = o.wrapping_add(s); a += 1; }
    if o >= d.len() { panic!() }
    o.wrapping_mul(8)
});
)* } }
views!(0, 1, 2, 3, 4, 5, 6, 7, 8);
ob!("C10", "view_mut", (d: &mut [f64; 6], x: f64), { *TensorViewMut { data: d, shape: &[2, 3] }.get_mut(&[1, 1]) = x; } == { d[4] = x; });

// other numbers of components: each component's rate is an unknown function of it plus its neighbour
fn gn<const N: usize>(v: [f64; N]) -> [f64; N] { core::array::from_fn(|i| f(v[i]) + v[(i + 1) % N]) }
fn rk4n<const N: usize>(x: &[f64; N], dt: f64) -> [f64; N] {
    let ax = |k: &[f64; N], h: f64| -> [f64; N] { core::array::from_fn(|i| x[i] + h * k[i]) };
    let k1 = gn(*x);
    let k2 = gn(ax(&k1, dt / 2.0));
    let k3 = gn(ax(&k2, dt / 2.0));
    let k4 = gn(ax(&k3, dt));
    core::array::from_fn(|i| x[i] + dt / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]))
}
macro_rules! dims { ($($n:literal),*) => { $(
ob!("C08", concat!("rk4_vector_", $n), (x: &[f64; $n], dt: f64) -> [f64; $n], { Vector::<f64, $n>::new(*x).integrate_rk4(|v| Vector::new(gn(v.data)), dt).data } == { rk4n(x, dt) });
ob!("C08", concat!("euler_vector_", $n), (x: &[f64; $n], dt: f64) -> [f64; $n], { Vector::<f64, $n>::new(*x).integrate_euler(dt).data } == { core::array::from_fn(|i| x[i] * dt) });
ob!("C08", concat!("trap_vector_", $n), (x: &[f64; $n], y: &[f64; $n], dt: f64) -> [f64; $n], { Vector::<f64, $n>::new(*x).integrate_trapezoidal(&Vector::new(*y), dt).data } == { core::array::from_fn(|i| (x[i] + y[i]) * dt / 2.0) });
)* } }
dims!(1, 2, 4, 5, 6, 9, 17, 33);
// other shapes, with extents of one
macro_rules! t3s { ($($t:literal: $a:literal $b:literal $c:literal),*) => { $(
ob!("C10", concat!("t3_get_", $t), (d: &[[[f64; $c]; $b]; $a], i: usize, j: usize, k: usize) -> f64, { Tensor3::<f64, $a, $b, $c>::new(*d)[(i, j, k)] } == { d[i][j][k] });
ob!("C10", concat!("t3_set_", $t), (d: &mut [[[f64; $c]; $b]; $a], x: f64), { let mut t = Tensor3::<f64, $a, $b, $c>::new(*d); t[($a - 1, $b - 1, 0)] = x; *d = t.data; } == { d[$a - 1][$b - 1][0] = x; });
ob!("C10", concat!("t3_flat_", $t), (d: &[[[f64; $c]; $b]; $a], i: usize) -> (usize, f64), { let t = Tensor3::<f64, $a, $b, $c>::new(*d); let f = t.as_flat(); (f.len(), f[i]) } == { assert!(i < $a * $b * $c); ($a * $b * $c, d[i / ($b * $c)][i / $c % $b][i % $c]) });
)* } }
t3s!("321": 3 2 1, "151": 1 5 1, "412": 4 1 2, "114": 1 1 4, "711": 7 1 1);
macro_rules! t3fm { ($($t:literal: $a:literal $b:literal $c:literal),*) => { $(
ob!("C10", concat!("t3_flat_mut_", $t), (d: &mut [[[f64; $c]; $b]; $a], x: &[f64; $a * $b * $c]) -> usize, { let mut t = Tensor3::<f64, $a, $b, $c>::new(*d); let f = t.as_flat_mut(); let n = f.len(); for i in 0..$a * $b * $c { f[i] = x[i]; } *d = t.data; n } == { for i in 0..$a { for j in 0..$b { for k in 0..$c { d[i][j][k] = x[(i * $b + j) * $c + k]; } } } $a * $b * $c });
ob!("C10", concat!("t3_flat_all_", $t), (d: &[[[f64; $c]; $b]; $a], o: &mut [f64; $a * $b * $c]) -> usize, { let t = Tensor3::<f64, $a, $b, $c>::new(*d); let f = t.as_flat(); for i in 0..$a * $b * $c { o[i] = f[i]; } f.len() } == { for i in 0..$a { for j in 0..$b { for k in 0..$c { o[(i * $b + j) * $c + k] = d[i][j][k]; } } } $a * $b * $c });
)* } }
t3fm!("321": 3 2 1, "151": 1 5 1, "412": 4 1 2, "114": 1 1 4, "522": 5 2 2, "953": 9 5 3, "1149": 1 14 9, "1711": 17 1 1, "444": 4 4 4);
macro_rules! empty_tensor { ($($n:literal: $a:literal $b:literal $c:literal),*) => { $(
    ob!("C10", concat!("t3_empty_", $n), () -> [usize; 2], { let mut t = Tensor3::<f64, $a, $b, $c>::new([[[0.0; $c]; $b]; $a]); [t.as_flat().len(), t.as_flat_mut().len()] } == { [0, 0] });
)* } }
empty_tensor!("022": 0 2 2, "203": 2 0 3, "230": 2 3 0, "000": 0 0 0);
// fewer indices than dimensions address nothing
ob!("C10", "view_few", (d: &[f64; 12], i: usize, j: usize) -> f64, { *TensorView { data: d, shape: &[2, 2, 3] }.get(&[i, j]) } == { panic!() });
ob!("C10", "view_none", (d: &[f64; 12]) -> f64, { *TensorView { data: d, shape: &[2, 2, 3] }.get(&[]) } == { panic!() });
ob!("C10", "view_mut_few", (d: &mut [f64; 12], i: usize, j: usize, x: f64), { *TensorViewMut { data: d, shape: &[2, 2, 3] }.get_mut(&[i, j]) = x; } == { panic!() });
ob!("C10", "view_mut_none", (d: &mut [f64; 12], x: f64), { *TensorViewMut { data: d, shape: &[2, 2, 3] }.get_mut(&[]) = x; } == { panic!() });
ob!("C10", "t4_get_2113", (d: &[[[[f64; 3]; 1]; 1]; 2], i: usize, j: usize, k: usize, l: usize) -> f64, { Tensor4::<f64, 2, 1, 1, 3>::new(*d)[(i, j, k, l)] } == { d[i][j][k][l] });
ob!("C10", "t4_get_f32", (d: &[[[[f32; 2]; 2]; 1]; 2], i: usize, j: usize, k: usize, l: usize) -> f64, { Tensor4::<f32, 2, 1, 2, 2>::new(*d)[(i, j, k, l)] as f64 } == { d[i][j][k][l] as f64 });

// the half and quadruple precision types (nightly features of the number abstraction)
#[cfg(half)]
mod half {
    use super::*;
    macro_rules! un { ($($n:literal $k:literal $m:ident),*) => { $(
        ob!("C09", $n, (x: f16) -> f16, { Real::$m(x) } == { f16::$m(x) });
        ob!("C09", $k, (x: f128) -> f128, { Real::$m(x) } == { f128::$m(x) });
    )* } }
    macro_rules! bi { ($($n:literal $k:literal $m:ident),*) => { $(
        ob!("C09", $n, (x: f16, y: f16) -> f16, { Real::$m(x, y) } == { f16::$m(x, y) });
        ob!("C09", $k, (x: f128, y: f128) -> f128, { Real::$m(x, y) } == { f128::$m(x, y) });
    )* } }
    // the elementary functions of a half are those of single precision, rounded
    macro_rules! el { ($($n:literal $k:literal $m:ident),*) => { $(
        ob!("C09", $n, (x: f16) -> f16, { Real::$m(x) } == { f32::$m(x as f32) as f16 });
        ob!("C09", $k, (x: f128) -> f128, { Real::$m(x) } == { f128::$m(x) });
    )* } }
    un!("abs_16" "abs_128" abs, "floor_16" "floor_128" floor, "ceil_16" "ceil_128" ceil, "round_16" "round_128" round, "trunc_16" "trunc_128" trunc, "fract_16" "fract_128" fract,
        "sqrt_16" "sqrt_128" sqrt, "signum_16" "signum_128" signum, "deg_16" "deg_128" to_degrees, "rad_16" "rad_128" to_radians);
    el!("sin_16" "sin_128" sin, "cos_16" "cos_128" cos, "tan_16" "tan_128" tan, "asin_16" "asin_128" asin, "acos_16" "acos_128" acos, "atan_16" "atan_128" atan,
        "exp_16" "exp_128" exp, "exp2_16" "exp2_128" exp2, "ln_16" "ln_128" ln, "log2_16" "log2_128" log2, "log10_16" "log10_128" log10);
    bi!("min_16" "min_128" min, "max_16" "max_128" max, "copysign_16" "copysign_128" copysign);
    ob!("C09", "powi_any_16", (x: f16, n: i32) -> f16, { Real::powi(x, n) } == { f16::powi(x, n) });
    ob!("C09", "atan2_16", (x: f16, y: f16) -> f16, { Real::atan2(x, y) } == { f32::atan2(x as f32, y as f32) as f16 });
    ob!("C09", "powf_16", (x: f16, y: f16) -> f16, { Real::powf(x, y) } == { f32::powf(x as f32, y as f32) as f16 });
    ob!("C09", "atan2_128", (x: f128, y: f128) -> f128, { Real::atan2(x, y) } == { f128::atan2(x, y) });
    ob!("C09", "powf_128", (x: f128, y: f128) -> f128, { Real::powf(x, y) } == { f128::powf(x, y) });
    ob!("C09", "powi_any_128", (x: f128, n: i32) -> f128, { Real::powi(x, n) } == { f128::powi(x, n) });
    ob!("C09", "consts_16", () -> [bool; 7], { [<f16 as Real>::ZERO == 0.0, <f16 as Real>::ONE == 1.0, <f16 as Real>::PI == core::f16::consts::PI, <f16 as Real>::FRAC_PI_2 == core::f16::consts::FRAC_PI_2, <f16 as Real>::EPSILON == f16::EPSILON, <f16 as Real>::INFINITY == f16::INFINITY, <f16 as Real>::NEG_INFINITY == f16::NEG_INFINITY] } == { [true; 7] });
    ob!("C09", "consts_128", () -> [bool; 7], { [<f128 as Real>::ZERO == 0.0, <f128 as Real>::ONE == 1.0, <f128 as Real>::PI == core::f128::consts::PI, <f128 as Real>::FRAC_PI_2 == core::f128::consts::FRAC_PI_2, <f128 as Real>::EPSILON == f128::EPSILON, <f128 as Real>::INFINITY == f128::INFINITY, <f128 as Real>::NEG_INFINITY == f128::NEG_INFINITY] } == { [true; 7] });
    ob!("C09", "cast_16", (a: f16, b: f32, c: f64, e: f128, d: usize, u: u32) -> [f16; 7], { [f16::from_f32(b), f16::from_f64(c), RealCast::from_f16(a), f16::from_f128(e), f16::from_usize(d), f16::from_u32(u), RealCast::to_f16(c)] } == { [b as f16, c as f16, a, e as f16, d as f16, u as f16, c as f16] });
    ob!("C09", "cast_128", (a: f16, b: f32, c: f64, e: f128, d: usize, u: u32) -> [f128; 8], { [f128::from_f32(b), f128::from_f64(c), f128::from_f16(a), RealCast::from_f128(e), f128::from_usize(d), f128::from_u32(u), RealCast::to_f128(b), RealCast::to_f128(a)] } == { [b as f128, c as f128, a as f128, e, d as f128, u as f128, b as f128, a as f128] });
    ob!("C09", "cast_to_64", (a: f16, e: f128) -> [f64; 6], { [RealCast::to_f64(a), RealCast::to_f64(e), RealCast::to_f32(e) as f64, f64::from_f128(e), f64::from_f16(a), f32::from_f128(e) as f64] } == { [a as f64, e as f64, e as f32 as f64, e as f64, a as f64, e as f32 as f64] });
}
