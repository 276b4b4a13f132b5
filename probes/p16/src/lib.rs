#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::math::Vector;
use aether_interp::*;
use prelude::*;

const EPS: f64 = f64::EPSILON;
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= EPS }
// ------------------------------------------------------------------ C16 interpolation
ob!("C16", "lerp", (a: f64, b: f64, t: f64) -> f64, { lerp(a, b, t) } == { (1.0 - t) * a + t * b });
ob!("C16", "lerp_vector", (a: &[f64; 3], b: &[f64; 3], t: f64) -> [f64; 3], { lerp(Vector::new(*a), Vector::new(*b), t).data } == { [(1.0 - t) * a[0] + t * b[0], (1.0 - t) * a[1] + t * b[1], (1.0 - t) * a[2] + t * b[2]] });
ob!("C16", "inverse_lerp", (a: f64, b: f64, t: f64) -> f64, { assume(!near(b, a)); inverse_lerp(a, b, (1.0 - t) * a + t * b) } == { t });
ob!("C16", "inverse_lerp_degenerate", (a: f64, b: f64, v: f64) -> f64, { assume(near(b, a)); inverse_lerp(a, b, v) } == { 0.0 });
ob!("C16", "remap", (t: f64, a: f64, b: f64, c: f64, d: f64) -> f64, { assume(!near(b, a)); remap((1.0 - t) * a + t * b, a, b, c, d) } == { (1.0 - t) * c + t * d });
ob!("C16", "remap_degenerate", (v: f64, a: f64, b: f64, c: f64, d: f64) -> f64, { assume(near(b, a)); remap(v, a, b, c, d) } == { c });

macro_rules! distinct {
    ($x:ident, $n:literal) => {{ let mut ok = true; let mut i = 0; while i < $n { let mut j = 0; while j < i { if near($x[i], $x[j]) { ok = false; } j += 1; } i += 1; } ok }};
}
fn lag2(x: &[f64; 2], y: &[f64; 2], t: f64) -> f64 { y[0] * (t - x[1]) / (x[0] - x[1]) + y[1] * (t - x[0]) / (x[1] - x[0]) }
fn lag3(x: &[f64; 3], y: &[f64; 3], t: f64) -> f64 {
    y[0] * (t - x[1]) * (t - x[2]) / ((x[0] - x[1]) * (x[0] - x[2])) + y[1] * (t - x[0]) * (t - x[2]) / ((x[1] - x[0]) * (x[1] - x[2])) + y[2] * (t - x[0]) * (t - x[1]) / ((x[2] - x[0]) * (x[2] - x[1]))
}
fn away<const N: usize>(x: &[f64; N], t: f64) -> bool { let mut ok = true; for v in x { if near(t, *v) { ok = false; } } ok }
ob!("C16", "poly1", (x: &[f64; 1], y: &[f64; 1], t: f64) -> f64, { PolynomialInterpolator::<1>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { y[0] });
ob!("C16", "poly2", (x: &[f64; 2], y: &[f64; 2], t: f64) -> f64, { assume(distinct!(x, 2)); assume(away(x, t)); PolynomialInterpolator::<2>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { lag2(x, y, t) });
ob!("C16", "poly3", (x: &[f64; 3], y: &[f64; 3], t: f64) -> f64, { assume(distinct!(x, 3)); assume(away(x, t)); PolynomialInterpolator::<3>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { lag3(x, y, t) });
ob!("C16", "poly4_cubic", (x: &[f64; 4], c: &[f64; 4], t: f64) -> f64, { assume(distinct!(x, 4)); assume(away(x, t)); let p = |t: f64| c[0] + t * (c[1] + t * (c[2] + t * c[3])); PolynomialInterpolator::<4>::new(Vector::new(*x), Vector::new([p(x[0]), p(x[1]), p(x[2]), p(x[3])])).unwrap().evaluate(t) } == { c[0] + t * (c[1] + t * (c[2] + t * c[3])) });
ob!("C16", "poly3_knots", (x: &[f64; 3], y: &[f64; 3]) -> [f64; 3], { assume(distinct!(x, 3)); let p = PolynomialInterpolator::<3>::new(Vector::new(*x), Vector::new(*y)).unwrap(); [p.evaluate(x[0]), p.evaluate(x[1]), p.evaluate(x[2])] } == { *y });
ob!("C16", "poly3_rejects", (x: &[f64; 3], y: &[f64; 3]) -> bool, { PolynomialInterpolator::<3>::new(Vector::new(*x), Vector::new(*y)).is_ok() } == { !near(x[0], x[1]) && !near(x[0], x[2]) && !near(x[1], x[2]) });
ob!("C16", "poly0", () -> bool, { PolynomialInterpolator::<0>::new(Vector::new([]), Vector::new([])).is_err() } == { true });
ob!("C16", "poly_degree", (x: &[f64; 3], y: &[f64; 3]) -> usize, { assume(distinct!(x, 3)); PolynomialInterpolator::<3>::new(Vector::new(*x), Vector::new(*y)).unwrap().degree() } == { 2 });

// cubic spline: knots, one cubic per segment, matching slopes, natural ends
macro_rules! inc { ($x:ident, $n:literal) => {{ let mut ok = true; let mut i = 1; while i < $n { if $x[i] <= $x[i - 1] { ok = false; } i += 1; } ok }}; }
ob!("C16", "spline2", (x: &[f64; 2], y: &[f64; 2], t: f64) -> f64, { assume(inc!(x, 2)); CubicSpline::<2>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { lag2(x, y, t) });
ob!("C16", "spline3_knots", (x: &[f64; 3], y: &[f64; 3]) -> [f64; 3], { assume(inc!(x, 3)); let p = CubicSpline::<3>::new(Vector::new(*x), Vector::new(*y)).unwrap(); [p.evaluate(x[0]), p.evaluate(x[1]), p.evaluate(x[2])] } == { *y });
ob!("C16", "spline4_knots", (x: &[f64; 4], y: &[f64; 4]) -> [f64; 4], { assume(inc!(x, 4)); let p = CubicSpline::<4>::new(Vector::new(*x), Vector::new(*y)).unwrap(); [p.evaluate(x[0]), p.evaluate(x[1]), p.evaluate(x[2]), p.evaluate(x[3])] } == { *y });
ob!("C16", "spline3_rejects", (x: &[f64; 3], y: &[f64; 3]) -> bool, { CubicSpline::<3>::new(Vector::new(*x), Vector::new(*y)).is_ok() } == { x[0] < x[1] && x[1] < x[2] });
ob!("C16", "spline1_rejects", (x: &[f64; 1], y: &[f64; 1]) -> bool, { CubicSpline::<1>::new(Vector::new(*x), Vector::new(*y)).is_ok() } == { false });
ob!("C16", "spline_linear", (x: &[f64; 4], a: f64, b: f64, t: f64) -> f64, { assume(inc!(x, 4)); CubicSpline::<4>::new(Vector::new(*x), Vector::new([a + b * x[0], a + b * x[1], a + b * x[2], a + b * x[3]])).unwrap().evaluate(t) } == { a + b * t });
// the three-knot natural spline in closed form: M1 = 6 ((y2-y1)/h1 - (y1-y0)/h0) / (2 (h0 + h1))
fn nat3(x: &[f64; 3], y: &[f64; 3], t: f64) -> f64 {
    let (h0, h1) = (x[1] - x[0], x[2] - x[1]);
    let m = 3.0 * ((y[2] - y[1]) / h1 - (y[1] - y[0]) / h0) / (h0 + h1);
    let seg = if t <= x[0] { 0 } else if t >= x[2] { 1 } else if x[1] <= t { 1 } else { 0 };
    if seg == 0 {
        let s = t - x[0];
        y[0] + s * ((y[1] - y[0]) / h0 - m * h0 / 6.0) + m * s * s * s / (6.0 * h0)
    } else {
        let s = x[2] - t;
        y[2] + s * ((y[1] - y[2]) / h1 - m * h1 / 6.0) + m * s * s * s / (6.0 * h1)
    }
}
ob!("C16", "spline3", (x: &[f64; 3], y: &[f64; 3], t: f64) -> f64, { assume(inc!(x, 3)); CubicSpline::<3>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { nat3(x, y, t) });
only!("C16", "spline4_nopanic", "nopanic", (x: &[f64; 4], y: &[f64; 4], t: f64) -> f64, { match CubicSpline::<4>::new(Vector::new(*x), Vector::new(*y)) { Ok(s) => s.evaluate(t), Err(_) => 0.0 } });
only!("C16", "poly4_nopanic", "nopanic", (x: &[f64; 4], y: &[f64; 4], t: f64) -> f64, { match PolynomialInterpolator::<4>::new(Vector::new(*x), Vector::new(*y)) { Ok(s) => s.evaluate(t), Err(_) => 0.0 } });
ob!("C16", "spline_count", (x: &[f64; 3], y: &[f64; 3]) -> usize, { assume(inc!(x, 3)); CubicSpline::<3>::new(Vector::new(*x), Vector::new(*y)).unwrap().sample_count() } == { 3 });
// four-knot natural spline: the two inner second derivatives solve the tridiagonal system
fn nat4(x: &[f64; 4], y: &[f64; 4], k: usize, s: f64) -> f64 {
    let h = [x[1] - x[0], x[2] - x[1], x[3] - x[2]];
    let d = [(y[1] - y[0]) / h[0], (y[2] - y[1]) / h[1], (y[3] - y[2]) / h[2]];
    let (a, b, c) = (2.0 * (h[0] + h[1]), h[1], 2.0 * (h[1] + h[2]));
    let (p, q) = (6.0 * (d[1] - d[0]), 6.0 * (d[2] - d[1]));
    let det = a * c - b * b;
    let m = [0.0, (p * c - b * q) / det, (a * q - b * p) / det, 0.0];
    let (u, w) = (1.0 - s, s);
    let hh = h[k] * h[k] / 6.0;
    u * y[k] + w * y[k + 1] + ((u * u * u - u) * m[k] + (w * w * w - w) * m[k + 1]) * hh
}
macro_rules! seg4 {
    ($n:literal, $k:literal) => {
        ob!("C16", $n, (x: &[f64; 4], y: &[f64; 4], s: f64) -> f64, { assume(inc!(x, 4) && s > 0.0 && s < 1.0); let t = x[$k] + s * (x[$k + 1] - x[$k]); assume(t > x[$k] && t < x[$k + 1]); CubicSpline::<4>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { nat4(x, y, $k, s) });
    };
}
seg4!("spline4_seg0", 0);
seg4!("spline4_seg1", 1);
seg4!("spline4_seg2", 2);
// extrapolation continues the end segments
ob!("C16", "spline4_before", (x: &[f64; 4], y: &[f64; 4], s: f64) -> f64, { assume(inc!(x, 4) && s < 0.0); let t = x[0] + s * (x[1] - x[0]); assume(t < x[0]); CubicSpline::<4>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { nat4(x, y, 0, s) });
ob!("C16", "spline4_after", (x: &[f64; 4], y: &[f64; 4], s: f64) -> f64, { assume(inc!(x, 4) && s > 1.0); let t = x[2] + s * (x[3] - x[2]); assume(t > x[3]); CubicSpline::<4>::new(Vector::new(*x), Vector::new(*y)).unwrap().evaluate(t) } == { nat4(x, y, 2, s) });
// more knots, at fixed unequal places: every ordinate and every evaluation point
fn natural<const N: usize>(x: &[f64; N], y: &[f64; N], t: f64) -> f64 {
    // second derivatives by elimination from the right
    let (mut m, mut a, mut b) = ([0.0; N], [0.0; N], [0.0; N]);
    let mut i = N - 2;
    while i >= 1 {
        let (h, k) = (x[i] - x[i - 1], x[i + 1] - x[i]);
        let d = 2.0 * (h + k) + k * a[i + 1];
        a[i] = -h / d;
        b[i] = (6.0 * ((y[i + 1] - y[i]) / k - (y[i] - y[i - 1]) / h) - k * b[i + 1]) / d;
        i -= 1;
    }
    for i in 1..N - 1 { m[i] = a[i] * m[i - 1] + b[i]; }
    let mut k = 0;
    for j in 1..N - 1 { if t >= x[j] { k = j; } }
    let h = x[k + 1] - x[k];
    let s = t - x[k];
    y[k] + s * ((y[k + 1] - y[k]) / h - h * (2.0 * m[k] + m[k + 1]) / 6.0) + s * s * m[k] / 2.0 + s * s * s * (m[k + 1] - m[k]) / (6.0 * h)
}
macro_rules! spline_at {
    ($n:literal, $N:literal, $x:expr) => {
        ob!("C16", $n, (y: &[f64; $N], t: f64) -> f64, { CubicSpline::<$N>::new(Vector::new($x), Vector::new(*y)).unwrap().evaluate(t) } == { natural(&$x, y, t) });
    };
}
spline_at!("spline5_all", 5, [-2.0, -1.0, 0.5, 3.0, 4.0]);
spline_at!("spline6_all", 6, [0.0, 1.0, 1.5, 4.0, 4.25, 8.0]);
spline_at!("spline7_all", 7, [-8.0, -4.0, -3.0, 0.0, 0.5, 2.0, 10.0]);
spline_at!("spline8_all", 8, [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]);
spline_at!("spline9_all", 9, [-1.0, 0.0, 0.5, 2.0, 3.0, 3.5, 5.0, 5.5, 9.0]);
fn lagrange<const N: usize>(x: &[f64; N], y: &[f64; N], t: f64) -> f64 { let mut r = 0.0; for i in 0..N { let mut p = y[i]; for j in 0..N { if j != i { p *= (t - x[j]) / (x[i] - x[j]); } } r += p; } r }
macro_rules! poly_at {
    ($n:literal, $N:literal, $x:expr) => {
        ob!("C16", $n, (y: &[f64; $N], t: f64) -> f64, { assume(away(&$x, t)); PolynomialInterpolator::<$N>::new(Vector::new($x), Vector::new(*y)).unwrap().evaluate(t) } == { lagrange(&$x, y, t) });
    };
}
poly_at!("poly5_all", 5, [3.0, -1.0, 0.5, -2.0, 4.0]);
poly_at!("poly6_all", 6, [0.0, 8.0, 1.5, 4.0, 4.25, 1.0]);
poly_at!("poly9_all", 9, [0.0, -4.0, 2.0, 3.0, -3.0, 1.0, -1.0, 4.0, -2.0]);
ob!("C16", "spline5_rejects", (x: &[f64; 5], y: &[f64; 5]) -> bool, { CubicSpline::<5>::new(Vector::new(*x), Vector::new(*y)).is_ok() } == { x[0] < x[1] && x[1] < x[2] && x[2] < x[3] && x[3] < x[4] });
ob!("C16", "poly5_rejects", (x: &[f64; 5], y: &[f64; 5]) -> bool, { PolynomialInterpolator::<5>::new(Vector::new(*x), Vector::new(*y)).is_ok() } == { distinct!(x, 5) });
ob!("C16", "poly5_knots", (x: &[f64; 5], y: &[f64; 5]) -> [f64; 5], { assume(distinct!(x, 5)); let p = PolynomialInterpolator::<5>::new(Vector::new(*x), Vector::new(*y)).unwrap(); [p.evaluate(x[0]), p.evaluate(x[1]), p.evaluate(x[2]), p.evaluate(x[3]), p.evaluate(x[4])] } == { *y });
// many knots, tanks and components
macro_rules! many_knots {
    ($($n:literal $p:literal $q:literal $r:literal $N:literal),*) => { $(
        // the curve of one ordinate that differs from the rest, at the places a size-dependent fault would show
        ob!("C16", $n, (a: f64, b: f64, t: f64) -> f64, { let x: [f64; $N] = core::array::from_fn(|i| (i * i) as f64 / 4.0 + i as f64); let y: [f64; $N] = core::array::from_fn(|i| if i == $N - 3 { a } else if i == 1 { b } else { 0.0 }); CubicSpline::<$N>::new(Vector::new(x), Vector::new(y)).unwrap().evaluate(t) } == { let x: [f64; $N] = core::array::from_fn(|i| (i * i) as f64 / 4.0 + i as f64); let y: [f64; $N] = core::array::from_fn(|i| if i == $N - 3 { a } else if i == 1 { b } else { 0.0 }); natural(&x, &y, t) });
        ob!("C16", $p, (a: f64, b: f64, s: f64) -> f64, { let x: [f64; $N] = core::array::from_fn(|i| i as f64); PolynomialInterpolator::<$N>::new(Vector::new(x), Vector::new(core::array::from_fn(|i| a + b * i as f64))).unwrap().evaluate(2.25) + 0.0 * s } == { a + 2.25 * b });
        ob!("C16", $q, (y: &[f64; $N]) -> [f64; 4], { let x: [f64; $N] = core::array::from_fn(|i| i as f64 * 2.0); let p = PolynomialInterpolator::<$N>::new(Vector::new(x), Vector::new(*y)).unwrap(); [p.evaluate(0.0), p.evaluate(x[$N - 1]), p.evaluate(x[$N / 2]), p.degree() as f64] } == { [y[0], y[$N - 1], y[$N / 2], ($N - 1) as f64] });
        ob!("C16", $r, (x: f64) -> [bool; $N], { core::array::from_fn(|k| { let xs: [f64; $N] = core::array::from_fn(|i| if i == k { x } else { i as f64 }); CubicSpline::<$N>::new(Vector::new(xs), Vector::new([0.0; $N])).is_ok() }) } == { core::array::from_fn(|k| (k == 0 || x > k as f64 - 1.0) && (k == $N - 1 || x < k as f64 + 1.0)) });
    )* }
}
many_knots!("spline12_two" "poly12_linear" "poly12_knots" "spline12_rejects" 12, "spline17_two" "poly17_linear" "poly17_knots" "spline17_rejects" 17, "spline33_two" "poly33_linear" "poly33_knots" "spline33_rejects" 33);
ob!("C16", "lerp_vector_9", (a: &[f64; 9], b: &[f64; 9], t: f64) -> [f64; 9], { lerp(Vector::new(*a), Vector::new(*b), t).data } == { core::array::from_fn(|i| (1.0 - t) * a[i] + t * b[i]) });
macro_rules! poly_rejects { ($($n:literal $N:literal),*) => { $(
ob!("C16", $n, (x: f64) -> [bool; $N], { core::array::from_fn(|k| { let xs: [f64; $N] = core::array::from_fn(|i| if i == k { x } else { i as f64 }); PolynomialInterpolator::<$N>::new(Vector::new(xs), Vector::new([0.0; $N])).is_ok() }) } == { core::array::from_fn(|k| { let mut ok = true; for i in 0..$N { if i != k { ok &= !near(x, i as f64); } } ok }) });
)* } }
poly_rejects!("poly9_rejects" 9, "poly17_rejects" 17);
