#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::math::{Matrix, Vector};
use aether_ml::classification::{lda_qda::*, naive_bayes::*, perceptron::*, svm::*};
use aether_ml::regression::{linear::*, logistic::*, ridge::*};
use aether_opt::gradient_descent::GradientDescentGeneric;
use aether_rand::XorShift64Star;
use aether_stats::covariance::*;
use aether_stats::distributions::*;
use prelude::*;

type V2 = Vector<f64, 2>;
fn v2(a: f64, b: f64) -> V2 { Vector::new([a, b]) }
fn rows2(s: &[f64; 6]) -> [V2; 3] { [v2(s[0], s[1]), v2(s[2], s[3]), v2(s[4], s[5])] }
fn avg3(a: f64, b: f64, c: f64) -> f64 { (a + b + c) / 3.0 }
fn cov3(x: [f64; 3], y: [f64; 3]) -> f64 {
    let (mx, my) = (avg3(x[0], x[1], x[2]), avg3(y[0], y[1], y[2]));
    ((x[0] - mx) * (y[0] - my) + (x[1] - mx) * (y[1] - my) + (x[2] - mx) * (y[2] - my)) / 2.0
}
fn flat(m: Matrix<f64, 2, 2>) -> [f64; 4] { [m.data[0][0], m.data[0][1], m.data[1][0], m.data[1][1]] }
// ------------------------------------------------------------------ C20 statistics
ob!("C20", "mean", (s: &[f64; 6]) -> [f64; 2], { mean(&rows2(s)).unwrap().data } == { [avg3(s[0], s[2], s[4]), avg3(s[1], s[3], s[5])] });
ob!("C20", "mean_f32", (s: &[f32; 4]) -> [f64; 2], { let m = mean(&[Vector::new([s[0], s[1]]), Vector::new([s[2], s[3]])]).unwrap(); [m[0] as f64, m[1] as f64] } == { [(s[0] as f64 + s[2] as f64) / 2.0, (s[1] as f64 + s[3] as f64) / 2.0] });
ob!("C20", "mean_empty", () -> bool, { matches!(mean::<f64, 2>(&[]), Err(CovarianceError::EmptySamples)) } == { true });
ob!("C20", "covariance", (s: &[f64; 6]) -> [f64; 4], { flat(sample_covariance(&rows2(s)).unwrap()) } == { let (x, y) = ([s[0], s[2], s[4]], [s[1], s[3], s[5]]); [cov3(x, x), cov3(x, y), cov3(x, y), cov3(y, y)] });
ob!("C20", "covariance_two", (s: &[f64; 4]) -> [f64; 4], { flat(sample_covariance(&[v2(s[0], s[1]), v2(s[2], s[3])]).unwrap()) } == { let (u, v) = (s[2] - s[0], s[3] - s[1]); [u * u / 2.0, u * v / 2.0, u * v / 2.0, v * v / 2.0] });
ob!("C20", "cross_covariance_two", (s: &[f64; 4], t: &[f64; 2]) -> [f64; 2], { let m = sample_cross_covariance(&[v2(s[0], s[1]), v2(s[2], s[3])], &[Vector::new([t[0]]), Vector::new([t[1]])]).unwrap(); [m.data[0][0], m.data[1][0]] } == { let w = t[1] - t[0]; [(s[2] - s[0]) * w / 2.0, (s[3] - s[1]) * w / 2.0] });
ob!("C20", "covariance_short", (a: f64, b: f64) -> (bool, bool), { (matches!(sample_covariance::<f64, 2>(&[]), Err(CovarianceError::EmptySamples)), matches!(sample_covariance(&[v2(a, b)]), Err(CovarianceError::InsufficientSamples))) } == { (true, true) });
ob!("C20", "cross_covariance", (s: &[f64; 6], t: &[f64; 3]) -> [f64; 2], { let m = sample_cross_covariance(&rows2(s), &[Vector::new([t[0]]), Vector::new([t[1]]), Vector::new([t[2]])]).unwrap(); [m.data[0][0], m.data[1][0]] } == { [cov3([s[0], s[2], s[4]], *t), cov3([s[1], s[3], s[5]], *t)] });
ob!("C20", "cross_covariance_errors", (a: f64, b: f64) -> (bool, bool, bool), { (matches!(sample_cross_covariance::<f64, 2, 2>(&[v2(a, b)], &[]), Err(CovarianceError::SampleCountMismatch)), matches!(sample_cross_covariance::<f64, 2, 2>(&[], &[]), Err(CovarianceError::EmptySamples)), matches!(sample_cross_covariance(&[v2(a, b)], &[v2(b, a)]), Err(CovarianceError::InsufficientSamples))) } == { (true, true, true) });
ob!("C20", "cross_is_covariance", (s: &[f64; 6]) -> [f64; 4], { flat(sample_cross_covariance(&rows2(s), &rows2(s)).unwrap()) } == { flat(sample_covariance(&rows2(s)).unwrap()) });
ob!("C20", "stddev", (m: &[[f64; 2]; 2]) -> [f64; 2], { assume(m[0][0] > 1.0e-11 && m[1][1] > 1.0e-11); standard_deviations_from_covariance(&Matrix::new(*m)).unwrap().data } == { [m[0][0].sqrt(), m[1][1].sqrt()] });
ob!("C20", "stddev_rejects", (m: &[[f64; 2]; 2]) -> bool, { standard_deviations_from_covariance(&Matrix::new(*m)).is_ok() } == { m[0][0] > f64::EPSILON && m[1][1] > f64::EPSILON });
ob!("C20", "correlation", (a: f64, b: f64, c: f64) -> [f64; 4], { assume(a > 1.0e-11 && b > 1.0e-11 && a * a > 1.0e-11 && b * b > 1.0e-11); flat(correlation_from_covariance(&Matrix::new([[a * a, c], [c, b * b]])).unwrap()) } == { [1.0, c / (a * b), c / (a * b), 1.0] });
ob!("C20", "correlation_round_trip", (a: f64, b: f64, c: f64, d: f64) -> [f64; 4], { assume(a > 1.0e-11 && b > 1.0e-11); let m = Matrix::new([[a, c], [d, b]]); flat(covariance_from_correlation(&correlation_from_covariance(&m).unwrap(), &standard_deviations_from_covariance(&m).unwrap())) } == { [a, c, d, b] });
ob!("C20", "covariance_from_correlation", (m: &[[f64; 2]; 2], s: &[f64; 2]) -> [f64; 4], { flat(covariance_from_correlation(&Matrix::new(*m), &Vector::new(*s))) } == { [m[0][0] * s[0] * s[0], m[0][1] * s[0] * s[1], m[1][0] * s[1] * s[0], m[1][1] * s[1] * s[1]] });

// every shape: more components than samples, fewer, unequal numbers of components
fn avg<const K: usize>(x: [f64; K]) -> f64 { let mut t = 0.0; let mut i = 0; while i < K { t += x[i]; i += 1; } t / K as f64 }
fn cov<const K: usize>(x: [f64; K], y: [f64; K]) -> f64 { let (a, b) = (avg(x), avg(y)); let mut t = 0.0; let mut i = 0; while i < K { t += (x[i] - a) * (y[i] - b); i += 1; } t / (K as f64 - 1.0) }
fn part<const K: usize, const D: usize>(s: &[[f64; D]; K], c: usize) -> [f64; K] { let mut r = [0.0; K]; let mut i = 0; while i < K { r[i] = s[i][c]; i += 1; } r }
fn cross<const K: usize, const N: usize, const M: usize>(s: &[[f64; N]; K], t: &[[f64; M]; K]) -> [[f64; M]; N] { let mut r = [[0.0; M]; N]; for i in 0..N { for j in 0..M { r[i][j] = cov(part(s, i), part(t, j)); } } r }
fn vecs<const K: usize, const D: usize>(s: &[[f64; D]; K]) -> [Vector<f64, D>; K] { core::array::from_fn(|i| Vector::new(s[i])) }
ob!("C20", "mean_3_of_5", (s: &[[f64; 3]; 5]) -> [f64; 3], { mean(&vecs(s)).unwrap().data } == { [avg(part(s, 0)), avg(part(s, 1)), avg(part(s, 2))] });
ob!("C20", "mean_one", (s: &[f64; 3]) -> [f64; 3], { mean(&[Vector::new(*s)]).unwrap().data } == { *s });
ob!("C20", "covariance_3_of_2", (s: &[[f64; 3]; 2]) -> [[f64; 3]; 3], { sample_covariance(&vecs(s)).unwrap().data } == { cross(s, s) });
ob!("C20", "covariance_3_of_5", (s: &[[f64; 3]; 5]) -> [[f64; 3]; 3], { sample_covariance(&vecs(s)).unwrap().data } == { cross(s, s) });
ob!("C20", "cross_covariance_2_2", (s: &[[f64; 2]; 3], t: &[[f64; 2]; 3]) -> [[f64; 2]; 2], { sample_cross_covariance(&vecs(s), &vecs(t)).unwrap().data } == { cross(s, t) });
ob!("C20", "cross_covariance_2_3", (s: &[[f64; 2]; 4], t: &[[f64; 3]; 4]) -> [[f64; 3]; 2], { sample_cross_covariance(&vecs(s), &vecs(t)).unwrap().data } == { cross(s, t) });
ob!("C20", "cross_covariance_3_1", (s: &[[f64; 3]; 2], t: &[[f64; 1]; 2]) -> [[f64; 1]; 3], { sample_cross_covariance(&vecs(s), &vecs(t)).unwrap().data } == { cross(s, t) });
ob!("C20", "cross_covariance_3_3", (s: &[[f64; 3]; 3], t: &[[f64; 3]; 3]) -> [[f64; 3]; 3], { sample_cross_covariance(&vecs(s), &vecs(t)).unwrap().data } == { cross(s, t) });
ob!("C20", "stddev_3", (m: &[[f64; 3]; 3]) -> [f64; 3], { assume(m[0][0] > 1.0e-11 && m[1][1] > 1.0e-11 && m[2][2] > 1.0e-11); standard_deviations_from_covariance(&Matrix::new(*m)).unwrap().data } == { [m[0][0].sqrt(), m[1][1].sqrt(), m[2][2].sqrt()] });
ob!("C20", "stddev_rejects_3", (m: &[[f64; 3]; 3]) -> (bool, bool), { (standard_deviations_from_covariance(&Matrix::new(*m)).is_ok(), correlation_from_covariance(&Matrix::new(*m)).is_ok()) } == { let ok = m[0][0] > f64::EPSILON && m[1][1] > f64::EPSILON && m[2][2] > f64::EPSILON; (ok, ok) });
ob!("C20", "correlation_3", (m: &[[f64; 3]; 3], d: &[f64; 3]) -> [[f64; 3]; 3], { assume(d[0] > 1.0e-11 && d[1] > 1.0e-11 && d[2] > 1.0e-11 && d[0] * d[0] > 1.0e-11 && d[1] * d[1] > 1.0e-11 && d[2] * d[2] > 1.0e-11); let mut c = *m; c[0][0] = d[0] * d[0]; c[1][1] = d[1] * d[1]; c[2][2] = d[2] * d[2]; correlation_from_covariance(&Matrix::new(c)).unwrap().data } == { [[1.0, m[0][1] / (d[0] * d[1]), m[0][2] / (d[0] * d[2])], [m[1][0] / (d[1] * d[0]), 1.0, m[1][2] / (d[1] * d[2])], [m[2][0] / (d[2] * d[0]), m[2][1] / (d[2] * d[1]), 1.0]] });
ob!("C20", "covariance_from_correlation_3", (m: &[[f64; 3]; 3], s: &[f64; 3]) -> [[f64; 3]; 3], { covariance_from_correlation(&Matrix::new(*m), &Vector::new(*s)).data } == { let mut r = *m; for i in 0..3 { for j in 0..3 { r[i][j] = m[i][j] * s[i] * s[j]; } } r });
ob!("C20", "gaussian_fit_5", (s: &[f64; 5]) -> [f64; 2], { let g = Gaussian::fit_mle(s); [g.mu, g.sigma] } == { let m = avg(*s); let d = (cov(*s, *s) * 4.0 / 5.0).sqrt(); [m, if d > f64::EPSILON { d } else { f64::EPSILON }] });
ob!("C20", "bernoulli_fit_5", (s: &[u8; 5]) -> f64, { Bernoulli::<f64>::fit_mle(s).p } == { (s[0] as usize + s[1] as usize + s[2] as usize + s[3] as usize + s[4] as usize) as f64 / 5.0 });
// sample counts around the usual unrolling widths
ob!("C20", "mean_9", (s: &[[f64; 2]; 9]) -> [f64; 2], { mean(&vecs(s)).unwrap().data } == { [avg(part(s, 0)), avg(part(s, 1))] });
ob!("C20", "mean_17", (s: &[[f64; 1]; 17]) -> f64, { mean(&vecs(s)).unwrap().data[0] } == { avg(part(s, 0)) });
ob!("C20", "covariance_9", (s: &[[f64; 2]; 9]) -> [[f64; 2]; 2], { sample_covariance(&vecs(s)).unwrap().data } == { cross(s, s) });
ob!("C20", "covariance_5_of_3", (s: &[[f64; 5]; 3]) -> [[f64; 5]; 5], { sample_covariance(&vecs(s)).unwrap().data } == { cross(s, s) });
ob!("C20", "covariance_17", (s: &[[f64; 1]; 17]) -> f64, { sample_covariance(&vecs(s)).unwrap().data[0][0] } == { cov(part(s, 0), part(s, 0)) });
ob!("C20", "cross_covariance_9", (s: &[[f64; 1]; 9], t: &[[f64; 2]; 9]) -> [[f64; 2]; 1], { sample_cross_covariance(&vecs(s), &vecs(t)).unwrap().data } == { cross(s, t) });
ob!("C20", "gaussian_fit_9", (s: &[f64; 9]) -> [f64; 2], { let g = Gaussian::fit_mle(s); [g.mu, g.sigma] } == { let m = avg(*s); let d = (cov(*s, *s) * 8.0 / 9.0).sqrt(); [m, if d > f64::EPSILON { d } else { f64::EPSILON }] });
ob!("C20", "gaussian_fit_one", (x: f64) -> [f64; 2], { let g = Gaussian::fit_mle(&[x]); [g.mu, g.sigma] } == { [x, f64::EPSILON] });
ob!("C20", "bernoulli_fit_17", (s: &[u8; 17]) -> f64, { Bernoulli::<f64>::fit_mle(s).p } == { let mut t = 0usize; for k in 0..17 { t += s[k] as usize; } t as f64 / 17.0 });
ob!("C20", "categorical_pmf_6", (p: &[f64; 6], k: usize) -> f64, { Categorical::new(p.to_vec()).pmf(k) } == { if k < 6 { p[k] } else { 0.0 } });
ob!("C20", "categorical_fit_5", (c: &[u16; 5]) -> [f64; 5], { assume(c[4] > 0); let q = Categorical::<f64>::fit_mle(&[c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize, c[4] as usize]); [q.pmf(0), q.pmf(1), q.pmf(2), q.pmf(3), q.pmf(4)] } == { let t = c[0] as f64 + c[1] as f64 + c[2] as f64 + c[3] as f64 + c[4] as f64; [c[0] as f64 / t, c[1] as f64 / t, c[2] as f64 / t, c[3] as f64 / t, c[4] as f64 / t] });
ob!("C20", "mvn_3d_diagonal", (m: &[f64; 3], v: &[f64; 3], x: &[f64; 3]) -> f64, { assume(v[0] > 1.0e-11 && v[1] > 1.0e-11 && v[2] > 1.0e-11); MultivariateNormal::new(Vector::new(*m), Matrix::new([[v[0], 0.0, 0.0], [0.0, v[1], 0.0], [0.0, 0.0, v[2]]])).pdf(&Vector::new(*x)) } == { let q = (x[0] - m[0]) * (x[0] - m[0]) / v[0] + (x[1] - m[1]) * (x[1] - m[1]) / v[1] + (x[2] - m[2]) * (x[2] - m[2]) / v[2]; let t = 2.0 * core::f64::consts::PI; (-0.5 * q).exp() / (t.powf(3.0) * (v[0] * v[1] * v[2])).sqrt() });
ob!("C20", "gaussian_pdf_f32", (m: f32, s: f32, x: f32) -> f64, { assume(s > 0.0); Gaussian::<f32>::new(m, s).pdf(x) as f64 } == { let (m, s, x) = (m as f64, s as f64, x as f64); (-0.5 * (x - m) * (x - m) / (s * s)).exp() / (s * (2.0 * core::f64::consts::PI).sqrt()) });
ob!("C20", "covariance_f32", (s: &[f32; 4]) -> [f64; 2], { let m = sample_covariance(&[Vector::new([s[0], s[1]]), Vector::new([s[2], s[3]])]).unwrap(); [m.data[0][1] as f64, m.data[1][1] as f64] } == { let (u, v) = (s[2] as f64 - s[0] as f64, s[3] as f64 - s[1] as f64); [u * v / 2.0, v * v / 2.0] });
ob!("C20", "gaussian_pdf", (m: f64, s: f64, x: f64) -> f64, { assume(s > 0.0); Gaussian::new(m, s).pdf(x) } == { (-0.5 * (x - m) * (x - m) / (s * s)).exp() / (s * (2.0 * core::f64::consts::PI).sqrt()) });
ob!("C20", "gaussian_symmetric", (m: f64, s: f64, d: f64) -> f64, { assume(s > 0.0); Gaussian::new(m, s).pdf(m + d) } == { Gaussian::new(m, s).pdf(m - d) });
ob!("C20", "gaussian_fit", (s: &[f64; 3]) -> [f64; 2], { let g = Gaussian::fit_mle(s); [g.mu, g.sigma] } == { let m = avg3(s[0], s[1], s[2]); let v = avg3((s[0] - m) * (s[0] - m), (s[1] - m) * (s[1] - m), (s[2] - m) * (s[2] - m)); let d = v.sqrt(); [m, if d > f64::EPSILON { d } else { f64::EPSILON }] });
ob!("C20", "gaussian_fit_empty", () -> [f64; 2], { let g = Gaussian::<f64>::fit_mle(&[]); [g.mu, g.sigma] } == { [0.0, 1.0] });
ob!("C20", "gaussian_sample", (s: u64, m: f64, d: f64) -> f64, { assume(s != 0); Gaussian::new(m, d).sample(&mut XorShift64Star::new(s)) } == { m + d * XorShift64Star::new(s).normal01() });
ob!("C20", "bernoulli_pmf", (p: f64, x: u8) -> f64, { Bernoulli::new(p).pmf(x) } == { if x == 0 { 1.0 - p } else if x == 1 { p } else { 0.0 } });
ob!("C20", "bernoulli_fit", (s: &[u8; 3]) -> f64, { Bernoulli::<f64>::fit_mle(s).p } == { (s[0] as usize + s[1] as usize + s[2] as usize) as f64 / 3.0 });
ob!("C20", "bernoulli_fit_empty", () -> f64, { Bernoulli::<f64>::fit_mle(&[]).p } == { 0.0 });
ob!("C20", "categorical_pmf", (p: &[f64; 3], k: usize) -> f64, { Categorical::new(p.to_vec()).pmf(k) } == { if k < 3 { p[k] } else { 0.0 } });
ob!("C20", "categorical_fit", (c: &[u16; 3]) -> [f64; 3], { assume(c[0] > 0); let q = Categorical::<f64>::fit_mle(&[c[0] as usize, c[1] as usize, c[2] as usize]); [q.pmf(0), q.pmf(1), q.pmf(2)] } == { let t = (c[0] as usize + c[1] as usize + c[2] as usize) as f64; [c[0] as usize as f64 / t, c[1] as usize as f64 / t, c[2] as usize as f64 / t] });
ob!("C20", "categorical_fit_none", () -> [f64; 2], { let q = Categorical::<f64>::fit_mle(&[0, 0]); [q.pmf(0), q.pmf(1)] } == { [0.0, 0.0] });
ob!("C20", "mvn_1d", (m: f64, s: f64, x: f64) -> f64, { assume(s > 1.0e-11 && s * s > 1.0e-11); MultivariateNormal::new(Vector::new([m]), Matrix::new([[s * s]])).pdf(&Vector::new([x])) } == { Gaussian::new(m, s).pdf(x) });
ob!("C20", "mvn_2d", (m: &[f64; 2], a: f64, b: f64, c: f64, x: &[f64; 2]) -> f64, { assume(a > 1.0e-11 && b > 1.0e-11 && c.abs() < a && a * b - c * c > 1.0e-11 && b - c * c / a > 1.0e-11); MultivariateNormal::new(Vector::new(*m), Matrix::new([[a, c], [c, b]])).pdf(&Vector::new(*x)) } == { let d = a * b - c * c; let (u, v) = (x[0] - m[0], x[1] - m[1]); let q = (b * u * u - 2.0 * c * u * v + a * v * v) / d; (-0.5 * q).exp() / (2.0 * core::f64::consts::PI * d.sqrt()) });

// ------------------------------------------------------------------ C21 training follows the gradient of the stated loss
type V1 = Vector<f64, 1>;
fn v1(a: f64) -> V1 { Vector::new([a]) }
fn xs2(x: &[f64; 4]) -> [V2; 2] { [v2(x[0], x[1]), v2(x[2], x[3])] }
fn sgn(y: i8) -> f64 { if y >= 0 { 1.0 } else { -1.0 } }
fn bin(y: u8) -> f64 { if y == 0 { 0.0 } else { 1.0 } }
fn sig(s: f64) -> f64 { 1.0 / (1.0 + (-s).exp()) }
fn lin(w: &[f64; 3], x: &[f64; 4], k: usize) -> f64 { w[2] + w[0] * x[2 * k] + w[1] * x[2 * k + 1] }
/// w minus lr times (sum_k e_k (x_k, 1) times scale + reg)
fn stepped(w: &[f64; 3], x: &[f64; 4], e: [f64; 2], scale: f64, reg: f64, lr: f64) -> [f64; 3] {
    [w[0] - lr * (scale * (e[0] * x[0] + e[1] * x[2]) + reg * w[0]), w[1] - lr * (scale * (e[0] * x[1] + e[1] * x[3]) + reg * w[1]), w[2] - lr * scale * (e[0] + e[1])]
}
fn one_step<const M: usize>(lr: f64) -> GradientDescentGeneric<f64, M> {
    let mut o = GradientDescentGeneric::<f64, M>::new();
    o.backtracking(false).max_iters(1);
    o.lr = lr;
    o.tol_grad = -1.0;
    o
}
fn linear(w: &[f64; 3], lr: f64) -> LinearRegression<f64, 2> { LinearRegression { weights: v2(w[0], w[1]), bias: w[2], lr } }
fn ridge(w: &[f64; 3], lr: f64, alpha: f64) -> RidgeRegression<f64, 2> { RidgeRegression { weights: v2(w[0], w[1]), bias: w[2], lr, alpha } }
fn logistic(w: &[f64; 3], lr: f64) -> LogisticRegression<f64, 2> { LogisticRegression { weights: v2(w[0], w[1]), bias: w[2], lr } }
fn svm(w: &[f64; 3], lr: f64, c: f64) -> LinearSvm<f64, 2> { LinearSvm { weights: v2(w[0], w[1]), bias: w[2], lr, c } }
fn perceptron(w: &[f64; 3], lr: f64) -> Perceptron<f64, 2> { Perceptron { weights: v2(w[0], w[1]), bias: w[2], lr } }
macro_rules! params { ($m:expr) => {{ let m = $m; [m.weights[0], m.weights[1], m.bias] }}; }
ob!("C21", "linear_epoch", (w: &[f64; 3], x: &[f64; 4], y: &[f64; 2], lr: f64) -> [f64; 3], { let mut m = linear(w, lr); m.train_epoch(&xs2(x), y); params!(m) } == { stepped(w, x, [2.0 * (lin(w, x, 0) - y[0]), 2.0 * (lin(w, x, 1) - y[1])], 0.5, 0.0, lr) });
ob!("C21", "linear_fit", (w: &[f64; 3], x: &[f64; 4], y: &[f64; 2], lr: f64) -> [f64; 3], { let mut m = linear(w, 9.0); m.fit_with_optimizer::<3>(&xs2(x), y, one_step(lr)); params!(m) } == { stepped(w, x, [2.0 * (lin(w, x, 0) - y[0]), 2.0 * (lin(w, x, 1) - y[1])], 0.5, 0.0, lr) });
ob!("C21", "ridge_epoch", (w: &[f64; 3], x: &[f64; 4], y: &[f64; 2], lr: f64, a: f64) -> [f64; 3], { let mut m = ridge(w, lr, a); m.train_epoch(&xs2(x), y); params!(m) } == { stepped(w, x, [2.0 * (lin(w, x, 0) - y[0]), 2.0 * (lin(w, x, 1) - y[1])], 0.5, 2.0 * a, lr) });
ob!("C21", "ridge_fit", (w: &[f64; 3], x: &[f64; 4], y: &[f64; 2], lr: f64, a: f64) -> [f64; 3], { let mut m = ridge(w, 9.0, a); m.fit_with_optimizer::<3>(&xs2(x), y, one_step(lr)); params!(m) } == { stepped(w, x, [2.0 * (lin(w, x, 0) - y[0]), 2.0 * (lin(w, x, 1) - y[1])], 0.5, 2.0 * a, lr) });
ob!("C21", "logistic_epoch", (w: &[f64; 3], x: &[f64; 4], y: &[u8; 2], lr: f64) -> [f64; 3], { let mut m = logistic(w, lr); m.train_epoch(&xs2(x), y); params!(m) } == { stepped(w, x, [sig(lin(w, x, 0)) - bin(y[0]), sig(lin(w, x, 1)) - bin(y[1])], 0.5, 0.0, lr) });
ob!("C21", "logistic_fit", (w: &[f64; 3], x: &[f64; 4], y: &[u8; 2], lr: f64) -> [f64; 3], { let mut m = logistic(w, 9.0); m.fit_with_optimizer::<3>(&xs2(x), y, one_step(lr)); params!(m) } == { stepped(w, x, [sig(lin(w, x, 0)) - bin(y[0]), sig(lin(w, x, 1)) - bin(y[1])], 0.5, 0.0, lr) });
fn hinge_e(s: f64, y: f64) -> f64 { if y * s < 1.0 { -y } else { 0.0 } }
ob!("C21", "svm_epoch", (w: &[f64; 3], x: &[f64; 4], y: &[i8; 2], lr: f64, c: f64) -> [f64; 3], { assume(c > 0.0); let mut m = svm(w, lr, c); m.train_epoch(&xs2(x), y); params!(m) } == { stepped(w, x, [hinge_e(lin(w, x, 0), sgn(y[0])), hinge_e(lin(w, x, 1), sgn(y[1]))], 0.5, 1.0 / c, lr) });
ob!("C21", "svm_fit", (w: &[f64; 3], x: &[f64; 4], y: &[i8; 2], lr: f64, c: f64) -> [f64; 3], { assume(c > 0.0); let mut m = svm(w, 9.0, c); m.fit_with_optimizer::<3>(&xs2(x), y, one_step(lr)); params!(m) } == { stepped(w, x, [hinge_e(lin(w, x, 0), sgn(y[0])), hinge_e(lin(w, x, 1), sgn(y[1]))], 0.5, 1.0 / c, lr) });
ob!("C21", "perceptron_epoch", (w: &[f64; 3], x: &[f64; 4], y: &[i8; 2], lr: f64) -> [f64; 3], { let mut m = perceptron(w, lr); m.train_epoch(&xs2(x), y); params!(m) } == {
    let mut w = *w;
    let mut k = 0;
    while k < 2 { let s = sgn(y[k]); if s * (w[2] + w[0] * x[2 * k] + w[1] * x[2 * k + 1]) <= 0.0 { w = [w[0] + lr * s * x[2 * k], w[1] + lr * s * x[2 * k + 1], w[2] + lr * s]; } k += 1; }
    w
});
fn perc_e(s: f64, y: f64) -> f64 { if -y * s > 0.0 { -y } else { 0.0 } }
ob!("C21", "perceptron_fit", (w: &[f64; 3], x: &[f64; 4], y: &[i8; 2], lr: f64) -> [f64; 3], { let mut m = perceptron(w, 9.0); m.fit_with_optimizer::<3>(&xs2(x), y, one_step(lr)); params!(m) } == { stepped(w, x, [perc_e(lin(w, x, 0), sgn(y[0])), perc_e(lin(w, x, 1), sgn(y[1]))], 0.5, 0.0, lr) });
// the loss handed to the line search: with one candidate step the Armijo rule accepts exactly when the stated loss drops enough
fn armijo<const M: usize>(lr: f64) -> GradientDescentGeneric<f64, M> {
    let mut o = GradientDescentGeneric::<f64, M>::new();
    o.max_iters(1);
    o.lr = lr;
    o.backtrack_tau = 1.0e-30;
    o.armijo_c1 = 0.0;
    o.tol_grad = -1.0;
    o
}
macro_rules! line_search {
    ($n:literal, $x:ty, $y:ty, ($($a:ident),*), $model:expr, $fit:expr, $loss:expr, $grad:expr) => {
        ob!("C21", $n, (w: f64, b: f64, x: f64, y: $y, lr: f64, $($a: f64),*) -> bool, {
            assume(lr > 1.0e-11 && lr < 1.0e3);
            $(assume($a > 0.0);)*
            let g: (f64, f64) = $grad(w, b, x, y, $($a),*);
            let (l0, l1): (f64, f64) = ($loss(w, b, x, y, $($a),*), $loss(w - lr * g.0, b - lr * g.1, x, y, $($a),*));
            assume(l1 <= l0);
            let m = $fit(w, b, x, y, lr, $($a),*);
            m.0 == w - lr * g.0 && m.1 == b - lr * g.1
        } == { true });
    };
}
line_search!("linear_loss", f64, f64, (), (), |w: f64, b: f64, x: f64, y: f64, lr: f64| { let mut m = LinearRegression::<f64, 1> { weights: v1(w), bias: b, lr }; m.fit_with_optimizer::<2>(&[v1(x)], &[y], armijo(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: f64| (w * x + b - y) * (w * x + b - y), |w: f64, b: f64, x: f64, y: f64| { let e = 2.0 * (w * x + b - y); (e * x, e) });
line_search!("ridge_loss", f64, f64, (a), (), |w: f64, b: f64, x: f64, y: f64, lr: f64, a: f64| { let mut m = RidgeRegression::<f64, 1> { weights: v1(w), bias: b, lr, alpha: a }; m.fit_with_optimizer::<2>(&[v1(x)], &[y], armijo(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: f64, a: f64| (w * x + b - y) * (w * x + b - y) + a * w * w, |w: f64, b: f64, x: f64, y: f64, a: f64| { let e = 2.0 * (w * x + b - y); (e * x + 2.0 * a * w, e) });

// ------------------------------------------------------------------ C22 classifiers
ob!("C22", "linear_predict", (w: &[f64; 3], x: &[f64; 2]) -> f64, { linear(w, 1.0).predict(&Vector::new(*x)) } == { w[0] * x[0] + w[1] * x[1] + w[2] });
ob!("C22", "ridge_predict", (w: &[f64; 3], x: &[f64; 2]) -> f64, { ridge(w, 1.0, 2.0).predict(&Vector::new(*x)) } == { w[0] * x[0] + w[1] * x[1] + w[2] });
ob!("C22", "svm_decision", (w: &[f64; 3], x: &[f64; 2]) -> f64, { svm(w, 1.0, 2.0).decision(&Vector::new(*x)) } == { w[0] * x[0] + w[1] * x[1] + w[2] });
ob!("C22", "logistic_probability", (w: &[f64; 3], x: &[f64; 2]) -> f64, { logistic(w, 1.0).predict_probability(&Vector::new(*x)) } == { 1.0 / (1.0 + (-(w[0] * x[0] + w[1] * x[1] + w[2])).exp()) });
ob!("C22", "logistic_label", (w: &[f64; 3], x: &[f64; 2]) -> u8, { logistic(w, 1.0).predict(&Vector::new(*x)) } == { if sig(w[0] * x[0] + w[1] * x[1] + w[2]) > 0.5 { 1 } else { 0 } });
ob!("C22", "perceptron_raw", (w: &[f64; 3], x: &[f64; 2]) -> f64, { perceptron(w, 1.0).predict_raw(&Vector::new(*x)) } == { w[0] * x[0] + w[1] * x[1] + w[2] });
ob!("C22", "perceptron_label", (w: &[f64; 3], x: &[f64; 2]) -> i8, { perceptron(w, 1.0).predict(&Vector::new(*x)) } == { if w[0] * x[0] + w[1] * x[1] + w[2] >= 0.0 { 1 } else { -1 } });
// discriminant analysis: fitted moments and the class of the largest discriminant
fn lda1(m: &[f64; 3], p: &[f64; 3], v: f64) -> Lda<1> { Lda { means: vec![v1(m[0]), v1(m[1]), v1(m[2])], priors: p.to_vec(), pooled_cov: Matrix::new([[v]]) } }
fn argmax(s: [f64; 3]) -> usize { let mut b = 0; if s[1] > s[0] { b = 1; } if s[2] > s[b] { b = 2; } b }
ob!("C22", "lda_predict", (m: &[f64; 3], p: &[f64; 3], v: f64, x: f64) -> usize, { assume(v > 1.0e-11 && p[0] > 0.0 && p[1] > 0.0 && p[2] > 0.0); lda1(m, p, v).predict(&v1(x)) } == { let d = |k: usize| x * m[k] / v - 0.5 * m[k] * m[k] / v + p[k].ln(); argmax([d(0), d(1), d(2)]) });
ob!("C22", "qda_predict", (m: &[f64; 3], p: &[f64; 3], v: &[f64; 3], x: f64) -> usize, { assume(v[0] > 1.0e-11 && v[1] > 1.0e-11 && v[2] > 1.0e-11 && p[0] > 0.0 && p[1] > 0.0 && p[2] > 0.0); Qda::<1> { means: vec![v1(m[0]), v1(m[1]), v1(m[2])], priors: p.to_vec(), covs: vec![Matrix::new([[v[0]]]), Matrix::new([[v[1]]]), Matrix::new([[v[2]]])] }.predict(&v1(x)) } == { let d = |k: usize| -0.5 * v[k].ln() - 0.5 * (x - m[k]) * (x - m[k]) / v[k] + p[k].ln(); argmax([d(0), d(1), d(2)]) });
ob!("C22", "nb_predict", (m: &[f64; 3], p: &[f64; 3], v: &[f64; 3], x: f64) -> usize, { assume(v[0] > 1.0e-11 && v[1] > 1.0e-11 && v[2] > 1.0e-11 && p[0] > 0.0 && p[1] > 0.0 && p[2] > 0.0); GaussianNB::<1> { class_count: vec![1, 2, 3], class_prior: p.to_vec(), class_mean: vec![v1(m[0]), v1(m[1]), v1(m[2])], class_var: vec![v1(v[0]), v1(v[1]), v1(v[2])] }.predict(&v1(x)) } == { let d = |k: usize| -0.5 * ((2.0 * core::f64::consts::PI * v[k]).ln() + (x - m[k]) * (x - m[k]) / v[k]) + p[k].ln(); argmax([d(0), d(1), d(2)]) });
ob!("C22", "nb_skips_empty_class", (m: &[f64; 2], p: &[f64; 2], v: &[f64; 2], x: f64) -> usize, { assume(v[0] > 1.0e-11 && v[1] > 1.0e-11 && p[0] > 0.0 && p[1] > 0.0); GaussianNB::<1> { class_count: vec![0, 3], class_prior: p.to_vec(), class_mean: vec![v1(m[0]), v1(m[1])], class_var: vec![v1(v[0]), v1(v[1])] }.predict(&v1(x)) } == { 1 });
const LAB: [usize; 4] = [1, 0, 1, 1];
fn data1(x: &[f64; 4]) -> [V1; 4] { [v1(x[0]), v1(x[1]), v1(x[2]), v1(x[3])] }
ob!("C22", "nb_fit", (x: &[f64; 4]) -> [f64; 6], { let m = GaussianNB::<1>::fit(&data1(x), &LAB, 2); [m.class_prior[0], m.class_prior[1], m.class_mean[0][0], m.class_mean[1][0], m.class_var[0][0], m.class_var[1][0]] } == { let a = avg3(x[0], x[2], x[3]); [0.25, 0.75, x[1], a, 0.0, avg3((x[0] - a) * (x[0] - a), (x[2] - a) * (x[2] - a), (x[3] - a) * (x[3] - a))] });
ob!("C22", "nb_counts", (x: &[f64; 4]) -> (usize, usize, usize), { let m = GaussianNB::<1>::fit(&data1(x), &LAB, 3); (m.class_count[0], m.class_count[1], m.class_count[2]) } == { (1, 3, 0) });
ob!("C22", "lda_fit", (x: &[f64; 4]) -> [f64; 5], { let m = Lda::<1>::fit(&data1(x), &LAB, 2); [m.priors[0], m.priors[1], m.means[0][0], m.means[1][0], m.pooled_cov.data[0][0]] } == { let a = avg3(x[0], x[2], x[3]); [0.25, 0.75, x[1], a, 0.75 * cov3([x[0], x[2], x[3]], [x[0], x[2], x[3]])] });
ob!("C22", "qda_fit", (x: &[f64; 4]) -> [f64; 6], { let m = Qda::<1>::fit(&data1(x), &LAB, 2); [m.priors[0], m.priors[1], m.means[0][0], m.means[1][0], m.covs[0].data[0][0], m.covs[1].data[0][0]] } == { let a = avg3(x[0], x[2], x[3]); [0.25, 0.75, x[1], a, 0.0, cov3([x[0], x[2], x[3]], [x[0], x[2], x[3]])] });
ob!("C22", "qda_fit_2d", (s: &[f64; 6]) -> [f64; 4], { let m = Qda::<2>::fit(&rows2(s), &[0, 0, 0], 1); flat(m.covs[0].clone()) } == { let (x, y) = ([s[0], s[2], s[4]], [s[1], s[3], s[5]]); [cov3(x, x), cov3(x, y), cov3(x, y), cov3(y, y)] });
ob!("C22", "lda_fit_2d", (s: &[f64; 6]) -> [f64; 4], { let m = Lda::<2>::fit(&rows2(s), &[0, 0, 0], 1); flat(m.pooled_cov) } == { let (x, y) = ([s[0], s[2], s[4]], [s[1], s[3], s[5]]); [cov3(x, x), cov3(x, y), cov3(x, y), cov3(y, y)] });
ob!("C22", "empty_class", (x: &[f64; 4]) -> [f64; 4], { let (l, q) = (Lda::<1>::fit(&data1(x), &LAB, 3), Qda::<1>::fit(&data1(x), &LAB, 3)); [l.priors[2], l.means[2][0], q.priors[2], q.means[2][0]] } == { [0.0, 0.0, 0.0, 0.0] });
fn xent(s: f64, y: u8) -> f64 { let p = sig(s); let t = bin(y); -(t * (p + f64::EPSILON).ln() + (1.0 - t) * (1.0 - p + f64::EPSILON).ln()) }
line_search!("logistic_loss", f64, u8, (), (), |w: f64, b: f64, x: f64, y: u8, lr: f64| { let mut m = LogisticRegression::<f64, 1> { weights: v1(w), bias: b, lr }; m.fit_with_optimizer::<2>(&[v1(x)], &[y], armijo(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: u8| xent(w * x + b, y), |w: f64, b: f64, x: f64, y: u8| { let e = sig(w * x + b) - bin(y); (e * x, e) });
line_search!("svm_loss", f64, i8, (c), (), |w: f64, b: f64, x: f64, y: i8, lr: f64, c: f64| { let mut m = LinearSvm::<f64, 1> { weights: v1(w), bias: b, lr, c }; m.fit_with_optimizer::<2>(&[v1(x)], &[y], armijo(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: i8, c: f64| { let s = sgn(y) * (w * x + b); (if s < 1.0 { 1.0 - s } else { 0.0 }) + w * w / (2.0 * c) }, |w: f64, b: f64, x: f64, y: i8, c: f64| { let e = hinge_e(w * x + b, sgn(y)); (e * x + w / c, e) });
line_search!("perceptron_loss", f64, i8, (), (), |w: f64, b: f64, x: f64, y: i8, lr: f64| { let mut m = Perceptron::<f64, 1> { weights: v1(w), bias: b, lr }; m.fit_with_optimizer::<2>(&[v1(x)], &[y], armijo(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: i8| { let s = -sgn(y) * (w * x + b); if s > 0.0 { s } else { 0.0 } }, |w: f64, b: f64, x: f64, y: i8| { let e = perc_e(w * x + b, sgn(y)); (e * x, e) });
// two samples and a sufficient-decrease test: the loss and the gradient must share their scale
fn armijo_half<const M: usize>(lr: f64) -> GradientDescentGeneric<f64, M> {
    let mut o = armijo::<M>(lr);
    o.armijo_c1 = 0.5;
    o
}
macro_rules! line_search_two {
    ($n:literal, $y:ty, ($($a:ident),*), $model:expr, $loss:expr, $grad:expr) => {
        ob!("C21", $n, (p: &[f64; 2], x: &[f64; 2], y: &[$y; 2], lr: f64, $($a: f64),*) -> bool, {
            assume(lr > 1.0e-11 && lr < 1.0e3);
            $(assume($a > 0.0);)*
            let (g0, g1): ((f64, f64), (f64, f64)) = ($grad(p[0], p[1], x[0], y[0], $($a),*), $grad(p[0], p[1], x[1], y[1], $($a),*));
            let g = ((g0.0 + g1.0) / 2.0, (g0.1 + g1.1) / 2.0);
            let l = |w: f64, b: f64| -> f64 { let (u, v): (f64, f64) = ($loss(w, b, x[0], y[0], $($a),*), $loss(w, b, x[1], y[1], $($a),*)); (u + v) / 2.0 };
            assume(l(p[0] - lr * g.0, p[1] - lr * g.1) <= l(p[0], p[1]) - 0.5 * lr * (g.0 * g.0 + g.1 * g.1));
            let m = $model(p[0], p[1], x, y, lr, $($a),*);
            m.0 == p[0] - lr * g.0 && m.1 == p[1] - lr * g.1
        } == { true });
    };
}
line_search_two!("linear_loss_two", f64, (), |w: f64, b: f64, x: &[f64; 2], y: &[f64; 2], lr: f64| { let mut m = LinearRegression::<f64, 1> { weights: v1(w), bias: b, lr }; m.fit_with_optimizer::<2>(&[v1(x[0]), v1(x[1])], y, armijo_half(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: f64| (w * x + b - y) * (w * x + b - y), |w: f64, b: f64, x: f64, y: f64| { let e = 2.0 * (w * x + b - y); (e * x, e) });
line_search_two!("ridge_loss_two", f64, (a), |w: f64, b: f64, x: &[f64; 2], y: &[f64; 2], lr: f64, a: f64| { let mut m = RidgeRegression::<f64, 1> { weights: v1(w), bias: b, lr, alpha: a }; m.fit_with_optimizer::<2>(&[v1(x[0]), v1(x[1])], y, armijo_half(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: f64, a: f64| (w * x + b - y) * (w * x + b - y) + a * w * w, |w: f64, b: f64, x: f64, y: f64, a: f64| { let e = 2.0 * (w * x + b - y); (e * x + 2.0 * a * w, e) });
line_search_two!("svm_loss_two", i8, (c), |w: f64, b: f64, x: &[f64; 2], y: &[i8; 2], lr: f64, c: f64| { let mut m = LinearSvm::<f64, 1> { weights: v1(w), bias: b, lr, c }; m.fit_with_optimizer::<2>(&[v1(x[0]), v1(x[1])], y, armijo_half(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: i8, c: f64| { let s = sgn(y) * (w * x + b); (if s < 1.0 { 1.0 - s } else { 0.0 }) + w * w / (2.0 * c) }, |w: f64, b: f64, x: f64, y: i8, c: f64| { let e = hinge_e(w * x + b, sgn(y)); (e * x + w / c, e) });
line_search_two!("perceptron_loss_two", i8, (), |w: f64, b: f64, x: &[f64; 2], y: &[i8; 2], lr: f64| { let mut m = Perceptron::<f64, 1> { weights: v1(w), bias: b, lr }; m.fit_with_optimizer::<2>(&[v1(x[0]), v1(x[1])], y, armijo_half(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: i8| { let s = -sgn(y) * (w * x + b); if s > 0.0 { s } else { 0.0 } }, |w: f64, b: f64, x: f64, y: i8| { let e = perc_e(w * x + b, sgn(y)); (e * x, e) });
line_search_two!("logistic_loss_two", u8, (), |w: f64, b: f64, x: &[f64; 2], y: &[u8; 2], lr: f64| { let mut m = LogisticRegression::<f64, 1> { weights: v1(w), bias: b, lr }; m.fit_with_optimizer::<2>(&[v1(x[0]), v1(x[1])], y, armijo_half(lr)); (m.weights[0], m.bias) },
    |w: f64, b: f64, x: f64, y: u8| xent(w * x + b, y), |w: f64, b: f64, x: f64, y: u8| { let e = sig(w * x + b) - bin(y); (e * x, e) });
ob!("C21", "fresh", () -> [f64; 22], {
    let (a, b, c, d, e) = (LinearRegression::<f64, 2>::new(), RidgeRegression::<f64, 2>::new(), LogisticRegression::<f64, 2>::new(), Perceptron::<f64, 2>::new(), LinearSvm::<f64, 2>::new());
    [a.weights[0], a.weights[1], a.bias, a.lr, b.weights[0], b.weights[1], b.bias, b.lr, b.alpha, c.weights[0], c.weights[1], c.bias, c.lr, d.weights[0], d.weights[1], d.bias, d.lr, e.weights[0], e.weights[1], e.bias, e.lr, e.c]
} == { [0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0] });
ob!("C21", "svm_epoch_one", (w: f64, b: f64, x: f64, y: i8, lr: f64, c: f64) -> [f64; 2], { assume(c > 0.0); let mut m = LinearSvm::<f64, 1> { weights: v1(w), bias: b, lr, c }; m.train_epoch(&[v1(x)], &[y]); [m.weights[0], m.bias] } == { let e = hinge_e(w * x + b, sgn(y)); [w - lr * (e * x + 2.0 * w / c), b - lr * e] });
ob!("C21", "no_data", (w: &[f64; 3], lr: f64, a: f64) -> [f64; 15], {
    let (mut a0, mut a1, mut a2, mut a3, mut a4) = (linear(w, lr), ridge(w, lr, a), logistic(w, lr), svm(w, lr, a), perceptron(w, lr));
    a0.train_epoch(&[], &[]); a1.train_epoch(&[], &[]); a2.train_epoch(&[], &[]); a3.train_epoch(&[], &[]); a4.train_epoch(&[], &[]);
    a0.fit_with_optimizer::<3>(&[], &[], one_step(lr)); a1.fit_with_optimizer::<3>(&[], &[], one_step(lr)); a2.fit_with_optimizer::<3>(&[], &[], one_step(lr)); a3.fit_with_optimizer::<3>(&[], &[], one_step(lr)); a4.fit_with_optimizer::<3>(&[], &[], one_step(lr));
    let (p, q, r, s, t) = (params!(a0), params!(a1), params!(a2), params!(a3), params!(a4));
    [p[0], p[1], p[2], q[0], q[1], q[2], r[0], r[1], r[2], s[0], s[1], s[2], t[0], t[1], t[2]]
} == { [w[0], w[1], w[2], w[0], w[1], w[2], w[0], w[1], w[2], w[0], w[1], w[2], w[0], w[1], w[2]] });

// more samples and other feature counts than the two-sample forms above
fn lin_n<const D: usize>(w: &[f64; D], b: f64, x: &[f64; D]) -> f64 { let mut t = b; for i in 0..D { t += w[i] * x[i]; } t }
/// mean over the samples of e_k (x_k, 1), times the rate, plus the regulariser
fn step_n<const D: usize, const K: usize>(w: &[f64; D], b: f64, x: &[[f64; D]; K], e: [f64; K], reg: f64, lr: f64) -> ([f64; D], f64) {
    let (mut r, mut g) = (*w, 0.0);
    for i in 0..D { let mut t = 0.0; for k in 0..K { t += e[k] * x[k][i]; } r[i] = w[i] - lr * (t / K as f64 + reg * w[i]); }
    for k in 0..K { g += e[k]; }
    (r, b - lr * g / K as f64)
}
macro_rules! train_n {
    ($n:literal, $D:literal, $M:literal, $K:literal, $y:ty, $model:ident { $($f:ident: $v:expr),* }, $reg:expr, $e:expr) => {
        ob!("C21", $n, (w: &[f64; $D], b: f64, x: &[[f64; $D]; $K], y: &[$y; $K], lr: f64) -> ([f64; $D], f64, [f64; $D], f64), {
            let mut m = $model::<f64, $D> { weights: Vector::new(*w), bias: b, lr, $($f: $v),* };
            m.train_epoch(&vecs(x), y);
            let mut q = $model::<f64, $D> { weights: Vector::new(*w), bias: b, lr: 7.0, $($f: $v),* };
            q.fit_with_optimizer::<$M>(&vecs(x), y, one_step(lr));
            (m.weights.data, m.bias, q.weights.data, q.bias)
        } == {
            let f: fn(f64, $y) -> f64 = $e;
            let (p, q) = step_n(w, b, x, core::array::from_fn(|k| f(lin_n(w, b, &x[k]), y[k])), $reg, lr);
            (p, q, p, q)
        });
    };
}
train_n!("linear_5_samples", 1, 2, 5, f64, LinearRegression { }, 0.0, |s, y| 2.0 * (s - y));
train_n!("linear_3_features", 3, 4, 3, f64, LinearRegression { }, 0.0, |s, y| 2.0 * (s - y));
train_n!("ridge_5_samples", 1, 2, 5, f64, RidgeRegression { alpha: 0.75 }, 1.5, |s, y| 2.0 * (s - y));
train_n!("ridge_3_features", 3, 4, 3, f64, RidgeRegression { alpha: 0.75 }, 1.5, |s, y| 2.0 * (s - y));
train_n!("logistic_5_samples", 1, 2, 5, u8, LogisticRegression { }, 0.0, |s, y| sig(s) - bin(y));
train_n!("logistic_3_features", 3, 4, 3, u8, LogisticRegression { }, 0.0, |s, y| sig(s) - bin(y));
ob!("C21", "svm_3_samples", (w: f64, b: f64, x: &[[f64; 1]; 3], y: &[i8; 3], lr: f64) -> [f64; 4], { let mut m = LinearSvm::<f64, 1> { weights: v1(w), bias: b, lr, c: 0.25 }; let mut q = LinearSvm::<f64, 1> { weights: v1(w), bias: b, lr: 7.0, c: 0.25 }; m.train_epoch(&vecs(x), y); q.fit_with_optimizer::<2>(&vecs(x), y, one_step(lr)); [m.weights[0], m.bias, q.weights[0], q.bias] } == { let e: [f64; 3] = core::array::from_fn(|k| hinge_e(w * x[k][0] + b, sgn(y[k]))); let (p, r) = (step_n(&[w], b, x, e, 8.0 / 3.0, lr), step_n(&[w], b, x, e, 4.0, lr)); [p.0[0], p.1, r.0[0], r.1] });
ob!("C21", "perceptron_3_samples", (w: f64, b: f64, x: &[f64; 3], y: &[i8; 3], lr: f64) -> [f64; 2], { let mut m = Perceptron::<f64, 1> { weights: v1(w), bias: b, lr }; m.train_epoch(&[v1(x[0]), v1(x[1]), v1(x[2])], y); [m.weights[0], m.bias] } == { let (mut w, mut b) = (w, b); for k in 0..3 { let t = sgn(y[k]); if t * (w * x[k] + b) <= 0.0 { w += lr * t * x[k]; b += lr * t; } } [w, b] });

ob!("C22", "linear_predict_5", (w: &[f64; 5], b: f64, x: &[f64; 5]) -> [f64; 5], {
    let (w, x) = (Vector::new(*w), Vector::new(*x));
    [LinearRegression { weights: w, bias: b, lr: 1.0 }.predict(&x), RidgeRegression { weights: w, bias: b, lr: 1.0, alpha: 2.0 }.predict(&x), LinearSvm { weights: w, bias: b, lr: 1.0, c: 1.0 }.decision(&x), Perceptron { weights: w, bias: b, lr: 1.0 }.predict_raw(&x), LogisticRegression { weights: w, bias: b, lr: 1.0 }.predict_probability(&x)]
} == { let t = lin_n(w, b, x); [t, t, t, t, sig(t)] });
fn argmax_n<const K: usize>(s: [f64; K]) -> usize { let (mut b, mut m) = (0, s[0]); for i in 1..K { if s[i] > m { m = s[i]; b = i; } } b }
const TAU: f64 = 2.0 * core::f64::consts::PI;
ob!("C22", "nb_predict_2d", (m: &[[f64; 2]; 2], v: &[[f64; 2]; 2], p: &[f64; 2], x: &[f64; 2]) -> usize, { assume(p[0] > 0.0 && p[1] > 0.0 && v[0][0] > 1.0e-11 && v[0][1] > 1.0e-11 && v[1][0] > 1.0e-11 && v[1][1] > 1.0e-11); GaussianNB::<2> { class_count: vec![4, 5], class_prior: p.to_vec(), class_mean: vec![Vector::new(m[0]), Vector::new(m[1])], class_var: vec![Vector::new(v[0]), Vector::new(v[1])] }.predict(&Vector::new(*x)) } == {
    let d = |k: usize| p[k].ln() - 0.5 * ((TAU * v[k][0]).ln() + (x[0] - m[k][0]) * (x[0] - m[k][0]) / v[k][0]) - 0.5 * ((TAU * v[k][1]).ln() + (x[1] - m[k][1]) * (x[1] - m[k][1]) / v[k][1]);
    argmax_n([d(0), d(1)])
});
ob!("C22", "nb_predict_4", (m: &[f64; 4], p: &[f64; 4], x: f64) -> usize, { assume(p[0] > 0.0 && p[1] > 0.0 && p[2] > 0.0 && p[3] > 0.0); GaussianNB::<1> { class_count: vec![1, 2, 0, 3], class_prior: p.to_vec(), class_mean: vec![v1(m[0]), v1(m[1]), v1(m[2]), v1(m[3])], class_var: vec![v1(2.0); 4] }.predict(&v1(x)) } == { let d = |k: usize| p[k].ln() - 0.25 * (x - m[k]) * (x - m[k]); let b = argmax_n([d(0), d(1), d(3)]); if b == 2 { 3 } else { b } });
ob!("C22", "lda_predict_2d", (m: &[[f64; 2]; 2], c: &[f64; 3], p: &[f64; 2], x: &[f64; 2]) -> usize, { assume(p[0] > 0.0 && p[1] > 0.0 && c[0] > 1.0e-11 && c[2] > 1.0e-11 && c[1].abs() < c[0] && c[0] * c[2] - c[1] * c[1] > 1.0e-11 && c[2] - c[1] * c[1] / c[0] > 1.0e-11); Lda::<2> { means: vec![Vector::new(m[0]), Vector::new(m[1])], priors: p.to_vec(), pooled_cov: Matrix::new([[c[0], c[1]], [c[1], c[2]]]) }.predict(&Vector::new(*x)) } == {
    let q = |u: &[f64; 2], v: &[f64; 2]| (u[0] * (c[2] * v[0] - c[1] * v[1]) + u[1] * (c[0] * v[1] - c[1] * v[0])) / (c[0] * c[2] - c[1] * c[1]);
    let d = |k: usize| q(x, &m[k]) - 0.5 * q(&m[k], &m[k]) + p[k].ln();
    argmax_n([d(0), d(1)])
});
ob!("C22", "qda_predict_2d", (m: &[[f64; 2]; 2], c: &[f64; 3], p: &[f64; 2], x: &[f64; 2]) -> usize, { assume(p[0] > 0.0 && p[1] > 0.0 && c[0] > 1.0e-11 && c[2] > 1.0e-11 && c[1].abs() < c[0] && c[0] * c[2] - c[1] * c[1] > 1.0e-11 && c[2] - c[1] * c[1] / c[0] > 1.0e-11); Qda::<2> { means: vec![Vector::new(m[0]), Vector::new(m[1])], priors: p.to_vec(), covs: vec![Matrix::new([[c[0], c[1]], [c[1], c[2]]]), Matrix::new([[2.0, 0.0], [0.0, 3.0]])] }.predict(&Vector::new(*x)) } == {
    let det = c[0] * c[2] - c[1] * c[1];
    let (u, v) = ([x[0] - m[0][0], x[1] - m[0][1]], [x[0] - m[1][0], x[1] - m[1][1]]);
    let a = -0.5 * det.ln() - 0.5 * (c[2] * u[0] * u[0] - 2.0 * c[1] * u[0] * u[1] + c[0] * u[1] * u[1]) / det + p[0].ln();
    let b = -0.5 * 6.0f64.ln() - 0.5 * (v[0] * v[0] / 2.0 + v[1] * v[1] / 3.0) + p[1].ln();
    argmax_n([a, b])
});
// seven labelled samples of two features in three classes, interleaved
const LAB7: [usize; 7] = [2, 0, 1, 1, 2, 0, 2];
fn of<const D: usize>(s: &[[f64; D]; 7], c: usize, i: usize) -> ([f64; 3], usize) { let (mut r, mut n) = ([0.0; 3], 0); for k in 0..7 { if LAB7[k] == c { r[n] = s[k][i]; n += 1; } } (r, n) }
fn mean_of(s: &[[f64; 2]; 7], c: usize, i: usize) -> f64 { let (r, n) = of(s, c, i); (r[0] + r[1] + r[2]) / n as f64 }
fn scatter_of(s: &[[f64; 2]; 7], c: usize, i: usize, j: usize) -> f64 { let ((u, n), (v, _)) = (of(s, c, i), of(s, c, j)); let (a, b) = (mean_of(s, c, i), mean_of(s, c, j)); let mut t = 0.0; for k in 0..3 { if k < n { t += (u[k] - a) * (v[k] - b); } } t }
const N7: [f64; 3] = [2.0, 2.0, 3.0];
ob!("C22", "nb_fit_7", (s: &[[f64; 2]; 7]) -> [[f64; 5]; 3], { let m = GaussianNB::<2>::fit(&vecs(s), &LAB7, 3); core::array::from_fn(|c| [m.class_prior[c], m.class_mean[c][0], m.class_mean[c][1], m.class_var[c][0], m.class_var[c][1]]) } == { core::array::from_fn(|c| [N7[c] / 7.0, mean_of(s, c, 0), mean_of(s, c, 1), scatter_of(s, c, 0, 0) / N7[c], scatter_of(s, c, 1, 1) / N7[c]]) });
ob!("C22", "qda_fit_7", (s: &[[f64; 2]; 7]) -> [[f64; 7]; 3], { let m = Qda::<2>::fit(&vecs(s), &LAB7, 3); core::array::from_fn(|c| { let v = flat(m.covs[c].clone()); [m.priors[c], m.means[c][0], m.means[c][1], v[0], v[1], v[2], v[3]] }) } == { core::array::from_fn(|c| { let d = N7[c] - 1.0; [N7[c] / 7.0, mean_of(s, c, 0), mean_of(s, c, 1), scatter_of(s, c, 0, 0) / d, scatter_of(s, c, 0, 1) / d, scatter_of(s, c, 1, 0) / d, scatter_of(s, c, 1, 1) / d] }) });
ob!("C22", "lda_fit_7", (s: &[[f64; 2]; 7]) -> ([[f64; 3]; 3], [f64; 4]), { let m = Lda::<2>::fit(&vecs(s), &LAB7, 3); (core::array::from_fn(|c| [m.priors[c], m.means[c][0], m.means[c][1]]), flat(m.pooled_cov)) } == { let f = |i: usize, j: usize| { let mut t = 0.0; for c in 0..3 { t += N7[c] / 7.0 * scatter_of(s, c, i, j) / (N7[c] - 1.0); } t }; (core::array::from_fn(|c| [N7[c] / 7.0, mean_of(s, c, 0), mean_of(s, c, 1)]), [f(0, 0), f(0, 1), f(1, 0), f(1, 1)]) });

// long samples: an accumulator, block or counter that is too small only shows here
macro_rules! long { ($($n:literal $k:literal),*) => { $(
ob!("C20", concat!("mean_long_", $n), (s: &[[f64; 1]; $k]) -> f64, { mean(&vecs(s)).unwrap().data[0] } == { avg(part(s, 0)) });
ob!("C20", concat!("bernoulli_fit_long_", $n), (s: &[u8; $k]) -> f64, { Bernoulli::<f64>::fit_mle(s).p } == { let mut t = 0usize; for k in 0..$k { t += s[k] as usize; } t as f64 / $k as f64 });
)* } }
long!("33" 33, "70" 70, "130" 130, "300" 300);
ob!("C20", "gaussian_mean_long_33", (s: &[f64; 33]) -> f64, { Gaussian::fit_mle(s).mu } == { avg(*s) });
ob!("C20", "gaussian_mean_long_70", (s: &[f64; 70]) -> f64, { Gaussian::fit_mle(s).mu } == { avg(*s) });
ob!("C20", "covariance_33", (s: &[[f64; 1]; 33]) -> f64, { sample_covariance(&vecs(s)).unwrap().data[0][0] } == { cov(part(s, 0), part(s, 0)) });
ob!("C20", "cross_covariance_33", (s: &[[f64; 1]; 33], t: &[[f64; 1]; 33]) -> f64, { sample_cross_covariance(&vecs(s), &vecs(t)).unwrap().data[0][0] } == { cov(part(s, 0), part(t, 0)) });
ob!("C20", "covariance_8_axes", (s: &[[f64; 8]; 2]) -> [[f64; 8]; 8], { sample_covariance(&vecs(s)).unwrap().data } == { cross(s, s) });
ob!("C20", "gaussian_fit_33", (s: &[f64; 33]) -> [f64; 2], { let g = Gaussian::fit_mle(s); [g.mu, g.sigma] } == { let m = avg(*s); let d = (cov(*s, *s) * 32.0 / 33.0).sqrt(); [m, if d > f64::EPSILON { d } else { f64::EPSILON }] });
ob!("C20", "categorical_pmf_40", (p: &[f64; 40], k: usize) -> f64, { Categorical::new(p.to_vec()).pmf(k) } == { if k < 40 { p[k] } else { 0.0 } });
ob!("C20", "categorical_fit_20", (c: &[u16; 20]) -> f64, { assume(c[7] > 0); let n: [usize; 20] = core::array::from_fn(|i| c[i] as usize); Categorical::<f64>::fit_mle(&n).pmf(19) } == { let mut t = 0usize; for i in 0..20 { t += c[i] as usize; } c[19] as f64 / t as f64 });
train_n!("linear_17_samples", 1, 2, 17, f64, LinearRegression { }, 0.0, |s, y| 2.0 * (s - y));
train_n!("linear_33_samples", 1, 2, 33, f64, LinearRegression { }, 0.0, |s, y| 2.0 * (s - y));
train_n!("linear_9_features", 9, 10, 2, f64, LinearRegression { }, 0.0, |s, y| 2.0 * (s - y));
train_n!("ridge_17_samples", 1, 2, 17, f64, RidgeRegression { alpha: 0.75 }, 1.5, |s, y| 2.0 * (s - y));
train_n!("ridge_9_features", 9, 10, 2, f64, RidgeRegression { alpha: 0.75 }, 1.5, |s, y| 2.0 * (s - y));
train_n!("logistic_9_features", 9, 10, 2, u8, LogisticRegression { }, 0.0, |s, y| sig(s) - bin(y));
// from zero parameters every sample is inside the margin, whatever its features
fn signs<const K: usize>() -> [i8; K] { core::array::from_fn(|k| if k % 3 == 1 { -1 } else { 1 }) }
macro_rules! margin { ($($n:literal $k:literal),*) => { $(
ob!("C21", concat!("svm_", $n, "_samples"), (x: &[[f64; 1]; $k], lr: f64) -> [f64; 4], {
    let mut m = LinearSvm::<f64, 1> { weights: v1(0.0), bias: 0.0, lr, c: 0.25 };
    let mut q = LinearSvm::<f64, 1> { weights: v1(0.0), bias: 0.0, lr: 7.0, c: 0.25 };
    m.train_epoch(&vecs(x), &signs::<$k>());
    q.fit_with_optimizer::<2>(&vecs(x), &signs::<$k>(), one_step(lr));
    [m.weights[0], m.bias, q.weights[0], q.bias]
} == {
    let (mut g, mut h) = (0.0, 0.0);
    for k in 0..$k { g += signs::<$k>()[k] as f64 * x[k][0]; h += signs::<$k>()[k] as f64; }
    [lr * g / $k as f64, lr * h / $k as f64, lr * g / $k as f64, lr * h / $k as f64]
});
ob!("C21", concat!("logistic_", $n, "_samples"), (x: &[[f64; 1]; $k], lr: f64) -> [f64; 4], {
    let y: [u8; $k] = core::array::from_fn(|k| (k % 3 == 1) as u8);
    let mut m = LogisticRegression::<f64, 1> { weights: v1(0.0), bias: 0.0, lr };
    let mut q = LogisticRegression::<f64, 1> { weights: v1(0.0), bias: 0.0, lr: 7.0 };
    m.train_epoch(&vecs(x), &y);
    q.fit_with_optimizer::<2>(&vecs(x), &y, one_step(lr));
    [m.weights[0], m.bias, q.weights[0], q.bias]
} == {
    let (mut g, mut h) = (0.0, 0.0);
    for k in 0..$k { let e = if k % 3 == 1 { -0.5 } else { 0.5 }; g += e * x[k][0]; h += e; }
    [-lr * g / $k as f64, -lr * h / $k as f64, -lr * g / $k as f64, -lr * h / $k as f64]
});
)* } }
margin!("9" 9, "17" 17, "40" 40);
const LAB20: [usize; 20] = [3, 0, 1, 1, 2, 0, 3, 2, 2, 1, 0, 0, 3, 1, 1, 2, 3, 0, 2, 1];
fn class_of<const C: usize>(s: &[f64; 20], c: usize) -> (f64, f64, f64) { let (mut n, mut t) = (0.0, 0.0); for k in 0..20 { if LAB20[k] == c { n += 1.0; t += s[k]; } } let m = t / n; let mut v = 0.0; for k in 0..20 { if LAB20[k] == c { v += (s[k] - m) * (s[k] - m); } } (n, m, v) }
fn rows20(s: &[f64; 20]) -> [V1; 20] { core::array::from_fn(|i| v1(s[i])) }
ob!("C22", "nb_fit_20", (s: &[f64; 20]) -> [[f64; 3]; 4], { let m = GaussianNB::<1>::fit(&rows20(s), &LAB20, 4); core::array::from_fn(|c| [m.class_prior[c], m.class_mean[c][0], m.class_var[c][0]]) } == { core::array::from_fn(|c| { let (n, m, v) = class_of::<4>(s, c); [n / 20.0, m, v / n] }) });
ob!("C22", "qda_fit_20", (s: &[f64; 20]) -> [[f64; 3]; 4], { let m = Qda::<1>::fit(&rows20(s), &LAB20, 4); core::array::from_fn(|c| [m.priors[c], m.means[c][0], m.covs[c].data[0][0]]) } == { core::array::from_fn(|c| { let (n, m, v) = class_of::<4>(s, c); [n / 20.0, m, v / (n - 1.0)] }) });
ob!("C22", "lda_fit_20", (s: &[f64; 20]) -> ([[f64; 2]; 4], f64), { let m = Lda::<1>::fit(&rows20(s), &LAB20, 4); (core::array::from_fn(|c| [m.priors[c], m.means[c][0]]), m.pooled_cov.data[0][0]) } == { let mut p = 0.0; for c in 0..4 { let (n, _, v) = class_of::<4>(s, c); p += n / 20.0 * v / (n - 1.0); } (core::array::from_fn(|c| { let (n, m, _) = class_of::<4>(s, c); [n / 20.0, m] }), p) });
ob!("C22", "linear_predict_12", (w: &[f64; 12], b: f64, x: &[f64; 12]) -> [f64; 5], {
    let (w, x) = (Vector::new(*w), Vector::new(*x));
    [LinearRegression { weights: w, bias: b, lr: 1.0 }.predict(&x), RidgeRegression { weights: w, bias: b, lr: 1.0, alpha: 2.0 }.predict(&x), LinearSvm { weights: w, bias: b, lr: 1.0, c: 1.0 }.decision(&x), Perceptron { weights: w, bias: b, lr: 1.0 }.predict_raw(&x), LogisticRegression { weights: w, bias: b, lr: 1.0 }.predict_probability(&x)]
} == { let t = lin_n(w, b, x); [t, t, t, t, sig(t)] });
ob!("C20", "mvn_8_independent", (m: &[f64; 8], x: &[f64; 8]) -> f64, { let mut c = [[0.0; 8]; 8]; for i in 0..8 { c[i][i] = 4.0; } MultivariateNormal::new(Vector::new(*m), Matrix::new(c)).pdf(&Vector::new(*x)) } == { let mut q = 0.0; for i in 0..8 { q += (x[i] - m[i]) * (x[i] - m[i]) / 4.0; } let t = 2.0 * core::f64::consts::PI; (-0.5 * q).exp() / (t.powf(8.0) * 65536.0).sqrt() });
pub const LAB12: [usize; 12] = [11, 3, 0, 7, 10, 1, 9, 2, 4, 8, 5, 6];
ob!("C22", "nb_fit_12_classes", (s: &[f64; 12]) -> [[f64; 3]; 13], { let m = GaussianNB::<1>::fit(&s.map(v1), &LAB12, 13); core::array::from_fn(|c| [m.class_prior[c], m.class_mean[c][0], m.class_var[c][0]]) } == { let mut o = [[0.0; 3]; 13]; for i in 0..12 { o[LAB12[i]] = [1.0 / 12.0, s[i], 0.0]; } o });
ob!("C22", "lda_fit_12_classes", (s: &[f64; 12]) -> [[f64; 2]; 13], { let m = Lda::<1>::fit(&s.map(v1), &LAB12, 13); core::array::from_fn(|c| [m.priors[c], m.means[c][0]]) } == { let mut o = [[0.0; 2]; 13]; for i in 0..12 { o[LAB12[i]] = [1.0 / 12.0, s[i]]; } o });
ob!("C22", "qda_fit_12_classes", (s: &[f64; 12]) -> [[f64; 2]; 13], { let m = Qda::<1>::fit(&s.map(v1), &LAB12, 13); core::array::from_fn(|c| [m.priors[c], m.means[c][0]]) } == { let mut o = [[0.0; 2]; 13]; for i in 0..12 { o[LAB12[i]] = [1.0 / 12.0, s[i]]; } o });
