#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::math::Vector;
use aether_opt::gradient_descent::*;
use aether_rand::*;
use prelude::*;

// ------------------------------------------------------------------ C15 random numbers
fn step(x: u64) -> u64 {
    let x = x ^ (x >> 12);
    let x = x ^ (x << 25);
    x ^ (x >> 27)
}
fn out(x: u64) -> u64 {
    x.wrapping_mul(0x2545_F491_4F6C_DD1D)
}
fn unit(u: u64) -> f64 {
    ((u >> 11) as f64) / 9007199254740992.0
}
ob!("C15", "next_u64", (s: u64) -> u64, { assume(s != 0); XorShift64Star::new(s).next_u64() } == { out(step(s)) });
ob!("C15", "second", (s: u64) -> u64, { assume(s != 0); let mut r = XorShift64Star::new(s); r.next_u64(); r.next_u64() } == { out(step(step(s))) });
ob!("C15", "seed_zero", () -> u64, { XorShift64Star::new(0).next_u64() } == { out(step(0x9E37_79B9_7F4A_7C15)) });
ob!("C15", "next_f64", (s: u64) -> f64, { assume(s != 0); XorShift64Star::new(s).next_f64() } == { unit(out(step(s))) });
ob!("C15", "next_real_f64", (s: u64) -> f64, { assume(s != 0); XorShift64Star::new(s).next_real::<f64>() } == { unit(out(step(s))) });
ob!("C15", "range_f64", (s: u64) -> (bool, bool), { assume(s != 0); let v = XorShift64Star::new(s).next_f64(); (v >= 0.0, v < 1.0) } == { (true, true) });
ob!("C15", "range_f32", (s: u64) -> (bool, bool), { assume(s != 0); let v: f32 = XorShift64Star::new(s).next_real(); (v >= 0.0, v < 1.0) } == { (true, true) });
ob!("C15", "advance_real", (s: u64) -> u64, { assume(s != 0); let mut r = XorShift64Star::new(s); let _: f32 = r.next_real(); r.next_u64() } == { out(step(step(s))) });
ob!("C15", "normal", (s: u64) -> f64, { assume(s != 0); XorShift64Star::new(s).normal01() } == { let a = step(s); let u = unit(out(a)); let w = unit(out(step(a))); let u = if u <= 0.0 { f64::EPSILON } else { u }; (-2.0 * u.ln()).sqrt() * (2.0 * core::f64::consts::PI * w).cos() });
ob!("C15", "normal_advance", (s: u64) -> u64, { assume(s != 0); let mut r = XorShift64Star::new(s); let _: f64 = r.normal01_real(); r.next_u64() } == { out(step(step(step(s)))) });
ob!("C15", "copy_replays", (s: u64) -> (u64, u64), { assume(s != 0); let mut r = XorShift64Star::new(s); r.next_u64(); let mut q = r; let a = r.next_u64(); (a, q.next_u64()) } == { let a = out(step(step(s))); (a, a) });

// ------------------------------------------------------------------ C17 optimisers
extern "Rust" {
    fn uf_f1(x: f64) -> f64;
    fn uf_g1(x: f64) -> f64;
    fn uf_f2(x: f64, y: f64) -> f64;
    fn uf_g2x(x: f64, y: f64) -> f64;
    fn uf_g2y(x: f64, y: f64) -> f64;
    fn uf_s1(x: f64, u: f64) -> f64;
}
fn f1(x: f64) -> f64 { unsafe { uf_f1(x) } }
fn g1(x: f64) -> f64 { unsafe { uf_g1(x) } }
fn f2(x: f64, y: f64) -> f64 { unsafe { uf_f2(x, y) } }
fn gx(x: f64, y: f64) -> f64 { unsafe { uf_g2x(x, y) } }
fn gy(x: f64, y: f64) -> f64 { unsafe { uf_g2y(x, y) } }
fn s1(x: f64, u: f64) -> f64 { unsafe { uf_s1(x, u) } }
fn clamp(x: f64, lo: f64, hi: f64) -> f64 { if x < lo { lo } else if x > hi { hi } else { x } }
type R1 = (Vector<f64, 1>, f64, u32, bool);
/// a descent run in one dimension with an unknown objective and gradient
fn gd1(x: f64, lo: f64, hi: f64, lr: f64, mu: f64, tg: f64, ts: f64, n: u32, back: bool) -> R1 {
    let mut o = GradientDescentGeneric::<f64, 1>::new();
    o.backtracking(back).max_iters(n).set_bounds([lo], [hi]);
    o.lr = lr;
    o.momentum = mu;
    o.tol_grad = tg;
    o.tol_step = ts;
    o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])]))
}
fn box1(x: f64, lo: f64, hi: f64) -> bool { lo <= x && x <= hi }
macro_rules! gd_laws {
    ($t:literal, $n:literal, $back:literal, $lr:expr) => {
        ob!("C17", concat!("gd_box_", $t), (x: f64, lo: f64, hi: f64, lr: f64, mu: f64, tg: f64, ts: f64) -> bool, { assume(box1(x, lo, hi)); let r = gd1(x, lo, hi, $lr(lr), mu, tg, ts, $n, $back); box1(r.0[0], lo, hi) } == { true });
        ob!("C17", concat!("gd_value_", $t), (x: f64, lo: f64, hi: f64, lr: f64, mu: f64, tg: f64, ts: f64) -> f64, { gd1(x, lo, hi, $lr(lr), mu, tg, ts, $n, $back).1 } == { f1(gd1(x, lo, hi, $lr(lr), mu, tg, ts, $n, $back).0[0]) });
        ob!("C17", concat!("gd_count_", $t), (x: f64, lo: f64, hi: f64, lr: f64, mu: f64, tg: f64, ts: f64) -> (bool, bool), { let r = gd1(x, lo, hi, $lr(lr), mu, tg, ts, $n, $back); (r.2 <= $n, r.3 || r.2 == $n) } == { (true, true) });
    };
}
fn lr_any(l: f64) -> f64 { l }
fn lr_tiny(_: f64) -> f64 { 3.0e-20 }
gd_laws!("fixed1", 1, false, lr_any);
gd_laws!("fixed2", 2, false, lr_any);
gd_laws!("back1", 1, true, lr_tiny);
ob!("C17", "gd_step_fixed", (x: f64, lo: f64, hi: f64, lr: f64, tg: f64) -> (f64, u32), { assume(tg >= 0.0 && g1(x).abs() > tg); let r = gd1(x, lo, hi, lr, 0.5, tg, -1.0, 1, false); (r.0[0], r.2) } == { (clamp(x - lr * g1(x), lo, hi), 1) });
ob!("C17", "gd_step_free", (x: f64, lr: f64, tg: f64) -> (f64, u32, bool), { assume(tg >= 0.0 && g1(x).abs() > tg); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.backtracking(false).max_iters(1); o.lr = lr; o.tol_grad = tg; o.tol_step = -1.0; let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])); (r.0[0], r.2, r.3) } == { (x - lr * g1(x), 1, false) });
ob!("C17", "gd_step_momentum", (x: f64, lr: f64, mu: f64) -> f64, { let y = x - lr * g1(x); assume(g1(x) != 0.0 && g1(y) != 0.0); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.backtracking(false).max_iters(2); o.lr = lr; o.momentum = mu; o.tol_grad = 0.0; o.tol_step = -1.0; o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])).0[0] } == { let y = x - lr * g1(x); y + lr * (mu * (y - x) - g1(y)) });
ob!("C17", "gd_step_2d", (x: f64, y: f64, lr: f64, b: &[f64; 4]) -> [f64; 2], { assume(gx(x, y) != 0.0 && gy(x, y) != 0.0); let mut o = GradientDescentGeneric::<f64, 2>::new(); o.backtracking(false).max_iters(1).set_bounds([b[0], b[1]], [b[2], b[3]]); o.lr = lr; o.tol_grad = 0.0; o.tol_step = -1.0; o.minimize(Vector::new([x, y]), |v| f2(v[0], v[1]), |v| Vector::new([gx(v[0], v[1]), gy(v[0], v[1])])).0.data } == { [clamp(x - lr * gx(x, y), b[0], b[2]), clamp(y - lr * gy(x, y), b[1], b[3])] });
ob!("C17", "gd_stationary", (x: f64) -> (f64, f64, u32, bool), { assume(g1(x) == 0.0); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.max_iters(3); let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])); (r.0[0], r.1, r.2, r.3) } == { (x, f1(x), 0, true) });
ob!("C17", "gd_no_iterations", (x: f64) -> (f64, f64, u32, bool), { let mut o = GradientDescentGeneric::<f64, 1>::new(); o.max_iters(0); let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])); (r.0[0], r.1, r.2, r.3) } == { (x, f1(x), 0, false) });
ob!("C17", "gd_armijo_accept", (x: f64, lr: f64, c1: f64) -> (f64, f64), { let y = x - lr * g1(x); assume(g1(x) != 0.0 && f1(y) <= f1(x) - c1 * lr * g1(x) * g1(x)); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.max_iters(1); o.lr = lr; o.armijo_c1 = c1; o.tol_grad = 0.0; let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])); (r.0[0], r.1) } == { let y = x - lr * g1(x); (y, f1(y)) });
ob!("C17", "gd_armijo_shrink", (x: f64, lr: f64, c1: f64, tau: f64) -> (f64, f64), { let y = x - lr * g1(x); let z = x - lr * tau * g1(x); assume(lr * tau > 1.0e-20); assume(g1(x) != 0.0 && !(f1(y) <= f1(x) - c1 * lr * g1(x) * g1(x)) && f1(z) <= f1(x) - c1 * (lr * tau) * g1(x) * g1(x)); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.max_iters(1); o.lr = lr; o.armijo_c1 = c1; o.backtrack_tau = tau; o.tol_grad = 0.0; let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])); (r.0[0], r.1) } == { let y = x - lr * tau * g1(x); (y, f1(y)) });
ob!("C17", "gd_settings", (lr: f64, c: f64, tau: f64, mu: f64, tg: f64, ts: f64) -> (bool, bool, bool, bool, bool), { let mut o = GradientDescentGeneric::<f64, 2>::new(); o.learning_rate(lr).armijo(c, tau).momentum(mu).tolerances(tg, ts); (o.lr >= 0.0, o.backtrack_tau > 0.0 && o.backtrack_tau < 1.0, o.momentum >= 0.0 && o.momentum < 1.0, o.tol_grad >= 0.0, o.tol_step >= 0.0) } == { (true, true, true, true, true) });
ob!("C17", "gd_settings_kept", (lr: f64, c: f64, tau: f64, mu: f64, tg: f64, ts: f64) -> [f64; 6], { assume(lr > 0.0 && tau > 0.0 && tau < 1.0 && mu >= 0.0 && mu < 0.9 && tg > 0.0 && ts > 0.0); let mut o = GradientDescentGeneric::<f64, 2>::new(); o.learning_rate(lr).armijo(c, tau).momentum(mu).tolerances(tg, ts); [o.lr, o.armijo_c1, o.backtrack_tau, o.momentum, o.tol_grad, o.tol_step] } == { [lr, c, tau, mu, tg, ts] });
ob!("C17", "gd_clear_bounds", (x: f64, lr: f64) -> f64, { assume(g1(x) != 0.0); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.backtracking(false).max_iters(1).set_bounds([0.0], [1.0]).clear_bounds(); o.lr = lr; o.tol_grad = 0.0; o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])).0[0] } == { x - lr * g1(x) });

/// the stochastic optimiser, one dimension, unknown objective and unknown sampled gradient
fn sgd1(seed: u64, x: f64, lo: f64, hi: f64, lr: f64, decay: f64, mu: f64, bs: u32, tol: [f64; 3], n: u32, min: u32) -> R1 {
    let mut o = GDStochastic::<1>::new(seed);
    o.batch_size(bs).max_iters(n).min_iters(min).set_bounds([lo], [hi]).bias_corrected_ema(false);
    o.lr0 = lr;
    o.decay = decay;
    o.momentum = mu;
    o.ema_beta = 0.0;
    o.tol_grad_ema = tol[0];
    o.tol_step = tol[1];
    o.tol_f = tol[2];
    o.minimize(Vector::new([x]), |x| f1(x[0]), |x, r| Vector::new([s1(x[0], r.next_f64())]))
}
fn us(seed: u64, k: u32) -> f64 { let mut s = seed; let mut i = 0; while i <= k { s = step(s); i += 1; } unit(out(s)) }
const NEVER: [f64; 3] = [-1.0, -1.0, 0.0];
ob!("C17", "sgd_step", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, d: f64) -> (f64, u32, bool), { assume(s != 0); let r = sgd1(s, x, lo, hi, lr, d, 0.5, 1, NEVER, 1, 0); (r.0[0], r.2, r.3) } == { (clamp(x - lr * s1(x, us(s, 0)), lo, hi), 1, false) });
ob!("C17", "sgd_batch", (s: u64, x: f64, lo: f64, hi: f64, lr: f64) -> f64, { assume(s != 0); sgd1(s, x, lo, hi, lr, 0.0, 0.5, 3, NEVER, 1, 0).0[0] } == { clamp(x - lr * (s1(x, us(s, 0)) + s1(x, us(s, 1)) + s1(x, us(s, 2))) / 3.0, lo, hi) });
ob!("C17", "sgd_batch_zero", (s: u64, x: f64, lo: f64, hi: f64, lr: f64) -> f64, { assume(s != 0); sgd1(s, x, lo, hi, lr, 0.0, 0.5, 0, NEVER, 1, 0).0[0] } == { clamp(x - lr * s1(x, us(s, 0)), lo, hi) });
ob!("C17", "sgd_second_step", (s: u64, x: f64, lr: f64, d: f64, mu: f64) -> f64, { assume(s != 0); sgd1(s, x, f64::NEG_INFINITY, f64::INFINITY, lr, d, mu, 1, NEVER, 2, 0).0[0] } == { let y = x - lr * s1(x, us(s, 0)); y - lr / (1.0 + d) * s1(y, us(s, 1)) + mu * (y - x) });
ob!("C17", "sgd_box", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, d: f64, mu: f64, t: &[f64; 3]) -> bool, { assume(s != 0); assume(box1(x, lo, hi)); let r = sgd1(s, x, lo, hi, lr, d, mu, 1, *t, 2, 0); box1(r.0[0], lo, hi) } == { true });
ob!("C17", "sgd_value", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, d: f64, mu: f64, t: &[f64; 3]) -> f64, { assume(s != 0); sgd1(s, x, lo, hi, lr, d, mu, 1, *t, 2, 0).1 } == { f1(sgd1(s, x, lo, hi, lr, d, mu, 1, *t, 2, 0).0[0]) });
ob!("C17", "sgd_count", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, d: f64, mu: f64, t: &[f64; 3], min: u32) -> (bool, bool, bool), { assume(s != 0); let r = sgd1(s, x, lo, hi, lr, d, mu, 1, *t, 2, min); (r.2 <= 2, r.3 || r.2 == 2, !r.3 || r.2 >= min) } == { (true, true, true) });
ob!("C17", "sgd_tol_f", (s: u64, x: f64, lr: f64, t: f64) -> (u32, bool), { assume(s != 0 && t >= 0.0); let r = sgd1(s, x, -1.0, 1.0, lr, 0.0, 0.0, 1, [-1.0, -1.0, t], 1, 0); (r.2, r.3) } == { if t > 0.0 && f1(x) <= t { (0, true) } else { (1, false) } });
ob!("C17", "sgd_tol_grad", (s: u64, x: f64, lr: f64, t: f64) -> (u32, bool), { assume(s != 0 && t >= 0.0); let r = sgd1(s, x, -1.0, 1.0, lr, 0.0, 0.0, 1, [t, -1.0, 0.0], 1, 0); (r.2, r.3) } == { if s1(x, us(s, 0)).abs() <= t { (0, true) } else { (1, false) } });
ob!("C17", "sgd_bias_correction", (s: u64, x: f64, b: f64, t: f64) -> (u32, bool), { assume(s != 0 && b >= 0.0 && b < 1.0); let mut o = GDStochastic::<1>::new(s); o.max_iters(1); o.ema_beta = b; o.tol_grad_ema = t; o.tol_step = -1.0; let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x, r| Vector::new([s1(x[0], r.next_f64())])); (r.2, r.3) } == { if s1(x, us(s, 0)).abs() <= t { (0, true) } else { (1, false) } });
ob!("C17", "sgd_settings", (lr: f64, d: f64, mu: f64, b: f64, tg: f64, ts: f64, tf: f64, bs: u32) -> (bool, bool, bool, bool, bool, bool, bool, bool), { let mut o = GDStochastic::<2>::new(7); o.learning_rate(lr).decay(d).momentum(mu).ema(b).tolerances(tg, ts).tol_f(tf).batch_size(bs); (o.lr0 >= 0.0, o.decay >= 0.0, o.momentum >= 0.0 && o.momentum < 1.0, o.ema_beta >= 0.0 && o.ema_beta <= 0.999_999_999, o.tol_grad_ema >= 0.0, o.tol_step >= 0.0, o.tol_f >= 0.0, o.batch_size >= 1) } == { (true, true, true, true, true, true, true, true) });
ob!("C17", "sgd_settings_one", () -> (bool, bool, bool, bool), { let mut o = GDStochastic::<2>::new(7); o.momentum(1.0).ema(1.0); let (a, b) = (o.momentum < 1.0, o.ema_beta < 1.0); o.momentum(7.0).ema(7.0); (a, b, o.momentum < 1.0, o.ema_beta < 1.0) } == { (true, true, true, true) });
// the velocity is the move that was made, the box included
ob!("C17", "sgd_second_step_box", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, d: f64, mu: f64) -> f64, { assume(s != 0); sgd1(s, x, lo, hi, lr, d, mu, 1, NEVER, 2, 0).0[0] } == { let y = clamp(x - lr * s1(x, us(s, 0)), lo, hi); clamp(y - lr / (1.0 + d) * s1(y, us(s, 1)) + mu * (y - x), lo, hi) });
ob!("C17", "sgd_tol_step", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, t: f64) -> (u32, bool), { assume(s != 0 && t >= 0.0); let r = sgd1(s, x, lo, hi, lr, 0.0, 0.0, 1, [-1.0, t, 0.0], 2, 1); (r.2, r.3) } == { let y = clamp(x - lr * s1(x, us(s, 0)), lo, hi); let z = clamp(y - lr * s1(y, us(s, 1)), lo, hi); (2, (z - y).abs() <= t) });
ob!("C17", "sgd_tol_step_first", (s: u64, x: f64, lo: f64, hi: f64, lr: f64, t: f64) -> (f64, u32, bool), { assume(s != 0 && t >= 0.0); let r = sgd1(s, x, lo, hi, lr, 0.0, 0.0, 1, [-1.0, t, 0.0], 1, 0); (r.0[0], r.2, r.3) } == { let y = clamp(x - lr * s1(x, us(s, 0)), lo, hi); (y, 1, (y - x).abs() <= t) });
ob!("C17", "sgd_average_decay", (s: u64, x: f64, b: f64, lr: f64, t: f64) -> (u32, bool), { assume(s != 0 && b > 0.0 && b < 1.0 && t >= 0.0); let mut o = GDStochastic::<1>::new(s); o.max_iters(2).min_iters(1).bias_corrected_ema(false); o.lr0 = lr; o.decay = 0.0; o.ema_beta = b; o.tol_grad_ema = t; o.tol_step = -1.0; let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x, r| Vector::new([s1(x[0], r.next_f64())])); (r.2, r.3) } == { let g = s1(x, us(s, 0)); let h = s1(x - lr * g, us(s, 1)); if b * ((1.0 - b) * g.abs()) + (1.0 - b) * h.abs() <= t { (1, true) } else { (2, false) } });
ob!("C17", "sgd_step_2d", (s: u64, x: f64, y: f64, lr: f64, b: &[f64; 4]) -> [f64; 2], { assume(s != 0); let mut o = GDStochastic::<2>::new(s); o.max_iters(1).set_bounds([b[0], b[1]], [b[2], b[3]]); o.lr0 = lr; o.tol_grad_ema = -1.0; o.tol_step = -1.0; o.minimize(Vector::new([x, y]), |v| f2(v[0], v[1]), |v, r| { let _ = r; Vector::new([gx(v[0], v[1]), gy(v[0], v[1])]) }).0.data } == { [clamp(x - lr * gx(x, y), b[0], b[2]), clamp(y - lr * gy(x, y), b[1], b[3])] });
ob!("C17", "sgd_2d_norm", (s: u64, x: f64, y: f64, lr: f64, t: f64) -> bool, { assume(s != 0 && t >= 0.0); let mut o = GDStochastic::<2>::new(s); o.max_iters(1); o.lr0 = lr; o.ema_beta = 0.0; o.tol_grad_ema = t; o.tol_step = -1.0; o.minimize(Vector::new([x, y]), |v| f2(v[0], v[1]), |v, _| Vector::new([gx(v[0], v[1]), gy(v[0], v[1])])).3 } == { (gx(x, y) * gx(x, y) + gy(x, y) * gy(x, y)).sqrt() <= t });
ob!("C17", "gd_step_momentum_box", (x: f64, lo: f64, hi: f64, lr: f64, mu: f64) -> f64, { let y = clamp(x - lr * g1(x), lo, hi); assume(g1(x) != 0.0 && g1(y) != 0.0); gd1(x, lo, hi, lr, mu, 0.0, -1.0, 2, false).0[0] } == { let y = clamp(x - lr * g1(x), lo, hi); clamp(y + lr * (mu * (y - x) - g1(y)), lo, hi) });
ob!("C17", "gd_tol_step", (x: f64, lo: f64, hi: f64, lr: f64, t: f64) -> (f64, u32, bool), { assume(t >= 0.0 && g1(x) != 0.0); let r = gd1(x, lo, hi, lr, 0.0, 0.0, t, 1, false); (r.0[0], r.2, r.3) } == { let y = clamp(x - lr * g1(x), lo, hi); (y, 1, (y - x).abs() <= t) });
ob!("C17", "gd_armijo_box", (x: f64, lo: f64, hi: f64, lr: f64, c1: f64) -> (f64, f64), { let y = clamp(x - lr * g1(x), lo, hi); assume(g1(x) != 0.0 && f1(y) <= f1(x) - c1 * lr * g1(x) * g1(x)); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.max_iters(1).set_bounds([lo], [hi]); o.lr = lr; o.armijo_c1 = c1; o.tol_grad = 0.0; let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |x| Vector::new([g1(x[0])])); (r.0[0], r.1) } == { let y = clamp(x - lr * g1(x), lo, hi); (y, f1(y)) });
ob!("C17", "gd_2d_norm", (x: f64, y: f64, lr: f64, t: f64) -> bool, { assume(t >= 0.0); let mut o = GradientDescentGeneric::<f64, 2>::new(); o.backtracking(false).max_iters(1); o.lr = lr; o.tol_grad = t; o.tol_step = -1.0; o.minimize(Vector::new([x, y]), |v| f2(v[0], v[1]), |v| Vector::new([gx(v[0], v[1]), gy(v[0], v[1])])).3 } == { (gx(x, y) * gx(x, y) + gy(x, y) * gy(x, y)).sqrt() <= t });

// ---- long runs: a counter, a schedule or a history that goes wrong only after several iterations
const FREE: [f64; 2] = [f64::NEG_INFINITY, f64::INFINITY];
fn gd_const(x: f64, c: f64, lr: f64, mu: f64, n: u32, lo: f64, hi: f64) -> R1 {
    let mut o = GradientDescentGeneric::<f64, 1>::new();
    o.backtracking(false).max_iters(n).set_bounds([lo], [hi]);
    o.lr = lr;
    o.momentum = mu;
    o.tol_grad = -1.0;
    o.tol_step = -1.0;
    o.minimize(Vector::new([x]), |x| f1(x[0]), |_| Vector::new([c]))
}
macro_rules! gd_long { ($($t:literal $n:literal),*) => { $(
ob!("C17", concat!("gd_long_", $t), (x: f64, c: f64, lr: f64) -> (f64, f64, u32, bool), { let r = gd_const(x, c, lr, 0.0, $n, FREE[0], FREE[1]); (r.0[0], r.1, r.2, r.3) } == { let y = x - lr * c * $n as f64; (y, f1(y), $n, false) });
ob!("C17", concat!("gd_long_momentum_", $t), (x: f64, c: f64, lr: f64) -> f64, { gd_const(x, c, lr, 0.5, $n, FREE[0], FREE[1]).0[0] } == { let (mut p, mut y) = (x, x); for _ in 0..$n { let z = y - lr * (c - 0.5 * (y - p)); p = y; y = z; } y });
ob!("C17", concat!("sgd_long_", $t), (s: u64, x: f64, c: f64, lr: f64, mu: f64) -> (f64, u32, bool), { let r = sgd_const(s, x, c, lr, 0.25, mu, 1, NEVER, $n, 0); (r.0[0], r.2, r.3) } == { let (mut p, mut y) = (x, x); for k in 0..$n { let z = y - lr / (1.0 + 0.25 * k as f64) * c + mu * (y - p); p = y; y = z; } (y, $n, false) });
ob!("C17", concat!("sgd_long_batch_", $t), (s: u64, x: f64, c: f64, lr: f64) -> (f64, u32, bool), { let r = sgd_const(s, x, c, lr, 0.0, 0.0, $n, NEVER, 2, 0); (r.0[0], r.2, r.3) } == { (x - 2.0 * lr * c, 2, false) });
ob!("C17", concat!("sgd_patience_", $t), (s: u64, x: f64, lr: f64) -> (f64, u32, bool), { let r = sgd_const(s, x, 0.0, lr, 0.25, 0.5, 1, [0.0, -1.0, 0.0], 60, $n); (r.0[0], r.2, r.3) } == { (x, $n, true) });
ob!("C17", concat!("sgd_patience_step_", $t), (s: u64, x: f64, lr: f64) -> (f64, u32, bool), { let r = sgd_const(s, x, 0.0, lr, 0.25, 0.5, 1, [-1.0, 0.0, 0.0], 60, $n); (r.0[0], r.2, r.3) } == { (x, $n + 1, true) });
)* } }
fn sgd_const(seed: u64, x: f64, c: f64, lr: f64, decay: f64, mu: f64, bs: u32, tol: [f64; 3], n: u32, min: u32) -> R1 {
    let mut o = GDStochastic::<1>::new(seed);
    o.batch_size(bs).max_iters(n).min_iters(min);
    o.lr0 = lr;
    o.decay = decay;
    o.momentum = mu;
    o.tol_grad_ema = tol[0];
    o.tol_step = tol[1];
    o.tol_f = tol[2];
    o.minimize(Vector::new([x]), |x| f1(x[0]), |_, _| Vector::new([c]))
}
gd_long!("5" 5, "12" 12, "40" 40);
// backtracking: the first power of the shrink factor that is good enough
ob!("C17", "gd_shrinks_many", (x: f64, th: f64) -> (f64, f64), {
    assume(th > 1.0e-3);
    let mut o = GradientDescentGeneric::<f64, 1>::new();
    o.max_iters(1).armijo(0.5, 0.5);
    o.lr = 1024.0;
    o.tol_step = -1.0;
    let r = o.minimize(Vector::new([x]), |y| { let d = x - y[0]; if d > th { 1.0 } else { -d } }, |_| Vector::new([1.0]));
    (r.0[0], r.1)
} == {
    let mut a = 1024.0;
    while a > 1.0e-3 && a > th { a = a * 0.5; }
    (x - a, -a)
});
ob!("C17", "sgd_average_long", (s: u64, x: f64, c: f64, lr: f64, t: f64) -> (u32, bool), {
    assume(c >= 0.0);
    let mut o = GDStochastic::<1>::new(s);
    o.max_iters(10).min_iters(9).bias_corrected_ema(true);
    o.lr0 = lr; o.ema_beta = 0.75; o.tol_grad_ema = t; o.tol_step = -1.0; o.tol_f = 0.0;
    let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |_, _| Vector::new([c]));
    (r.2, r.3)
} == { if c <= t { (9, true) } else { (10, false) } });
ob!("C17", "sgd_average_plain_long", (s: u64, x: f64, c: f64, lr: f64, t: f64) -> (u32, bool), {
    assume(c >= 0.0);
    let mut o = GDStochastic::<1>::new(s);
    o.max_iters(5).min_iters(4).bias_corrected_ema(false);
    o.lr0 = lr; o.ema_beta = 0.5; o.tol_grad_ema = t; o.tol_step = -1.0; o.tol_f = 0.0;
    let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |_, _| Vector::new([c]));
    (r.2, r.3)
} == { if c * 0.96875 <= t { (4, true) } else { (5, false) } });
// nine dimensions: every component takes its own step inside its own bounds
ob!("C17", "gd_step_9d", (x: &[f64; 9], c: &[f64; 9], lr: f64) -> [f64; 9], {
    let mut o = GradientDescentGeneric::<f64, 9>::new();
    o.backtracking(false).max_iters(2); o.lr = lr; o.tol_grad = -1.0; o.tol_step = -1.0;
    o.minimize(Vector::new(*x), |v| f1(v[0]), |_| Vector::new(*c)).0.data
} == { core::array::from_fn(|i| x[i] - 2.0 * lr * c[i]) });
ob!("C17", "sgd_step_9d", (s: u64, x: &[f64; 9], c: &[f64; 9], lr: f64) -> [f64; 9], {
    let mut o = GDStochastic::<9>::new(s);
    o.batch_size(2).max_iters(2); o.lr0 = lr; o.decay = 1.0; o.momentum = 0.0; o.tol_grad_ema = -1.0; o.tol_step = -1.0; o.tol_f = 0.0;
    o.minimize(Vector::new(*x), |v| f1(v[0]), |_, _| Vector::new(*c)).0.data
} == { core::array::from_fn(|i| x[i] - 1.5 * lr * c[i]) });
fn two_axes(b: f64, free: f64) -> [f64; 9] { core::array::from_fn(|i| if i == 3 || i == 8 { b } else { free }) }
ob!("C17", "gd_box_9d", (x: &[f64; 9], c: &[f64; 9], lo: f64, hi: f64, lr: f64) -> [f64; 9], {
    let mut o = GradientDescentGeneric::<f64, 9>::new();
    o.backtracking(false).max_iters(1).set_bounds(two_axes(lo, FREE[0]), two_axes(hi, FREE[1])); o.lr = lr; o.tol_grad = -1.0; o.tol_step = -1.0;
    o.minimize(Vector::new(*x), |v| f1(v[0]), |_| Vector::new(*c)).0.data
} == { core::array::from_fn(|i| { let y = x[i] - lr * c[i]; if i == 3 || i == 8 { clamp(y, lo, hi) } else { y } }) });
ob!("C17", "sgd_box_9d", (s: u64, x: &[f64; 9], c: &[f64; 9], lo: f64, hi: f64, lr: f64) -> [f64; 9], {
    let mut o = GDStochastic::<9>::new(s);
    o.max_iters(1).set_bounds(two_axes(lo, FREE[0]), two_axes(hi, FREE[1])); o.lr0 = lr; o.tol_grad_ema = -1.0; o.tol_step = -1.0; o.tol_f = 0.0;
    o.minimize(Vector::new(*x), |v| f1(v[0]), |_, _| Vector::new(*c)).0.data
} == { core::array::from_fn(|i| { let y = x[i] - lr * c[i]; if i == 3 || i == 8 { clamp(y, lo, hi) } else { y } }) });
// a box holds on every iteration
ob!("C17", "gd_box_late", (x: f64, c: f64, hi: f64) -> f64, { assume(c > 0.0 && x < hi); gd_const(x, -c, 1.0, 0.0, 6, FREE[0], hi).0[0] } == { if x + 6.0 * c > hi { hi } else { x + 6.0 * c } });
ob!("C17", "sgd_box_late", (s: u64, x: f64, c: f64, lo: f64) -> f64, { assume(c > 0.0 && x > lo); let mut o = GDStochastic::<1>::new(s); o.max_iters(6).set_bounds([lo], [FREE[1]]); o.lr0 = 1.0; o.decay = 0.0; o.momentum = 0.0; o.tol_grad_ema = -1.0; o.tol_step = -1.0; o.tol_f = 0.0; o.minimize(Vector::new([x]), |x| f1(x[0]), |_, _| Vector::new([c])).0[0] } == { if x - 6.0 * c < lo { lo } else { x - 6.0 * c } });
ob!("C17", "gd_step_f32", (x: &[f32; 2], c: &[f32; 2], lr: f32) -> [f64; 2], {
    let mut o = GradientDescentGeneric::<f32, 2>::new();
    o.backtracking(false).max_iters(2); o.lr = lr; o.tol_grad = -1.0; o.tol_step = -1.0;
    let r = o.minimize(Vector::new(*x), |v| v[0], |_| Vector::new(*c)).0;
    [r[0] as f64, r[1] as f64]
} == { core::array::from_fn(|i| x[i] as f64 - 2.0 * lr as f64 * c[i] as f64) });

// ---- longer histories of one generator
macro_rules! nth { ($($t:literal $n:literal),*) => { $(
ob!("C15", concat!("draw_", $t), (s: u64) -> u64, { assume(s != 0); let mut r = XorShift64Star::new(s); for _ in 0..$n - 1 { r.next_u64(); } r.next_u64() } == { let mut a = s; for _ in 0..$n { a = step(a); } out(a) });
ob!("C15", concat!("unit_", $t), (s: u64) -> f64, { assume(s != 0); let mut r = XorShift64Star::new(s); for _ in 0..$n - 1 { let _: f64 = r.next_f64(); } r.next_f64() } == { let mut a = s; for _ in 0..$n { a = step(a); } unit(out(a)) });
)* } }
nth!("3" 3, "5" 5, "9" 9, "17" 17);
fn normal(u: f64, w: f64) -> f64 { let u = if u <= 0.0 { f64::EPSILON } else { u }; (-2.0 * u.ln()).sqrt() * (2.0 * core::f64::consts::PI * w).cos() }
ob!("C15", "normal_second", (s: u64) -> f64, { assume(s != 0); let mut r = XorShift64Star::new(s); r.normal01(); r.normal01() } == { normal(us(s, 2), us(s, 3)) });
ob!("C15", "normal_third", (s: u64) -> f64, { assume(s != 0); let mut r = XorShift64Star::new(s); r.normal01(); r.normal01(); r.normal01() } == { normal(us(s, 4), us(s, 5)) });
ob!("C15", "mixed_history", (s: u64) -> u64, { assume(s != 0); let mut r = XorShift64Star::new(s); r.normal01(); let _: f32 = r.next_real(); r.next_f64(); let _: f32 = r.normal01_real(); r.next_u64() } == { let mut a = s; for _ in 0..7 { a = step(a); } out(a) });
ob!("C15", "copy_after_normal", (s: u64) -> (u64, u64), { assume(s != 0); let mut r = XorShift64Star::new(s); r.normal01(); let mut q = r; let a = r.next_u64(); q.next_u64(); (a, q.next_u64()) } == { let a = step(step(step(s))); (out(a), out(step(a))) });
macro_rules! seeds { ($($t:literal $s:expr),*) => { $(
ob!("C15", concat!("stream_of_", $t), () -> [u64; 40], { let mut r = XorShift64Star::new($s); core::array::from_fn(|_| r.next_u64()) } == { let mut a: u64 = $s; core::array::from_fn(|_| { a = step(a); out(a) }) });
)* } }
seeds!("1" 1, "42" 42, "max" u64::MAX, "high_bit" 1 << 63);
// ---- C17: a momentum direction that is not a descent direction is replaced by the gradient, and judged as that
ob!("C17", "gd_armijo_fallback", (x: f64, lr: f64, c1: f64, mu: f64, d: f64, f: &[f64; 3]) -> (f64, f64), {
    // gradients: 1 at x, d at y = x - lr, where the momentum is mu * -lr; objective values f[0] at x, f[1] at y, then f[2]
    assume(lr > 1.0e-6 && d != 0.0 && d * (mu * -lr - d) >= 0.0);
    let y = x - lr;
    let z = y - lr * d;
    assume(f1(y) <= f1(x) - c1 * lr && f1(z) <= f1(y) - c1 * lr * d * d);
    let mut o = GradientDescentGeneric::<f64, 1>::new();
    o.max_iters(2);
    o.lr = lr; o.armijo_c1 = c1; o.momentum = mu; o.tol_grad = 0.0; o.tol_step = -1.0;
    let k = core::cell::Cell::new(0);
    let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |_| { let i = k.get(); k.set(i + 1); Vector::new([if i == 0 { 1.0 } else { d }]) });
    (r.0[0], r.1)
} == { let z = x - lr - lr * d; (z, f1(z)) });
ob!("C17", "gd_armijo_fallback_shrinks", (x: f64, lr: f64, c1: f64, mu: f64, d: f64) -> (f64, f64), {
    assume(lr > 1.0e-6 && d != 0.0 && d * (mu * -lr - d) >= 0.0);
    let y = x - lr;
    let z = y - lr * d;
    let w = y - lr * 0.5 * d;
    assume(f1(y) <= f1(x) - c1 * lr && !(f1(z) <= f1(y) - c1 * lr * d * d) && f1(w) <= f1(y) - c1 * (lr * 0.5) * d * d);
    let mut o = GradientDescentGeneric::<f64, 1>::new();
    o.max_iters(2);
    o.lr = lr; o.armijo_c1 = c1; o.momentum = mu; o.tol_grad = 0.0; o.tol_step = -1.0;
    let k = core::cell::Cell::new(0);
    let r = o.minimize(Vector::new([x]), |x| f1(x[0]), |_| { let i = k.get(); k.set(i + 1); Vector::new([if i == 0 { 1.0 } else { d }]) });
    (r.0[0], r.1)
} == { let z = x - lr - lr * 0.5 * d; (z, f1(z)) });
ob!("C17", "gd_long_momentum_120", (x: f64, c: f64, lr: f64) -> f64, { gd_const(x, c, lr, 0.5, 120, FREE[0], FREE[1]).0[0] } == { let (mut p, mut y) = (x, x); for _ in 0..120 { let z = y - lr * (c - 0.5 * (y - p)); p = y; y = z; } y });
