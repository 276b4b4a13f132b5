#![allow(dead_code, unused, static_mut_refs)]
extern crate stdmodel as std;
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
#[path = "@REPO@/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs"]
mod parallel;
use aether_core::math::Vector;
use aether_rand::randomizers::XorShift64Star;
use parallel::*;
use prelude::*;
extern "Rust" { fn uf_f(x: f64) -> f64; fn uf_g(x: f64, r: u64) -> f64; }


const KEY: u64 = 0x9E37_79B9_7F4A_7C15;
const LANE: u64 = 0xBF58_476D_1CE4_E5B9;
/// the j-th draw of the generator of worker t in iteration k
fn draw(base: u64, k: u32, t: usize, j: u32) -> u64 {
    let mut r = XorShift64Star::new(base ^ (k as u64).wrapping_mul(KEY) ^ (t as u64).wrapping_mul(LANE));
    let mut x = r.next_u64();
    for _ in 0..j { x = r.next_u64(); }
    x
}
fn opt(n: usize, bs: u32, iters: u32, seed: u64, lr: f64, decay: f64, mu: f64) -> GDStochasticParallel<f64, 1> {
    let mut o = GDStochasticParallel::<f64, 1>::new(seed);
    o.batch_size(bs).max_iters(iters).threads(n);
    o.lr0 = lr; o.decay = decay; o.momentum = mu; o.tol_step = -1.0; o.tol_grad_ema = -1.0;
    o
}
fn go(o: &GDStochasticParallel<f64, 1>, x: f64, late: bool) -> (f64, f64, u32, bool) {
    unsafe { std::thread::LAST_FIRST = late; }
    let (v, fx, k, ok) = o.minimize(Vector::new([x]), |x| unsafe { uf_f(x[0]) }, |x, r| Vector::new([unsafe { uf_g(x[0], r.next_u64()) }]));
    (v[0], fx, k, ok)
}
fn g(x: f64, d: u64) -> f64 { unsafe { uf_g(x, d) } }
fn fv(x: f64) -> f64 { unsafe { uf_f(x) } }
fn clamp(x: f64, lo: f64, hi: f64) -> f64 { if x < lo { lo } else if x > hi { hi } else { x } }
// ---- the result is the serial recurrence over the documented streams, whatever the split
macro_rules! step { ($t:literal, $n:literal, $bs:literal, [$(($w:literal, $j:literal)),*]) => {
    ob!("C18", concat!("step_", $t), (seed: u64, x: f64, lr: f64) -> (f64, f64, u32, bool), { go(&opt($n, $bs, 1, seed, lr, 0.0, 0.0), x, false) }
        == { let m = (0.0 $(+ g(x, draw(seed, 0, $w, $j)))*) / ($bs as f64); let y = x - lr * m; (y, fv(y), 1, false) });
    ob!("C18", concat!("step_late_", $t), (seed: u64, x: f64, lr: f64) -> (f64, f64, u32, bool), { go(&opt($n, $bs, 1, seed, lr, 0.0, 0.0), x, true) }
        == { let m = (0.0 $(+ g(x, draw(seed, 0, $w, $j)))*) / ($bs as f64); let y = x - lr * m; (y, fv(y), 1, false) });
    // bit for bit the same under both schedules: no sum may follow the order of completion
    ob!("C18", concat!("schedule_", $t), (seed: u64, x: f64, lr: f64, d: f64, mu: f64) -> (f64, f64, u32, bool), { go(&opt($n, $bs, 2, seed, lr, d, mu), x, false) } == { go(&opt($n, $bs, 2, seed, lr, d, mu), x, true) });
} }
step!("w1b1", 1, 1, [(0, 0)]);
step!("w1b3", 1, 3, [(0, 0), (0, 1), (0, 2)]);
step!("w2b2", 2, 2, [(0, 0), (1, 0)]);
step!("w2b3", 2, 3, [(0, 0), (1, 0), (1, 1)]);
step!("w3b3", 3, 3, [(0, 0), (1, 0), (2, 0)]);
step!("w3b5", 3, 5, [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1)]);
step!("w4b4", 4, 4, [(0, 0), (1, 0), (2, 0), (3, 0)]);
step!("w4b6", 4, 6, [(0, 0), (1, 0), (1, 1), (2, 0), (3, 0), (3, 1)]);
step!("w4b2", 4, 2, [(0, 0), (1, 0)]);
step!("w0b2", 0, 2, [(0, 0), (0, 1)]);
step!("w2b1", 2, 1, [(0, 0)]);
// zero batch counts as one sample
ob!("C18", "batch_zero", (seed: u64, x: f64, lr: f64) -> f64, { let mut o = opt(2, 1, 1, seed, lr, 0.0, 0.0); o.batch_size = 0; go(&o, x, false).0 } == { x - lr * g(x, draw(seed, 0, 0, 0)) });
// second iteration: fresh streams, decayed rate, momentum on the last displacement
ob!("C18", "second_step", (seed: u64, x: f64, lr: f64, d: f64, mu: f64) -> (f64, u32), { let r = go(&opt(2, 2, 2, seed, lr, d, mu), x, false); (r.0, r.2) }
    == { let y = x - lr * (g(x, draw(seed, 0, 0, 0)) + g(x, draw(seed, 0, 1, 0))) / 2.0; (y - lr / (1.0 + d) * (g(y, draw(seed, 1, 0, 0)) + g(y, draw(seed, 1, 1, 0))) / 2.0 + mu * (y - x), 2) });
ob!("C18", "third_step", (seed: u64, x: f64, lr: f64, d: f64, mu: f64) -> (f64, u32), { let r = go(&opt(1, 1, 3, seed, lr, d, mu), x, false); (r.0, r.2) }
    == { let y = x - lr * g(x, draw(seed, 0, 0, 0)); let z = y - lr / (1.0 + d) * g(y, draw(seed, 1, 0, 0)) + mu * (y - x); (z - lr / (1.0 + 2.0 * d) * g(z, draw(seed, 2, 0, 0)) + mu * (z - y), 3) });
ob!("C18", "no_iterations", (seed: u64, x: f64) -> (f64, f64, u32, bool), { go(&opt(2, 2, 0, seed, 0.1, 0.0, 0.0), x, false) } == { (x, fv(x), 0, false) });
// box
ob!("C18", "box", (seed: u64, x: f64, lr: f64, lo: f64, hi: f64) -> f64, { let mut o = opt(2, 2, 1, seed, lr, 0.0, 0.0); o.set_bounds([lo], [hi]); go(&o, x, false).0 } == { clamp(x - lr * (g(x, draw(seed, 0, 0, 0)) + g(x, draw(seed, 0, 1, 0))) / 2.0, lo, hi) });
ob!("C18", "box_kept", (seed: u64, x: f64, lr: f64, d: f64, mu: f64, lo: f64, hi: f64, t: &[f64; 3]) -> bool, { assume(lo <= hi && lo <= x && x <= hi); let mut o = opt(2, 2, 2, seed, lr, d, mu); o.set_bounds([lo], [hi]); o.tol_grad_ema = t[0]; o.tol_step = t[1]; o.tol_f = t[2]; let r = go(&o, x, false).0; lo <= r && r <= hi } == { true });
ob!("C18", "box_cleared", (seed: u64, x: f64, lr: f64) -> f64, { let mut o = opt(1, 1, 1, seed, lr, 0.0, 0.0); o.set_bounds([0.0], [1.0]).clear_bounds(); go(&o, x, false).0 } == { x - lr * g(x, draw(seed, 0, 0, 0)) });
ob!("C18", "box_momentum", (seed: u64, x: f64, lr: f64, mu: f64, lo: f64, hi: f64) -> f64, { let mut o = opt(1, 1, 2, seed, lr, 0.0, mu); o.set_bounds([lo], [hi]); go(&o, x, false).0 } == { let y = clamp(x - lr * g(x, draw(seed, 0, 0, 0)), lo, hi); clamp(y - lr * g(y, draw(seed, 1, 0, 0)) + mu * (y - x), lo, hi) });
// stopping
ob!("C18", "stop_gradient", (seed: u64, x: f64, lr: f64, b: f64, t: f64) -> (f64, f64, u32, bool), { assume(b >= 0.0 && b < 1.0); let mut o = opt(2, 2, 1, seed, lr, 0.0, 0.0); o.ema_beta = b; o.tol_grad_ema = t; go(&o, x, false) }
    == { let m = (g(x, draw(seed, 0, 0, 0)) + g(x, draw(seed, 0, 1, 0))) / 2.0; if m.abs() <= t { (x, fv(x), 0, true) } else { let y = x - lr * m; (y, fv(y), 1, false) } });
ob!("C18", "stop_gradient_average", (seed: u64, x: f64, lr: f64, b: f64, t: f64) -> (u32, bool), { assume(b > 0.0 && b < 1.0); let mut o = opt(1, 1, 2, seed, lr, 0.0, 0.0); o.ema_beta = b; o.tol_grad_ema = t; o.min_iters = 1; let r = go(&o, x, false); (r.2, r.3) }
    == { let p = g(x, draw(seed, 0, 0, 0)); let y = x - lr * p; let q = g(y, draw(seed, 1, 0, 0)); if (b * (1.0 - b) * p.abs() + (1.0 - b) * q.abs()) / (1.0 - b * b) <= t { (1, true) } else { (2, false) } });
ob!("C18", "stop_step", (seed: u64, x: f64, lr: f64, t: f64) -> (f64, f64, u32, bool), { let mut o = opt(1, 1, 1, seed, lr, 0.0, 0.0); o.tol_step = t; go(&o, x, false) } == { let s = lr * g(x, draw(seed, 0, 0, 0)); let y = x - s; (y, fv(y), 1, s.abs() <= t) });
ob!("C18", "stop_value", (seed: u64, x: f64, lr: f64, t: f64) -> (u32, bool), { let mut o = opt(1, 1, 1, seed, lr, 0.0, 0.0); o.tol_f = t; let r = go(&o, x, false); (r.2, r.3) } == { if t > 0.0 && fv(x) <= t { (0, true) } else { (1, false) } });
ob!("C18", "patience", (seed: u64, x: f64, lr: f64, t: &[f64; 3]) -> (u32, bool), { let mut o = opt(1, 1, 2, seed, lr, 0.0, 0.0); o.min_iters = 2; o.tol_grad_ema = t[0]; o.tol_step = t[1]; o.tol_f = t[2]; let r = go(&o, x, false); (r.2, r.3) } == { (2, false) });
ob!("C18", "value_of_point", (seed: u64, x: f64, lr: f64, d: f64, mu: f64, t: &[f64; 3]) -> f64, { let mut o = opt(2, 2, 2, seed, lr, d, mu); o.tol_grad_ema = t[0]; o.tol_step = t[1]; o.tol_f = t[2]; go(&o, x, false).1 } == { let mut o = opt(2, 2, 2, seed, lr, d, mu); o.tol_grad_ema = t[0]; o.tol_step = t[1]; o.tol_f = t[2]; fv(go(&o, x, false).0) });
// two dimensions: components do not mix
ob!("C18", "step_2d", (seed: u64, x: f64, y: f64, lr: f64, b: &[f64; 4]) -> [f64; 2], { unsafe { std::thread::LAST_FIRST = false; } let mut o = GDStochasticParallel::<f64, 2>::new(seed); o.batch_size(2).max_iters(1).threads(2).set_bounds([b[0], b[1]], [b[2], b[3]]); o.lr0 = lr; o.decay = 0.0; o.tol_step = -1.0; o.tol_grad_ema = -1.0; o.minimize(Vector::new([x, y]), |v| fv(v[0]), |v, r| { let d = r.next_u64(); Vector::new([g(v[0], d), g(v[1], d)]) }).0.data }
    == { [clamp(x - lr * (g(x, draw(seed, 0, 0, 0)) + g(x, draw(seed, 0, 1, 0))) / 2.0, b[0], b[2]), clamp(y - lr * (g(y, draw(seed, 0, 0, 0)) + g(y, draw(seed, 0, 1, 0))) / 2.0, b[1], b[3])] });
// settings
ob!("C18", "settings", (lr: f64, d: f64, mu: f64, b: f64, tg: f64, ts: f64, tf: f64, bs: u32) -> (bool, bool, bool, bool, bool, bool, bool, bool), { let mut o = GDStochasticParallel::<f64, 2>::new(7); o.learning_rate(lr).decay(d).momentum(mu).ema(b).tolerances(tg, ts).tol_f(tf).batch_size(bs); (o.lr0 >= 0.0, o.decay >= 0.0, o.momentum >= 0.0 && o.momentum <= 1.0, o.ema_beta >= 0.0 && o.ema_beta <= 1.0, o.tol_grad_ema >= 0.0, o.tol_step >= 0.0, o.tol_f >= 0.0, o.batch_size >= 1) } == { (true, true, true, true, true, true, true, true) });
ob!("C18", "settings_kept", (lr: f64, d: f64, mu: f64, b: f64, tg: f64, ts: f64, tf: f64) -> [f64; 7], { assume(lr > 0.0 && d >= 0.0 && mu >= 0.0 && mu <= 1.0 && b >= 0.0 && b <= 1.0 && tg > 0.0 && ts > 0.0 && tf >= 0.0); let mut o = GDStochasticParallel::<f64, 2>::new(7); o.learning_rate(lr).decay(d).momentum(mu).ema(b).tolerances(tg, ts).tol_f(tf); [o.lr0, o.decay, o.momentum, o.ema_beta, o.tol_grad_ema, o.tol_step, o.tol_f] } == { [lr, d, mu, b, tg, ts, tf] });
ob!("C18", "settings_counts", (bs: u32, m: u32, n: u32) -> (u32, u32, u32), { assume(bs > 0); let mut o = GDStochasticParallel::<f64, 2>::new(7); o.batch_size(bs).min_iters(m).max_iters(n); (o.batch_size, o.min_iters, o.max_iters) } == { (bs, m, n) });

// ---- long runs, many workers, many axes: what goes wrong only after several iterations or in the larger splits
fn run_const(n: usize, bs: u32, iters: u32, min: u32, seed: u64, x: f64, c: f64, lr: f64, decay: f64, mu: f64, tg: f64, ts: f64) -> (f64, f64, u32, bool) {
    unsafe { std::thread::LAST_FIRST = false; }
    let mut o = opt(n, bs, iters, seed, lr, decay, mu);
    o.min_iters = min; o.tol_grad_ema = tg; o.tol_step = ts; o.tol_f = 0.0;
    let (v, fx, k, ok) = o.minimize(Vector::new([x]), |x| fv(x[0]), |_, _| Vector::new([c]));
    (v[0], fx, k, ok)
}
macro_rules! long { ($($t:literal $n:literal),*) => { $(
ob!("C18", concat!("long_", $t), (seed: u64, x: f64, c: f64, lr: f64, mu: f64) -> (f64, u32, bool), { let r = run_const(2, 2, $n, 0, seed, x, c, lr, 0.25, mu, -1.0, -1.0); (r.0, r.2, r.3) } == { let (mut p, mut y) = (x, x); for k in 0..$n { let z = y - lr / (1.0 + 0.25 * k as f64) * c + mu * (y - p); p = y; y = z; } (y, $n, false) });
ob!("C18", concat!("patience_", $t), (seed: u64, x: f64, lr: f64) -> (f64, u32, bool), { let r = run_const(1, 1, 60, $n, seed, x, 0.0, lr, 0.25, 0.5, 0.0, -1.0); (r.0, r.2, r.3) } == { (x, $n, true) });
ob!("C18", concat!("patience_step_", $t), (seed: u64, x: f64, lr: f64) -> (f64, u32, bool), { let r = run_const(1, 1, 60, $n, seed, x, 0.0, lr, 0.25, 0.5, -1.0, 0.0); (r.0, r.2, r.3) } == { (x, $n + 1, true) });
ob!("C18", concat!("batch_", $t), (seed: u64, x: f64, c: f64, lr: f64) -> (f64, u32), { let r = run_const(3, $n, 2, 0, seed, x, c, lr, 0.0, 0.0, -1.0, -1.0); (r.0, r.2) } == { (x - 2.0 * lr * c, 2) });
)* } }
long!("5" 5, "12" 12, "40" 40);
macro_rules! many { ($($t:literal $n:literal $b:literal),*) => { $(
ob!("C18", concat!("many_", $t), (seed: u64, x: f64, c: f64, lr: f64) -> (f64, u32), { let r = run_const($n, $b, 2, 0, seed, x, c, lr, 0.0, 0.0, -1.0, -1.0); (r.0, r.2) } == { (x - 2.0 * lr * c, 2) });
)* } }
many!("w16b17" 16 17, "w17b16" 17 16, "w33b70" 33 70, "w64b300" 64 300, "w1b300" 1 300);
macro_rules! wide { ($t:literal, $n:literal, $bs:literal) => {
ob!("C18", concat!("wide_", $t), (seed: u64, x: f64, lr: f64) -> f64, { go(&opt($n, $bs, 1, seed, lr, 0.0, 0.0), x, false).0 }
    == { let mut t = 0.0; for w in 0..$n { for j in 0..(($bs * (w + 1)) / $n - ($bs * w) / $n) { t += g(x, draw(seed, 0, w, j as u32)); } } x - lr * t / ($bs as f64) });
ob!("C18", concat!("wide_late_", $t), (seed: u64, x: f64, lr: f64) -> f64, { go(&opt($n, $bs, 1, seed, lr, 0.0, 0.0), x, true).0 } == { go(&opt($n, $bs, 1, seed, lr, 0.0, 0.0), x, false).0 });
} }
wide!("w8b8", 8, 8);
wide!("w8b13", 8, 13);
wide!("w6b9", 6, 9);
wide!("w5b24", 5, 24);
ob!("C18", "step_9d", (seed: u64, x: &[f64; 9], c: &[f64; 9], lr: f64) -> [f64; 9], { unsafe { std::thread::LAST_FIRST = false; } let mut o = GDStochasticParallel::<f64, 9>::new(seed); o.batch_size(3).max_iters(2).threads(2); o.lr0 = lr; o.decay = 1.0; o.tol_step = -1.0; o.tol_grad_ema = -1.0; o.minimize(Vector::new(*x), |v| fv(v[0]), |_, _| Vector::new(*c)).0.data } == { core::array::from_fn(|i| x[i] - 1.5 * lr * c[i]) });
fn two_axes(b: f64, free: f64) -> [f64; 9] { core::array::from_fn(|i| if i == 3 || i == 8 { b } else { free }) }
ob!("C18", "box_9d", (seed: u64, x: &[f64; 9], c: &[f64; 9], lo: f64, hi: f64, lr: f64) -> [f64; 9], { unsafe { std::thread::LAST_FIRST = false; } let mut o = GDStochasticParallel::<f64, 9>::new(seed); o.batch_size(1).max_iters(1).threads(1).set_bounds(two_axes(lo, f64::NEG_INFINITY), two_axes(hi, f64::INFINITY)); o.lr0 = lr; o.tol_step = -1.0; o.tol_grad_ema = -1.0; o.minimize(Vector::new(*x), |v| fv(v[0]), |_, _| Vector::new(*c)).0.data } == { core::array::from_fn(|i| { let y = x[i] - lr * c[i]; if i == 3 || i == 8 { clamp(y, lo, hi) } else { y } }) });
ob!("C18", "box_late", (seed: u64, x: f64, c: f64, hi: f64) -> f64, { unsafe { std::thread::LAST_FIRST = false; } assume(c > 0.0 && x < hi); let mut o = opt(1, 1, 6, seed, 1.0, 0.0, 0.0); o.tol_f = 0.0; o.set_bounds([f64::NEG_INFINITY], [hi]); o.minimize(Vector::new([x]), |x| fv(x[0]), |_, _| Vector::new([-c])).0[0] } == { if x + 6.0 * c > hi { hi } else { x + 6.0 * c } });
ob!("C18", "average_long", (seed: u64, x: f64, c: f64, lr: f64, t: f64) -> (u32, bool), { unsafe { std::thread::LAST_FIRST = false; } assume(c >= 0.0); let mut o = opt(1, 1, 10, seed, lr, 0.0, 0.0); o.min_iters = 9; o.ema_beta = 0.75; o.tol_grad_ema = t; o.tol_f = 0.0; let r = o.minimize(Vector::new([x]), |x| fv(x[0]), |_, _| Vector::new([c])); (r.2, r.3) } == { if c <= t { (9, true) } else { (10, false) } });
ob!("C18", "step_f32", (seed: u64, x: &[f32; 2], c: &[f32; 2], lr: f32) -> [f64; 2], { unsafe { std::thread::LAST_FIRST = false; } let mut o = GDStochasticParallel::<f32, 2>::new(seed); o.batch_size(2).max_iters(2).threads(2); o.lr0 = lr; o.decay = 1.0; o.tol_step = -1.0; o.tol_grad_ema = -1.0; let r = o.minimize(Vector::new(*x), |v| v[0], |_, _| Vector::new(*c)).0; [r[0] as f64, r[1] as f64] } == { core::array::from_fn(|i| x[i] as f64 - 1.5 * lr as f64 * c[i] as f64) });
