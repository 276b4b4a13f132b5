#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{FixedFrame, ICRF, ITRF, ReferenceFrame, RotatingFrame};
use aether_models::lunar::{constants as lc, moon::Moon, orbit::MoonOrbitAroundEarth, transforms as lt, LIRF, LTRF};
use aether_models::terrestrial::atmospheres::{isa::ISA, ussa::USSA};
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::iers::constants as iers;
use aether_models::terrestrial::wgs84::{constants as w84, gravity::*, transforms::*};
use prelude::*;
const PI: f64 = core::f64::consts::PI;
type C = Cartesian<f64, ITRF<f64>>;
type CI = Cartesian<f64, ICRF<f64>>;
fn c(v: &[f64; 3]) -> C { Cartesian::new(v[0], v[1], v[2]) }
fn ci(v: &[f64; 3]) -> CI { Cartesian::new(v[0], v[1], v[2]) }
fn a3<F: ReferenceFrame>(v: Cartesian<f64, F>) -> [f64; 3] { [v.x(), v.y(), v.z()] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn flat<A: ReferenceFrame, B: ReferenceFrame>(d: DirectionCosineMatrix<f64, A, B>) -> [f64; 9] { let m = d.as_matrix().data; [m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]] }
/// coordinates of a fixed vector seen from axes that have turned by th about z
fn seen(th: f64) -> [f64; 9] { [th.cos(), th.sin(), 0.0, -th.sin(), th.cos(), 0.0, 0.0, 0.0, 1.0] }
fn mul9(a: [f64; 9], b: [f64; 9]) -> [f64; 9] {
    let e = |i: usize, j: usize| a[3 * i] * b[j] + a[3 * i + 1] * b[3 + j] + a[3 * i + 2] * b[6 + j];
    [e(0, 0), e(0, 1), e(0, 2), e(1, 0), e(1, 1), e(1, 2), e(2, 0), e(2, 1), e(2, 2)]
}
fn tr9(a: [f64; 9]) -> [f64; 9] { [a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]] }
fn earth(wz: f64) -> Earth { let mut e = Earth::new(); e.rotational_velocity = Cartesian::new(0.0, 0.0, wz); e }
fn central(r: &[f64; 9]) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> { DirectionCosineMatrix::new(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8]) }
fn moon(e: f64, r: &[f64; 9]) -> Moon { Moon::with_epoch_orientation(e, central(r)) }
const MOON_RATE: f64 = 2.0 * PI / (27.321661 * 86400.0);

// ------------------------------------------------------------------ C26 rotating frames and the forces in them
ob!("C26", "icrf_to_itrf", (t: f64, w: &[f64; 3]) -> [f64; 9], { flat(icrf_to_itrf(t, c(w))) } == { seen(w[2] * t) });
ob!("C26", "itrf_to_icrf", (t: f64, w: &[f64; 3]) -> [f64; 9], { flat(itrf_to_icrf(t, c(w))) } == { tr9(seen(w[2] * t)) });
ob!("C26", "earth_icrf_to_itrf", (t: f64, w: f64) -> [f64; 9], { flat(earth(w).icrf_to_itrf(t)) } == { seen(w * t) });
ob!("C26", "earth_itrf_to_icrf", (t: f64, w: f64) -> [f64; 9], { flat(earth(w).itrf_to_icrf(t)) } == { tr9(seen(w * t)) });
ob!("C26", "earth_round_trip", (t: f64, w: f64, v: &[f64; 3]) -> [f64; 3], { let e = earth(w); a3(e.itrf_to_icrf(t) * (e.icrf_to_itrf(t) * ci(v))) } == { *v });
ob!("C26", "icrf_to_itrf_f32", (t: f32, w: f32) -> [f64; 2], { let m = icrf_to_itrf(t, Cartesian::new(0.0, 0.0, w)).as_matrix().data; [m[0][1] as f64, m[1][0] as f64] } == { let s = (w * t).sin() as f64; [s, -s] });
ob!("C26", "orientation_at", (e: f64, t: f64) -> [f64; 4], { let q = ITRF { epoch: e }.orientation_at(t); [q.w(), q.i(), q.j(), q.k()] } == { let h = (t - e) * 7.2921150e-5 * 0.5; [h.cos(), 0.0, 0.0, h.sin()] });
ob!("C26", "angular_velocity", (e: f64) -> [f64; 4], { let f = ITRF { epoch: e }; let w = f.angular_velocity(); [w.x(), w.y(), w.z(), f.epoch()] } == { [0.0, 0.0, 7.2921150e-5, e] });
ob!("C26", "lirf_to_ltrf", (t: f64) -> [f64; 9], { flat(lt::lirf_to_ltrf(t)) } == { seen(MOON_RATE * t) });
ob!("C26", "ltrf_to_lirf", (t: f64) -> [f64; 9], { flat(lt::ltrf_to_lirf(t)) } == { tr9(seen(MOON_RATE * t)) });
ob!("C26", "aligned_lirf", () -> [f64; 9], { flat(lt::icrf_to_lirf()) } == { [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0] });
ob!("C26", "aligned_lirf_back", () -> [f64; 9], { flat(lt::lirf_to_icrf()) } == { [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0] });
ob!("C26", "icrf_to_ltrf", (t: f64) -> [f64; 9], { flat(lt::icrf_to_ltrf(t)) } == { seen(MOON_RATE * t) });
ob!("C26", "ltrf_to_icrf", (t: f64) -> [f64; 9], { flat(lt::ltrf_to_icrf(t)) } == { tr9(seen(MOON_RATE * t)) });
ob!("C26", "icrf_to_ltrf_at_epoch", (t: f64, r: &[f64; 9]) -> [f64; 9], { flat(lt::icrf_to_ltrf_at_epoch(t, central(r))) } == { mul9(seen(MOON_RATE * t), *r) });
ob!("C26", "ltrf_to_icrf_at_epoch", (t: f64, r: &[f64; 9]) -> [f64; 9], { flat(lt::ltrf_to_icrf_at_epoch(t, central(r))) } == { tr9(mul9(seen(MOON_RATE * t), *r)) });
ob!("C26", "moon_lirf_to_ltrf", (e: f64, t: f64, r: &[f64; 9]) -> [f64; 9], { flat(moon(e, r).lirf_to_ltrf(t)) } == { seen(MOON_RATE * (t - e)) });
ob!("C26", "moon_ltrf_to_lirf", (e: f64, t: f64, r: &[f64; 9]) -> [f64; 9], { flat(moon(e, r).ltrf_to_lirf(t)) } == { tr9(seen(MOON_RATE * (t - e))) });
ob!("C26", "moon_icrf_to_lirf", (e: f64, r: &[f64; 9]) -> [f64; 9], { flat(moon(e, r).icrf_to_lirf()) } == { *r });
ob!("C26", "moon_lirf_to_icrf", (e: f64, r: &[f64; 9]) -> [f64; 9], { flat(moon(e, r).lirf_to_icrf()) } == { tr9(*r) });
ob!("C26", "moon_composes", (e: f64, t: f64, r: &[f64; 9]) -> [f64; 9], { flat(moon(e, r).icrf_to_ltrf(t)) } == { let m = moon(e, r); flat(m.lirf_to_ltrf(t) * m.icrf_to_lirf()) });
ob!("C26", "moon_composes_back", (e: f64, t: f64, r: &[f64; 9]) -> [f64; 9], { flat(moon(e, r).ltrf_to_icrf(t)) } == { let m = moon(e, r); flat(m.lirf_to_icrf() * m.ltrf_to_lirf(t)) });
ob!("C26", "moon_default_frames", (t: f64) -> [f64; 9], { flat(Moon::new().icrf_to_ltrf(t)) } == { flat(lt::icrf_to_ltrf(t)) });
ob!("C26", "moon_constants", () -> [f64; 5], { let m = Moon::new(); [m.mass, m.radius, m.rotational_rate_rad_s, m.gravitational_constant, m.epoch_time] } == { [4.902800118e12 / 6.67428e-11, 1737400.0, MOON_RATE, 4.902800118e12, 0.0] });
ob!("C26", "earth_constants", () -> [f64; 6], { let m = Earth::new(); [m.mass, m.radius, m.gravitational_constant, m.rotational_velocity.x(), m.rotational_velocity.y(), m.rotational_velocity.z()] } == { [3.986004418e14 / 6.67428e-11, 6378136.6, 3.986004418e14, 0.0, 0.0, 7.292115146706979e-5] });
ob!("C26", "coriolis", (v: &[f64; 3], w: &[f64; 3], m: f64) -> [f64; 3], { let mut e = Earth::new(); e.rotational_velocity = c(w); a3(e.solve_coriolis_force(c(v), m)) } == { let x = cross(*w, *v); [-2.0 * m * x[0], -2.0 * m * x[1], -2.0 * m * x[2]] });
ob!("C26", "centrifugal", (v: &[f64; 3], w: &[f64; 3], m: f64) -> [f64; 3], { let mut e = Earth::new(); e.rotational_velocity = c(w); a3(e.solve_centrifugal_force(c(v), m)) } == { let x = cross(*w, cross(*w, *v)); [-m * x[0], -m * x[1], -m * x[2]] });
ob!("C26", "gravity_gradient_torque", (r: &[f64; 3], i: &[[f64; 3]; 3]) -> [f64; 3], { a3(Earth::new().solve_gravitational_torque(c(r), Matrix::new(*i))) } == { let d = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt(); let ir = [i[0][0] * r[0] + i[0][1] * r[1] + i[0][2] * r[2], i[1][0] * r[0] + i[1][1] * r[1] + i[1][2] * r[2], i[2][0] * r[0] + i[2][1] * r[1] + i[2][2] * r[2]]; let x = cross(*r, ir); let k = 3.0 * 3.986004418e14 / (d * d * d * d * d); [k * x[0], k * x[1], k * x[2]] });
ob!("C26", "gravitational_force", (r: &[f64; 3], m: f64) -> [f64; 3], { a3(Earth::new().solve_gravitational_force(c(r), m)) } == { let g = gravity_rectangular(r[0], r[1], r[2]); [m * g.x(), m * g.y(), m * g.z()] });
ob!("C26", "moon_gravity", (r: &[f64; 3], g: f64) -> [f64; 3], { assume((r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt() > 1.0e-3); let mut m = Moon::new(); m.gravitational_constant = g; a3(m.gravitational_acceleration(ci(r))) } == { let d = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt(); let k = -g / (d * d * d); [k * r[0], k * r[1], k * r[2]] });
ob!("C26", "moon_force", (r: &[f64; 3], m: f64) -> [f64; 3], { a3(Moon::new().solve_gravitational_force(ci(r), m)) } == { let g = Moon::new().gravitational_acceleration(ci(r)); [g.x() * m, g.y() * m, g.z() * m] });
ob!("C26", "moon_torque", (r: &[f64; 3], i: &[[f64; 3]; 3]) -> [f64; 3], { assume((r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt() > 1.0e-3); a3(Moon::new().solve_gravitational_torque(ci(r), Matrix::new(*i))) } == { let d = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt(); let ir = [i[0][0] * r[0] + i[0][1] * r[1] + i[0][2] * r[2], i[1][0] * r[0] + i[1][1] * r[1] + i[1][2] * r[2], i[2][0] * r[0] + i[2][1] * r[1] + i[2][2] * r[2]]; let x = cross(*r, ir); let k = 3.0 * 4.902800118e12 / (d * d * d * d * d); [k * x[0], k * x[1], k * x[2]] });
ob!("C26", "moon_centre", (i: &[[f64; 3]; 3]) -> [f64; 6], { let m = Moon::new(); let (a, t) = (m.gravitational_acceleration(CI::zero()), m.solve_gravitational_torque(CI::zero(), Matrix::new(*i))); [a.x(), a.y(), a.z(), t.x(), t.y(), t.z()] } == { [0.0; 6] });
ob!("C26", "moon_orbit", (a: f64, p: f64, m: f64, n: f64) -> [f64; 3], { assume(p > 0.0 && a > 0.0 && m > 0.0 && n > 0.0); let mut o = MoonOrbitAroundEarth::new(); o.semi_major_axis_m = a; o.sidereal_period_s = p; o.mu_earth_m3_s2 = m; o.mu_moon_m3_s2 = n; [o.mu_total_m3_s2(), o.mean_motion_rad_s(), o.keplerian_period_s()] } == { [m + n, 2.0 * PI / p, 2.0 * PI * (a * a * a / (m + n)).sqrt()] });
ob!("C26", "moon_orbit_constants", () -> [f64; 6], { let o = MoonOrbitAroundEarth::new(); [o.semi_major_axis_m, o.eccentricity, o.inclination_rad, o.sidereal_period_s, o.mu_earth_m3_s2, o.mu_moon_m3_s2] } == { [384400.0e3, 0.0549, 5.145 * PI / 180.0, 27.321661 * 86400.0, 3.986004418e14, 4.902800118e12] });

// ------------------------------------------------------------------ C27 atmospheres
const TB: [f64; 9] = [320.65, 288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 196.65];
const HB: [f64; 9] = [-5000.0, 0.0, 11000.0, 20000.0, 32000.0, 47000.0, 51000.0, 71000.0, 80000.0];
const RB: [f64; 9] = [1.93047, 1.225, 3.63918e-1, 8.80345e-2, 1.32249e-2, 1.42752e-3, 8.616e-4, 6.42105e-5, 1.57004e-5];
const LB: [f64; 8] = [-6.5e-3, -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3];
const R_ISA: f64 = 8314.32 / 28.964420;
macro_rules! isa {
    ($n:literal, $lo:expr, $hi:expr, $b:literal, $g:literal) => {
        ob!("C27", concat!("isa_temperature_", $n), (h: f64) -> f64, { assume(h > $lo && h <= $hi); ISA::new().temperature(h).unwrap() } == { TB[$b] + LB[$g] * (h - HB[$b]) });
        ob!("C27", concat!("isa_pressure_", $n), (h: f64) -> f64, { assume(h > $lo && h <= $hi); ISA::new().pressure(h).unwrap() } == {
            let p = RB[$b] * R_ISA * TB[$b];
            if LB[$g] == 0.0 { p * (-9.80665 / (287.05287 * TB[$b]) * (h - HB[$b])).exp() } else { p * (1.0 + LB[$g] / TB[$b] * (h - HB[$b])).powf(-9.80665 / (287.05287 * LB[$g])) }
        });
    };
}
isa!("below", f64::NEG_INFINITY, HB[0], 0, 0);
isa!("under_sea", HB[0], HB[1], 1, 0);
isa!("troposphere", HB[1], HB[2], 2, 1);
isa!("tropopause", HB[2], HB[3], 3, 2);
isa!("stratosphere_1", HB[3], HB[4], 4, 3);
isa!("stratosphere_2", HB[4], HB[5], 5, 4);
isa!("stratopause", HB[5], HB[6], 6, 5);
isa!("mesosphere_1", HB[6], HB[7], 7, 6);
isa!("mesosphere_2", HB[7], HB[8], 8, 7);
ob!("C27", "isa_gas_law", (h: f64) -> f64, { match ISA::new().density(h) { Ok(d) => d * (R_ISA * ISA::new().temperature(h).unwrap()), Err(_) => -1.0 } } == { match ISA::new().pressure(h) { Ok(p) => p, Err(_) => -1.0 } });
ob!("C27", "isa_range", (h: f64) -> (bool, bool, bool), { let a = ISA::new(); (a.temperature(h).is_ok(), a.pressure(h).is_ok(), a.density(h).is_ok()) } == { let k = h <= 80000.0; (k, k, k) });
ob!("C27", "isa_altitudes_inverse", (h: f64) -> f64, { assume(h > -6356766.0); let a = ISA::new(); a.geometric_altitude(a.geopotential_altitude(h)) } == { h });
ob!("C27", "isa_geopotential", (h: f64) -> f64, { assume(h > -6356766.0); ISA::new().geopotential_altitude(h) } == { 6356766.0 * h / (6356766.0 + h) });
ob!("C27", "isa_gravity", (h: f64) -> f64, { assume(h > -6356766.0); ISA::gravity(h) } == { let q = 6356766.0 / (6356766.0 + h); 9.80665 * q * q });
ob!("C27", "isa_gradient_index", (i: usize) -> usize, { ISA::new().get_gradient_index(i).unwrap_or(99) } == { if i == 9 { 99 } else if i == 0 { 0 } else { i - 1 } });

const UH: [f64; 13] = [0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0, 120000.0, 500000.0, 1000000.0];
const UT: [f64; 12] = [288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.87, 186.87, 240.0, 360.0, 999.24];
const UP: [f64; 12] = [101325.0, 22632.0, 5474.8, 868.01, 110.90, 66.938, 3.9564, 0.37338, 0.15381, 7.1042e-3, 2.5382e-3, 3.0236e-7];
const UL: [f64; 12] = [-6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0e-3, 12.0e-3, 0.0];
const R_USSA: f64 = 8314.32 / 28.9644;
fn ussa_t(b: usize, h: f64) -> f64 {
    if b == 8 { let q = (h - 91000.0) / 19942.9; 263.1905 - 76.3232 * (1.0 - q * q).sqrt() }
    else if b == 10 || b == 11 { 1000.0 - 640.0 * (-0.01875 * ((h - 120000.0) * (6356766.0 + 120000.0) / (6356766.0 + h) * 1.0e-3)).exp() }
    else if b == 7 { 186.87 }
    else { UT[b] + UL[b] * (h - UH[b]) }
}
macro_rules! ussa {
    ($n:literal, $lo:expr, $hi:expr, $b:literal) => {
        ob!("C27", concat!("ussa_temperature_", $n), (h: f64) -> f64, { assume(h >= $lo && h < $hi); USSA::new().temperature(h).unwrap() } == { ussa_t($b, h) });
        ob!("C27", concat!("ussa_pressure_", $n), (h: f64) -> f64, { assume(h >= $lo && h < $hi); USSA::new().pressure(h).unwrap() } == {
            let t = USSA::new().temperature(h).unwrap();
            if UL[$b] == 0.0 { UP[$b] * (-9.80665 * (h - UH[$b]) / (R_USSA * t)).exp() } else { UP[$b] * (UT[$b] / t).powf(9.80665 / (R_USSA * UL[$b])) }
        });
    };
}
ussa!("troposphere", f64::NEG_INFINITY, UH[1], 0);
ussa!("tropopause", UH[1], UH[2], 1);
ussa!("stratosphere_1", UH[2], UH[3], 2);
ussa!("stratosphere_2", UH[3], UH[4], 3);
ussa!("stratopause", UH[4], UH[5], 4);
ussa!("mesosphere_1", UH[5], UH[6], 5);
ussa!("mesosphere_2", UH[6], UH[7], 6);
ussa!("mesopause", UH[7], UH[8], 7);
ussa!("ellipse", UH[8], UH[9], 8);
ussa!("linear", UH[9], UH[10], 9);
ussa!("thermosphere", UH[10], UH[11], 10);
ussa!("exosphere", UH[11], UH[12], 11);
ob!("C27", "ussa_range", (h: f64) -> (bool, bool, bool, bool, bool), { let a = USSA::new(); (a.temperature(h).is_ok(), a.pressure(h).is_ok(), a.density(h).is_ok(), a.speed_of_sound(h).is_ok(), a.dynamic_viscosity(h).is_ok()) } == { let k = h < 1000000.0; (k, k, k, k, k) });
ob!("C27", "ussa_gas_law", (h: f64) -> f64, { assume(h < 1000000.0); let a = USSA::new(); a.density(h).unwrap() * (R_USSA * a.temperature(h).unwrap()) } == { USSA::new().pressure(h).unwrap() });
ob!("C27", "ussa_speed_of_sound", (h: f64) -> f64, { assume(h < 1000000.0); USSA::new().speed_of_sound(h).unwrap() } == { (1.4 * R_USSA * USSA::new().temperature(h).unwrap()).sqrt() });
ob!("C27", "ussa_viscosity", (h: f64) -> f64, { assume(h < 1000000.0); USSA::new().dynamic_viscosity(h).unwrap() } == { let t = USSA::new().temperature(h).unwrap(); 1.458e-6 * t.powf(1.5) / (t + 110.4) });
only!("C27", "ussa_total", "nopanic", (h: f64) -> (bool, bool, bool, bool, bool), { let a = USSA::new(); (a.temperature(h).is_ok(), a.pressure(h).is_ok(), a.density(h).is_ok(), a.speed_of_sound(h).is_ok(), a.dynamic_viscosity(h).is_ok()) });
only!("C27", "isa_total", "nopanic", (h: f64) -> (bool, bool, bool), { let a = ISA::new(); (a.temperature(h).is_ok(), a.pressure(h).is_ok(), a.density(h).is_ok()) });
ob!("C27", "earth_atmosphere", (h: f64) -> [f64; 4], { let e = Earth::new(); [e.get_temperature(h).unwrap_or(-1.0), e.get_pressure(h).unwrap_or(-1.0), e.get_density(h).unwrap_or(-1.0), e.get_speed_of_sound(h).unwrap_or(-1.0)] } == { let a = USSA::new(); [a.temperature(h).unwrap_or(-1.0), a.pressure(h).unwrap_or(-1.0), a.density(h).unwrap_or(-1.0), a.speed_of_sound(h).unwrap_or(-1.0)] });
only!("C27", "earth_atmosphere_total", "nopanic", (h: f64) -> (bool, bool, bool, bool), { let e = Earth::new(); (e.get_temperature(h).is_ok(), e.get_pressure(h).is_ok(), e.get_density(h).is_ok(), e.get_speed_of_sound(h).is_ok()) });

// ------------------------------------------------------------------ C28 geodesy and gravity
const A: f64 = 6378137.0;
const B: f64 = 6356752.3142;
const E2: f64 = 6.694379990141e-3;
const EE: f64 = 5.2185400842339e5;
const W: f64 = 7.292115e-5;
const GM: f64 = 3.986004418e14;
ob!("C28", "to_ecef", (lat: f64, lon: f64, h: f64) -> [f64; 3], { a3(geocentric_to_ecef(lat, lon, h)) } == { let n = A / (1.0 - E2 * lat.sin() * lat.sin()).sqrt(); [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), ((1.0 - E2) * n + h) * lat.sin()] });
ob!("C28", "to_ecef_on_ellipsoid", (lat: f64, lon: f64) -> f64, { let p = geocentric_to_ecef(lat, lon, 0.0); (p.x() * p.x() + p.y() * p.y()) / (A * A) + p.z() * p.z() / (A * A * (1.0 - E2)) } == { 1.0 });
ob!("C28", "to_ecef_height_along_normal", (lat: f64, lon: f64, h: f64) -> [f64; 3], { let (p, q) = (geocentric_to_ecef(lat, lon, h), geocentric_to_ecef(lat, lon, 0.0)); [p.x() - q.x(), p.y() - q.y(), p.z() - q.z()] } == { [h * lat.cos() * lon.cos(), h * lat.cos() * lon.sin(), h * lat.sin()] });
ob!("C28", "earth_to_ecef", (lat: f64, lon: f64, h: f64) -> [f64; 3], { a3(Earth::new().geocentric_to_ecef(lat, lon, h)) } == { a3(geocentric_to_ecef(lat, lon, h)) });
fn ferrari(x: f64, y: f64, z: f64) -> [f64; 3] {
    let (a2, b2) = (A * A, B * B);
    let e2 = (a2 - b2) / a2;
    let f = (A - B) / A;
    let e2 = 2.0 * f - f * f;
    let ep2 = a2 / b2 - 1.0;
    let r2 = x * x + y * y;
    let r = r2.sqrt();
    let z2 = z * z;
    let g = r2 + (1.0 - e2) * z2 - e2 * (a2 - b2);
    let ff = 54.0 * b2 * z2;
    let c = e2 * e2 * ff * r2 / (g * g * g);
    let s = (1.0 + c + (c * c + 2.0 * c).sqrt()).powf(1.0 / 3.0);
    let k = s + 1.0 + 1.0 / s;
    let p = ff / (3.0 * k * k * g * g);
    let q = (1.0 + 2.0 * e2 * e2 * p).sqrt();
    let d = a2 / 2.0 * (1.0 + 1.0 / q) - p * (1.0 - e2) * z2 / (q * (1.0 + q)) - p * r2 / 2.0;
    let r0 = -p * e2 * r / (1.0 + q) + (if d > 0.0 { d } else { 0.0 }).sqrt();
    let m = r - e2 * r0;
    let u = (m * m + z2).sqrt();
    let v = (m * m + (1.0 - e2) * z2).sqrt();
    let z0 = b2 * z / (A * v);
    [(z + ep2 * z0).atan2(r), y.atan2(x), u * (1.0 - b2 / (A * v))]
}
ob!("C28", "ferrari_latitude", (x: f64, y: f64, z: f64) -> f64, { ecef_to_geocentric_ferrari(x, y, z)[0] } == { ferrari(x, y, z)[0] });
ob!("C28", "ferrari_longitude", (x: f64, y: f64, z: f64) -> f64, { ecef_to_geocentric_ferrari(x, y, z)[1] } == { y.atan2(x) });
ob!("C28", "ferrari_altitude", (x: f64, y: f64, z: f64) -> f64, { ecef_to_geocentric_ferrari(x, y, z)[2] } == { ferrari(x, y, z)[2] });
ob!("C28", "earth_ferrari", (x: f64, y: f64, z: f64) -> [f64; 3], { Earth::new().ecef_to_geocentric_ferrari(x, y, z).data } == { ecef_to_geocentric_ferrari(x, y, z).data });
ob!("C28", "equator", (r: f64, l: f64) -> [f64; 3], { assume(r > 1.0); ecef_to_geocentric(r * l.cos(), r * l.sin(), 0.0).data } == { [0.0_f64.atan2(r), (r * l.sin()).atan2(r * l.cos()), r - A] });
ob!("C28", "pole_high_north", (t: f64) -> [f64; 2], { let z = 6.4e6 + t * t; let g = ecef_to_geocentric(0.0, 0.0, z); [g[0], g[2]] } == { let z = 6.4e6 + t * t; [PI / 2.0, z - A * (1.0 - E2).sqrt()] });
ob!("C28", "pole_high_south", (t: f64) -> [f64; 2], { let z = 6.4e6 + t * t; let g = ecef_to_geocentric(0.0, 0.0, -z); [g[0], g[2]] } == { let z = 6.4e6 + t * t; [-PI / 2.0, z - A * (1.0 - E2).sqrt()] });
ob!("C28", "pole_low_north", (t: f64) -> [f64; 2], { let z = 6.39e6 / (1.0 + t * t); let g = ecef_to_geocentric(0.0, 0.0, z); [g[0], g[2]] } == { let z = 6.39e6 / (1.0 + t * t); [PI / 2.0, z - A * (1.0 - E2).sqrt()] });
ob!("C28", "pole_low_south", (t: f64) -> [f64; 2], { let z = 6.39e6 / (1.0 + t * t); let g = ecef_to_geocentric(0.0, 0.0, -z); [g[0], g[2]] } == { let z = 6.39e6 / (1.0 + t * t); [-PI / 2.0, z - A * (1.0 - E2).sqrt()] });
/// one refinement of the offset along the normal
fn refine(rho2: f64, z: f64, dz: f64) -> (f64, f64) { let s = (z + dz) / (rho2 + (z + dz) * (z + dz)).sqrt(); let n = A / (1.0 - E2 * s * s).sqrt(); (n, n * E2 * s) }
ob!("C28", "ecef_to_geocentric_converged", (x: f64, y: f64, z: f64) -> [f64; 3], {
    let rho2 = x * x + y * y;
    let d0 = E2 * z;
    assume((d0 - refine(rho2, z, d0).1).abs() < f64::EPSILON * 100.0);
    ecef_to_geocentric(x, y, z).data
} == {
    let rho2 = x * x + y * y;
    let d0 = E2 * z;
    let n = refine(rho2, z, d0).0;
    [(z + d0).atan2(rho2.sqrt()), y.atan2(x), (rho2 + (z + d0) * (z + d0)).sqrt() - n]
});
// at least $k refinements: none of the earlier ones met the tolerance and this one does
macro_rules! refined { ($($n:literal: $k:literal),*) => { $( ob!("C28", concat!("ecef_to_geocentric_", $n), (x: f64, y: f64, z: f64) -> [f64; 3], {
    let rho2 = x * x + y * y;
    let mut d = E2 * z;
    for _ in 1..$k { let e = refine(rho2, z, d).1; assume(!((d - e).abs() < f64::EPSILON * 100.0)); d = e; }
    assume((d - refine(rho2, z, d).1).abs() < f64::EPSILON * 100.0);
    ecef_to_geocentric(x, y, z).data
} == {
    let rho2 = x * x + y * y;
    let mut d = E2 * z;
    for _ in 1..$k { d = refine(rho2, z, d).1; }
    let n = refine(rho2, z, d).0;
    [(z + d).atan2(rho2.sqrt()), y.atan2(x), (rho2 + (z + d) * (z + d)).sqrt() - n]
}); )* } }
refined!("two": 2, "three": 3, "five": 5, "eight": 8, "twelve": 12);
ob!("C28", "earth_to_geodetic", (r: f64) -> [f64; 3], { assume(r > 1.0); Earth::new().ecef_to_geocentric(r, 0.0, 0.0).data } == { [0.0_f64.atan2(r), 0.0_f64.atan2(r), r - A] });
ob!("C28", "normal_gravity", (lat: f64) -> f64, { gravity_normal(lat) } == { let s = lat.sin(); 9.7803253359 * (1.0 + 1.931852652458e-3 * s * s) / (1.0 - E2 * s * s).sqrt() });
ob!("C28", "normal_gravity_poles", (h: bool) -> f64, { gravity_normal(if h { PI / 2.0 } else { -PI / 2.0 }) } == { 9.8321849379 });
fn ellipsoidal(x: f64, y: f64, z: f64) -> (f64, f64, f64) {
    let t = x * x + y * y + z * z - EE * EE;
    let u = (0.5 * t * (1.0 + (1.0 + 4.0 * EE * EE * z * z / (t * t)).sqrt())).sqrt();
    let be = (z * (u * u + EE * EE).sqrt() / (u * (x * x + y * y).sqrt())).atan();
    (u, be, ((u * u + EE * EE * be.sin() * be.sin()) / (u * u + EE * EE)).sqrt())
}
fn gamma(x: f64, y: f64, z: f64) -> [f64; 2] {
    let (u, be, w) = ellipsoidal(x, y, z);
    let v2 = u * u + EE * EE;
    let q = 0.5 * ((1.0 + 3.0 * u * u / (EE * EE)) * (EE / u).atan() - 3.0 * u / EE);
    let q0 = 0.5 * ((1.0 + 3.0 * B * B / (EE * EE)) * (EE / B).atan() - 3.0 * B / EE);
    let qp = 3.0 * (1.0 + u * u / (EE * EE)) * (1.0 - u / EE * (EE / u).atan()) - 1.0;
    let (s, k) = (be.sin(), be.cos());
    [
        -1.0 / w * (GM / v2 + W * W * A * A * EE / v2 * (qp / q0) * (0.5 * s * s - 1.0 / 6.0)) + W * W * u * k * k / w,
        W * W * A * A / v2.sqrt() * (q / q0) * s * k / w - W * W * v2.sqrt() * s * k / w,
    ]
}
ob!("C28", "gravity_radial", (x: f64, y: f64, z: f64) -> f64, { gravity_ellipsoidal(x, y, z)[0] } == { gamma(x, y, z)[0] });
ob!("C28", "gravity_meridional", (x: f64, y: f64, z: f64) -> f64, { gravity_ellipsoidal(x, y, z)[1] } == { gamma(x, y, z)[1] });
ob!("C28", "gravity_azimuthal", (x: f64, y: f64, z: f64) -> f64, { gravity_ellipsoidal(x, y, z)[2] } == { 0.0 });
ob!("C28", "gravity_rectangular", (x: f64, y: f64, z: f64) -> [f64; 3], { a3(gravity_rectangular(x, y, z)) } == {
    let (u, be, w) = ellipsoidal(x, y, z);
    let g = gravity_ellipsoidal(x, y, z);
    let l = y.atan2(x);
    let low = u / (w * (u * u + EE * EE).sqrt()) * be.cos();
    let (s, k) = (l.sin(), l.cos());
    let sb = be.sin() / w;
    [low * k * g[0] - sb * k * g[1], low * s * g[0] - sb * s * g[1], sb * g[0] + low * g[1]]
});
ob!("C28", "wgs84_constants", () -> [f64; 12], { [w84::a, w84::GM, w84::w, w84::b, w84::e2, w84::E, w84::g_e, w84::g_p, w84::k, w84::c, w84::G, w84::f] } == { [A, GM, W, B, E2, EE, 9.7803253359, 9.8321849379, 1.931852652458e-3, 299792458.0, 6.67428e-11, 3.3528106647475e-3] });
ob!("C28", "wgs84_relations", () -> [f64; 8], { [w84::b, w84::e2, w84::e * w84::e, w84::AR, w84::E, w84::R_p, w84::e_prime_squared, 1.0 + w84::k] } == { let (a, f) = (w84::a, w84::f); [a * (1.0 - f), 2.0 * f - f * f, 2.0 * f - f * f, 1.0 - f, a * w84::e, a / (1.0 - f), w84::e2 / (1.0 - w84::e2), w84::b * w84::g_p / (a * w84::g_e)] });
ob!("C28", "wgs84_more", () -> [f64; 6], { [w84::R_1, w84::m, w84::g_mean, w84::U_0, w84::e_prime, w84::J2geo] } == { [(2.0 * A + B) / 3.0, W * W * A * A * B / GM, 9.7976432223, 6.26368517146e7, w84::e_prime_squared.sqrt(), 1.082629821313e-3] });
