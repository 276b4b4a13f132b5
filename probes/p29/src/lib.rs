#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
mod table;
use aether_catalogs::wmm::*;
use prelude::*;
use table::PUBLISHED;
const PI: f64 = core::f64::consts::PI;
const N: usize = 13;

// ------------------------------------------------------------------ C29 coefficients
/// position of (n, m) in the published list, which starts at degree 1
const fn at(n: usize, m: usize) -> usize { n * (n + 1) / 2 + m - 1 }
macro_rules! degree {
    ($n:literal, $l:literal) => {
        ob!("C29", concat!("coefficients_", $n), (y: f64) -> [f64; $l], {
            let c = WMM_2025.coefficients_at(y);
            let mut o = [0.0; $l];
            let mut m = 0;
            while m <= $n { o[4 * m] = c.g($n, m); o[4 * m + 1] = c.h($n, m); o[4 * m + 2] = c.g_dot($n, m); o[4 * m + 3] = c.h_dot($n, m); m += 1; }
            o
        } == {
            let mut o = [0.0; $l];
            let mut m = 0;
            while m <= $n { let (_, _, g, h, gd, hd) = PUBLISHED[at($n, m)]; o[4 * m] = g + (y - 2025.0) * gd; o[4 * m + 1] = h + (y - 2025.0) * hd; o[4 * m + 2] = gd; o[4 * m + 3] = hd; m += 1; }
            o
        });
        ob!("C29", concat!("records_", $n), () -> [f64; $l], {
            let m = WorldMagneticModel::embedded();
            let mut o = [0.0; $l];
            let mut k = 0;
            while k <= $n { let r = m.records()[at($n, k)]; let s = if r.degree == $n && r.order == k { 1.0 } else { f64::NAN }; o[4 * k] = s * r.g_nm_nt; o[4 * k + 1] = s * r.h_nm_nt; o[4 * k + 2] = s * r.g_dot_nm_nt_per_year; o[4 * k + 3] = s * r.h_dot_nm_nt_per_year; k += 1; }
            o
        } == {
            let mut o = [0.0; $l];
            let mut k = 0;
            while k <= $n { let (_, _, g, h, gd, hd) = PUBLISHED[at($n, k)]; o[4 * k] = g; o[4 * k + 1] = h; o[4 * k + 2] = gd; o[4 * k + 3] = hd; k += 1; }
            o
        });
    };
}
degree!(1, 8);
degree!(2, 12);
degree!(3, 16);
degree!(4, 20);
degree!(5, 24);
degree!(6, 28);
degree!(7, 32);
degree!(8, 36);
degree!(9, 40);
degree!(10, 44);
degree!(11, 48);
degree!(12, 52);
ob!("C29", "monopole", (y: f64) -> [f64; 4], { let c = WMM_2025.coefficients_at(y); [c.g(0, 0), c.h(0, 0), c.g_dot(0, 0), c.h_dot(0, 0)] } == { [0.0; 4] });
ob!("C29", "outside", (y: f64, n: usize, m: usize) -> [f64; 4], { assume(n > 12 || m > n); let c = WMM_2025.coefficients_at(y); [c.g(n, m), c.h(n, m), c.g_dot(n, m), c.h_dot(n, m)] } == { [0.0; 4] });
ob!("C29", "constants", (y: f64) -> [f64; 6], { let c = WMM_2025.coefficients_at(y); [WMM_2025.header.epoch, WMM_2025.max_degree as f64, c.decimal_year, c.max_degree as f64, wmm_reference_radius_m(), wgs84_mean_radius_m()] } == { [2025.0, 12.0, y, 12.0, 6371200.0, 6378137.0 * (1.0 - 1.0 / 298.257223563 / 3.0)] });

// ------------------------------------------------------------------ C30 evaluation
const A: f64 = 6378137.0;
const F: f64 = 1.0 / 298.257223563;
fn truncated(n: usize) -> WorldMagneticModel { let mut m = WMM_2025; m.max_degree = n; m }
const fn fact(n: usize) -> f64 { let mut r = 1.0; let mut i = 2; while i <= n { r *= i as f64; i += 1; } r }
/// Gauss' closed form of the m-th derivative of the Legendre polynomial of degree n
fn dlegendre(n: usize, m: usize, s: f64) -> f64 {
    let mut v = 0.0;
    let mut k = 0;
    while 2 * k + m <= n {
        let c = fact(2 * n - 2 * k) / (fact(k) * fact(n - k) * fact(n - m - 2 * k)) / (1u64 << n) as f64;
        let mut t = if k % 2 == 0 { c } else { -c };
        let mut i = 0;
        while i < n - m - 2 * k { t = t * s; i += 1; }
        v = v + t;
        k += 1;
    }
    v
}
fn schmidt(n: usize, m: usize) -> f64 { if m == 0 { 1.0 } else { (2.0 * fact(n - m) / fact(n + m)).sqrt() } }
fn pw(c: f64, m: usize) -> f64 { let mut r = 1.0; let mut i = 0; while i < m { r = r * c; i += 1; } r }
/// field of the published coefficients at geocentric radius r, latitude (s, c) and longitude l: north, east, down of the sphere, and their yearly change
fn sphere(d: usize, dy: f64, r: f64, s: f64, c: f64, l: f64) -> [f64; 6] {
    let mut o = [0.0; 6];
    let mut n = 1;
    while n <= d {
        let q = pw(6371200.0 / r, n + 2);
        let mut m = 0;
        let (mut cm, mut sm) = (1.0, 0.0);
        while m <= n {
            let (_, _, g0, h0, gd, hd) = PUBLISHED[at(n, m)];
            let (g, h) = (g0 + dy * gd, h0 + dy * hd);
            let k = schmidt(n, m);
            // P = k c^m D, dP/dphi = k (c^(m+1) D' - m s c^(m-1) D)
            let dn = dlegendre(n, m, s);
            let p_over_c = if m == 0 { 0.0 } else { k * pw(c, m - 1) * dn };
            let p = k * pw(c, m) * dn;
            let dp = k * pw(c, m + 1) * dlegendre(n, m + 1, s) - m as f64 * s * p_over_c;
            o[0] -= q * (g * cm + h * sm) * dp;
            o[1] += q * m as f64 * (g * sm - h * cm) * p_over_c;
            o[2] -= q * (n as f64 + 1.0) * (g * cm + h * sm) * p;
            o[3] -= q * (gd * cm + hd * sm) * dp;
            o[4] += q * m as f64 * (gd * sm - hd * cm) * p_over_c;
            o[5] -= q * (n as f64 + 1.0) * (gd * cm + hd * sm) * p;
            // (cos + i sin)(m l)
            (cm, sm) = (cm * l.cos() - sm * l.sin(), sm * l.cos() + cm * l.sin());
            m += 1;
        }
        n += 1;
    }
    o
}
fn field(r: &MagneticElements) -> [f64; 6] { let (b, v) = (&r.field_ned_nt, &r.secular_variation_ned_nt_per_year); [b.x(), b.y(), b.z(), v.x(), v.y(), v.z()] }
macro_rules! equator {
    ($n:literal) => {
        ob!("C30", concat!("equator_", $n), (y: f64, l: f64, h: f64) -> [f64; 6], {
            assume(h > -6.0e6);
            match truncated($n).evaluate(y, GeodeticPoint::new(0.0, l, h)) { Ok(r) => field(&r), Err(_) => [0.0; 6] }
        } == {
            let o = sphere($n, y - 2025.0, A + h, 0.0, 1.0, l);
            if $n > 3 { return if truncated($n).evaluate(y, GeodeticPoint::new(0.0, l, h)).is_ok() { o } else { [0.0; 6] }; }
            if (o[0] * o[0] + o[1] * o[1]).sqrt() == 0.0 { [0.0; 6] } else { o }
        });
    };
}
equator!(1);
equator!(2);
equator!(3);
equator!(12);

macro_rules! anywhere {
    ($n:literal) => {
        ob!("C30", concat!("anywhere_", $n), (y: f64, p: f64, l: f64, h: f64) -> [f64; 6], {
            match truncated($n).evaluate(y, GeodeticPoint::new(p, l, h)) { Ok(r) => field(&r), Err(_) => [0.0; 6] }
        } == {
            let e2 = F * (2.0 - F);
            let (sl, cl) = (p.sin(), p.cos());
            let n = A / (1.0 - e2 * sl * sl).sqrt();
            let (rho, z) = ((n + h) * cl, (n * (1.0 - e2) + h) * sl);
            let r = (rho * rho + z * z).sqrt();
            let f = (z / r).asin();
            let (s, c) = (f.sin(), f.cos());
            if c.abs() <= 1.0e-12 { return [0.0; 6]; }
            let o = sphere($n, y - 2025.0, r, s, c, l);
            let t = f - p;
            let (st, ct) = (t.sin(), t.cos());
            let b = [o[0] * ct - o[2] * st, o[1], o[0] * st + o[2] * ct, o[3] * ct - o[5] * st, o[4], o[3] * st + o[5] * ct];
            if truncated($n).evaluate(y, GeodeticPoint::new(p, l, h)).is_ok() { b } else { [0.0; 6] }
        });
    };
}
anywhere!(1);
anywhere!(2);
anywhere!(3);
anywhere!(12);

type R = Result<MagneticElements, WmmError>;
fn run(n: usize, y: f64, p: f64, l: f64, h: f64) -> R { truncated(n).evaluate(y, GeodeticPoint::new(p, l, h)) }
ob!("C30", "pole_guard", (y: f64, p: f64, l: f64, h: f64) -> (u8, f64), {
    match run(1, y, p, l, h) { Err(WmmError::PoleSingularity { latitude_rad }) => (1, latitude_rad), _ => (0, 0.0) }
} == {
    let e2 = F * (2.0 - F);
    let n = A / (1.0 - e2 * p.sin() * p.sin()).sqrt();
    let (rho, z) = ((n + h) * p.cos(), (n * (1.0 - e2) + h) * p.sin());
    let f = (z / (rho * rho + z * z).sqrt()).asin();
    if f.cos().abs() <= 1.0e-12 { (1, f) } else { (0, 0.0) }
});
ob!("C30", "no_horizontal_field", (y: f64, p: f64, l: f64, h: f64) -> u8, {
    // without terms there is no field
    match run(0, y, p, l, h) { Err(WmmError::PoleSingularity { .. }) => 1, Err(WmmError::UndefinedHorizontalField) => 2, Ok(_) => 0 }
} == { match run(1, y, p, l, h) { Err(WmmError::PoleSingularity { .. }) => 1, _ => 2 } });
ob!("C30", "echo", (y: f64, p: f64, l: f64, h: f64) -> [f64; 7], {
    match run(1, y, p, l, h) { Ok(r) => [r.decimal_year, r.geodetic.latitude_rad, r.geodetic.longitude_rad, r.geodetic.height_m, r.geocentric.radius_m, r.geocentric.latitude_rad, r.geocentric.longitude_rad], Err(_) => [0.0; 7] }
} == {
    let e2 = F * (2.0 - F);
    let n = A / (1.0 - e2 * p.sin() * p.sin()).sqrt();
    let (rho, z) = ((n + h) * p.cos(), (n * (1.0 - e2) + h) * p.sin());
    let r = (rho * rho + z * z).sqrt();
    if run(1, y, p, l, h).is_ok() { [y, p, l, h, r, (z / r).asin(), l] } else { [0.0; 7] }
});
ob!("C30", "elements", (y: f64, p: f64, l: f64, h: f64) -> [f64; 4], {
    match run(1, y, p, l, h) { Ok(r) => [r.horizontal_intensity_nt, r.total_intensity_nt, r.declination_rad, r.inclination_rad], Err(_) => [0.0; 4] }
} == {
    match run(1, y, p, l, h) { Ok(r) => { let [x, y, z, ..] = field(&r); let h = (x * x + y * y).sqrt(); [h, (h * h + z * z).sqrt(), y.atan2(x), z.atan2(h)] } Err(_) => [0.0; 4] }
});
ob!("C30", "rates", (y: f64, p: f64, l: f64, h: f64) -> [f64; 4], {
    match run(1, y, p, l, h) { Ok(r) => [r.horizontal_intensity_rate_nt_per_year, r.total_intensity_rate_nt_per_year, r.declination_rate_rad_per_year, r.inclination_rate_rad_per_year], Err(_) => [0.0; 4] }
} == {
    match run(1, y, p, l, h) {
        Ok(r) => {
            let [x, y, z, u, v, w] = field(&r);
            let (h, f) = (r.horizontal_intensity_nt, r.total_intensity_nt);
            let hd = (x * u + y * v) / h;
            [hd, (x * u + y * v + z * w) / f, (x * v - y * u) / (h * h), (h * w - z * hd) / (f * f)]
        }
        Err(_) => [0.0; 4],
    }
});
ob!("C30", "grid_variation", (y: f64, p: f64, l: f64, h: f64) -> f64, {
    match run(1, y, p, l, h) { Ok(r) => r.grid_variation_rad, Err(_) => 0.0 }
} == {
    match run(1, y, p, l, h) { Ok(r) => { let t = 55.0_f64.to_radians(); if p > t { r.declination_rad - l } else if p < -t { r.declination_rad + l } else { r.declination_rad } } Err(_) => 0.0 }
});
ob!("C30", "two_steps", (y: f64, p: f64, l: f64, h: f64) -> [f64; 6], {
    let m = truncated(1);
    match m.evaluate_with_coefficients(&m.coefficients_at(y), GeodeticPoint::new(p, l, h)) { Ok(r) => field(&r), Err(_) => [0.0; 6] }
} == { match run(1, y, p, l, h) { Ok(r) => field(&r), Err(_) => [0.0; 6] } });
ob!("C30", "degrees", (p: f64, l: f64, h: f64) -> [f64; 3], { let g = GeodeticPoint::from_degrees(p, l, h); [g.latitude_rad, g.longitude_rad, g.height_m] } == { [p * (PI / 180.0), l * (PI / 180.0), h] });
only!("C30", "total", "nopanic", (y: f64, p: f64, l: f64, h: f64) -> bool, { run(12, y, p, l, h).is_ok() });
only!("C30", "total_above_range", "nopanic", (y: f64, p: f64, l: f64, h: f64) -> bool, { run(14, y, p, l, h).is_ok() });
