#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_catalogs::star_catalogs::color::gaia_color::*;
use aether_catalogs::star_catalogs::*;
use prelude::*;
const RAD: f64 = core::f64::consts::PI / 180.0;
fn star(ra: f64, de: f64, pm: Option<(f32, f32)>, plx: Option<f32>) -> GncRecord {
    GncRecord {
        gnc_id: 1, hip_id: None, gaiadr3_id: None, ra_2016: ra, de_2016: de, e_ra_2016: 0.0, e_de_2016: 0.0, pmra: pm.map(|p| p.0), pmde: pm.map(|p| p.1),
        e_pmra: None, e_pmde: None, plx, e_plx: None, cat_2016: None, gmag: None, e_gmag: None, bpmag: None, e_bpmag: None, rpmag: None, e_rpmag: None,
        jmag: None, e_jmag: None, hmag: None, e_hmag: None, kmag: None, e_kmag: None, flag_var: None, flag_mult: None, neighbor_id: 0, neighbor_distance_arcsec: 0.0,
        shift_arsec: None, flag_shift: None, flag_pos: None, flag_pm: None, flag_neighbor: None,
    }
}
fn dir(a: f64, d: f64) -> [f64; 3] { [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()] }
ob!("C31", "direction_at_catalog_epoch", (a: f64, d: f64) -> [f64; 4], { let s = star(a, d, None, None).icrs_sample(2016.0); let p = s.icrs_position_au; [p[0], p[1], p[2], s.epoch] } == { let u = dir(a * RAD, d * RAD); [u[0], u[1], u[2], 2016.0] });
ob!("C31", "direction_moves", (a: f64, d: f64, pa: f32, pd: f32, t: f64) -> [f64; 3], { star(a, d, Some((pa, pd)), None).icrs_sample(t).icrs_position_au } == {
    let dt = t - 2016.0;
    dir((a + pa as f64 * dt / 3600000.0 / (d * RAD).cos()) * RAD, (d + pd as f64 * dt / 3600000.0) * RAD)
});
ob!("C31", "distance", (a: f64, d: f64, plx: f32) -> [f64; 3], { assume(plx > 0.0); star(a, d, None, Some(plx)).icrs_sample(2016.0).icrs_position_au } == {
    let r = 206264.806 * 1000.0 / plx as f64;
    let u = dir(a * RAD, d * RAD);
    [r * u[0], r * u[1], r * u[2]]
});
ob!("C31", "no_parallax", (a: f64, d: f64, plx: f32, pa: f32, pd: f32) -> ([f64; 3], [f64; 3]), { assume(!(plx > 0.0)); let s = star(a, d, Some((pa, pd)), Some(plx)).icrs_sample(2016.0); (s.icrs_position_au, s.icrs_velocity_au_per_yr) } == { (dir(a * RAD, d * RAD), [0.0; 3]) });
/// the derivative of the position at the catalogue epoch
ob!("C31", "velocity", (a: f64, d: f64, plx: f32, pa: f32, pd: f32) -> [f64; 3], { assume(plx > 0.0); star(a, d, Some((pa, pd)), Some(plx)).icrs_sample(2016.0).icrs_velocity_au_per_yr } == {
    let (a, d, k) = (a * RAD, d * RAD, 1.0 / plx as f64);
    let (pa, pd) = (k * pa as f64, k * pd as f64);
    [-pa * a.sin() - pd * d.sin() * a.cos(), pa * a.cos() - pd * d.sin() * a.sin(), pd * d.cos()]
});
ob!("C31", "velocity_tangent", (a: f64, d: f64, plx: f32, pa: f32, pd: f32, t: f64) -> (f64, f64), {
    assume(plx > 0.0);
    let s = star(a, d, Some((pa, pd)), Some(plx)).icrs_sample(t);
    let (x, v) = (s.icrs_position_au, s.icrs_velocity_au_per_yr);
    (x[0] * v[0] + x[1] * v[1] + x[2] * v[2], v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
} == { let (k, pa, pd) = (plx as f64, pa as f64, pd as f64); (0.0, (pa * pa + pd * pd) / (k * k)) });
ob!("C31", "no_motion_no_velocity", (a: f64, d: f64, plx: f32, t: f64) -> [f64; 3], { star(a, d, None, Some(plx)).icrs_sample(t).icrs_velocity_au_per_yr } == { [0.0; 3] });
fn uncertain(era: f32, ede: f32, p: Option<(f32, f32)>, cat: Option<&str>, t: f64) -> (f64, f64) {
    let mut s = star(0.0, 0.0, None, None);
    s.e_ra_2016 = era;
    s.e_de_2016 = ede;
    s.e_pmra = p.map(|x| x.0);
    s.e_pmde = p.map(|x| x.1);
    s.cat_2016 = cat.map(|c| c.to_string());
    let r = s.icrs_sample(t);
    (r.uncertainty_ra_mas, r.uncertainty_dec_mas)
}
fn grown(e: f32, p: f32, k: f64) -> f64 { let (e, p) = (e as f64, p as f64); (e * e + p * p * k).sqrt() }
ob!("C31", "uncertainty_gaia", (a: f32, b: f32, p: f32, q: f32, t: f64) -> (f64, f64), { uncertain(a, b, Some((p, q)), Some("GAIADR3"), t) } == { let k = (t - 2016.0) * (t - 2016.0); (grown(a, p, k), grown(b, q, k)) });
ob!("C31", "uncertainty_hipparcos", (a: f32, b: f32, p: f32, q: f32, t: f64) -> (f64, f64), { uncertain(a, b, Some((p, q)), Some("HIPPARCOS"), t) } == { let k = (t - 1991.25) * (t - 1991.25) - 24.75 * 24.75; (grown(a, p, k), grown(b, q, k)) });
ob!("C31", "uncertainty_unnamed", (a: f32, b: f32, p: f32, q: f32, t: f64) -> (f64, f64), { uncertain(a, b, Some((p, q)), None, t) } == { uncertain(a, b, Some((p, q)), Some("HIPPARCOS"), t) });
ob!("C31", "uncertainty_fixed", (a: f32, b: f32, t: f64) -> (f64, f64), { uncertain(a, b, None, Some("GAIADR3"), t) } == { ((a as f64).abs(), (b as f64).abs()) });

// colours
const KNOTS: [(f32, f32); 9] = [(-0.2, 15000.0), (0.0, 10000.0), (0.3, 8000.0), (0.65, 5800.0), (1.0, 5000.0), (1.5, 4000.0), (2.0, 3500.0), (2.5, 3200.0), (3.0, 3000.0)];
macro_rules! knot {
    ($n:literal, $i:literal) => {
        ob!("C31", concat!("temperature_", $n), (x: f32) -> f64, { assume(x > KNOTS[$i].0 && x <= KNOTS[$i + 1].0); bp_rp_to_teff(x) as f64 } == {
            let ((a, p), (b, q)) = (KNOTS[$i], KNOTS[$i + 1]);
            (p + (x - a) / (b - a) * (q - p)) as f64
        });
    };
}
knot!("0", 0);
knot!("1", 1);
knot!("2", 2);
knot!("3", 3);
knot!("4", 4);
knot!("5", 5);
knot!("6", 6);
knot!("7", 7);
ob!("C31", "temperature_outside", (x: f32) -> f64, { assume(x <= -0.2 || x >= 3.0); bp_rp_to_teff(x) as f64 } == { if x >= 3.0 { 3000.0 } else { 15000.0 } });
ob!("C31", "srgb_to_linear", (x: f32, y: f32, z: f32) -> [f64; 3], { let c = srgb_to_linear([x, y, z]); [c[0] as f64, c[1] as f64, c[2] as f64] } == {
    let f = |u: f32| (if u <= 0.04045 { u / 12.92 } else { ((u + 0.055) / 1.055).powf(2.4) }) as f64;
    [f(x), f(y), f(z)]
});
ob!("C31", "photometry", (b: f32, r: f32, g: f32, hb: bool, hr: bool, hg: bool) -> (bool, f64, f64, f64), {
    let mut s = star(0.0, 0.0, None, None);
    if hb { s.bpmag = Some(b); } if hr { s.rpmag = Some(r); } if hg { s.gmag = Some(g); }
    match s.photometric_color() { Some(c) => (true, c.gmag as f64, c.bpmag as f64, c.rpmag as f64), None => (false, 0.0, 0.0, 0.0) }
} == { if hb && hr && hg { (true, g as f64, b as f64, r as f64) } else { (false, 0.0, 0.0, 0.0) } });
ob!("C31", "infrared", (j: f32, h: f32, k: f32) -> [f64; 6], {
    let mut s = star(0.0, 0.0, None, None);
    s.jmag = Some(j); s.hmag = Some(h); s.kmag = Some(k);
    match s.photometric_infrared_rgb() { Some(GncCatalogInfraredColor::From2Mass { rgb, j, h, k }) => [rgb[0] as f64, rgb[1] as f64, rgb[2] as f64, j as f64, h as f64, k as f64], _ => [-1.0; 6] }
} == { let f = |m: f32| (if m < 8.0 { 1.0 } else if m > 16.0 { 0.0 } else { 1.0 - (m - 8.0) / 8.0 }) as f64; [f(k), f(h), f(j), j as f64, h as f64, k as f64] });
ob!("C31", "infrared_missing", (h: f32, k: f32) -> bool, { let mut s = star(0.0, 0.0, None, None); s.hmag = Some(h); s.kmag = Some(k); matches!(s.photometric_infrared_rgb(), Some(GncCatalogInfraredColor::Missing)) } == { true });

/// colour of a black body: full red below 6600 K, full blue above, the published logarithmic and power laws clamped to [0, 1] between
fn unit(x: f32) -> f32 { if x < 0.0 { 0.0 } else if x > 1.0 { 1.0 } else { x } }
ob!("C31", "blackbody_warm", (t: f32) -> [f64; 3], { assume(t >= 1000.0 && t <= 6600.0); let c = blackbody_to_rgb(t); [c[0] as f64, c[1] as f64, c[2] as f64] } == {
    let k = t / 100.0;
    [1.0, unit((99.4708025861 * k.ln() - 161.1195681661) / 255.0) as f64, if k >= 66.0 { 1.0 } else if k <= 19.0 { 0.0 } else { unit((138.5177312231 * (k - 10.0).ln() - 305.0447927307) / 255.0) as f64 }]
});
ob!("C31", "blackbody_hot", (t: f32) -> [f64; 3], { assume(t > 6600.0 && t <= 40000.0); let c = blackbody_to_rgb(t); [c[0] as f64, c[1] as f64, c[2] as f64] } == {
    let k = t / 100.0;
    [unit(329.698727446 * (k - 60.0).powf(-0.1332047592) / 255.0) as f64, unit(288.1221695283 * (k - 60.0).powf(-0.0755148492) / 255.0) as f64, 1.0]
});
ob!("C31", "colour_saturation", (x: f32) -> [f64; 3], { let c = bp_rp_to_rgb(x, false); [c[0] as f64, c[1] as f64, c[2] as f64] } == {
    let c = blackbody_to_rgb(bp_rp_to_teff(x));
    let m = (c[0] + c[1] + c[2]) / 3.0;
    let f = |v: f32| unit(m + (v - m) * 1.15) as f64;
    [f(c[0]), f(c[1]), f(c[2])]
});
ob!("C31", "colour_linear", (x: f32) -> [f64; 3], { let c = bp_rp_to_rgb(x, true); [c[0] as f64, c[1] as f64, c[2] as f64] } == { let c = srgb_to_linear(bp_rp_to_rgb(x, false)); [c[0] as f64, c[1] as f64, c[2] as f64] });
ob!("C31", "blackbody_cold", (t: f32) -> [f64; 3], { assume(t < 1000.0); let c = blackbody_to_rgb(t); [c[0] as f64, c[1] as f64, c[2] as f64] } == { let c = blackbody_to_rgb(1000.0); [c[0] as f64, c[1] as f64, c[2] as f64] });
ob!("C31", "blackbody_hotter", (t: f32) -> [f64; 3], { assume(t > 40000.0); let c = blackbody_to_rgb(t); [c[0] as f64, c[1] as f64, c[2] as f64] } == { let c = blackbody_to_rgb(40000.0); [c[0] as f64, c[1] as f64, c[2] as f64] });

/// only the name GAIADR3 in full selects the Gaia law: every name of up to 10 bytes
macro_rules! named {
    ($n:literal, $len:literal) => {
        ob!("C31", concat!("uncertainty_named_", $n), (w: [u8; $len], a: f32, b: f32, p: f32, q: f32, t: f64) -> (f64, f64), {
            let name = unsafe { core::str::from_utf8_unchecked(&w) };
            uncertain(a, b, Some((p, q)), Some(name), t)
        } == {
            let g = *b"GAIADR3";
            let mut same = w.len() == 7;
            let mut i = 0;
            while i < 7 && i < w.len() { same &= w[i] == g[i]; i += 1; }
            let k = if same { (t - 2016.0) * (t - 2016.0) } else { (t - 1991.25) * (t - 1991.25) - 24.75 * 24.75 };
            (grown(a, p, k), grown(b, q, k))
        });
    };
}
named!("1", 1);
named!("6", 6);
ob!("C31", "uncertainty_named_7", (x: [u8; 2], y: u8, z: [u8; 4], a: f32, p: f32, t: f64) -> (f64, f64), {
    let w = [x[0], x[1], y, z[0], z[1], z[2], z[3]];
    let name = unsafe { core::str::from_utf8_unchecked(&w) };
    uncertain(a, a, Some((p, p)), Some(name), t)
} == {
    let k = if x == *b"GA" && y == b'I' && z == *b"ADR3" { (t - 2016.0) * (t - 2016.0) } else { (t - 1991.25) * (t - 1991.25) - 24.75 * 24.75 };
    (grown(a, p, k), grown(a, p, k))
});
named!("8", 8);
named!("10", 10);
ob!("C31", "uncertainty_partial", (a: f32, b: f32, p: f32, hp: bool, hq: bool, t: f64) -> (f64, f64), {
    let mut s = star(0.0, 0.0, None, None);
    s.e_ra_2016 = a; s.e_de_2016 = b; s.cat_2016 = Some("GAIADR3".to_string());
    if hp { s.e_pmra = Some(p); } if hq { s.e_pmde = Some(p); }
    let r = s.icrs_sample(t);
    (r.uncertainty_ra_mas, r.uncertainty_dec_mas)
} == { let k = (t - 2016.0) * (t - 2016.0); (grown(a, if hp { p } else { 0.0 }, k), grown(b, if hq { p } else { 0.0 }, k)) });
ob!("C31", "motion_partial", (d: f64, pa: f32, plx: f32, ha: bool, hd: bool) -> ([f64; 3], [f64; 3]), {
    assume(plx > 0.0 && !(ha && hd));
    let mut s = star(10.0, d, None, Some(plx));
    if ha { s.pmra = Some(pa); } if hd { s.pmde = Some(pa); }
    let r = s.icrs_sample(2017.0);
    (r.icrs_position_au, r.icrs_velocity_au_per_yr)
} == {
    let m = pa as f64 / 3600000.0;
    let r = 206264.806 * 1000.0 / plx as f64;
    let u = dir(if ha { 10.0 + m / (d * RAD).cos() } else { 10.0 } * RAD, (if hd { d + m } else { d }) * RAD);
    ([r * u[0], r * u[1], r * u[2]], [0.0; 3])
});
/// the colour of a star follows from its B-R index, whatever the index
ob!("C31", "photometry_colour", (b: f32, r: f32, g: f32) -> [f64; 3], {
    let mut s = star(0.0, 0.0, None, None);
    s.bpmag = Some(b); s.rpmag = Some(r); s.gmag = Some(g);
    match s.photometric_color() { Some(c) => [c.rgb[0] as f64, c.rgb[1] as f64, c.rgb[2] as f64], None => [-1.0; 3] }
} == { let c = srgb_to_linear(bp_rp_to_rgb(b - r, false)); [c[0] as f64, c[1] as f64, c[2] as f64] });
ob!("C31", "infrared_presence", (j: f32, h: f32, k: f32, hj: bool, hh: bool, hk: bool) -> [f64; 2], {
    let mut s = star(0.0, 0.0, None, None);
    if hj { s.jmag = Some(j); } if hh { s.hmag = Some(h); } if hk { s.kmag = Some(k); }
    match s.photometric_infrared_rgb() { Some(GncCatalogInfraredColor::From2Mass { .. }) => [1.0, 0.0], Some(GncCatalogInfraredColor::Missing) => [0.0, 1.0], None => [0.0; 2] }
} == { if hj && hh && hk { [1.0, 0.0] } else { [0.0, 1.0] } });
