#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Body, ICRF};
use prelude::*;

macro_rules! both {
    ($t:ty, $c2s:literal, $c2y:literal, $s2c:literal, $y2c:literal, $s2y:literal, $y2s:literal, $rt1:literal, $rt2:literal, $rt3:literal, $rt4:literal, $rt5:literal, $rt6:literal) => {
        ob!("C05", $c2s, (p: &[$t; 3]) -> [f64; 3], {
            let c = Cartesian::<$t, ICRF<$t>>::new(p[0], p[1], p[2]);
            let s = Spherical::from(&c);
            [s.r() as f64, s.phi() as f64, s.theta() as f64]
        } == {
            let [x, y, z] = *p;
            let q = x * x + y * y + z * z;
            let r = q.sqrt();
            [r as f64, y.atan2(x) as f64, if q == 0.0 { 0.0 } else { (z / r).acos() as f64 }]
        });
        ob!("C05", $c2y, (p: &[$t; 3]) -> [f64; 3], {
            let c = Cartesian::<$t, ICRF<$t>>::new(p[0], p[1], p[2]);
            let s = Cylindrical::from(&c);
            [s.r() as f64, s.theta() as f64, s.z() as f64]
        } == {
            let [x, y, z] = *p;
            [(x * x + y * y).sqrt() as f64, y.atan2(x) as f64, z as f64]
        });
        ob!("C05", $s2c, (p: &[$t; 3]) -> [f64; 3], {
            let s = Spherical::new(p[0], p[1], p[2]);
            let c = Cartesian::<$t, ICRF<$t>>::from(&s);
            [c.x() as f64, c.y() as f64, c.z() as f64]
        } == {
            let [r, az, inc] = *p;
            [(r * inc.sin() * az.cos()) as f64, (r * inc.sin() * az.sin()) as f64, (r * inc.cos()) as f64]
        });
        ob!("C05", $y2c, (p: &[$t; 3]) -> [f64; 3], {
            let s = Cylindrical::new(p[0], p[1], p[2]);
            let c = Cartesian::<$t, ICRF<$t>>::from(&s);
            [c.x() as f64, c.y() as f64, c.z() as f64]
        } == {
            let [r, az, z] = *p;
            [(r * az.cos()) as f64, (r * az.sin()) as f64, z as f64]
        });
        ob!("C05", $s2y, (p: &[$t; 3]) -> [f64; 3], {
            let s = Cylindrical::from(&Spherical::new(p[0], p[1], p[2]));
            [s.r() as f64, s.theta() as f64, s.z() as f64]
        } == {
            let [r, az, inc] = *p;
            [(r * inc.sin()) as f64, az as f64, (r * inc.cos()) as f64]
        });
        ob!("C05", $y2s, (p: &[$t; 3]) -> [f64; 3], {
            let s = Spherical::from(&Cylindrical::new(p[0], p[1], p[2]));
            [s.r() as f64, s.phi() as f64, s.theta() as f64]
        } == {
            let [r, az, z] = *p;
            let q = r * r + z * z;
            [q.sqrt() as f64, az as f64, if q == 0.0 { 0.0 } else { (z / q.sqrt()).acos() as f64 }]
        });
        // ---- laws: converting there and back is the identity
        ob!("C05", $rt1, (p: &[$t; 3]) -> [f64; 3], {
            let c = Cartesian::<$t, ICRF<$t>>::new(p[0], p[1], p[2]);
            let b = Cartesian::<$t, ICRF<$t>>::from(&Spherical::from(&c));
            assume(p[0] * p[0] + p[1] * p[1] != 0.0);
            [b.x() as f64, b.y() as f64, b.z() as f64]
        } == { [p[0] as f64, p[1] as f64, p[2] as f64] });
        ob!("C05", $rt2, (p: &[$t; 3]) -> [f64; 3], {
            let c = Cartesian::<$t, ICRF<$t>>::new(p[0], p[1], p[2]);
            let b = Cartesian::<$t, ICRF<$t>>::from(&Cylindrical::from(&c));
            assume(p[0] * p[0] + p[1] * p[1] != 0.0);
            [b.x() as f64, b.y() as f64, b.z() as f64]
        } == { [p[0] as f64, p[1] as f64, p[2] as f64] });
        // via the third system is the same as directly
        ob!("C05", $rt3, (p: &[$t; 3]) -> [f64; 3], {
            let b = Cartesian::<$t, ICRF<$t>>::from(&Cylindrical::from(&Spherical::new(p[0], p[1], p[2])));
            [b.x() as f64, b.y() as f64, b.z() as f64]
        } == {
            let b = Cartesian::<$t, ICRF<$t>>::from(&Spherical::new(p[0], p[1], p[2]));
            [b.x() as f64, b.y() as f64, b.z() as f64]
        });
        ob!("C05", $rt4, (p: &[$t; 3]) -> [f64; 3], {
            let c = Cartesian::<$t, ICRF<$t>>::new(p[0], p[1], p[2]);
            assume(p[0] * p[0] + p[1] * p[1] != 0.0);
            let s = Spherical::from(&Cylindrical::from(&c));
            [s.r() as f64, s.phi() as f64, s.theta() as f64]
        } == {
            let c = Cartesian::<$t, ICRF<$t>>::new(p[0], p[1], p[2]);
            let s = Spherical::from(&c);
            [s.r() as f64, s.phi() as f64, s.theta() as f64]
        });
        ob!("C05", $rt5, (p: &[$t; 3]) -> [f64; 3], {
            assume(p[0] > 0.0);
            let c = Cartesian::<$t, ICRF<$t>>::from(&Spherical::from(&Cylindrical::new(p[0], p[1], p[2])));
            [c.x() as f64, c.y() as f64, c.z() as f64]
        } == {
            let c = Cartesian::<$t, ICRF<$t>>::from(&Cylindrical::new(p[0], p[1], p[2]));
            [c.x() as f64, c.y() as f64, c.z() as f64]
        });
        ob!("C05", $rt6, (p: &[$t; 3]) -> [f64; 3], {
            // the origin has a defined image
            let s = Spherical::from(&Cartesian::<$t, ICRF<$t>>::new(0.0, 0.0, 0.0));
            let y = Spherical::from(&Cylindrical::new(0.0 as $t, p[1], 0.0));
            [s.r() as f64, s.theta() as f64, y.theta() as f64]
        } == { [0.0, 0.0, 0.0] });
    };
}
both!(f64, "cart_to_sph", "cart_to_cyl", "sph_to_cart", "cyl_to_cart", "sph_to_cyl", "cyl_to_sph", "round_sph", "round_cyl", "sph_cyl_cart", "cart_cyl_sph", "cyl_sph_cart", "origin");
both!(f32, "cart_to_sph_f32", "cart_to_cyl_f32", "sph_to_cart_f32", "cyl_to_cart_f32", "sph_to_cyl_f32", "cyl_to_sph_f32", "round_sph_f32", "round_cyl_f32", "sph_cyl_cart_f32", "cart_cyl_sph_f32", "cyl_sph_cart_f32", "origin_f32");

// ---- Cartesian arithmetic is componentwise in every ownership form
type C = Cartesian<f64, ICRF<f64>>;
fn c(a: &[f64; 3]) -> C {
    C::new(a[0], a[1], a[2])
}
fn z(a: &[f64; 3], b: &[f64; 3], f: impl Fn(f64, f64) -> f64) -> [f64; 3] {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])]
}
macro_rules! bin {
    ($n1:literal, $n2:literal, $n3:literal, $n4:literal, $op:tt) => {
        ob!("C05", $n1, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (c(a) $op c(b)).data.data } == { z(a, b, |x, y| x $op y) });
        ob!("C05", $n2, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (&c(a) $op &c(b)).data.data } == { z(a, b, |x, y| x $op y) });
        ob!("C05", $n3, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (&c(a) $op c(b)).data.data } == { z(a, b, |x, y| x $op y) });
        ob!("C05", $n4, (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { (c(a) $op &c(b)).data.data } == { z(a, b, |x, y| x $op y) });
    };
}
bin!("add_vv", "add_rr", "add_rv", "add_vr", +);
bin!("sub_vv", "sub_rr", "sub_rv", "sub_vr", -);
ob!("C05", "add_assign", (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { let mut x = c(a); x += c(b); x.data.data } == { z(a, b, |x, y| x + y) });
ob!("C05", "sub_assign", (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { let mut x = c(a); x -= c(b); x.data.data } == { z(a, b, |x, y| x - y) });
ob!("C05", "neg", (a: &[f64; 3]) -> [f64; 3], { (-c(a)).data.data } == { [-a[0], -a[1], -a[2]] });
ob!("C05", "neg_r", (a: &[f64; 3]) -> [f64; 3], { (-&c(a)).data.data } == { [-a[0], -a[1], -a[2]] });
ob!("C05", "scale", (a: &[f64; 3], k: f64) -> [f64; 3], { (c(a) * k).data.data } == { [a[0] * k, a[1] * k, a[2] * k] });
ob!("C05", "scale_r", (a: &[f64; 3], k: f64) -> [f64; 3], { (&c(a) * k).data.data } == { [a[0] * k, a[1] * k, a[2] * k] });
ob!("C05", "div", (a: &[f64; 3], k: f64) -> [f64; 3], { (c(a) / k).data.data } == { [a[0] / k, a[1] / k, a[2] / k] });
ob!("C05", "div_r", (a: &[f64; 3], k: f64) -> [f64; 3], { (&c(a) / k).data.data } == { [a[0] / k, a[1] / k, a[2] / k] });
ob!("C05", "mat", (m: &[[f64; 3]; 3], a: &[f64; 3]) -> [f64; 3], { (Matrix::new(*m) * c(a)).data.data } == { let mut o = [0.0; 3]; for i in 0..3 { for j in 0..3 { o[i] += m[i][j] * a[j]; } } o });
ob!("C05", "mat_r", (m: &[[f64; 3]; 3], a: &[f64; 3]) -> [f64; 3], { (Matrix::new(*m) * &c(a)).data.data } == { let mut o = [0.0; 3]; for i in 0..3 { for j in 0..3 { o[i] += m[i][j] * a[j]; } } o });
ob!("C05", "dot", (a: &[f64; 3], b: &[f64; 3]) -> f64, { c(a).dot(&c(b)) } == { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] });
ob!("C05", "cross", (a: &[f64; 3], b: &[f64; 3]) -> [f64; 3], { c(a).cross(&c(b)).data.data } == { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] });
ob!("C05", "norm", (a: &[f64; 3]) -> f64, { c(a).norm() } == { (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() });
ob!("C05", "magnitude", (a: &[f64; 3]) -> f64, { c(a).magnitude() } == { (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() });
ob!("C05", "normalize", (a: &[f64; 3]) -> [f64; 3], { let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]; assume(n != 0.0); c(a).normalize().data.data } == { let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt(); [a[0] / n, a[1] / n, a[2] / n] });
ob!("C05", "powi", (a: &[f64; 3]) -> [f64; 3], { c(a).powi(3).data.data } == { [a[0] * a[0] * a[0], a[1] * a[1] * a[1], a[2] * a[2] * a[2]] });
ob!("C05", "powi_ref", (a: &[f64; 3]) -> [f64; 3], { c(a).powi_ref(2).data.data } == { [a[0] * a[0], a[1] * a[1], a[2] * a[2]] });
ob!("C05", "powf", (a: &[f64; 3], n: f64) -> [f64; 3], { c(a).powf(n).data.data } == { [a[0].powf(n), a[1].powf(n), a[2].powf(n)] });
ob!("C05", "powf_ref", (a: &[f64; 3], n: f64) -> [f64; 3], { c(a).powf_ref(n).data.data } == { [a[0].powf(n), a[1].powf(n), a[2].powf(n)] });
ob!("C05", "index", (a: &[f64; 3], i: usize) -> f64, { c(a)[i] } == { a[i] });
ob!("C05", "index_mut", (a: &[f64; 3], i: usize, v: f64) -> [f64; 3], { let mut x = c(a); x[i] = v; x.data.data } == { let mut x = *a; x[i] = v; x });
ob!("C05", "as_ref", (a: &[f64; 3]) -> [f64; 3], { *c(a).as_ref() } == { *a });
ob!("C05", "as_mut", (a: &[f64; 3], v: f64) -> [f64; 3], { let mut x = c(a); x.as_mut()[1] = v; x.data.data } == { [a[0], v, a[2]] });
ob!("C05", "iter", (a: &[f64; 3]) -> [f64; 3], { let mut o = [0.0; 3]; for (i, x) in c(a).iter().enumerate() { o[i] = *x; } o } == { *a });
ob!("C05", "iter_mut", (a: &[f64; 3], k: f64) -> [f64; 3], { let mut x = c(a); for v in x.iter_mut() { *v *= k; } x.data.data } == { [a[0] * k, a[1] * k, a[2] * k] });
ob!("C05", "into_iter", (a: &[f64; 3]) -> [f64; 3], { let mut o = [0.0; 3]; for (i, x) in c(a).into_iter().enumerate() { o[i] = x; } o } == { *a });
ob!("C05", "into_iter_ref", (a: &[f64; 3]) -> [f64; 3], { let mut o = [0.0; 3]; for (i, x) in (&c(a)).into_iter().enumerate() { o[i] = *x; } o } == { *a });
ob!("C05", "into_iter_mut", (a: &[f64; 3], k: f64) -> [f64; 3], { let mut x = c(a); for v in &mut x { *v += k; } x.data.data } == { [a[0] + k, a[1] + k, a[2] + k] });
ob!("C05", "map", (a: &[f64; 3], k: f64) -> [f64; 3], { c(a).map(|x| x * k).data.data } == { [a[0] * k, a[1] * k, a[2] * k] });
ob!("C05", "zero", () -> [f64; 3], { C::zero().data.data } == { [0.0; 3] });
ob!("C05", "xyz", (a: &[f64; 3]) -> [f64; 3], { let x = c(a); [x.x(), x.y(), x.z()] } == { *a });
// ------------------------------------------------------------------ C05 the frames that carry points keep them
ob!("C05", "body_points", (a: &[f64; 3], b: &[f64; 3]) -> [[f64; 3]; 2], { let f = aether_core::reference_frame::Body::<f64>::new(Cartesian::new(a[0], a[1], a[2]), Cartesian::new(b[0], b[1], b[2])); [f.mass_center.data.data, f.lever_arm.data.data] } == { [*a, *b] });
ob!("C05", "assembly_points", (a: &[f64; 3], b: &[f64; 3]) -> [[f64; 3]; 2], { let f = aether_core::reference_frame::Assembly::<f64>::new(Cartesian::new(a[0], a[1], a[2]), Cartesian::new(b[0], b[1], b[2])); [f.mass_center.data.data, f.lever_arm.data.data] } == { [*a, *b] });
ob!("C05", "frame_defaults", () -> [[f64; 3]; 4], { let (f, g) = (aether_core::reference_frame::Body::<f64>::default(), aether_core::reference_frame::Assembly::<f64>::default()); [f.mass_center.data.data, f.lever_arm.data.data, g.mass_center.data.data, g.lever_arm.data.data] } == { [[0.0; 3]; 4] });
