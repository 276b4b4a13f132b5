#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Assembly, ICRF, Pose, ReferenceFrame};
use aether_fluids::*;
use aether_shapes::{attributes::*, cylinder::*, prism::*, sphere::*};
use aether_units::Quantity;
use aether_units::si::{SiExt, SiPrefixExt, si_base::*, si_composites::*, si_derived::*, si_prefix::*};
use prelude::*;
const PI: f64 = core::f64::consts::PI;

// ------------------------------------------------------------------ C23 mass properties
extern "Rust" { fn uf_vola(r: f64) -> f64; fn uf_volb(r: f64) -> f64; fn uf_ia0(r: f64) -> f64; fn uf_ia1(r: f64) -> f64; fn uf_ia2(r: f64) -> f64; fn uf_ib0(r: f64) -> f64; fn uf_ib1(r: f64) -> f64; fn uf_ib2(r: f64) -> f64; }
pub struct LA;
impl ReferenceFrame for LA {}
pub struct LB;
impl ReferenceFrame for LB {}
/// Two arbitrary solids: their volume and their principal moments are unknown functions.
pub struct SA(f64);
pub struct SB(f64);
impl Solid<f64> for SA { type Local = LA; fn volume(&self) -> f64 { unsafe { uf_vola(self.0) } } fn inertia_principal_cm(&self, m: f64) -> Vector<f64, 3> { unsafe { Vector::new([m * uf_ia0(self.0), m * uf_ia1(self.0), m * uf_ia2(self.0)]) } } }
impl Solid<f64> for SB { type Local = LB; fn volume(&self) -> f64 { unsafe { uf_volb(self.0) } } fn inertia_principal_cm(&self, m: f64) -> Vector<f64, 3> { unsafe { Vector::new([m * uf_ib0(self.0), m * uf_ib1(self.0), m * uf_ib2(self.0)]) } } }
fn pose<F: ReferenceFrame>(r: &[[f64; 3]; 3], p: &[f64; 3]) -> Pose<f64, F> { Pose { R_local_to_assembly: DirectionCosineMatrix::from_matrix(Matrix::new(*r)), r_cm_in_assembly: Cartesian { data: Vector::new(*p), _reference_frame: core::marker::PhantomData } } }
fn va(r: f64) -> f64 { unsafe { uf_vola(r) } }
fn vb(r: f64) -> f64 { unsafe { uf_volb(r) } }
fn ia(r: f64) -> [f64; 3] { unsafe { [uf_ia0(r), uf_ia1(r), uf_ia2(r)] } }
fn ib(r: f64) -> [f64; 3] { unsafe { [uf_ib0(r), uf_ib1(r), uf_ib2(r)] } }
/// element (i, j) of R diag(d) R^T
fn turned(r: &[[f64; 3]; 3], d: [f64; 3], i: usize, j: usize) -> f64 { r[i][0] * d[0] * r[j][0] + r[i][1] * d[1] * r[j][1] + r[i][2] * d[2] * r[j][2] }
/// element (i, j) of |x|^2 1 - x x^T
fn shift(x: [f64; 3], i: usize, j: usize) -> f64 { (if i == j { x[0] * x[0] + x[1] * x[1] + x[2] * x[2] } else { 0.0 }) - x[i] * x[j] }
fn sub3(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
/// Inertia of the union about its centre of mass: both tensors plus the reduced mass times the separation.
fn union_inertia(a: (f64, [f64; 3], &[[f64; 3]; 3], &[f64; 3]), b: (f64, [f64; 3], &[[f64; 3]; 3], &[f64; 3]), i: usize, j: usize) -> f64 {
    a.0 * turned(a.2, a.1, i, j) + b.0 * turned(b.2, b.1, i, j) + a.0 * b.0 / (a.0 + b.0) * shift(sub3(a.3, b.3), i, j)
}
type O = Option<MassProps<f64>>;
fn scal(p: O) -> [f64; 6] { match p { Some(p) => [p.volume, p.density, p.mass, p.com[0], p.com[1], p.com[2]], None => [0.0; 6] } }
fn inert(p: O, i: usize, j: usize) -> f64 { match p { Some(p) => p.inertia_cm.data[i][j], None => 0.0 } }
fn model_a(x: f64, d: f64, r: &[[f64; 3]; 3], p: &[f64; 3]) -> MassModel<f64, SA> { MassModel::new(SA(x), d, pose(r, p)) }
fn model_b(x: f64, d: f64, r: &[[f64; 3]; 3], p: &[f64; 3]) -> MassModel<f64, SB> { MassModel::new(SB(x), d, pose(r, p)) }
fn m3(r: &[[f64; 3]; 3]) -> Matrix<f64, 3, 3> { Matrix::new(*r) }

macro_rules! combine {
    ($t:literal, $op:tt, $m:ident, $sg:expr) => {
        ob!("C23", concat!("mass_com_", $t), (x: f64, y: f64, da: f64, db: f64, ra: &[[f64; 3]; 3], rb: &[[f64; 3]; 3], pa: &[f64; 3], pb: &[f64; 3]) -> [f64; 6], {
            scal(model_a(x, da, ra, pa) $op model_b(y, db, rb, pb))
        } == {
            let (v1, v2) = (va(x), vb(y));
            if v1 <= 0.0 || v2 <= 0.0 { return [0.0; 6]; }
            let (m1, m2) = (da * v1, $sg * db * v2);
            let (m, v) = (m1 + m2, v1 + $sg * v2);
            if m <= 0.0 || v <= 0.0 { return [0.0; 6]; }
            [v, m / v, m, (m1 * pa[0] + m2 * pb[0]) / m, (m1 * pa[1] + m2 * pb[1]) / m, (m1 * pa[2] + m2 * pb[2]) / m]
        });
        ob!("C23", concat!("defined_", $t), (x: f64, y: f64, da: f64, db: f64, ra: &[[f64; 3]; 3], rb: &[[f64; 3]; 3], pa: &[f64; 3], pb: &[f64; 3]) -> bool, {
            (model_a(x, da, ra, pa) $op model_b(y, db, rb, pb)).is_some()
        } == {
            let (v1, v2) = (va(x), vb(y));
            !(v1 <= 0.0 || v2 <= 0.0) && !(da * v1 + $sg * db * v2 <= 0.0 || v1 + $sg * v2 <= 0.0)
        });
        combine!(@el $t, $op, $m, $sg, "00", 0, 0);
        combine!(@el $t, $op, $m, $sg, "01", 0, 1);
        combine!(@el $t, $op, $m, $sg, "02", 0, 2);
        combine!(@el $t, $op, $m, $sg, "10", 1, 0);
        combine!(@el $t, $op, $m, $sg, "11", 1, 1);
        combine!(@el $t, $op, $m, $sg, "12", 1, 2);
        combine!(@el $t, $op, $m, $sg, "20", 2, 0);
        combine!(@el $t, $op, $m, $sg, "21", 2, 1);
        combine!(@el $t, $op, $m, $sg, "22", 2, 2);
        ob!("C23", concat!("matrix_first_mass_", $t), (x: f64, y: f64, da: f64, db: f64, ra: &[[f64; 3]; 3], rb: &[[f64; 3]; 3], pa: &[f64; 3], pb: &[f64; 3]) -> [f64; 6], {
            scal(SA(x).$m(&SB(y), da, db, m3(ra), Vector::new(*pa), m3(rb), Vector::new(*pb)))
        } == { scal(model_a(x, da, ra, pa) $op model_b(y, db, rb, pb)) });
        ob!("C23", concat!("matrix_first_defined_", $t), (x: f64, y: f64, da: f64, db: f64, ra: &[[f64; 3]; 3], rb: &[[f64; 3]; 3], pa: &[f64; 3], pb: &[f64; 3]) -> bool, {
            SA(x).$m(&SB(y), da, db, m3(ra), Vector::new(*pa), m3(rb), Vector::new(*pb)).is_some()
        } == { (model_a(x, da, ra, pa) $op model_b(y, db, rb, pb)).is_some() });
    };
    (@el $t:literal, $op:tt, $m:ident, $sg:expr, $n:literal, $i:literal, $j:literal) => {
        ob!("C23", concat!("inertia_", $t, "_", $n), (x: f64, y: f64, da: f64, db: f64, ra: &[[f64; 3]; 3], rb: &[[f64; 3]; 3], pa: &[f64; 3], pb: &[f64; 3]) -> f64, {
            assume(va(x) > 0.0 && vb(y) > 0.0 && va(x) + $sg * vb(y) > 0.0 && da * va(x) + $sg * db * vb(y) > 0.0);
            inert(model_a(x, da, ra, pa) $op model_b(y, db, rb, pb), $i, $j)
        } == { union_inertia((da * va(x), ia(x), ra, pa), ($sg * db * vb(y), ib(y), rb, pb), $i, $j) });
        ob!("C23", concat!("matrix_first_inertia_", $t, "_", $n), (x: f64, y: f64, da: f64, db: f64, ra: &[[f64; 3]; 3], rb: &[[f64; 3]; 3], pa: &[f64; 3], pb: &[f64; 3]) -> f64, {
            assume(va(x) > 0.0 && vb(y) > 0.0 && va(x) + $sg * vb(y) > 0.0 && da * va(x) + $sg * db * vb(y) > 0.0);
            inert(SA(x).$m(&SB(y), da, db, m3(ra), Vector::new(*pa), m3(rb), Vector::new(*pb)), $i, $j)
        } == { union_inertia((da * va(x), ia(x), ra, pa), ($sg * db * vb(y), ib(y), rb, pb), $i, $j) });
    };
}
combine!("union", +, add_with, 1.0);
combine!("cavity", -, subtract_with, -1.0);
ob!("C23", "sphere", (r: f64, m: f64) -> [f64; 4], { let s = Sphere { r }; let i = s.inertia_principal_cm(m); [s.volume(), i[0], i[1], i[2]] } == { let i = 0.4 * m * r * r; [4.0 * PI * r * r * r / 3.0, i, i, i] });
ob!("C23", "cylinder", (r: f64, h: f64, m: f64) -> [f64; 4], { let s = Cylinder { r, h }; let i = s.inertia_principal_cm(m); [s.volume(), i[0], i[1], i[2]] } == { let i = m * (r * r / 4.0 + h * h / 12.0); [PI * r * r * h, i, i, m * r * r / 2.0] });
ob!("C23", "prism", (a: f64, b: f64, c: f64, m: f64) -> [f64; 4], { let s = RectangularPrism { a, b, c }; let i = s.inertia_principal_cm(m); [s.volume(), i[0], i[1], i[2]] } == { [a * b * c, m * (b * b + c * c) / 12.0, m * (c * c + a * a) / 12.0, m * (a * a + b * b) / 12.0] });
ob!("C23", "sphere_f32", (r: f32, m: f32) -> [f64; 2], { let s = Sphere { r }; [s.volume() as f64 * 3.0, s.inertia_principal_cm(m)[2] as f64 * 5.0] } == { [4.0 * (core::f32::consts::PI as f64) * r as f64 * r as f64 * r as f64, 2.0 * m as f64 * r as f64 * r as f64] });
ob!("C23", "split_prism_is_whole", (a: f64, b: f64, c: f64, d: f64) -> [f64; 5], {
    assume(a > 0.0 && b > 0.0 && c > 0.0 && d > 0.0);
    assume(a * b * c > 0.0 && d * (a * b * c) > 0.0);
    let half = |z: f64| MassModel::new(RectangularPrism { a, b, c }, d, Pose::<f64, PrismLocal> { R_local_to_assembly: DirectionCosineMatrix::from_matrix(Matrix::identity()), r_cm_in_assembly: Cartesian { data: Vector::new([0.0, 0.0, z]), _reference_frame: core::marker::PhantomData } });
    match half(c * 0.5) + half(-c * 0.5) { Some(p) => [p.mass, p.com[2], p.inertia_cm.data[0][0], p.inertia_cm.data[1][1], p.inertia_cm.data[2][2]], None => [0.0; 5] }
} == { let s = RectangularPrism { a, b, c: 2.0 * c }; let m = d * s.volume(); let i = s.inertia_principal_cm(m); [m, 0.0, i[0], i[1], i[2]] });
ob!("C23", "identity_pose", () -> [f64; 12], { let p = Pose::<f64, LA>::identity(); let r = p.R_local_to_assembly.as_matrix().data; let c = p.r_cm_in_assembly.data.data; [r[0][0], r[0][1], r[0][2], r[1][0], r[1][1], r[1][2], r[2][0], r[2][1], r[2][2], c[0], c[1], c[2]] } == { [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0] });

// ------------------------------------------------------------------ C24 propellant tanks
fn pos(x: f64) -> f64 { if x > 0.0 { x } else { 0.0 } }
fn cyl(r: f64, l: f64) -> TankShape { TankShape::Cylinder { radius_m: r, length_m: l } }
fn sph(r: f64) -> TankShape { TankShape::Sphere { radius_m: r } }
fn pick(k: bool, r: f64, l: f64) -> TankShape { if k { cyl(r, l) } else { sph(r) } }
fn vol(k: bool, r: f64, l: f64) -> f64 { if k { PI * r * r * l } else { 4.0 / 3.0 * PI * r * r * r } }
fn moments(k: bool, r: f64, l: f64, m: f64) -> [f64; 3] { if k { let t = m * (3.0 * r * r + l * l) / 12.0; [t, t, m * r * r / 2.0] } else { let t = 2.0 * m * r * r / 5.0; [t, t, t] } }
ob!("C24", "volume", (k: bool, r: f64, l: f64) -> f64, { pick(k, r, l).volume_m3() } == { vol(k, r, l) });
ob!("C24", "inertia", (k: bool, r: f64, l: f64, m: f64) -> [f64; 3], { pick(k, r, l).inertia_principal_cm_kg_m2(m) } == { moments(k, r, l, pos(m)) });
ob!("C24", "limits", (k: bool, r: f64, l: f64, d: f64, f: f64) -> [f64; 3], { assume(f == f); let q = PropellantTankSpec { shape: pick(k, r, l), propellant_density_kg_m3: d, fill_fraction: f }.limits(); [q.geometric_volume_m3, q.usable_volume_m3, q.max_propellant_mass_kg] } == { let v = pos(vol(k, r, l)); let u = v * (if f < 0.0 { 0.0 } else if f > 1.0 { 1.0 } else { f }); [v, u, u * pos(d)] });
only!("C24", "limits_total", "nopanic", (k: bool, r: f64, l: f64, d: f64, f: f64) -> f64, { PropellantTankSpec { shape: pick(k, r, l), propellant_density_kg_m3: d, fill_fraction: f }.limits().max_propellant_mass_kg });
ob!("C24", "aggregate_mass", (k: &[bool; 3], r: &[f64; 3], l: &[f64; 3], m: &[f64; 3]) -> f64, { aggregate_tank_mass_kg(&[TankMassState { shape: pick(k[0], r[0], l[0]), mass_kg: m[0] }, TankMassState { shape: pick(k[1], r[1], l[1]), mass_kg: m[1] }, TankMassState { shape: pick(k[2], r[2], l[2]), mass_kg: m[2] }]) } == { pos(m[0]) + pos(m[1]) + pos(m[2]) });
ob!("C24", "aggregate_inertia", (j: bool, k: bool, r: &[f64; 2], l: &[f64; 2], m: &[f64; 2]) -> [f64; 3], { aggregate_tank_inertia_principal_cm_kg_m2(&[TankMassState { shape: pick(j, r[0], l[0]), mass_kg: m[0] }, TankMassState { shape: pick(k, r[1], l[1]), mass_kg: m[1] }]) } == { let (a, b) = (moments(j, r[0], l[0], pos(m[0])), moments(k, r[1], l[1], pos(m[1]))); [a[0] + b[0], a[1] + b[1], a[2] + b[2]] });
ob!("C24", "aggregate_none", () -> [f64; 4], { let i = aggregate_tank_inertia_principal_cm_kg_m2(&[]); [aggregate_tank_mass_kg(&[]), i[0], i[1], i[2]] } == { [0.0; 4] });

// ------------------------------------------------------------------ C25 units
macro_rules! unit {
    ($t:literal, $ctor:ident, $U:ident, $B:ident, $to_base:ident, $to:ident, $k:expr) => {
        ob!("C25", concat!("unit_", $t), (x: f64, y: f64) -> [f64; 3], {
            let q: Quantity<$U, f64> = x.$ctor();
            let b: Quantity<$B, f64> = q.$to_base();
            let p: Quantity<$U, f64> = Quantity::<$B, f64>::new(y).$to();
            [q.raw(), b.raw(), p.raw()]
        } == { [x, x * $k, y / $k] });
        ob!("C25", concat!("round_trip_f32_", $t), (x: f32) -> f64, { x.$ctor().$to_base().$to().raw() as f64 } == { x as f64 });
    };
}
unit!("yoctometer", yoctometer, Yoctometer, Meter, to_meter, to_yoctometer, 1.0e-24);
unit!("zeptometer", zeptometer, Zeptometer, Meter, to_meter, to_zeptometer, 1.0e-21);
unit!("attometer", attometer, Attometer, Meter, to_meter, to_attometer, 1.0e-18);
unit!("femtometer", femtometer, Femtometer, Meter, to_meter, to_femtometer, 1.0e-15);
unit!("picometer", picometer, Picometer, Meter, to_meter, to_picometer, 1.0e-12);
unit!("nanometer", nanometer, Nanometer, Meter, to_meter, to_nanometer, 1.0e-9);
unit!("micrometer", micrometer, Micrometer, Meter, to_meter, to_micrometer, 1.0e-6);
unit!("millimeter", millimeter, Millimeter, Meter, to_meter, to_millimeter, 1.0e-3);
unit!("centimeter", centimeter, Centimeter, Meter, to_meter, to_centimeter, 1.0e-2);
unit!("decimeter", decimeter, Decimeter, Meter, to_meter, to_decimeter, 1.0e-1);
unit!("decameter", decameter, Decameter, Meter, to_meter, to_decameter, 1.0e1);
unit!("hectometer", hectometer, Hectometer, Meter, to_meter, to_hectometer, 1.0e2);
unit!("kilometer", kilometer, Kilometer, Meter, to_meter, to_kilometer, 1.0e3);
unit!("megameter", megameter, Megameter, Meter, to_meter, to_megameter, 1.0e6);
unit!("gigameter", gigameter, Gigameter, Meter, to_meter, to_gigameter, 1.0e9);
unit!("terameter", terameter, Terameter, Meter, to_meter, to_terameter, 1.0e12);
unit!("petameter", petameter, Petameter, Meter, to_meter, to_petameter, 1.0e15);
unit!("exameter", exameter, Exameter, Meter, to_meter, to_exameter, 1.0e18);
unit!("zettameter", zettameter, Zettameter, Meter, to_meter, to_zettameter, 1.0e21);
unit!("yottameter", yottameter, Yottameter, Meter, to_meter, to_yottameter, 1.0e24);
unit!("yoctosecond", yoctosecond, Yoctosecond, Second, to_second, to_yoctosecond, 1.0e-24);
unit!("zeptosecond", zeptosecond, Zeptosecond, Second, to_second, to_zeptosecond, 1.0e-21);
unit!("attosecond", attosecond, Attosecond, Second, to_second, to_attosecond, 1.0e-18);
unit!("femtosecond", femtosecond, Femtosecond, Second, to_second, to_femtosecond, 1.0e-15);
unit!("picosecond", picosecond, Picosecond, Second, to_second, to_picosecond, 1.0e-12);
unit!("nanosecond", nanosecond, Nanosecond, Second, to_second, to_nanosecond, 1.0e-9);
unit!("microsecond", microsecond, Microsecond, Second, to_second, to_microsecond, 1.0e-6);
unit!("millisecond", millisecond, Millisecond, Second, to_second, to_millisecond, 1.0e-3);
unit!("centisecond", centisecond, Centisecond, Second, to_second, to_centisecond, 1.0e-2);
unit!("decisecond", decisecond, Decisecond, Second, to_second, to_decisecond, 1.0e-1);
unit!("decasecond", decasecond, Decasecond, Second, to_second, to_decasecond, 1.0e1);
unit!("hectosecond", hectosecond, Hectosecond, Second, to_second, to_hectosecond, 1.0e2);
unit!("kilosecond", kilosecond, Kilosecond, Second, to_second, to_kilosecond, 1.0e3);
unit!("megasecond", megasecond, Megasecond, Second, to_second, to_megasecond, 1.0e6);
unit!("gigasecond", gigasecond, Gigasecond, Second, to_second, to_gigasecond, 1.0e9);
unit!("terasecond", terasecond, Terasecond, Second, to_second, to_terasecond, 1.0e12);
unit!("petasecond", petasecond, Petasecond, Second, to_second, to_petasecond, 1.0e15);
unit!("exasecond", exasecond, Exasecond, Second, to_second, to_exasecond, 1.0e18);
unit!("zettasecond", zettasecond, Zettasecond, Second, to_second, to_zettasecond, 1.0e21);
unit!("yottasecond", yottasecond, Yottasecond, Second, to_second, to_yottasecond, 1.0e24);
unit!("yoctogram", yoctogram, Yoctogram, Kilogram, to_kilogram, to_yoctogram, 1.0e-27);
unit!("zeptogram", zeptogram, Zeptogram, Kilogram, to_kilogram, to_zeptogram, 1.0e-24);
unit!("attogram", attogram, Attogram, Kilogram, to_kilogram, to_attogram, 1.0e-21);
unit!("femtogram", femtogram, Femtogram, Kilogram, to_kilogram, to_femtogram, 1.0e-18);
unit!("picogram", picogram, Picogram, Kilogram, to_kilogram, to_picogram, 1.0e-15);
unit!("nanogram", nanogram, Nanogram, Kilogram, to_kilogram, to_nanogram, 1.0e-12);
unit!("microgram", microgram, Microgram, Kilogram, to_kilogram, to_microgram, 1.0e-9);
unit!("milligram", milligram, Milligram, Kilogram, to_kilogram, to_milligram, 1.0e-6);
unit!("centigram", centigram, Centigram, Kilogram, to_kilogram, to_centigram, 1.0e-5);
unit!("decigram", decigram, Decigram, Kilogram, to_kilogram, to_decigram, 1.0e-4);
unit!("decagram", decagram, Decagram, Kilogram, to_kilogram, to_decagram, 1.0e-2);
unit!("hectogram", hectogram, Hectogram, Kilogram, to_kilogram, to_hectogram, 1.0e-1);
unit!("megagram", megagram, Megagram, Kilogram, to_kilogram, to_megagram, 1.0e3);
unit!("gigagram", gigagram, Gigagram, Kilogram, to_kilogram, to_gigagram, 1.0e6);
unit!("teragram", teragram, Teragram, Kilogram, to_kilogram, to_teragram, 1.0e9);
unit!("petagram", petagram, Petagram, Kilogram, to_kilogram, to_petagram, 1.0e12);
unit!("exagram", exagram, Exagram, Kilogram, to_kilogram, to_exagram, 1.0e15);
unit!("zettagram", zettagram, Zettagram, Kilogram, to_kilogram, to_zettagram, 1.0e18);
unit!("yottagram", yottagram, Yottagram, Kilogram, to_kilogram, to_yottagram, 1.0e21);
macro_rules! plain {
    ($($f:ident : $U:ident),* $(,)?) => { $( ob!("C25", concat!("ctor_", stringify!($f)), (x: f64) -> f64, { let q: Quantity<$U, f64> = x.$f(); q.raw() } == { x }); )* };
}
plain!(m: Meter, kg: Kilogram, s: Second, A: Ampere, K: Kelvin, mol: Mole, cd: Candela, Hz: Hertz, N: Newton, Pa: Pascal, J: Joule, W: Watt, rad: Radian, m_per_s: MeterPerSecond, m_per_s2: MeterPerSecondSquared, rad_per_s: RadianPerSecond, rad_per_s2: RadianPerSecondSquared);
ob!("C25", "arithmetic", (x: f64, y: f64) -> [f64; 6], { let (a, b) = (x.m(), y.m()); [(a + b).raw(), (a - b).raw(), (a * y).raw(), (a / y).raw(), (-a).raw(), Quantity::<Meter, f64>::from(x).raw()] } == { [x + y, x - y, x * y, x / y, -x, x] });
ob!("C25", "arithmetic_f32", (x: f32, y: f32) -> [f64; 5], { let (a, b) = (x.s(), y.s()); [(a + b).raw() as f64, (a - b).raw() as f64, (a * y).raw() as f64, (a / y).raw() as f64, (-a).raw() as f64] } == { [(x + y) as f64, (x - y) as f64, (x * y) as f64, (x / y) as f64, -x as f64] });
ob!("C25", "equality", (x: f64, y: f64) -> bool, { x.kg() == y.kg() } == { x == y });
ob!("C25", "mixed_prefixes", (x: f64, y: f64) -> f64, { (x.kilometer().to_meter() + y.millimeter().to_meter()).to_centimeter().raw() } == { 100000.0 * x + 0.1 * y });
// larger sets: around the usual unrolling widths, spheres and cylinders in both orders
fn state(k: usize, r: f64, l: f64, m: f64) -> TankMassState { TankMassState { shape: pick(k % 2 == 0, r, l), mass_kg: m } }
ob!("C24", "aggregate_mass_5", (r: &[f64; 5], l: &[f64; 5], m: &[f64; 5]) -> f64, { let t: [TankMassState; 5] = core::array::from_fn(|k| state(k, r[k], l[k], m[k])); aggregate_tank_mass_kg(&t) } == { let mut s = 0.0; for k in 0..5 { s += pos(m[k]); } s });
ob!("C24", "aggregate_mass_9", (m: &[f64; 9]) -> f64, { let t: [TankMassState; 9] = core::array::from_fn(|k| state(k, 1.0, 2.0, m[k])); aggregate_tank_mass_kg(&t) } == { let mut s = 0.0; for k in 0..9 { s += pos(m[k]); } s });
ob!("C24", "aggregate_inertia_5", (r: &[f64; 5], l: &[f64; 5], m: &[f64; 5]) -> [f64; 3], { let t: [TankMassState; 5] = core::array::from_fn(|k| state(k, r[k], l[k], m[k])); aggregate_tank_inertia_principal_cm_kg_m2(&t) } == { let mut s = [0.0; 3]; for k in 0..5 { let i = moments(k % 2 == 0, r[k], l[k], pos(m[k])); for c in 0..3 { s[c] += i[c]; } } s });
ob!("C24", "aggregate_inertia_9", (r: f64, m: &[f64; 9]) -> [f64; 3], { assume(m[0] > 0.0 && m[1] > 0.0 && m[2] > 0.0 && m[3] > 0.0); let t: [TankMassState; 9] = core::array::from_fn(|k| state(k + 1, r, 2.0, m[k])); aggregate_tank_inertia_principal_cm_kg_m2(&t) } == { let mut s = [0.0; 3]; for k in 0..9 { let i = moments(k % 2 == 1, r, 2.0, pos(m[k])); for c in 0..3 { s[c] += i[c]; } } s });
only!("C24", "aggregate_total", "nopanic", (k: &[bool; 3], r: &[f64; 3], l: &[f64; 3], m: &[f64; 3]) -> f64, { let t: [TankMassState; 3] = core::array::from_fn(|i| TankMassState { shape: pick(k[i], r[i], l[i]), mass_kg: m[i] }); aggregate_tank_inertia_principal_cm_kg_m2(&t)[0] + aggregate_tank_mass_kg(&t) });
// many tanks of known masses: only the count matters
macro_rules! tanks { ($($n:literal $i:literal $N:literal),*) => { $(
ob!("C24", $n, (r: f64, m: f64) -> f64, { assume(m > 0.0); let t: [TankMassState; $N] = core::array::from_fn(|k| state(k, r, 2.0, m * (k as f64 + 1.0))); aggregate_tank_mass_kg(&t) } == { m * ($N * ($N + 1) / 2) as f64 });
ob!("C24", $i, (r: f64, l: f64, m: f64) -> [f64; 3], { assume(m > 0.0); let t: [TankMassState; $N] = core::array::from_fn(|k| state(k, r, l, m * (k as f64 + 1.0))); aggregate_tank_inertia_principal_cm_kg_m2(&t) } == { let mut s = [0.0; 3]; for k in 0..$N { let i = moments(k % 2 == 0, r, l, m * (k as f64 + 1.0)); for c in 0..3 { s[c] += i[c]; } } s });
)* } }
tanks!("aggregate_mass_17" "aggregate_inertia_17" 17, "aggregate_mass_33" "aggregate_inertia_33" 33, "aggregate_mass_70" "aggregate_inertia_70" 70);
