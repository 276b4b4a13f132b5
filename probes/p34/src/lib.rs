#![allow(dead_code, unused, non_snake_case)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_models::celestial::constants::*;
use aether_models::lunar::constants as l;
use aether_models::terrestrial::atmospheres::ussa::USSA;
use aether_models::terrestrial::iers::constants as i;
use aether_models::terrestrial::wgs84::constants as w;
use aether_models::terrestrial::earth::Earth;
use aether_models::lunar::{moon::Moon, orbit::MoonOrbitAroundEarth};
use prelude::*;
const PI: f64 = core::f64::consts::PI;
/// equal up to the rounding of one derived operation
fn same(x: f64, y: f64) -> bool { (x - y).abs() <= 4.5e-16 * y.abs() }
/// equal to the published digits
fn near(x: f64, y: f64, rel: f64) -> bool { (x - y).abs() <= rel * y.abs() }
macro_rules! values { ($name:literal, $n:literal, [$($x:expr => $y:expr),* $(,)?]) => { ob!("C34", $name, (k: u64) -> [bool; $n], { [$(same($x, $y)),*] } == { [true; $n] }); } }

// ------------------------------------------------------------------ angles and days (SOFA)
values!("angle_units", 10, [
    DEGREES_TO_RADIANS => PI / 180.0, RADIANS_TO_DEGREES => 180.0 / PI,
    DEGREES_TO_ARCMINUTES => 60.0, ARCMINUTES_TO_DEGREES => 1.0 / 60.0,
    DEGREES_TO_ARCSECONDS => 3600.0, ARCSECONDS_TO_DEGREES => 1.0 / 3600.0,
    DEGREES_TO_MILLIARCSECONDS => 3.6e6, MILLIARCSECONDS_TO_DEGREES => 1.0 / 3.6e6,
    DEGREES_TO_MICROARCSECONDS => 3.6e9, MICROARCSECONDS_TO_DEGREES => 1.0 / 3.6e9,
]);
values!("iau_angles", 9, [
    IAU_DPI => PI, IAU_D2PI => 2.0 * PI, IAU_DR2D => 180.0 / PI, IAU_DD2R => PI / 180.0,
    IAU_DR2AS => 648000.0 / PI, IAU_DAS2R => PI / 648000.0, IAU_DS2R => PI / 43200.0,
    IAU_TURNAS => 1296000.0, IAU_DMAS2R => PI / 648000.0e3,
]);
values!("iau_time", 11, [
    IAU_DTY => 365.242198781, IAU_DAYSEC => 86400.0, IAU_DJY => 365.25, IAU_DJC => 36525.0, IAU_DJM => 365250.0,
    IAU_DJ00 => 2451545.0, IAU_DJM0 => 2400000.5, IAU_DJM00 => 51544.5, IAU_DJM77 => 43144.0, IAU_TTMTAI => 32.184, IAU_TDB0 => -6.55e-5,
]);
values!("iau_physics", 7, [
    IAU_DAU => 149597870700.0, IAU_CMPS => 299792458.0, IAU_AULT => 149597870700.0 / 299792458.0,
    IAU_DC => 86400.0 * 299792458.0 / 149597870700.0, IAU_ELG => 6.969290134e-10, IAU_ELB => 1.550519768e-8, IAU_SRS => 1.97412574336e-8,
]);
// ------------------------------------------------------------------ IERS Conventions 2010, table 1.1
values!("iers_defining", 7, [
    i::speed_of_light => 299792458.0, i::gaussian_gravitational_constant => 1.720209895e-2, i::l_g => 6.969290134e-10, i::l_b => 1.550519768e-8,
    i::tdb_0 => -6.55e-5, i::earth_angular_position_initial => 0.7790572732640, i::earth_angular_rate => 1.00273781191135448,
]);
values!("iers_bodies", 4, [
    i::gravitational_constant => 6.67428e-11, i::heliocentric_gravitational_constant => 1.32712442099e20,
    i::sun_dynamical_form_factor => 2.0e-7, i::moon_earth_mass_ratio => 0.0123000371,
]);
values!("iers_earth", 8, [
    i::geocentric_gravitational_constant => 3.986004418e14, i::earth_equatorial_radius => 6378136.6, i::earth_dynamical_form_factor => 1.0826359e-3,
    i::earth_flattening_factor => 298.25642, i::earth_mean_equatorial_gravity => 9.7803278, i::earth_geoid_potential => 62636856.0,
    i::earth_geoid_potential_scale_factor => 6363672.6, i::earth_dynamical_flattening => 3.273795e-3,
]);
values!("iers_other", 3, [i::ecliptic_obliquity => 84381.406, i::astronomical_unit => 1.49597870700e11, i::l_c => 1.48082686741e-8]);
// ------------------------------------------------------------------ WGS 84 (NGA.STND.0036)
values!("wgs84_defining", 10, [
    w::a => 6378137.0, w::GM => 3.986004418e14, w::w => 7.292115e-5, w::c20dyn => -4.84165143790815e-4, w::c22dyn => 2.43938357327313e-6,
    w::c => 299792458.0, w::G => 6.67428e-11, w::M_A => 5.1480e18, w::H => 3.273795e-3, w::GM_GPSNAV => 3.9860050e14,
]);
values!("wgs84_geometry", 14, [
    w::b => 6356752.3142, w::f => 3.3528106647475e-3, w::e => 8.1819190842622e-2, w::e2 => 6.694379990141e-3, w::e_prime => 8.2094437949696e-2,
    w::e_prime_squared => 6.739496742276e-3, w::E => 5.2185400842339e5, w::R_p => 6399593.6258, w::AR => 9.96647189335e-1,
    w::R_1 => 6371008.7714, w::R_2 => 6371007.1810, w::R_3 => 6371000.7900, w::c20geo => -4.84166774985e-4, w::J2geo => 1.082629821313e-3,
]);
values!("wgs84_physics", 13, [
    w::U_0 => 6.26368517146e7, w::g_e => 9.7803253359, w::g_p => 9.8321849379, w::g_mean => 9.7976432223, w::k => 1.931852652458e-3,
    w::m => 3.449786506841e-3, w::M => 5.9721864e24, w::GM_prime => 3.986000982e14, w::GM_A => 3.4359e8,
    w::A_dyn => 8.0079215e37, w::B_dyn => 8.0080746e37, w::C_dyn => 8.0343007e37, w::C_geo => 8.0730294e37,
]);
/// the derived constants follow from the defining ones, to their published digits
ob!("C34", "wgs84_ellipsoid_relations", (k: u64) -> [bool; 11], { [
    near(w::f, 1.0 / 298.257223563, 1e-13), near(w::b, w::a * (1.0 - w::f), 1e-10), near(w::e2, w::f * (2.0 - w::f), 1e-11), near(w::e * w::e, w::e2, 1e-11),
    near(w::e_prime_squared, w::e2 / (1.0 - w::e2), 1e-11), near(w::e_prime * w::e_prime, w::e_prime_squared, 1e-11),
    near(w::E, w::a * w::e, 1e-10), near(w::R_p, w::a * w::a / w::b, 1e-10), near(w::AR, 1.0 - w::f, 1e-11), near(w::R_1, (2.0 * w::a + w::b) / 3.0, 1e-10),
    near(w::R_3 * w::R_3 * w::R_3, w::a * w::a * w::b, 1e-10),
] } == { [true; 11] });
ob!("C34", "wgs84_gravity_relations", (k: u64) -> [bool; 6], { [
    near(w::m, w::w * w::w * w::a * w::a * w::b / w::GM, 1e-11), near(w::k, w::b * w::g_p / (w::a * w::g_e) - 1.0, 1e-8),
    near(w::GM_prime + w::GM_A, w::GM, 1e-9), near(w::M, w::GM / w::G, 1e-7),
    near(w::J2geo * w::J2geo, 5.0 * w::c20geo * w::c20geo, 1e-9), near(w::M_A * w::G, w::GM_A, 1e-4),
] } == { [true; 6] });
ob!("C34", "sources_agree", (k: u64) -> [bool; 12], { [
    same(w::c, i::speed_of_light), same(IAU_CMPS, i::speed_of_light), same(w::G, i::gravitational_constant), same(w::GM, i::geocentric_gravitational_constant), same(w::H, i::earth_dynamical_flattening),
    same(IAU_DAU, i::astronomical_unit), same(IAU_ELG, i::l_g), same(IAU_ELB, i::l_b), same(IAU_TDB0, i::tdb_0),
    near(i::earth_geoid_potential_scale_factor, i::geocentric_gravitational_constant / i::earth_geoid_potential, 1e-8),
    near(i::moon_earth_mass_ratio, l::SELENOCENTRIC_GRAVITATIONAL_CONSTANT / i::geocentric_gravitational_constant, 1e-6),
    near(1.0 - i::l_b, (1.0 - i::l_c) * (1.0 - i::l_g), 1e-15),
] } == { [true; 12] });
// ------------------------------------------------------------------ Moon
values!("moon", 11, [
    l::SELENOCENTRIC_GRAVITATIONAL_CONSTANT => 4.902800118e12, l::MOON_MEAN_RADIUS => 1737400.0, l::MOON_SIDEREAL_ROTATION_PERIOD_DAYS => 27.321661,
    l::MOON_SIDEREAL_ROTATION_RATE_RAD_S => 2.0 * PI / (27.321661 * 86400.0), l::MOON_MASS => 4.902800118e12 / 6.67428e-11,
    l::MOON_SEMIMAJOR_AXIS_M => 3.844e8, l::MOON_ORBIT_ECCENTRICITY => 0.0549, l::MOON_ORBIT_INCLINATION_DEG => 5.145, l::MOON_ORBIT_INCLINATION_RAD => 5.145 * PI / 180.0,
    l::MOON_SIDEREAL_ORBIT_PERIOD_DAYS => 27.321661, l::MOON_SIDEREAL_ORBIT_PERIOD_S => 27.321661 * 86400.0,
]);
// ------------------------------------------------------------------ the bodies built from them
ob!("C34", "earth_new", (k: u64) -> [bool; 6], { let e = Earth::new(); let w = e.rotational_velocity;
    [same(e.mass, 3.986004418e14 / 6.67428e-11), same(e.radius, 6378136.6), same(e.gravitational_constant, 3.986004418e14), w.x() == 0.0, w.y() == 0.0, near(w.z(), 2.0 * PI * 1.00273781191135448 / 86400.0, 1e-9)] } == { [true; 6] });
ob!("C34", "earth_default", (k: u64) -> [bool; 4], { let e = Earth::default(); let w = e.rotational_velocity;
    [same(e.gravitational_constant, 3.986004418e14), w.x() == 0.0, w.y() == 0.0, near(w.z(), 2.0 * PI * 1.00273781191135448 / 86400.0, 1e-9)] } == { [true; 4] });
values!("ussa", 6, [
    USSA::r_0 => 6356766.0, USSA::R_Star => 8314.32, USSA::air_molar_mass => 28.9644, USSA::R_Air => 8314.32 / 28.9644, USSA::g_0 => 9.80665, USSA::gamma => 1.4,
]);
values!("wmm_reference", 2, [aether_catalogs::wmm::WMM_REFERENCE_RADIUS_KM => 6371.2, aether_catalogs::wmm::wmm_reference_radius_m() => 6371200.0]);
